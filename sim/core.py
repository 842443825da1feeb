"""Decision source, violations and small helpers shared by the whole simulator.

Every decision of a run (generated workload, configuration, scheduling, network
segmentation, delays, faults) is an integer drawn from a named Stream.  In search mode
the integers come from a PRNG seeded by the run's seed; they are recorded as they are
drawn.  In replay mode they are read back from a file; a stream that is exhausted yields
0, which by convention is the simplest alternative (no fault, first choice, no delay).
A run is a pure function of these integers and of the code under test.
"""
import hashlib
import random


class Violation(Exception):
    """The property under test does not hold on this run."""

    def __init__(self, kind, detail):
        super().__init__(kind, detail)
        self.kind = kind
        self.detail = detail


class HarnessError(Exception):
    """The simulator itself is wrong; never reported as a violation."""


class SimKill(BaseException):
    """Unwinds code under test that is abandoned at the end of a run."""


class SimDeadlock(BaseException):
    """Nothing can run and nothing is scheduled."""


class SimStuck(BaseException):
    """The step budget of the run is exhausted."""


class Stream:
    __slots__ = ("name", "rng", "replay", "pos", "log", "prefix")

    def __init__(self, name, seed, replay=None, prefix=()):
        self.prefix = list(prefix)
        self.name = name
        self.replay = replay
        self.rng = random.Random("%s/%s" % (seed, name)) if replay is None else None
        self.pos = 0
        self.log = []

    def _next(self, gen, n):
        if self.replay is None:
            v = gen()
            if self.prefix:          # directed start of a searched run
                v = min(self.prefix.pop(0), n - 1)
        else:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            self.pos += 1
            if v < 0 or v >= n:
                v = n - 1
        self.log.append(v)
        return v

    def below(self, n):
        """Integer in [0, n); 0 is the simplest."""
        if n <= 1:
            return 0
        return self._next(lambda: int(self.rng.random() * n), n)

    def between(self, a, b):
        return a + self.below(b - a + 1)

    def chance(self, p):
        """True with probability p; False is the simplest."""
        if p <= 0:
            return False
        return bool(self._next(lambda: 1 if self.rng.random() < p else 0, 2))

    def pick(self, seq):
        return seq[self.below(len(seq))]

    def wpick(self, items):
        """items: [(weight, value)]; the first is the simplest."""
        total = 0
        for w, _ in items:
            total += w

        def gen():
            r = self.rng.random() * total
            for i, (w, _) in enumerate(items):
                r -= w
                if r < 0:
                    return i
            return len(items) - 1
        return items[self._next(gen, len(items))][1]

    def geometric(self, p_more, maximum):
        """How many elements a generated list has, drawn as a chain of booleans."""
        n = 0
        while n < maximum and self.chance(p_more):
            n += 1
        return n


class Choices:
    def __init__(self, seed, replay=None, prefix=None):
        self.seed = seed
        self.replay = replay
        self.prefix = prefix or {}
        self.streams = {}

    def s(self, name):
        st = self.streams.get(name)
        if st is None:
            rep = None
            if self.replay is not None:
                rep = self.replay.get(name, [])
            st = self.streams[name] = Stream(name, self.seed, rep, self.prefix.get(name, ()))
        return st

    def dump(self):
        return {k: list(v.log) for k, v in self.streams.items()}


def payload(tag, size):
    """Deterministic bytes, unique per tag for any size that can be unique."""
    if size == 0:
        return b""
    return hashlib.shake_128(("payload:%s" % (tag,)).encode()).digest(size)


def key_bytes(tag, size=32):
    return hashlib.shake_256(("key:%s" % (tag,)).encode()).digest(size)


class Trace:
    """Event log of one run. Never draws from a Stream and never reads a real clock."""

    def __init__(self, limit=20000):
        self.ev = []
        self.limit = limit
        self.h = hashlib.blake2b(digest_size=12)
        self.shape = hashlib.blake2b(digest_size=12)
        self.count = 0
        self.faults = {}
        self.probes = {}
        self.sim_time = 0.0

    def log(self, kind, *args):
        self.count += 1
        line = "%s %s" % (kind, " ".join(map(str, args)))
        self.h.update(line.encode("utf-8", "replace") + b"\n")
        self.shape.update(kind.encode() + (str(args[0]).encode("utf-8", "replace") if args else b"") + b"\n")
        if len(self.ev) < self.limit:
            self.ev.append(line)

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def digest(self):
        return self.h.hexdigest()


def short(b, n=12):
    if b is None:
        return "None"
    h = bytes(b[:n]).hex()
    return "%d:%s%s" % (len(b), h, ".." if len(b) > n else "")
