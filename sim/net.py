"""Simulated network: TCP-like byte pipes and message pipes, with seeded segmentation,
latency, stalls, cuts, resets, corruption, and a frame-level active attacker.

The only clock is `sched.now()`; the only randomness is the Stream handed in.
"""
import struct
from collections import deque

SEG_MODES = ("whole", "chunks", "byte", "edge", "mss")
LAT_MODES = ("none", "const", "jitter", "slow")


def draw_net(st, seg=SEG_MODES, lat=LAT_MODES):
    return {"seg": st.pick(seg), "lat": st.pick(lat), "short_recv": st.chance(0.3)}


def frame(b):
    return struct.pack("<i", len(b)) + bytes(b)


class FrameParser:
    """Splits a byte stream into length-prefixed frames (independent of the code under test)."""

    def __init__(self):
        self.buf = bytearray()
        self.bad = False

    def feed(self, data):
        out = []
        if self.bad:
            return out
        self.buf += data
        while len(self.buf) >= 4:
            n = struct.unpack_from("<i", self.buf)[0]
            if n < 0:
                self.bad = True
                break
            if len(self.buf) < 4 + n:
                break
            out.append(bytes(self.buf[4:4 + n]))
            del self.buf[:4 + n]
        return out


class BasePipe:
    def __init__(self, sched, st, cfg, trace, name):
        self.sched = sched
        self.st = st
        self.cfg = cfg
        self.trace = trace
        self.name = name
        self.sink = None
        self.dead = False        # nothing is delivered any more
        self.fin = False         # sender closed
        self.fin_delivered = False
        self.paused = False
        self.scheduled = False
        self.sent_frames = []    # (time, bytes) as handed over by the sending endpoint
        self.rcvd_frames = []    # bytes put on the receiving side (after the attacker)
        self.adversary = None    # callable(pipe, idx, frame) -> list of frames
        self.on_sent = None      # callable(pipe, idx, frame): observer
        self.stalls = {}         # pump number -> extra seconds
        self.pumps = 0

    def latency(self):
        m = self.cfg["lat"]
        if m == "none":
            d = 0.0
        elif m == "const":
            d = 0.001
        elif m == "jitter":
            d = 0.0001 * self.st.below(50)
        else:
            d = 0.01 * self.st.below(200)
        extra = self.stalls.pop(self.pumps, 0)
        if extra:
            self.trace.fault("stall")
            self.trace.log("net.stall", self.name, extra)
        return d + extra

    def kick(self):
        if self.scheduled or self.dead or self.paused or not self.pending():
            return
        self.scheduled = True
        self.sched.call_later(self.latency(), self._pump)

    def _pump(self):
        self.scheduled = False
        if self.dead or self.paused:
            return
        self.pumps += 1
        self.deliver_one()
        self.kick()

    def pause(self):
        self.paused = True

    def resume(self):
        self.paused = False
        self.kick()

    def close(self):
        if not self.fin:
            self.fin = True
            self.trace.log("net.fin", self.name)
            self.kick()

    def note_sent(self, f):
        self.sent_frames.append((self.sched.now(), f))
        if self.on_sent:
            self.on_sent(self, len(self.sent_frames) - 1, f)


class StreamPipe(BasePipe):
    """One direction of a TCP connection."""

    def __init__(self, sched, st, cfg, trace, name):
        super().__init__(sched, st, cfg, trace, name)
        self.buf = bytearray()
        self.total_in = 0
        self.total_out = 0
        self.cut = None          # (offset, 'eof'|'reset')
        self.flips = {}          # offset -> xor mask
        self.parser = FrameParser()
        self.on_space = None

    def pending(self):
        return bool(self.buf) or (self.fin and not self.fin_delivered)

    def push(self, data):
        if self.fin or self.dead:
            return
        frames = self.parser.feed(data)
        if self.adversary is None:
            for f in frames:
                self.note_sent(f)
                self.rcvd_frames.append(f)
            self.enqueue(data)
        else:
            for f in frames:
                self.note_sent(f)
                for g in self.adversary(self, len(self.sent_frames) - 1, f):
                    self.inject_frame(g)

    def inject_frame(self, g):
        self.rcvd_frames.append(g)
        self.enqueue(frame(g))

    def enqueue(self, data):
        if self.flips:
            data = bytearray(data)
            for off in list(self.flips):
                k = off - self.total_in
                if 0 <= k < len(data):
                    data[k] ^= self.flips.pop(off)
                    self.trace.fault("byte_corruption")
                    self.trace.log("net.flip", self.name, off)
        self.total_in += len(data)
        self.buf += data
        self.kick()

    def seglen(self):
        n = len(self.buf)
        m = self.cfg["seg"]
        if m == "whole" or self.pumps > 400:
            return n
        if m == "mss":
            return min(n, 1460)
        if m == "byte":
            return 1 if self.total_out < 700 else max(1, n // 2)
        if m == "edge":
            return min(n, self.st.pick((4, 3, 1, 2, 5, 6)) if self.total_out < 2000 else max(1, n - 3))
        k = self.st.below(12)
        if k >= 8:
            return n
        return min(n, (1, 2, 3, 4, 5, 17, 300, max(1, n // 2))[k])

    def deliver_one(self):
        if not self.buf:
            if self.fin and not self.fin_delivered:
                self.fin_delivered = True
                self.trace.log("net.eof", self.name, self.total_out)
                self.sink.on_eof()
            return
        n = self.seglen()
        cut = None
        if self.cut is not None and self.total_out + n >= self.cut[0]:
            n = self.cut[0] - self.total_out
            cut = self.cut[1]
        seg = bytes(self.buf[:n])
        del self.buf[:n]
        self.total_out += n
        if seg:
            self.trace.log("net.seg", self.name, n)
            self.sink.on_data(seg)
        if cut:
            self.dead = True
            self.trace.fault("cut_" + cut)
            self.trace.log("net.cut", self.name, cut, self.total_out)
            if cut == "eof":
                self.fin_delivered = True
                self.sink.on_eof()
            else:
                self.conn.reset(by=self)
        if self.on_space:
            self.on_space()


class MsgPipe(BasePipe):
    """One direction of a message transport (any user-written ByteChannel)."""

    def __init__(self, sched, st, cfg, trace, name):
        super().__init__(sched, st, cfg, trace, name)
        self.q = deque()
        self.cut_after = None    # number of frames delivered before EOF
        self.delivered = 0

    def pending(self):
        return bool(self.q) or (self.fin and not self.fin_delivered)

    def push_msg(self, f):
        if self.fin or self.dead:
            return
        f = bytes(f)
        self.note_sent(f)
        if self.adversary is None:
            self.inject_frame(f)
        else:
            for g in self.adversary(self, len(self.sent_frames) - 1, f):
                self.inject_frame(g)

    def inject_frame(self, g):
        self.rcvd_frames.append(g)
        self.q.append(g)
        self.kick()

    def deliver_one(self):
        if not self.q:
            if self.fin and not self.fin_delivered:
                self.fin_delivered = True
                self.trace.log("net.eof", self.name, self.delivered)
                self.sink.on_eof()
            return
        n = len(self.q) if self.cfg["seg"] == "whole" else 1
        for _ in range(n):
            if self.cut_after is not None and self.delivered >= self.cut_after:
                self.dead = True
                self.trace.fault("cut_eof")
                self.trace.log("net.cut", self.name, self.delivered)
                self.sink.on_eof()
                return
            g = self.q.popleft()
            self.delivered += 1
            self.trace.log("net.msg", self.name, len(g))
            self.sink.on_msg(g)


class Conn:
    """Two pipes; 'a' is the connecting side (client), 'b' the accepting side (server)."""

    def __init__(self, sched, choices, cfg, trace, cid=0, kind=StreamPipe):
        self.cid = cid
        self.trace = trace
        self.sched = sched
        self.a2b = kind(sched, choices.s("net%d.c2s" % cid), cfg, trace, "c2s#%d" % cid)
        self.b2a = kind(sched, choices.s("net%d.s2c" % cid), cfg, trace, "s2c#%d" % cid)
        self.a2b.conn = self.b2a.conn = self

    def pipes(self, side):
        """(outgoing, incoming) for side 'a' or 'b'."""
        return (self.a2b, self.b2a) if side == "a" else (self.b2a, self.a2b)

    def reset(self, by=None):
        for p in (self.a2b, self.b2a):
            p.dead = True
        for p in (self.a2b, self.b2a):
            if p.sink is not None:
                p.sink.on_reset()


# --------------------------------------------------------------------------- attacker

ATTACKS = ("flip", "drop", "dup", "swap", "replay", "reflect", "inject", "truncate",
           "extend", "hdr", "cross", "empty")


class Attacker:
    """Active network attacker without keys, working on whole frames of one or more connections."""

    def __init__(self, st, trace, rate=0.25, budget=3, attacks=ATTACKS, only=None, eligible=None):
        self.st = st
        self.trace = trace
        self.rate = rate
        self.budget = budget
        self.attacks = attacks
        self.only = only          # restrict to pipe names
        self.eligible = eligible  # callable(pipe, idx, frame) -> bool
        self.seen = []            # every frame ever observed: (pipe name, frame)
        self.held = {}
        self.done = []

    def attach(self, conn):
        conn.a2b.adversary = self
        conn.b2a.adversary = self

    def mutate_at(self, f):
        """A byte position, biased to the structured front and the tail of the frame."""
        n = len(f)
        k = self.st.below(4)
        if k == 0:
            return self.st.below(min(n, 12))
        if k == 1:
            return n - 1 - self.st.below(min(n, 17))
        if k == 2:
            return self.st.below(min(n, 48))
        return self.st.below(n)

    def __call__(self, pipe, idx, f):
        out = self.act(pipe, idx, f)
        held = self.held.pop(pipe.name, None)
        if held is not None and held[0] < idx:
            out = out + [held[1]]
        elif held is not None:
            self.held[pipe.name] = held
        self.seen.append((pipe.name, f))
        return out

    def act(self, pipe, idx, f):
        st = self.st
        if self.budget <= 0 or (self.only and pipe.name not in self.only):
            return [f]
        if self.eligible and not self.eligible(pipe, idx, f):
            return [f]
        if not st.chance(self.rate):
            return [f]
        self.budget -= 1
        kind = st.pick(self.attacks)
        out = None
        if kind == "flip" and f:
            pos = self.mutate_at(f)
            g = bytearray(f)
            g[pos] ^= 1 << st.below(8)
            out = [bytes(g)]
        elif kind == "hdr" and len(f) >= 2:
            g = bytearray(f)
            g[st.below(min(len(f), 10))] = st.below(256)
            out = [bytes(g)]
        elif kind == "drop":
            out = []
        elif kind == "dup":
            out = [f, f]
        elif kind == "swap":
            self.held[pipe.name] = (idx, f)
            out = []
        elif kind == "replay":
            old = [g for (n, g) in self.seen if n == pipe.name]
            if old:
                g = old[st.below(len(old))]
                out = [g, f] if st.chance(0.5) else [g]
        elif kind == "reflect":
            old = [g for (n, g) in self.seen if n.split("#")[1] == pipe.name.split("#")[1] and n != pipe.name]
            if old:
                g = old[len(old) - 1 - st.below(len(old))]
                out = [g, f] if st.chance(0.5) else [g]
        elif kind == "cross":
            old = [g for (n, g) in self.seen if n.split("#")[1] != pipe.name.split("#")[1]]
            if old:
                g = old[st.below(len(old))]
                out = [g, f] if st.chance(0.5) else [g]
        elif kind == "inject":
            size = st.pick((1, 0, 2, 3, 5, 8, 17, 18, 34, 38, 42, 120, 300))
            first = st.pick((6, 2, 1, 5, 11, 8, 9, 3, 4, 0x53))
            g = bytes([first]) + bytes(st.below(256) for _ in range(min(size, 4)))
            g = (g + bytes(size))[:size]
            out = [g, f] if st.chance(0.5) else [g]
        elif kind == "truncate" and f:
            k = 1 + (st.below(len(f)) if st.chance(0.5) else st.below(min(len(f), 4)))
            out = [f[:len(f) - k]]
        elif kind == "extend":
            out = [f + bytes(st.below(256) for _ in range(1 + st.below(4)))]
        elif kind == "empty":
            out = [b""] if st.chance(0.5) else [b"", f]
        if out is None:
            self.budget += 1
            return [f]
        self.done.append((kind, pipe.name, idx))
        self.trace.fault("attack_" + kind)
        self.trace.log("attack", kind, pipe.name, idx, [len(x) for x in out])
        return out
