"""Search, minimise, replay, report.

    check.py run <ID>       seeded search for the property (tier from VERIF_TIER)
    check.py replay <file>  re-execute one recorded run
    check.py one <ID> <i>   run a single index and print its trace
"""
import gc
import json
import mmap
import os
import pickle
import random
import resource
import select
import signal
import struct
import sys
import time
import traceback

from .core import Choices, HarnessError, SimDeadlock, SimKill, SimStuck, Trace, Violation
from . import env

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")
NOISY = ("sched", "preempt")


def repo_frames(tb):
    root = os.path.realpath(env.REPO) + os.sep
    out = []
    for f in traceback.extract_tb(tb):
        if os.path.realpath(f.filename).startswith(root):
            out.append("%s:%d %s" % (os.path.relpath(os.path.realpath(f.filename), root), f.lineno, f.name))
    return out


def execute(prop, seed, replay=None, on_hang=None, cpu_limit=None):
    """One simulated run -> (status, info). status: ok | violation | harness."""
    prefix = None
    if replay is None and seed.rsplit(":", 1)[-1].isdigit():
        prefix = prop.directed(int(seed.rsplit(":", 1)[-1]))
    ch = Choices(seed, replay, prefix)
    tr = Trace()

    def alarm(sig, frame):
        signal.setitimer(signal.ITIMER_PROF, 0)
        if on_hang:
            on_hang(ch, tr)
        raise SimStuck("cpu budget of one run exhausted")
    old = signal.signal(signal.SIGPROF, alarm)
    signal.setitimer(signal.ITIMER_PROF, cpu_limit or prop.cpu_limit)
    status, info = "ok", {}
    try:
        prop.run(ch, tr)
    except Violation as v:
        status, info = "violation", {"kind": v.kind, "detail": str(v.detail)}
    except HarnessError:
        status, info = "harness", {"trace": traceback.format_exc()}
    except (SimStuck, SimDeadlock) as e:
        status, info = "violation", {"kind": "hang", "detail": "code under test never returns: %s" % (e,)}
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        fr = repo_frames(e.__traceback__)
        if fr:
            status, info = "violation", {
                "kind": "crash", "detail": "unexpected %s: %s at %s" % (type(e).__name__, e, "; ".join(fr[-3:]))}
        else:
            status, info = "harness", {"trace": traceback.format_exc()}
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
        env.RAND.stop()
    return status, info, ch, tr


def _limits():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except Exception:
        pass


class Watch:
    """Says when a process has blocked for good: nothing in a simulated run waits for anything real, so a process all of
    whose threads sleep, and that has used no CPU for many seconds, will never go on. A starved process is not asleep."""
    PATIENCE = 25.0

    def __init__(self, pid):
        self.pid = pid
        self.last = None
        self.since = time.monotonic()

    def blocked(self):
        ticks, asleep = 0, True
        try:
            for t in os.listdir("/proc/%d/task" % self.pid):
                with open("/proc/%d/task/%s/stat" % (self.pid, t)) as f:
                    v = f.read().rsplit(")", 1)[1].split()
                asleep = asleep and v[0] == "S"
                ticks += int(v[11]) + int(v[12])
        except (OSError, IndexError, ValueError):
            asleep = False
        now = time.monotonic()
        if not asleep or ticks != self.last:
            self.last, self.since = ticks, now
        return now - self.since > self.PATIENCE


BLOCKED = {"kind": "hang", "detail": "the run blocks the process for good: every thread sleeps"}


def send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<I", len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


class Stats:
    def __init__(self):
        self.runs = 0
        self.nontrivial = set()
        self.digests = set()
        self.shapes = set()
        self.events = 0
        self.sim_time = 0.0
        self.faults = {}
        self.probes = {}
        self.samples = []
        self.maxcpu = 0.0
        self.maxcpu_i = None

    def add(self, i, tr, cpu):
        self.runs += 1
        d = tr.h.digest()
        self.digests.add(d)
        self.shapes.add(tr.shape.digest())
        if tr.probes.get("nontrivial"):
            self.nontrivial.add(d)
        self.events += tr.count
        self.sim_time += tr.sim_time
        for k, v in tr.faults.items():
            self.faults[k] = self.faults.get(k, 0) + v
        for k, v in tr.probes.items():
            self.probes[k] = self.probes.get(k, 0) + v
        if cpu > self.maxcpu:
            self.maxcpu, self.maxcpu_i = cpu, i
        if len(self.samples) < 2 and tr.probes.get("nontrivial") and 10 < tr.count < 300:
            self.samples.append({"index": i, "faults": dict(tr.faults), "events": tr.ev[:40]})

    def merge(self, o):
        self.runs += o.runs
        self.nontrivial |= o.nontrivial
        self.digests |= o.digests
        self.shapes |= o.shapes
        self.events += o.events
        self.sim_time += o.sim_time
        for a, b in ((self.faults, o.faults), (self.probes, o.probes)):
            for k, v in b.items():
                a[k] = a.get(k, 0) + v
        self.samples = (self.samples + o.samples)[:3]
        if o.maxcpu > self.maxcpu:
            self.maxcpu, self.maxcpu_i = o.maxcpu, o.maxcpu_i


def run_seed(seed, pid, i):
    return "%s:%s:%d" % (seed, pid, i)


def worker(w, W, prop, seed, n, deadline, fd, shm, stop):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    _limits()
    st = Stats()
    gc.collect()
    gc.freeze()
    gc.disable()
    for i in range(w, n, W):
        if time.monotonic() > deadline:
            break
        if stop[0]:
            best = struct.unpack_from("<q", stop, 8)[0]
            if i > best:
                break
        struct.pack_into("<q", shm, 8 * w, i)

        def on_hang(ch, tr, i=i):
            send(fd, ("violation", i, {"kind": "hang", "detail": "one run used more than %g s of CPU" % prop.cpu_limit},
                      ch.dump(), tr.digest()))
            os._exit(3)
        c0 = time.process_time()
        status, info, ch, tr = execute(prop, run_seed(seed, prop.id, i), on_hang=on_hang)
        st.add(i, tr, time.process_time() - c0)
        if status == "harness":
            send(fd, ("harness", i, info))
            os._exit(2)
        if status == "violation":
            known = prop.known(info)
            if known is None:
                # stop[0]=1, and the lowest failing index so far
                cur = struct.unpack_from("<q", stop, 8)[0] if stop[0] else 1 << 60
                if i < cur:
                    struct.pack_into("<q", stop, 8, i)
                stop[0] = 1
                send(fd, ("violation", i, info, ch.dump(), tr.digest()))
                break
            tr.probe("known:" + known)
            st.probes["known:" + known] = st.probes.get("known:" + known, 0) + 1
        if (st.runs & 63) == 0:
            gc.collect()
    struct.pack_into("<q", shm, 8 * w, -2)
    send(fd, ("stats", st))
    os._exit(0)


def in_child(fn, timeout):
    """Run fn() in a forked child -> its picklable result, or ('died', status) / ('timeout',) / ('blocked',)."""
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            _limits()
            gc.disable()
            send(wfd, fn(wfd))
        except BaseException:
            try:
                send(wfd, ("harness", {"trace": traceback.format_exc()}))
            except BaseException:
                pass
        os._exit(0)
    os.close(wfd)
    buf = bytearray()
    end = time.monotonic() + timeout
    watch = Watch(pid)
    res = None
    while True:
        left = end - time.monotonic()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            res = ("timeout",)
            break
        rl, _, _ = select.select([r], [], [], min(left, 1.0))
        if not rl:
            if watch.blocked():
                os.kill(pid, signal.SIGKILL)
                res = ("blocked",)
                break
            continue
        d = os.read(r, 1 << 16)
        if not d:
            break
        buf += d
        if len(buf) >= 4 and len(buf) >= 4 + struct.unpack_from("<I", buf)[0]:
            break
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if res is not None:
        return res
    if len(buf) < 4:
        return ("died", status)
    return pickle.loads(bytes(buf[4:]))


def run_candidate(prop, seed, dump, limit, history=()):
    """Re-execute a recorded run in a fresh process, after the recorded earlier runs of that process (if any)."""
    def body(wfd):
        for h in history:
            execute(prop, "%s:%d" % (seed.rsplit(":", 1)[0], h))
        def on_hang(ch, tr):
            send(wfd, ("violation", {"kind": "hang", "detail": "one run used more than its CPU budget"},
                       ch.dump(), tr.digest(), tr.ev[-400:], tr.faults))
            os._exit(0)
        status, info, ch, tr = execute(prop, seed, dump, on_hang=on_hang, cpu_limit=limit)
        return (status, info, ch.dump(), tr.digest(), tr.ev[-400:], tr.faults)
    r = in_child(body, limit * 10 + 60 + 0.05 * len(history))
    if r[0] == "blocked":
        return ("violation", BLOCKED, dump or {}, "", [], {})
    return r


def shrink_history(prop, rs, dump, history, budget_s):
    """The run fails only after earlier runs of the same process: find few of those that suffice."""
    end = time.monotonic() + budget_s
    best = list(history)
    n = 2
    while len(best) > 1 and time.monotonic() < end:
        size = max(1, len(best) // n)
        parts = [best[k:k + size] for k in range(0, len(best), size)]
        for k, part in enumerate(parts):
            rest = [h for j, q in enumerate(parts) if j != k for h in q]
            hit = None
            for cand in ((part, rest) if n == 2 else (rest,)):
                if time.monotonic() > end:
                    break
                if run_candidate(prop, rs, dump, prop.cpu_limit, cand)[0] == "violation":
                    hit = cand
                    break
            if hit is not None:
                best, n = list(hit), 2
                break
        else:
            if size == 1:
                break
            n = min(len(best), n * 2)
    return best


class Shrinker:
    def __init__(self, prop, seed, dump, info, budget_s, max_execs):
        self.prop = prop
        self.seed = seed
        self.kind = info["kind"]
        self.best = dump
        self.end = time.monotonic() + budget_s
        self.execs = 0
        self.max_execs = max_execs

    def left(self):
        return time.monotonic() < self.end and self.execs < self.max_execs

    @staticmethod
    def size(d):
        return (sum(len(v) for v in d.values()), sum(sum(v) for v in d.values()))

    def attempt(self, cand):
        if not self.left():
            return False
        self.execs += 1
        r = run_candidate(self.prop, self.seed, cand, self.prop.cpu_limit)
        if r[0] == "violation" and r[1]["kind"] == self.kind and self.prop.known(r[1]) is None:
            new = {k: _rstrip(v) for k, v in r[2].items()}
            new = {k: v for k, v in new.items() if v}
            if self.size(new) < self.size(self.best):
                self.best = new
                return True
        return False

    def run(self):
        self.best = {k: v for k, v in ((k, _rstrip(v)) for k, v in self.best.items()) if v}
        improved = True
        while improved and self.left():
            before = self.size(self.best)
            for name in sorted(self.best, key=lambda k: -len(self.best[k])):
                if name not in self.best:
                    continue
                c = dict(self.best)
                del c[name]
                self.attempt(c)
            for name in sorted(self.best):
                self.shrink_stream(name)
            improved = self.size(self.best) < before
        return self.best

    def shrink_stream(self, name):
        # zero / delete blocks of decreasing size
        n = len(self.best.get(name, ()))
        b = max(1, n // 2)
        while b >= 1 and self.left():
            i = 0
            while i < len(self.best.get(name, ())) and self.left():
                v = self.best[name]
                done = False
                if any(v[i:i + b]):
                    c = dict(self.best)
                    c[name] = v[:i] + [0] * len(v[i:i + b]) + v[i + b:]
                    done = self.attempt(c)
                if not done and name in self.best:
                    v = self.best[name]
                    c = dict(self.best)
                    c[name] = v[:i] + v[i + b:]
                    if self.attempt(c):
                        continue
                i += b
            b //= 2
            if n > 400 and b < 4:
                break
        for i in range(len(self.best.get(name, ()))):
            if not self.left() or i >= len(self.best.get(name, ())):
                break
            v = self.best[name]
            for nv in (v[i] // 2, v[i] - 1):
                if 0 <= nv < v[i]:
                    c = dict(self.best)
                    c[name] = v[:i] + [nv] + v[i + 1:]
                    if self.attempt(c):
                        break


def _rstrip(v):
    v = list(v)
    while v and v[-1] == 0:
        v.pop()
    return v


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1, sort_keys=True)
        f.write("\n")
    os.replace(tmp, path)


def report_violation(prop, seed, index, info, dump, workers=1):
    """Minimise, write the replay file, verify it in a fresh process, print the line."""
    rs = run_seed(seed, prop.id, index)
    how = "shrunk"
    execs = 0
    obj = {"property": prop.id, "seed": rs, "kind": info["kind"], "detail": info["detail"]}
    if dump is not None:
        first = run_candidate(prop, rs, dump, prop.cpu_limit)
        if first[0] == "violation":
            sh = Shrinker(prop, rs, first[2], first[1], float(os.environ.get("SALT_SIM_SHRINK_S", "25")), 600)
            best = sh.run()
            execs = sh.execs
            final = run_candidate(prop, rs, best, prop.cpu_limit)
            if final[0] != "violation":
                best = first[2]
                final = first
                how = "unshrunk"
            obj.update(kind=final[1]["kind"], detail=final[1]["detail"], choices=best, trace_digest=final[3],
                       trace=final[4], faults=final[5])
        else:
            # state of the code under test carried over from earlier runs of that worker process
            hist = list(range(index % workers, index, workers))
            final = run_candidate(prop, rs, dump, prop.cpu_limit, hist)
            if final[0] == "violation":
                hist = shrink_history(prop, rs, dump, hist, 2 * float(os.environ.get("SALT_SIM_SHRINK_S", "25")))
                final = run_candidate(prop, rs, dump, prop.cpu_limit, hist)
                how = "history of %d earlier runs in one process" % len(hist)
                obj.update(kind=final[1]["kind"], detail=final[1]["detail"], choices=dump, history=hist,
                           trace_digest=final[3], trace=final[4], faults=final[5])
            else:
                how = "as recorded (replay differs: %s)" % (first[0],)
                obj.update(choices=dump)
    else:
        how = "seed only"
        if info["kind"] == "hang" and run_candidate(prop, rs, None, prop.cpu_limit)[0] != "violation":
            hist = list(range(index % workers, index, workers))
            if run_candidate(prop, rs, None, prop.cpu_limit, hist)[0] == "violation":
                hist = shrink_history(prop, rs, None, hist, 2 * float(os.environ.get("SALT_SIM_SHRINK_S", "25")))
                how = "seed and history of %d earlier runs in one process" % len(hist)
                obj.update(history=hist)
    obj["minimised"] = how
    obj["shrink_executions"] = execs
    path = os.path.join(REPLAYS, "%s-%s.json" % (prop.id, rs.replace(":", "-")))
    write_json(path, obj)
    print("property %s: %s" % (prop.id, prop.title))
    print("violation kind=%s run seed=%s (%s, %d shrink executions)" % (obj["kind"], rs, how, execs))
    print("  " + obj["detail"][:2000])
    for line in obj.get("trace", [])[-25:]:
        print("    | " + line[:200])
    print("replay with: /opt/venv/bin/python -B /verif/check.py replay %s" % path)
    print("VIOLATION property=%s replay=%s" % (prop.id, path))
    sys.stdout.flush()


def run_property(prop, tier, seed):
    t0 = time.monotonic()
    n = prop.quick if tier == "quick" else prop.thorough
    n = int(os.environ.get("SALT_SIM_RUNS", n))
    cap = 240.0 if tier == "quick" else 3600.0
    cap = float(os.environ.get("SALT_SIM_CAP", cap))
    try:
        W = len(os.sched_getaffinity(0))
    except AttributeError:
        W = os.cpu_count() or 1
    W = max(1, min(8, int(os.environ.get("SALT_SIM_WORKERS", W)), n))
    deadline = t0 + cap
    try:
        os.unlink(os.path.join(EVIDENCE, prop.id + ".json"))
    except OSError:
        pass
    # import of the code under test: a tree that cannot be imported breaks every property
    r = in_child(lambda wfd: _try_load(prop), 120)
    if r[0] == "violation":
        info = r[1]
        path = os.path.join(REPLAYS, "%s-load.json" % prop.id)
        write_json(path, {"property": prop.id, "seed": "load", "load": True, "kind": info["kind"], "detail": info["detail"]})
        evidence(prop, tier, seed, Stats(), time.monotonic() - t0, 1, W)
        print("  " + info["detail"])
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
        return 1
    if r[0] != "ok":
        print("HARNESS ERROR while loading: %s" % (r,))
        return 2
    prop.load()
    shm = mmap.mmap(-1, 4096)
    stop = mmap.mmap(-1, 4096)
    fds, pids = {}, {}
    for w in range(W):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rfd)
            for f in fds:
                os.close(f)
            try:
                worker(w, W, prop, seed, n, deadline, wfd, shm, stop)
            except BaseException:
                try:
                    send(wfd, ("harness", -1, {"trace": traceback.format_exc()}))
                except BaseException:
                    pass
            os._exit(2)
        os.close(wfd)
        fds[rfd] = [w, bytearray()]
        pids[w] = pid
    stats = Stats()
    viol, harness, dead = [], [], []
    watches = {w: Watch(p) for w, p in pids.items()}
    stuck = set()
    looked = time.monotonic()
    while fds:
        rl, _, _ = select.select(list(fds), [], [], 1)
        if time.monotonic() - looked > 1:
            looked = time.monotonic()
            for w, _ in fds.values():
                if watches[w].blocked() and w not in stuck:
                    stuck.add(w)
                    os.kill(pids[w], signal.SIGKILL)
                    stop[0] or struct.pack_into("<q", stop, 8, -1)
                    stop[0] = 1
        if time.monotonic() > deadline + 200:
            print("HARNESS ERROR: workers did not stop")
            for p in pids.values():
                try:
                    os.kill(p, signal.SIGKILL)
                except OSError:
                    pass
            return 2
        for f in rl:
            d = os.read(f, 1 << 16)
            w, buf = fds[f]
            if not d:
                os.close(f)
                del fds[f]
                _, status = os.waitpid(pids[w], 0)
                if w in stuck and os.WIFSIGNALED(status):
                    i = struct.unpack_from("<q", shm, 8 * w)[0]
                    (viol if i >= 0 else harness).append((i, dict(BLOCKED, trace="worker blocked outside a run"), None, ""))
                elif os.WIFSIGNALED(status):
                    dead.append((struct.unpack_from("<q", shm, 8 * w)[0], os.WTERMSIG(status)))
                continue
            buf += d
            while len(buf) >= 4 and len(buf) >= 4 + struct.unpack_from("<I", buf)[0]:
                k = struct.unpack_from("<I", buf)[0]
                m = pickle.loads(bytes(buf[4:4 + k]))
                del buf[:4 + k]
                if m[0] == "stats":
                    stats.merge(m[1])
                elif m[0] == "violation":
                    viol.append(m[1:])
                else:
                    harness.append(m[1:])
    for i, sig in dead:
        if i < 0:
            harness.append((i, {"trace": "worker killed by signal %d outside a run" % sig}))
            continue
        again = in_child(lambda wfd: execute(prop, run_seed(seed, prop.id, i))[:2], prop.cpu_limit * 5)
        if again[0] == "died" and os.WIFSIGNALED(again[1]) and os.WTERMSIG(again[1]) in (
                signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE):
            viol.append((i, {"kind": "process-crash", "detail": "run kills the process with signal %d" %
                             os.WTERMSIG(again[1])}, None, ""))
        elif again[0] == "violation":
            viol.append((i, again[1], None, ""))
        else:
            harness.append((i, {"trace": "worker killed by signal %d, not reproducible: %s" % (sig, again[:1])}))
    wall = time.monotonic() - t0
    evidence(prop, tier, seed, stats, wall, len(viol), W)
    if viol:
        viol.sort(key=lambda v: v[0])
        i, info, dump, _ = viol[0]
        report_violation(prop, seed, i, info, dump, W)
        return 1
    if harness:
        print("HARNESS ERROR in run %s\n%s" % (harness[0][0], harness[0][1].get("trace")))
        return 2
    for k in sorted(stats.probes):
        if k.startswith("known:"):
            print("KNOWN-FINDING: property=%s %s (%d runs)" % (prop.id, k[6:], stats.probes[k]))
    missing = [p for p in prop.expect if not stats.probes.get(p) and not stats.faults.get(p)]
    if os.environ.get("SALT_SIM_DIGESTS"):     # for tools/determinism.py
        with open(os.environ["SALT_SIM_DIGESTS"], "w") as f:
            f.write("\n".join(sorted(d.hex() for d in stats.digests)))
    print("property %s held on %d simulated runs (%d distinct, %d faults injected, %.0f s simulated) in %.1f s; seed %s" % (
        prop.id, stats.runs, len(stats.digests), sum(stats.faults.values()), stats.sim_time, wall, seed))
    print("  faults: %s" % json.dumps(stats.faults, sort_keys=True))
    print("  probes: %s" % json.dumps(stats.probes, sort_keys=True))
    print("  slowest run: index %s, %.2f s CPU" % (stats.maxcpu_i, stats.maxcpu))
    if missing:
        print("  note: expected conditions never reached in this batch: %s" % missing)
    return 0


def _try_load(prop):
    try:
        prop.load()
        return ("ok",)
    except BaseException as e:
        fr = repo_frames(e.__traceback__)
        if fr or isinstance(e, (ImportError, SyntaxError)):
            return ("violation", {"kind": "load", "detail": "code under test cannot be imported: %s: %s at %s" % (
                type(e).__name__, e, "; ".join(fr[-3:]))})
        return ("harness", traceback.format_exc())


def evidence(prop, tier, seed, st, wall, violations, workers):
    per_h = st.runs / wall * 3600 if wall > 0 else 0
    cov = {
        "evaluations": st.runs,
        "distinct_nontrivial": len(st.nontrivial),
        "rule": prop.rule,
        "samples": st.samples or [{"note": "no run finished"}],
        "simulated_runs": st.runs,
        "seeds_per_hour": int(per_h),
        "simulated_seconds_covered": round(st.sim_time, 3),
        "faults_injected": dict(sorted(st.faults.items())),
        "fault_total": sum(st.faults.values()),
        "conditions_reached": dict(sorted(st.probes.items())),
        "distinct_interleavings": len(st.digests),
        "distinct_interleavings_measure": "distinct hashes of the complete event log of a run (every scheduling "
                                          "switch, delivered segment, fault, frame and read result)",
        "distinct_event_shapes": len(st.shapes),
        "events": st.events,
        "workers": workers,
        "components_real": prop.real,
        "components_stub": prop.stub,
    }
    ev = {"property": prop.id, "tier": tier, "seed": int(seed), "level": "exploration", "coverage": cov,
          "assumptions": prop.assumptions, "wall_s": round(wall, 2), "violations": violations}
    write_json(os.path.join(EVIDENCE, prop.id + ".json"), ev)


def replay(path, props, verbose=True):
    with open(path) as f:
        obj = json.load(f)
    prop = props[obj["property"]]
    if obj.get("load"):
        r = in_child(lambda wfd: _try_load(prop), 120)
        if r[0] == "violation":
            print(r[1]["detail"])
            print("VIOLATION property=%s replay=%s" % (prop.id, path))
            return 1
        print("replay passes: the code under test imports")
        return 0
    prop.load()
    r = run_candidate(prop, obj["seed"], obj.get("choices"), prop.cpu_limit, obj.get("history", ()))
    if r[0] == "died":
        print("run killed the process, status %s" % (r[1],))
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
        return 1
    if r[0] == "violation":
        same = "identical event log" if r[3] == obj.get("trace_digest") else "event log differs from the recorded one"
        print("kind=%s (%s)\n  %s" % (r[1]["kind"], same, r[1]["detail"]))
        if verbose:
            for line in r[4]:
                print("    | " + line[:240])
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
        return 1
    if r[0] == "ok":
        print("replay passes")
        return 0
    print("HARNESS ERROR %s" % (r,))
    return 2


def one(prop, seed, i):
    prop.load()
    status, info, ch, tr = execute(prop, run_seed(seed, prop.id, i))
    for line in tr.ev[:3000]:
        print("  | " + line[:240])
    print(tr.faults, tr.probes)
    print(status, info.get("kind"), info.get("detail"))
    if "trace" in info:
        print(info["trace"])
    return 0


def selftest(props):
    """setup_cmd: the tools the checks need are here. Does not touch the code under test."""
    from . import refsalt as ref
    k = ref.sig_keys(bytes(32))
    if not ref.verify(ref.sign(b"x", k[0]), b"x", k[1]):
        print("reference crypto does not work")
        return 2
    a = [Choices("1:T:%d" % i, None, None).s("a").below(1 << 30) for i in range(5)]
    b = [Choices("1:T:%d" % i, None, None).s("a").below(1 << 30) for i in range(5)]
    if a != b or len(set(a)) != 5:
        print("seeded choices are not deterministic")
        return 2
    print("ready: %d properties" % len(props))
    return 0


def main(argv, props):
    seed = os.environ.get("VERIF_SEED", "1") or "1"
    if not seed.lstrip("-").isdigit():
        seed = str(int.from_bytes(seed.encode(), "big") % (1 << 31))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if len(argv) > 3 and argv[3] in ("quick", "thorough"):
        tier = argv[3]
    cmd = argv[1] if len(argv) > 1 else "help"
    if cmd == "selftest":
        return selftest(props)
    if cmd == "run":
        return run_property(props[argv[2]], tier, seed)
    if cmd == "replay":
        return replay(argv[2], props)
    if cmd == "one":
        return one(props[argv[2]], seed, int(argv[3]))
    print(__doc__)
    return 2
