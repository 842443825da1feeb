"""C22: the logging wrapper records what passed, each message once."""
import asyncio
import logging
import re

from .common import *
from .p_fault import FAST, SOCK_ERRORS, place_faults, sock_faults

LINE = re.compile(r"(WRITE_WITH_PREVIOUS|WRITE|READ).*?len\(msg\):(\d+).*?b'([0-9a-f]*)'", re.S)


class Capture(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())


class Side:
    """One wrapped channel, what passed through it and what it said."""

    def __init__(self, peer, cap):
        self.peer = peer
        self.cap = cap
        self.chan = None
        self.truth = []       # completed operations in order: ("r", [message]) or ("w", task, [messages])
        self.maybe = []       # writes that failed or were cancelled
        self.buffering = False
        self.emitted = 0      # lines that had come out when buffering was last turned on or flushed
        self.flushes = 0
        self.held = None      # (lines, messages) when buffering was turned off with records still held back
        self.order = []       # operations in the order their records come out
        self.waiting = []

    def passed(self, op):
        self.truth.append(op)
        (self.waiting if self.buffering else self.order).append(op)

    # -- checks made while the run proceeds
    def after_op(self):
        if self.cap is None:
            return
        if self.buffering:
            need(len(self.cap.lines) == self.emitted, "log-not-held-back", lambda: "%s: a record came out while buffering "
                 "was on" % self.peer.name)
        elif self.held:
            n = sum(len(x[-1]) for x in self.truth) - self.held[1]
            k = len(self.cap.lines) - self.held[0]
            need(k >= n, "log-lost", lambda: "%s: with buffering off again %d messages passed, %d records came out" % (
                self.peer.name, n, k))
        else:
            self.all_there("after an operation")

    def all_there(self, when):
        n = sum(len(x[-1]) for x in self.truth)
        m = n + sum(len(x[-1]) for x in self.maybe)
        k = len(self.cap.lines)
        need(k >= n, "log-lost", lambda: "%s: %d messages passed, %d records %s" % (self.peer.name, n, k, when))
        need(k <= m, "log-repeated", lambda: "%s: %d messages passed, %d records %s" % (self.peer.name, n, k, when))

    def control(self, st, tr, turns=False):
        """Between two operations the application may turn buffering on or off, or flush."""
        if self.cap is None or not st.chance(0.3):
            return
        if self.held and st.chance(0.4):
            self.flush(tr)
        if not self.buffering:
            self.chan.log_buffering = True
            self.buffering = True
            tr.probe("buffering")
            tr.log("log.buffer", self.peer.name)
        elif turns and st.chance(0.3):      # off, and what was held back still is
            self.chan.log_buffering = False
            self.buffering = False
            self.held = (len(self.cap.lines), sum(len(x[-1]) for x in self.truth))
            tr.probe("off_without_flush")
            tr.log("log.off", self.peer.name)
        else:
            self.flush(tr)
            if st.chance(0.5):
                self.chan.log_buffering = False
                self.buffering = False
        self.emitted = len(self.cap.lines)

    def flush(self, tr):
        self.chan.flush_log_buffer()
        tr.probe("flushed")
        tr.log("log.flush", self.peer.name, len(self.cap.lines))
        self.flushes += 1
        self.held = None
        self.order += self.waiting
        self.waiting = []
        self.all_there("after a flush")
        self.emitted = len(self.cap.lines)


class C22(Prop):
    id = "C22"
    title = "The logging wrapper records each message that passed once, and only those"
    quick = 16000
    thorough = 500000
    expect = ("tasks", "turns", "broken", "cancelled", "buffering", "flushed", "no_log", "several_in_one_write", "reused_buffer",
              "write_failed", "empty_message", "many_records", "off_without_flush", "wrapped_stacked", "wrapped_encrypted", "wrapped_app")

    def run(self, ch, tr):
        st = ch.s("cfg")
        fs = ch.s("faults")
        ls = ch.s("log")
        cs = ch.s("convo")
        cfg = draw_cfg(st, transports=("aio", "thr", "msg"), backends=False)
        cfg.update(keys=None, mitm_c=False, mitm_s=False, sync=cfg["transport"] == "thr")
        broken = fs.chance(0.25)
        cfg["net"] = draw_net(st, lat=FAST) if broken else draw_net(st)
        cfg["window"] = st.pick((1 << 30, 2000, 100))
        if broken:
            tr.probe("broken")
        tasks = cfg["transport"] != "thr" and cs.chance(0.6)
        tr.probe("tasks" if tasks else "turns")
        api = {"c": fs.pick(("sync", "async")), "s": fs.pick(("sync", "async"))}
        plan = {d: self.plan(cs, tr, d, tasks) for d in "cs"}
        sides = {}
        what = ls.wpick(((55, "bare"), (15, "stacked"), (15, "encrypted"), (15, "app")))
        tr.probe("wrapped_" + what)
        key = key_bytes(ch.seed)
        env.use_backend("native")

        def side(peer, chan):
            if what == "stacked":
                inner = logging.Logger("c22.inner", 1)
                inner.propagate = False
                inner.addHandler(logging.NullHandler())
                chan = R.MitmChannel(chan, log=inner)
            elif what != "bare":
                chan = R.EncryptedChannelV2(chan, key, R.Role.CLIENT if peer.role == "c" else R.Role.SERVER)
                if what == "app":
                    chan = R.AppChannelV2(chan, R.stime.NullTimeKeeper(), R.stime.NullTimeChecker())
            cap = None
            log = None
            if not ls.chance(0.1):
                cap = Capture()
                log = logging.Logger("c22." + peer.role, 1)
                log.manager = logging.Manager(log)      # whatever the harness did to logging as a whole
                log.propagate = False
                log.addHandler(cap)
            else:
                tr.probe("no_log")
            x = Side(peer, cap)
            x.chan = R.MitmChannel(chan, log=log)
            sides[peer.role] = x
            return x

        async def abody(world, s, peer, chan):
            me = side(peer, chan)
            other = "s" if peer.role == "c" else "c"
            todo = sum(len(x) for t in plan[other] for x in t)
            try:
                if tasks:
                    rd = asyncio.ensure_future(self.areader(world, me, todo, ch.s("rc" + peer.role), tr, broken))
                    await asyncio.gather(*[self.awriter(world, me, i, t, ch.s("wc%s%d" % (peer.role, i)), tr, broken)
                                           for i, t in enumerate(plan[peer.role])])
                    await me.chan.orig.write(b"<fin>")
                    await rd
                else:
                    for d in "cs":
                        for t in plan[d]:
                            for x in t:
                                me.control(ls, tr, True)
                                if d == peer.role:
                                    await self.awrite(me, 0, x)
                                else:
                                    for _ in x:
                                        await self.aread(me)
            except (Exception, asyncio.CancelledError) as e:
                peer.fail("end", e)
            peer.hs = "ok"

        def sbody(world, s, peer, chan):
            me = side(peer, chan)
            try:
                for d in "cs":
                    for t in plan[d]:
                        for x in t:
                            me.control(ls, tr, True)
                            if api[peer.role] == "async":
                                loop = R.util.force_event_loop()
                                if d == peer.role:
                                    loop.run_until_complete(self.awrite(me, 0, x))
                                else:
                                    for _ in x:
                                        loop.run_until_complete(self.aread(me))
                            elif d == peer.role:
                                self.swrite(me, x)
                            else:
                                for _ in x:
                                    self.sread(me)
            except Exception as e:
                peer.fail("end", e)
            peer.hs = "ok"
        cfg["abody"], cfg["sbody"] = abody, sbody
        self.tr = tr
        w = World(ch, tr, cfg["transport"])
        cfg["sockfault"] = broken and cfg["transport"] == "thr" and fs.chance(0.4)
        cfg["sock_setup"] = sock_faults(fs)
        ss = ch.s("slow")

        def chan_setup(s, peer, c):
            if cfg["transport"] == "msg" and st.chance(0.6):
                c.slow_write = lambda: ss.pick((None, 0, 0.001, 0.01, 0.5))
        cfg["chan_setup"] = chan_setup
        turns = [(d, [{"msgs": x} for t in plan[d] for x in t]) for d in "cs"]
        s = w.add(cfg, turns, prepare=(lambda s: place_faults(ch, tr, fs, s, turns, raw=True))
                  if broken and not cfg["sockfault"] else None)
        tr.log("cfg", cfg["transport"], tasks, broken, {d: [[len(x) for x in t] for t in plan[d]] for d in "cs"})
        w.deadline(4000 if broken else 100000)
        w.run()
        need(not w.stuck, "no-progress", lambda: "conversation through the wrapper never ends: %s" % w.stuck)
        for me in sides.values():
            for _, e in me.peer.errors:
                if isinstance(e, Violation):
                    raise e
        for me in sides.values():
            self.judge(tr, me, broken, sides, tasks)
        tr.probe("nontrivial")

    def plan(self, cs, tr, d, tasks):
        """Per writer task a list of writes; the first message of each write is unique."""
        out = []
        for t in range(1 + (cs.below(3) if tasks else 0)):
            ws = []
            for i in range(cs.geometric(0.7, 5) + (0 if t else 1)):
                ms = []
                for j in range(1 + cs.geometric(0.4, 5)):
                    n = draw_size(cs, cs.wpick(((80, 0), (20, 1))))
                    ms.append(payload("%s%d.%d.%d" % (d, t, i, j), max(8, n) if j == 0 else n))
                    if not ms[-1]:
                        tr.probe("empty_message")
                if len(ms) > 1:
                    tr.probe("several_in_one_write")
                ws.append(ms)
            out.append(ws)
        if cs.chance(0.01):       # more than a log buffer of some thousand records might hold
            tr.probe("many_records")
            n = cs.pick((300, 1100, 2100, 4200))
            out[0].append([payload("%sm" % d, 8)] + [b"%d" % i for i in range(n)])
        return out

    # -- operations
    def bufs(self, x):
        if len(x[0]) % 3 == 1:        # the caller reuses its buffers afterwards
            self.tr.probe("reused_buffer")
            return [bytearray(m) for m in x]
        return list(x)

    def done_write(self, me, t, x, bufs):
        me.passed(("w", t, x))
        for b in bufs:
            if isinstance(b, bytearray):
                b[:] = b"\xee" * len(b)
        me.after_op()

    def done_read(self, me, m):
        me.passed(("r", [m]))
        me.peer.read_ok(m)
        me.after_op()

    async def awrite(self, me, t, x):
        bufs = self.bufs(x)
        me.maybe.append(("w", t, x))
        await me.chan.write(*bufs)
        me.maybe.remove(("w", t, x))
        self.done_write(me, t, x, bufs)

    async def aread(self, me):
        self.done_read(me, await me.chan.read())

    def swrite(self, me, x):
        bufs = self.bufs(x)
        me.maybe.append(("w", 0, x))
        me.chan.write_sync(*bufs)
        me.maybe.remove(("w", 0, x))
        self.done_write(me, 0, x, bufs)

    def sread(self, me):
        self.done_read(me, me.chan.read_sync())

    async def awriter(self, world, me, t, writes, st, tr, broken):
        for x in writes:
            me.control(st, tr)
            if st.chance(0.15):
                tr.probe("cancelled")
                tr.fault("cancel_write")
                try:
                    await asyncio.wait_for(self.awrite(me, t, x), st.pick((0.001, 0.02, 0.3)))
                except asyncio.TimeoutError:
                    pass
            else:
                await self.awrite(me, t, x)
            if st.chance(0.3):
                await asyncio.sleep(0.001 * st.below(50))

    async def areader(self, world, me, todo, st, tr, broken):
        while True:
            if st.chance(0.15):
                tr.probe("cancelled")
                tr.fault("cancel_read")
                try:
                    await asyncio.wait_for(self.aread(me), st.pick((0.001, 0.02, 0.3)))
                except asyncio.TimeoutError:
                    pass
            else:
                await self.aread(me)
            me.control(st, tr)
            if me.peer.got and me.peer.got[-1] == b"<fin>":
                return

    # -- judgement
    def judge(self, tr, me, broken, sides, tasks):
        p = me.peer
        for op, e in p.errors:
            if isinstance(e, R.ex.ComException):
                need(broken, "spurious-error", lambda: "%s: %s" % (p.name, err(e)))
                tr.probe("write_failed" if me.maybe else "read_failed")
            else:
                raise Violation("error-kind", "%s: %s" % (p.name, err(e)))
        other = sides["s" if p.role == "c" else "c"]
        reads = [x[1][0] for x in me.truth if x[0] == "r"]
        wrote = [m for x in me.truth if x[0] == "w" for m in x[2]]
        if not broken and not tasks:
            want = [m for x in other.truth if x[0] == "w" for m in x[2]]
            need(reads == want, "not-transparent", lambda: "%s read %d messages through the wrapper, its peer wrote %d" %
                 (p.name, len(reads), len(want)))
        if me.cap is None:
            if not me.maybe:
                need(me.chan.counter_read == sum(map(len, reads)) and me.chan.counter_write == sum(map(len, wrote)), "counters",
                     lambda: "%s: counters read=%d write=%d, passed %d and %d" % (
                         p.name, me.chan.counter_read, me.chan.counter_write, sum(map(len, reads)), sum(map(len, wrote))))
            return
        me.flush(tr)
        recs = []
        for ln in me.cap.lines:
            m = LINE.search(ln)
            need(m is not None, "log-format", lambda: "%s: record without direction, length or content: %s" % (p.name, ln[:200]))
            data = bytes.fromhex(m[3])
            need(len(data) == int(m[2]), "log-content", lambda: "%s: record gives length %s for %d bytes" % (p.name, m[2],
                                                                                                            len(data)))
            recs.append((m[1], data))
        got = [d for k, d in recs if k == "READ"]
        late = [x[1][0] for x in me.order if x[0] == "r"]
        need(got == reads or got == late, "log-content", lambda: "%s: reads recorded as %s, messages read were %s" % (
            p.name, [short(x) for x in got[:6]], [short(x) for x in reads[:6]]))
        # writes: groups of one WRITE and its followers
        groups = []
        for k, d in recs:
            if k == "WRITE":
                groups.append([d])
            elif k == "WRITE_WITH_PREVIOUS":
                need(groups, "log-content", lambda: "%s: a record continues a write that has none" % p.name)
                groups[-1].append(d)
        known = {x[2][0]: x for x in me.truth + me.maybe if x[0] == "w"}
        seen = {}
        for g in groups:
            x = known.get(g[0])
            need(x is not None and x[2] == g, "log-content", lambda: "%s: recorded a write of %s that did not pass" % (
                p.name, [short(m) for m in g[:5]]))
            need(g[0] not in seen, "log-repeated", lambda: "%s: one write recorded twice" % p.name)
            seen[g[0]] = len(seen)
        for x in me.truth:
            if x[0] == "w":
                need(x[2][0] in seen, "log-lost", lambda: "%s: a completed write is not recorded" % p.name)
        ok = set()
        for ops in (me.truth, me.order):
            by = {}
            for x in ops:
                if x[0] == "w":
                    by.setdefault(x[1], []).append(seen[x[2][0]])
            ok.add(all(order == sorted(order) for order in by.values()))
        need(True in ok, "log-order", lambda: "%s: writes of one task recorded out of order" % p.name)
        total = sum(len(m) for g in groups for m in g)
        need(me.chan.counter_read == sum(map(len, reads)) and me.chan.counter_write == total, "counters",
             lambda: "%s: counters read=%d write=%d, recorded %d and %d" % (
                 p.name, me.chan.counter_read, me.chan.counter_write, sum(map(len, reads)), total))
        n = len(me.cap.lines)
        me.chan.flush_log_buffer()
        need(len(me.cap.lines) == n, "log-repeated", lambda: "%s: a second flush repeats records" % p.name)
