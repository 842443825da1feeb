"""C14 (time fields and delay detection), C15 (last flag), C17 (no such server)."""
from .common import *


def classes():
    """User-written time keeper / checker on the simulated clock."""
    if getattr(R, "SimKeeper_base", None) is R.stime.TimeKeeper:
        return      # built for this copy of the library already
    R.SimKeeper_base = R.stime.TimeKeeper
    base_k, base_c = R.stime.TimeKeeper, R.stime.TimeChecker

    class SimKeeper(base_k):
        def __init__(self, now):
            self.now = now
            self.t0 = None

        def get_first_time(self):
            self.t0 = self.now()
            return 1

        def get_time(self):
            if self.t0 is None:
                raise Violation("keeper", "get_time() asked before get_first_time()")
            return int((self.now() - self.t0) * 1000 + 1e-6)

    class SimChecker(base_c):
        def __init__(self, now, tol):
            self.now = now
            self.tol = tol
            self.calls = []        # values in order
            self.rejected = []     # positions in calls
            self.exc = []
            self.first = None

        def report_first_time(self, time):
            if self.calls:
                raise Violation("checker", "report_first_time() called a second time")
            self.calls.append(int(time))
            if time not in (0, 1):
                self.rejected.append(0)
                raise R.ex.BadPeer("bad first time")
            self.first = (time, self.now())

        def check_time(self, time):
            self.calls.append(int(time))
            if self.first is None:
                raise Violation("checker", "check_time() called before report_first_time()")
            if self.first[0] == 1 and self.tol is not None:
                lag = (self.now() - self.first[1]) * 1000 - time
                if lag > self.tol:
                    self.rejected.append(len(self.calls) - 1)
                    e = R.ex.TimeException("delayed by %d ms" % lag)
                    self.exc.append(e)
                    raise e

    class ScriptChecker(base_c):
        """Refuses the packets at chosen positions with chosen errors."""

        def __init__(self, refuse):
            self.refuse = refuse
            self.calls = []
            self.exc = []

        def look(self, time):
            i = len(self.calls)
            self.calls.append(int(time))
            if i in self.refuse:
                self.exc.append(self.refuse[i]("refused packet %d" % i))
                raise self.exc[-1]

        def report_first_time(self, time):
            if self.calls:
                raise Violation("checker", "report_first_time() called a second time")
            self.look(time)

        def check_time(self, time):
            if not self.calls:
                raise Violation("checker", "check_time() called before report_first_time()")
            self.look(time)
    R.ScriptChecker = ScriptChecker
    R.SimKeeper = SimKeeper
    R.SimChecker = SimChecker


class AppRefusal(Exception):
    """An application's own error."""


class C14(Prop):
    id = "C14"
    title = "Time fields tell the send time; messages failing the time check stay undelivered"
    quick = 18000
    thorough = 400000
    expect = ("rejected_late", "all_on_time", "bad_first_time", "rejected_in_handshake", "clock_advanced_by_days", "refused",
              "foreign_refused", "foreign_handshake_refused", "foreign_no_such_server")

    def load(self):
        super().load()
        classes()

    def run(self, ch, tr):
        st = ch.s("cfg")
        k = st.below(100)
        if k >= 88:
            return self.bad_first(ch, tr, st)
        if k == 0:
            return self.refused(ch, tr, st)
        if k >= 76:
            return self.foreign(ch, tr, st)
        cfg = draw_cfg(st, transports=("msg", "aio", "thr"))
        cfg["keys"] = keys_for(ch.seed)
        cfg["net"] = draw_net(st)
        cfg["past"] = 6
        cfg["pace"] = st.chance(0.6)
        env.use_backend(cfg["backend"])
        classes()
        tol = st.pick((2000, 500, 20000, None))
        use = {"c": st.chance(0.8), "s": st.chance(0.8)}
        # a long-lived session: once, the clock of the world moves on by days between two looks at it
        self.jump = jump = {"at": None, "n": 0, "t": None, "off": 0.0}
        if st.chance(0.25):
            jump["at"] = st.below(14)
            jump["by"] = st.pick((2147483.600, 2147483.648, 2160000.0, 4200000.0, 1000000.0, 65.536, 65536.0, 16777.216))

        def clock(world):
            def now():
                t = world.sched.now()
                jump["n"] += 1
                if jump["at"] is not None and jump["t"] is None and jump["n"] > jump["at"]:
                    jump["t"] = t
                    jump["off"] = jump["by"]
                    tr.fault("clock_advanced_by_days")
                    tr.log("clock", jump["by"])
                return t + jump["off"]
            return now

        def timing(world, s, peer, x):
            if use[peer.role]:
                x.time_keeper = peer.keeper = R.SimKeeper(clock(world))
            x.time_checker = peer.checker = R.SimChecker(clock(world), tol)
        cfg["timing"] = timing
        cs = ch.s("convo")
        turns = draw_convo(cs, "0", scale=0, max_turns=4, max_writes=4, max_msgs=4, client_first=cfg["buffer_M4"])
        draw_defer(ch.s("defer"), cfg, turns)
        prelude(ch, tr, ch.s("pre"), cfg, 0.12)
        w = World(ch, tr, cfg["transport"])
        fs = ch.s("faults")

        def prepare(s):
            for p in (s.conn.a2b, s.conn.b2a):
                for _ in range(fs.geometric(0.5, 3)):
                    p.stalls[fs.below(25)] = fs.pick((3.0, 0.6, 30.0, 100.0))
        s = w.add(cfg, turns, prepare=prepare)
        w.deadline(3000)
        w.run()
        self.judge(s, tr, use)
        tr.probe("nontrivial")

    def refused(self, ch, tr, st):
        """A client that asks for another server: the two messages of that exchange carry their times as well."""
        tr.probe("refused")
        cfg = draw_cfg(st, sync=False)
        cfg["keys"] = keys_for(ch.seed)
        cfg["wanted"] = bytes(range(32))
        env.use_backend(cfg["backend"])
        classes()
        use = {"c": st.chance(0.7), "s": st.chance(0.7)}

        def timing(world, s, peer, x):
            if use[peer.role]:
                x.time_keeper = peer.keeper = R.SimKeeper(world.sched.now)
            x.time_checker = peer.checker = R.SimChecker(world.sched.now, None)
        cfg["timing"] = timing
        w = World(ch, tr, cfg["transport"])
        s = w.add(cfg, [])
        w.deadline(500)
        w.run()
        for d, pipe, off in (("c", s.conn.a2b, 6), ("s", s.conn.b2a, 2)):
            if pipe.sent_frames:
                f = pipe.sent_frames[0][1]
                v = int.from_bytes(f[off:off + 4], "little")
                need(v == int(use[d]), "time-field", lambda: "%s carries Time %d, clock in use: %s" % (
                    "M1" if d == "c" else "M2 (no such server)", v, use[d]))
                ck = (s.server if d == "c" else s.client).checker
                need(ck is None or not pipe.rcvd_frames or ck.calls == [v], "time-check",
                     lambda: "times checked %s, received %d" % (ck.calls, v))
        tr.probe("nontrivial")

    def foreign(self, ch, tr, st):
        """A reference peer with any legal packaging and times, and a checker that refuses some packets of its choice."""
        cfg = draw_cfg(st)
        cfg["keys"] = k = keys_for(ch.seed)
        cfg["sync"] = False
        cfg["duplex"] = False
        cfg["net"] = draw_net(st, lat=("none", "const"))
        env.use_backend(cfg["backend"])
        classes()
        side = st.pick("cs")
        cs = ch.s("convo")
        first = cs.pick((1, 0, 7))
        value = lambda: cs.pick((5, 0, 1, 255, 256, 65535, 65536, (1 << 24) + 3, (1 << 31) - 1, 1 << 31, (1 << 32) - 1))
        times = [first, value()]
        refuse = {}
        mode = cs.wpick(((55, "app"), (15, "handshake"), (30, "none")))
        if mode == "app":
            for _ in range(1 + cs.below(3)):
                refuse[2 + cs.below(5)] = cs.pick((R.ex.TimeException, R.ex.BadPeer, AppRefusal))
        elif mode == "handshake":
            refuse[cs.below(2)] = cs.pick((R.ex.TimeException, R.ex.BadPeer, AppRefusal))
        if first == 7 and mode == "none":
            refuse[0] = R.ex.BadPeer
        cfg["ref_times"] = {"m1": first, "m2": first, "m3": times[1], "m4": times[1]}

        def pick():
            times.append(value())
            return times[-1]
        cfg["ref_pick_time"] = pick

        def timing(world, s, peer, x):
            x.time_checker = peer.checker = R.ScriptChecker(refuse)
        cfg["timing"] = timing
        packs = [None, None]
        writes = []
        for i in range(1 + cs.below(5)):
            ms = [payload("f%d.%d" % (i, j), cs.pick((3, 0, 40))) for j in range(1 + cs.below(3))]
            style = cs.pick(("multi", "single", "auto"))
            writes.append({"msgs": ms, "last": False, "ba": False, "style": style})
            packs += [ms] if style == "multi" or (style == "auto" and len(ms) > 1) else [[m] for m in ms]
        n = len(packs)
        cfg["past"] = n + 2 + sum(len(x["msgs"]) for x in writes)
        turns = [(side, writes)]
        if side == "s" and cfg["buffer_M4"]:
            turns.insert(0, ("c", [{"msgs": [b"go"], "last": False, "ba": False}]))
        prelude(ch, tr, ch.s("pre"), cfg, 0.12)
        w = World(ch, tr, cfg["transport"])
        nosuch = side == "s" and cs.chance(0.1)

        async def refusing(world, s, peer, raw):
            await raw.recv()
            await raw.send(ref.m2_no_such_server(first))
            raw.close()
        s = w.add(cfg, turns, client=ref_client if side == "c" else None,
                  server=None if side == "c" else refusing if nosuch else ref_server)
        w.deadline(500)
        w.run()
        real = s.server if side == "c" else s.client
        ck = real.checker
        stop = min(refuse, default=9)
        if nosuch:
            tr.probe("foreign_no_such_server")
            need(ck.calls == [first], "time-check", lambda: "times checked %s, NoSuchServer message carries %d" % (
                ck.calls, first))
            if 0 in refuse:
                need(real.hs is ck.exc[0], "time-check", lambda: "the time check failed with %s, handshake() with %s" % (
                    err(ck.exc[0]), err(real.hs)))
            tr.probe("nontrivial")
            return
        if stop < 2:
            tr.probe("foreign_handshake_refused")
            need(ck.calls == times[:stop + 1], "time-check", lambda: "times checked %s, received %s" % (
                ck.calls, times[:stop + 1]))
            need(real.hs is ck.exc[0], "time-check", lambda: "the time check failed with %s, handshake() ended with %s" % (
                err(ck.exc[0]), err(real.hs) if isinstance(real.hs, BaseException) else real.hs))
            need(not real.got, "delivered-late", "messages delivered after a failed handshake")
            tr.probe("nontrivial")
            return
        need(real.hs == "ok", "handshake-failed", lambda: "%s: handshake with a reference peer failed: %s" % (
            real.name, err(real.hs) if isinstance(real.hs, BaseException) else real.hs))
        need(ck.calls == times[:n], "time-check", lambda: "%s: time values checked %s, received %s" % (
            real.name, ck.calls, times[:n]))
        want = [m for i, ms in enumerate(packs) if ms and i not in refuse for m in ms]
        need(real.got == want, "delivered-late", lambda: "%s delivered %s; packets that passed the time check hold %s" % (
            real.name, [short(m) for m in real.got[:8]], [short(m) for m in want[:8]]))
        seen = [e for _, e in real.errors if any(e is x for x in ck.exc)]
        need(seen == ck.exc, "time-check", lambda: "%s: %d time check failures, %d reported to the application" % (
            real.name, len(ck.exc), len(seen)))
        if ck.exc:
            tr.probe("foreign_refused")
        tr.probe("nontrivial")

    def bad_first(self, ch, tr, st):
        """A peer whose first time is not 0 or 1."""
        tr.probe("bad_first_time")
        cfg = draw_cfg(st)
        cfg["keys"] = keys_for(ch.seed)
        cfg["sync"] = False
        cfg["net"] = draw_net(st, lat=("none", "const"))
        env.use_backend(cfg["backend"])
        classes()
        v = st.pick((2, 3, 255, 256, 65536, 1 << 31, (1 << 32) - 1, 0, 1))
        later = [st.pick((5, 0, 1, 255, 256, 65535, 65536, (1 << 24) + 3, (1 << 31) - 1, 1 << 31, (1 << 32) - 1)) for _ in "12"]
        cfg["ref_times"] = {"m1": v, "m2": v, "m3": later[0], "m4": later[0]}
        cfg["ref_app_time"] = later[1]
        side = st.pick("cs")
        mine = st.chance(0.5)
        if mine:
            def timing(world, s, peer, x):
                x.time_checker = peer.checker = R.SimChecker(world.sched.now, None)
            cfg["timing"] = timing
        turns = [("c", [{"msgs": [b"hello", b"you"][:1 + st.below(2)], "last": False, "ba": False}]),
                 ("s", [{"msgs": [b"and", b"you"][:1 + st.below(2)], "last": False, "ba": False}])]
        prelude(ch, tr, ch.s("pre"), cfg, 0.12)
        w = World(ch, tr, cfg["transport"])
        s = w.add(cfg, turns, client=ref_client if side == "c" else None, server=ref_server if side == "s" else None)
        w.deadline(500)
        w.run()
        real = s.server if side == "c" else s.client
        if v in (0, 1):
            need(real.hs == "ok", "handshake-failed", lambda: "first time %d was refused: %s" % (v, err(real.hs)))
            need(not real.errors, "spurious-error", lambda: "%s failed with %s" % (real.errors[0][0], err(real.errors[0][1])))
            if mine:
                need(real.checker.calls == [v] + later, "time-check", lambda: "%s: time values checked %s, received %s" % (
                    real.name, real.checker.calls, [v] + later))
        else:
            need(real.hs != "ok" and real.hs is not None, "bad-first-time", lambda: "%s accepted first time %d" % (
                real.name, v))
            need(isinstance(real.hs, R.ex.BadPeer), "error-kind", lambda: "first time %d made handshake() raise %s" % (
                v, err(real.hs)))
        tr.probe("nontrivial")

    def judge(self, s, tr, use):
        k = s.cfg["keys"]
        # 1. time fields on the wire
        starts = {"c": [t for t, _ in s.client.times], "s": [t for t, _ in s.server.times]}
        taps = {"c": s.conn.a2b.sent_frames, "s": s.conn.b2a.sent_frames}

        jump = self.jump

        def off(t, late):
            """What the jump had added to the clock at simulated time t (it may happen within that instant)."""
            if jump["t"] is None or t < jump["t"] or (t == jump["t"] and not late):
                return 0
            return jump["off"]

        def ok_time(d, what, v, tap, wi=None):
            keeper = (s.client if d == "c" else s.server).keeper
            if keeper is None:
                return v == 0
            if what in ("M1", "M2"):
                return v == 1
            t0 = keeper.t0
            hi = (tap + off(tap, True) - t0) * 1000 + 1
            if what == "App":
                lo = starts[d][wi]
            elif what == "M3":
                if v == 1 and s.cfg["buffer_m2"]:
                    return True
                lo = taps["s"][0][0]
            elif s.cfg["buffer_M4"]:
                lo = starts["c"][0]
            else:
                lo = taps["s"][1][0]
            lo = (lo + off(lo, False) - t0) * 1000
            return lo - 1 <= v <= hi
        try:
            check_wire(s, times=ok_time, complete=False)
        except Violation as v:
            if v.kind == "time-field":
                raise
            # other deviations belong to C07
        # 2. the checker sees every received time, in order, before anything is delivered
        key = ref.shared(k["c_enc"][0], k["s_enc"][1])
        any_rej = False
        for peer, pipe in ((s.client, s.conn.b2a), (s.server, s.conn.a2b)):
            ck = peer.checker
            if ck is None or not pipe.rcvd_frames:
                continue
            fr = pipe.rcvd_frames
            times = [int.from_bytes(fr[0][2:6] if peer.role == "c" else fr[0][6:10], "little")]
            n = 2 if peer.role == "c" else 1
            packs = [None]
            for f in fr[1:]:
                p = ref.unseal(key, n, f[2:])
                if p is None:
                    break
                n += 2
                times.append(ref.time_of(p))
                packs.append(ref.parse_app(p)[1] if p[0] in (ref.APP, ref.MULTI) else [])
            need(ck.calls == times[:len(ck.calls)], "time-check", lambda: "%s: time values checked %s, received %s" % (
                peer.name, ck.calls[:12], times[:12]))
            rej = set(ck.rejected)
            if rej:
                any_rej = True
                tr.probe("rejected_in_handshake" if min(rej) < 2 else "rejected_late")
            if min(rej, default=9) < 2:
                need(peer.hs != "ok", "delivered-late", lambda: "%s: handshake succeeded although the time check of its "
                     "message %d failed" % (peer.name, min(rej)))
                need(not peer.got, "delivered-late", "messages delivered after a failed handshake")
                continue
            want = [m for i, pk in enumerate(packs[:len(ck.calls)]) if pk and i not in rej for m in pk]
            need(peer.got == want[:len(peer.got)], "delivered-late", lambda: "%s delivered %s; packets that passed the "
                 "time check hold %s" % (peer.name, [short(m) for m in peer.got[:6]], [short(m) for m in want[:6]]))
            if peer.got:
                # every delivered message's packet has been checked
                need(len(ck.calls) >= 2, "time-check", lambda: "%s delivered data without checking times" % peer.name)
            raised = [e for _, e in peer.errors if isinstance(e, R.ex.TimeException)]
            need(len(raised) == len(ck.exc) and all(a is b for a, b in zip(raised, ck.exc)), "time-check",
                 lambda: "%s: %d time check failures, %d reported to the application" % (peer.name, len(ck.exc), len(raised)))
        if not any_rej:
            tr.probe("all_on_time")


class C15(Prop):
    id = "C15"
    title = "The last-message indication is raised by the marked write and by nothing before"
    quick = 16000
    thorough = 300000
    expect = ("marked_single", "marked_multi", "marked_split", "unmarked", "mark_not_last", "marked_long_split", "long_multi")

    def run(self, ch, tr):
        st = ch.s("cfg")
        kind = st.wpick(((60, "real_real"), (20, "ref_server"), (20, "ref_client")))
        cfg = draw_cfg(st)
        cfg["keys"] = keys_for(ch.seed)
        if kind == "ref_client":
            cfg["sync"] = False
        env.use_backend(cfg["backend"])
        cs = ch.s("convo")
        big = cs.chance(0.03)
        turns = draw_convo(cs, "0", scale=2 if big else 0, max_turns=4, max_writes=4, max_msgs=5,
                           client_first=cfg["buffer_M4"])
        if cs.chance(0.08):
            # a marked write that cannot be one packet
            turns[-1][1][-1]["msgs"] = [payload("a", 3), payload("b", 65536), payload("c", 2)]
            turns[-1][1][-1]["last"] = True
        elif cs.chance(0.004):
            # more packets than one byte counts
            n = cs.pick((254, 255, 256, 257, 300))
            turns[-1][1][-1]["msgs"] = [payload("b", 65536)] + [b"%d" % i for i in range(n)]
            turns[-1][1][-1]["last"] = True
            tr.probe("marked_long_split")
        elif cs.chance(0.004):
            # a long queue of messages from one packet
            n = cs.pick((200, 256, 300, 700, 1500))
            cs.pick(cs.pick(turns)[1])["msgs"] = [b"%d" % i for i in range(n)]
            tr.probe("long_multi")
        if cs.chance(0.12):
            # a mark that was not the end: what comes later is judged by its own mark
            tr.probe("mark_not_last")
            for _, wl in turns:
                for x in wl:
                    x["last"] = cs.chance(0.4)
        draw_defer(ch.s("defer"), cfg, turns)
        draw_ff(ch.s("defer"), cfg, 0.03)
        if kind == "real_real":
            draw_nest(ch.s("defer"), cfg, ch.seed)
        if kind != "real_real":
            for d, wl in turns:
                for x in wl:
                    x["style"] = cs.pick(("auto", "single", "multi"))
        prelude(ch, tr, ch.s("pre"), cfg, 0.12)
        w = World(ch, tr, cfg["transport"])
        s = w.add(cfg, turns, client=ref_client if kind == "ref_client" else None,
                  server=ref_server if kind == "ref_server" else None)
        w.run()
        need(not w.stuck, "no-progress", lambda: "conversation never completes: %s" % w.stuck)
        for p, d in ((s.client, "s"), (s.server, "c")):
            if p.sess is None:
                continue
            check_complete(s, p)
            need(not p.last0, "early-last", lambda: "%s: last is %r right after the handshake" % (p.name, p.last0))
            i = 0
            for x in writes_of(turns, d):
                one = ref.use_multi(x["msgs"]) if kind == "real_real" or x.get("style") == "auto" else \
                    (x.get("style") == "multi" and all(len(m) <= 65535 for m in x["msgs"]))
                if x["style"] if "style" in x else False:
                    if x["style"] == "multi" and not one:
                        one = ref.use_multi(x["msgs"])
                n = len(x["msgs"])
                for j in range(n):
                    v = p.lasts[i]
                    if not x["last"]:
                        need(not v, "early-last", lambda: "%s: last is %r after message %d of an unmarked write" % (
                            p.name, v, i))
                    elif j == n - 1:
                        need(bool(v), "missing-last", lambda: "%s: last is %r after the final message of the marked "
                             "write" % (p.name, v))
                    elif not one:
                        need(not v, "early-last", lambda: "%s: last is %r with %d messages of the marked write still to "
                             "come in later packets" % (p.name, v, n - 1 - j))
                    i += 1
                tr.probe("unmarked" if not x["last"] else "marked_single" if n == 1 else
                         "marked_multi" if one else "marked_split")
        # the flag goes out on exactly the final packet of a marked write
        if not cfg.get("nest"):
            check_flags(s, kind)
        tr.probe("nontrivial")


def check_flags(s, kind):
    for peer, pipe in ((s.client, s.conn.a2b), (s.server, s.conn.b2a)):
        if peer.sess is None:
            continue
        flags = [bool(f[1] & 0x80) for _, f in pipe.sent_frames[1:] if len(f) > 1]
        want = [False]
        for x in writes_of(s.turns, peer.role):
            n = 1 if ref.use_multi(x["msgs"]) else len(x["msgs"])
            want += [False] * (n - 1) + [x["last"]]
        if s.cfg["transport"] == "msg":
            told = [i - 1 for i in peer.raw.told_last]
            need(told == [i for i, v in enumerate(want) if v], "channel-not-told", lambda: "%s: the channel underneath was "
                 "told of a last write at packets %s, the application marked %s" % (
                     peer.name, told[:20], [i for i, v in enumerate(want) if v][:20]))
        need(flags == want, "flag-on-wire", lambda: "%s: last flags on the wire %s, writes say %s" % (
            peer.name, flags[:20], want[:20]))


class C17(Prop):
    id = "C17"
    title = "Asking for a server key that is not there fails as NoSuchServer on both ends"
    quick = 24000
    thorough = 400000
    expect = ("mismatch", "match", "ref_client_mismatch", "ref_server_mismatch", "several", "cut_mismatch")

    def load(self):
        super().load()
        classes()

    def run(self, ch, tr):
        st = ch.s("cfg")
        base = draw_cfg(st)
        base["net"] = draw_net(st, lat=("none", "const", "jitter"))
        base["keys"] = keys_for(ch.seed)
        env.use_backend(base["backend"])
        classes()
        hs = ch.s("hostile")
        prelude(ch, tr, ch.s("pre"), base, 0.12)
        w = World(ch, tr, base["transport"])
        plans = []
        n = 1 + hs.geometric(0.15, 2)       # several clients of one server, each asking for its own
        if n > 1:
            tr.probe("several")
        for i in range(n):
            cfg = dict(base)
            if i:
                cfg = draw_cfg(st, transports=(base["transport"],), backends=False)
                cfg["backend"], cfg["net"] = base["backend"], base["net"]
                k = keys_for("%s/%d" % (ch.seed, i))
                cfg["keys"] = dict(k, s_sig=base["keys"]["s_sig"])
            plans.append(self.plan(ch, tr, hs, w, cfg, i))
        w.deadline(3000)
        w.run()
        for p in plans:
            self.judge(tr, *p)
        tr.probe("nontrivial")

    def plan(self, ch, tr, hs, w, cfg, i):
        k = cfg["keys"]
        right = k["s_sig"][1]
        how = hs.wpick(((30, "other"), (40, "near"), (20, "same"), (10, "fixed")))
        if how == "other":
            wanted = ref.sig_keys(key_bytes("%s/w%d" % (ch.seed, i)))[1]
        elif how == "near":
            b = bytearray(right)
            b[hs.below(32)] ^= 1 << hs.below(8)
            wanted = bytes(b)
        elif how == "fixed":
            wanted = hs.pick((b"\xff" * 32, bytes(32), k["c_sig"][1], k["s_enc"][1], right[::-1]))
        else:
            wanted = right
        cfg["wanted"] = wanted
        mode = hs.wpick(((50, "real"), (25, "ref_client"), (25, "ref_server")))
        cs = ch.s("convo%d" % i)
        turns = draw_convo(cs, "%d" % i, scale=0, max_turns=2, max_writes=2, max_msgs=2, client_first=cfg["buffer_M4"])
        first = hs.pick((0, 1))
        cfg["ref_times"] = {"m1": first, "m2": first, "m3": 0, "m4": 0}
        clocks = {"c": int(hs.chance(0.3)), "s": int(hs.chance(0.3))}

        def timing(world, s, peer, x):
            if clocks[peer.role]:
                x.time_keeper = peer.keeper = R.SimKeeper(world.sched.now)
        cfg["timing"] = timing
        if mode == "ref_client":
            cfg["sync"] = False
        cut = None
        if wanted != right and hs.chance(0.08):
            # the connection breaks somewhere in the request or the answer
            cut = (hs.pick("ab"), hs.below(90), hs.below(2))
            tr.fault("cut")

        def prep(s):
            pipe = s.conn.a2b if cut[0] == "a" else s.conn.b2a
            if hasattr(pipe, "cut_after"):
                pipe.cut_after = cut[1] % 2
            else:
                pipe.cut = (cut[1], "reset" if cut[2] else "eof")

        async def refsrv(world, s, peer, raw):
            if wanted == right:
                return await ref_server(world, s, peer, raw)
            try:
                m1 = await raw.recv()
                peer.m1 = m1
                await raw.send(ref.m2_no_such_server(first))
                while True:
                    peer.after = await raw.recv()
            except RawEOF:
                pass
            finally:
                raw.close()
        s = w.add(cfg, turns, client=ref_client if mode == "ref_client" else None,
                  server=refsrv if mode == "ref_server" else None, prepare=prep if cut else None)
        return s, k, how, wanted, mode, clocks, cut

    def judge(self, tr, s, k, how, wanted, mode, clocks, cut):
        right = k["s_sig"][1]
        c, v = s.client, s.server
        if wanted == right:
            tr.probe("match")
            for p in (c, v):
                check_complete(s, p)
            return
        N = R.ex.NoSuchServerException
        if cut:
            tr.probe("cut_mismatch")
            for p, r in ((c, "ref_client"), (v, "ref_server")):
                if mode != r:
                    need(isinstance(p.hs, R.ex.ComException), "cut-outcome", lambda: "%s: asked for an absent server key "
                         "over a connection that broke, the handshake ended with %s" % (
                             p.name, err(p.hs) if isinstance(p.hs, BaseException) else p.hs))
            need(len(s.conn.a2b.sent_frames) <= 1, "disclosure", "client went on without a server")
            return
        tr.probe("mismatch" if mode == "real" else mode + "_mismatch")
        if mode != "ref_client":
            need(isinstance(c.hs, N), "client-outcome", lambda: "client asked for an absent server key (%s), its "
                 "handshake ended with %s" % (how, err(c.hs) if isinstance(c.hs, BaseException) else c.hs))
            need(len(s.conn.a2b.sent_frames) == 1, "disclosure", "client went on after NoSuchServer")
            m1 = s.conn.a2b.sent_frames[0][1]
            need(m1 == ref.m1(clocks["c"], k["c_enc"][1], wanted), "wire", lambda: "M1 %s does not ask for the wanted key" %
                 short(m1, 80))
        else:
            need(c.hs == "nosuch", "client-outcome", lambda: "reference client was not told NoSuchServer: %s" % (c.hs,))
        if mode != "ref_server":
            need(isinstance(v.hs, N), "server-outcome", lambda: "server was asked for another key (%s), its handshake "
                 "ended with %s" % (how, err(v.hs) if isinstance(v.hs, BaseException) else v.hs))
            fr = [f for _, f in s.conn.b2a.sent_frames]
            need(fr == [ref.m2_no_such_server(clocks["s"])], "wire", lambda: "server answered %s, protocol says %s" % (
                [short(f, 60) for f in fr], short(ref.m2_no_such_server(clocks["s"]), 60)))
