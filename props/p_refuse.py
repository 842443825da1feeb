"""C23: calls the library refuses."""
from .common import *
from .p_async import C12 as Tasks


class Odd:
    """Has a length and no bytes."""

    def __len__(self):
        return 3


class Bomb:
    """Whose conversion to bytes fails."""

    def __len__(self):
        return 4

    def __bytes__(self):
        raise MemoryError("simulated allocation failure")


BAD = (("str", lambda: "text"), ("none", lambda: None), ("object", object), ("odd", Odd),
       ("float", lambda: 1.5), ("bomb", Bomb), ("empty str", lambda: ""))


class ClockError(Exception):
    pass


def keeper():
    class Keeper(R.stime.TimeKeeper):
        """Keeps no time, and fails when told to."""
        broken = False

        def get_first_time(self):
            return 0

        def get_time(self):
            if self.broken:
                raise ClockError("simulated clock failure")
            return 0
    return Keeper()


class Among(Tasks):
    """Several tasks writing to one channel, some of whose calls are refused."""
    id = None

    async def between(self, tr, app, peer, p):
        for _ in range(p.geometric(0.3, 2)):
            what, bad = p.pick(BAD)
            msgs = [b"good", bad()] if p.below(2) else [bad()]
            tr.fault("bad_argument")
            try:
                await app.write(*msgs)
            except Exception:
                continue
            peer.fail("write of a %s, which was not refused," % what, ValueError("accepted"))


class C23(Prop):
    id = "C23"
    title = "A refused write changes nothing"
    quick = 12000
    thorough = 400000
    expect = ("bad_argument", "clock_failure", "first_write_buffered_m4", "refused_last", "refused_multi", "refused_in_crowd",
              "unread_queued", "several_tasks")

    among = Among()

    def refusal(self, tr, rs, tag):
        """One call that has to fail, as a coroutine function run before a write of the conversation."""
        msgs = [payload("%s.%d" % (tag, i), rs.pick((0, 1, 5, 60, 300))) for i in range(rs.pick((1, 1, 2, 3, 7)))]
        if rs.chance(0.03):
            msgs += [b"%d" % i for i in range(rs.pick((130, 260)))]
            tr.probe("refused_in_crowd")
        if rs.chance(0.02):
            msgs.insert(rs.below(len(msgs) + 1), payload(tag, 65536))
        clock = rs.chance(0.25)
        what = "clock"
        if not clock:
            what, bad = rs.pick(BAD)
            i = rs.below(len(msgs))
            msgs = msgs[:i] + [bad()] + msgs[i + rs.below(2):]
            if rs.chance(0.1):
                msgs.insert(rs.below(len(msgs) + 1), rs.pick(BAD)[1]())
        last = rs.chance(0.3)

        async def refuse(world, s, peer, call):
            pipe = s.conn.a2b if peer.role == "c" else s.conn.b2a
            before = len(pipe.sent_frames)
            tr.fault("clock_failure" if clock else "bad_argument")
            if last:
                tr.probe("refused_last")
            if len(msgs) > 1:
                tr.probe("refused_multi")
            if peer.role == "c" and s.cfg["buffer_M4"] and not peer.sent:
                tr.probe("first_write_buffered_m4")
            peer.keeper.broken = clock
            try:
                await call("write", *msgs, **({"is_last": True} if last else {}))
            except Exception as e:
                out = e
            else:
                out = None
            peer.keeper.broken = False
            tr.log("refused", peer.name, what, None if out is None else type(out).__name__)
            if out is None:
                self.wrong.append(("not-refused", "%s: a write with a %s succeeded" % (
                    peer.name, "failing clock" if clock else what + " among its messages")))
            elif len(pipe.sent_frames) != before:
                self.wrong.append(("sent", "%s: a write refused with %s sent %d frames" % (
                    peer.name, err(out), len(pipe.sent_frames) - before)))
        return refuse

    def run(self, ch, tr):
        if ch.s("mode").chance(0.15):
            tr.probe("several_tasks")
            return self.among.run(ch, tr)
        self.wrong = []
        st = ch.s("cfg")
        cfg = draw_cfg(st)
        cfg["keys"] = keys_for(ch.seed)
        cfg["net"] = draw_net(st, lat=("none", "const", "jitter"))
        env.use_backend(cfg["backend"])

        def timing(world, s, peer, x):
            x.time_keeper = peer.keeper = keeper()
        cfg["timing"] = timing
        cs = ch.s("convo")
        turns = draw_convo(cs, "0", scale=cs.wpick(((70, 0), (30, 1))), max_turns=5, max_writes=4, max_msgs=6,
                           client_first=cfg["buffer_M4"])
        rs = ch.s("refuse")
        n = 0
        for _, wl in turns:
            for x in wl:
                k = rs.wpick(((50, 0), (40, 1), (10, 2)))
                x["before"] = [self.refusal(tr, rs, "r%d" % (n + i)) for i in range(k)]
                n += k
        if not n:
            turns[0][1][0]["before"] = [self.refusal(tr, rs, "r")]
        draw_ff(ch.s("ff"), cfg, 0.05)
        draw_defer(ch.s("ff"), cfg, turns)
        if cfg.get("defer"):
            tr.probe("unread_queued")
        prelude(ch, tr, ch.s("pre"), cfg, 0.05)
        w = World(ch, tr, cfg["transport"])
        s = w.add(cfg, turns)
        tr.log("cfg", desc(s), [(d, [[len(m) for m in x["msgs"]] for x in wl]) for d, wl in turns])
        w.run()
        for kind, what in self.wrong:
            raise Violation(kind, what)
        for p in (s.client, s.server):
            check_prefix(s, p)
            if p.errors:
                check_complete(s, p)
        need(not w.stuck, "no-progress", lambda: "the conversation never completes: %s" % w.stuck)
        for p in (s.client, s.server):
            check_complete(s, p)
        check_wire(s)
        tr.probe("nontrivial")
