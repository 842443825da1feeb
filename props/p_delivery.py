"""C01: reliable in-order delivery between two honest endpoints."""
import gc

from .common import *


def small_write(m, last=False):
    return {"msgs": m, "last": last, "ba": False}


KINDS = ((9839, "plain"), (120, "large"), (6, "bulk"), (4, "marathon"), (30, "many"), (1, "giant"))
BULK = (65535, 65536, 65537, 66000, 65534)


class C01(Prop):
    id = "C01"
    title = "Every written message arrives exactly once, in order, intact"
    quick = 6000
    cpu_limit = 90.0        # the 65537-message runs use about 10 s
    thorough = 300000
    expect = ("bulk_65535", "bulk_65536", "bulk_65537", "backpressure", "giant_msg", "giant_aio", "giant_thr")

    def directed(self, i):
        if i < len(BULK):
            return {"special": [2, i]}
        if i == len(BULK):
            return {"special": [3, 0]}
        if i <= len(BULK) + 3:
            return {"special": [5, 0], "cfg": [i - len(BULK) - 1]}

    def run(self, ch, tr):
        st = ch.s("cfg")
        kind = ch.s("special").wpick(KINDS)
        if kind == "plain":
            return self.plain(ch, tr, st)
        return self.special(ch, tr, st, kind)

    def plain(self, ch, tr, st):
        base = draw_cfg(st)
        env.use_backend(base["backend"])
        base["keys"] = keys_for("%s/0" % ch.seed)
        prelude(ch, tr, ch.s("pre"), base, 0.08)
        w = World(ch, tr, base["transport"])
        for i in range(1 + st.geometric(0.2, 3)):
            cfg = dict(base) if i == 0 else draw_cfg(st, transports=(base["transport"],), backends=False)
            cfg["backend"] = base["backend"]
            cfg["keys"] = keys_for("%s/%d" % (ch.seed, i))
            cs = ch.s("convo%d" % i)
            scale = cs.wpick(((80, 1), (17, 0), (3, 2)))
            turns = draw_convo(cs, "%d" % i, scale=scale, max_turns=6, max_writes=4, max_msgs=12,
                               client_first=cfg["buffer_M4"])
            draw_ff(ch.s("ff%d" % i), cfg, 0.06)
            draw_defer(ch.s("ff%d" % i), cfg, turns)
            draw_nest(ch.s("ff%d" % i), cfg, "%s/%d" % (ch.seed, i))
            w.add(cfg, turns)
        for s in w.sessions:
            tr.log("cfg", s.cid, desc(s), [(d, [[len(m) for m in x["msgs"]] for x in wl]) for d, wl in s.turns])
        w.run()
        self.judge(w, tr)

    def special(self, ch, tr, st, kind):
        transport = st.pick(("msg", "aio", "thr"))
        cfg = draw_cfg(st, transports=(transport,), net={"seg": st.pick(("whole", "mss")), "lat": "none",
                                                         "short_recv": False})
        cfg["backend"] = "native"
        cfg["window"] = 1 << 30
        cfg["limit"] = 65536
        cfg["pace"] = False
        cfg["keys"] = keys_for(ch.seed)
        env.use_backend("native")
        d = "c" if cfg["buffer_M4"] else st.pick("cs")
        tail = [(d, [small_write([payload("tail1", 7)])]), ("s" if d == "c" else "c", [small_write([payload("tail2", 9)])])]
        if kind == "bulk":
            n = ch.s("special").pick(BULK)
            tr.probe("bulk_%d" % n)
            size = st.pick((0, 1, 3))
            msgs = [(b"%06d" % i)[6 - size if size else 6:] for i in range(n)]
            turns = [(d, [small_write(msgs)])] + tail
        elif kind == "many":
            n = st.pick((200, 255, 256, 257, 1000, 3000))
            msgs = [b"%d" % i for i in range(n)]
            turns = [(d, [small_write(msgs)])] + tail
        elif kind == "large":
            sizes = [st.pick((65535, 65536, 65537, 65534, 200000, 1 << 20, 70000)) for _ in range(1 + st.below(3))]
            turns = [(d, [small_write([payload("L%d" % i, k) for i, k in enumerate(sizes)])])] + tail
        elif kind == "giant":
            tr.probe("giant_" + transport)
            size = st.pick(((1 << 24) + 5, 1 << 24, 20000000))
            turns = [(d, [small_write([payload("G", size)])])] + tail
        else:
            n = ch.s("special").pick((33000, 300, 2000))
            tr.probe("marathon_%d" % n)
            cfg["sync"] = False
            writes = [small_write([b"%d" % i]) for i in range(n)]
            turns = [(d, writes)] + tail
        w = World(ch, tr, transport, max_steps=5000000)
        gc.enable()     # the write path creates a class per packet; off again in the next World
        tr.log("cfg", kind, transport, d)
        w.add(cfg, turns)
        w.run()
        self.judge(w, tr)

    def judge(self, w, tr):
        for s in w.sessions:
            for p in (s.client, s.server):
                check_prefix(s, p)
                if p.errors:
                    check_complete(s, p)
        need(not w.stuck, "no-progress", lambda: "fault-free conversation never completes: %s" % w.stuck)
        for s in w.sessions:
            check_complete(s, s.client)
            check_complete(s, s.server)
        tr.probe("nontrivial")
