"""C19: the synchronous and asynchronous APIs are the same channel."""
import asyncio

from sim.aio import SimLoop

from .common import *

VARIANTS = ("async_msg", "async_aio", "sync_aio", "sync_msg", "sync_thr", "loop_thr", "handoff_thr", "foreign_aio",
            "foreign_msg")


class Tamper:
    """The same damage in every variant: frame `idx` of direction `d` is changed, or the stream ends before it."""

    def __init__(self, d, idx, how, pos, tr):
        self.d = d
        self.idx = idx
        self.how = how
        self.pos, self.bit = pos
        self.tr = tr
        self.hit = False

    def attach(self, conn):
        (conn.a2b if self.d == "c" else conn.b2a).adversary = self

    def __call__(self, pipe, idx, f):
        if idx != self.idx:
            return [f]
        self.hit = True
        self.tr.fault("tamper_" + self.how)
        if self.how == "flip" and f:
            g = bytearray(f)
            g[-1 - self.pos % len(f)] ^= self.bit
            return [bytes(g)]
        if self.how == "truncate":
            return [f[:len(f) - 1 - self.pos % max(1, len(f))] if len(f) > 1 else b""]
        return []     # dropped; everything after it no longer fits


def base(e):
    """ComException or BadPeer, whichever subclass was raised."""
    for c in type(e).__mro__:
        if c.__name__ in ("BadPeer", "ComException"):
            return c.__name__
    return type(e).__name__


class C19(Prop):
    id = "C19"
    title = "Blocking and asyncio use of a channel behave alike, on any thread or loop"
    quick = 6000
    thorough = 200000
    expect = VARIANTS + ("enc_level", "session_level", "tampered", "clean")

    def run(self, ch, tr):
        st = ch.s("cfg")
        level = st.wpick(((70, "session"), (30, "enc")))
        tr.probe(level + "_level")
        first = st.pick(("async_msg", "async_aio"))
        variants = [first]
        while len(variants) < 3:
            v = st.pick(VARIANTS)
            if v not in variants:
                variants.append(v)
        common = draw_cfg(st)
        for k in ("mitm_c", "mitm_s"):
            common[k] = False
        common["pace"] = common["duplex"] = False
        common["keys"] = keys_for(ch.seed)
        cs = ch.s("convo")
        turns = draw_convo(cs, "p", scale=cs.wpick(((60, 0), (37, 1), (3, 2))), max_turns=5, client_first=True)
        dmg = None
        if st.chance(0.5):
            dmg = (st.pick("cs"), st.below(6), st.pick(("flip", "truncate", "drop")))
        env.use_backend(common["backend"])
        res = []
        for i, v in enumerate(variants):
            tr.probe(v)
            res.append((v, self.one(ch, tr, st, v, i, dict(common), turns, dmg, level)))
        self.judge(tr, res, turns, dmg, level)
        tr.probe("nontrivial")

    def one(self, ch, tr, st, v, i, cfg, turns, dmg, level):
        api, transport = v.split("_")
        cfg["transport"] = transport
        cfg["net"] = draw_net(st, lat=("none", "const", "jitter"))
        cfg["window"] = st.pick((1 << 30, 2000, 100))
        cfg["sync"] = api in ("sync", "foreign")
        cfg["run_async_in_thread"] = api == "loop"
        cfg["loop_arg"] = api == "foreign" or st.chance(0.3)
        cfg["past"] = 1
        w = World(ch, tr, transport)
        others = []
        if api == "foreign":
            # the caller's thread has a different current loop, or none
            if st.below(3):
                others.append(SimLoop(tr))
        if level == "enc":
            cfg["abody"], cfg["sbody"] = self.enc_bodies(turns, ch)
        elif api == "handoff":
            cfg["sbody"] = self.handoff_body()
        t = Tamper(*dmg, self.pos(ch), tr) if dmg else None
        s = w.add(cfg, turns, prepare=(lambda s: t.attach(s.conn)) if t else None)
        if api == "handoff" and level == "session":
            for p in (s.client, s.server):
                p.go = False
                w.sched.spawn(p.name + "/2nd", w._thread_main(lambda p=p: self.second_half(w, s, p)))
        tr.log("variant", v, desc(s))
        if api == "foreign":
            inner = w.sync_main
            o = others[0] if others else None

            def foreign():
                asyncio.set_event_loop(o)
                try:
                    inner()
                finally:
                    asyncio.set_event_loop(w.loop)
            w.sync_main = foreign
        w.deadline(3000)
        w.run()
        for o in others:
            o.close()
        return (w, s, t)

    def pos(self, ch):
        """Byte and bit to damage: drawn once, the same in every variant."""
        if not hasattr(ch, "_c19pos"):
            ts = ch.s("tamperpos")
            ch._c19pos = (ts.below(64), 1 << ts.below(8))
        return ch._c19pos

    def handoff_body(self):
        """Handshake on the caller's thread; the conversation continues on another thread."""
        def sbody(world, s, peer, chan):
            x = world.make_session(s, peer, chan)
            try:
                x.handshake_sync()
                peer.hs = "ok"
            except Exception as e:
                peer.hs = e
                peer.fail("handshake", e)
            peer.go = True
            world.sched.switch("handoff", lambda: getattr(peer, "went", False))
        return sbody

    def second_half(self, w, s, p):
        w.sched.switch("handoff", lambda: p.go or p.finished)
        try:
            if p.hs != "ok":
                return
            for d, writes in s.turns:
                for x in writes:
                    if d == p.role:
                        w.s_write(s, p, x)
                    else:
                        for _ in x["msgs"]:
                            w.s_read(s, p)
            w.s_extra(s, p)
        except Exception:
            w.s_extra(s, p)
        finally:
            p.went = True

    def enc_bodies(self, turns, ch):
        """The encrypted channel by itself, under a key both ends already share."""
        key = key_bytes(ch.seed + "/k")

        def make(world, s, peer, chan):
            kw = {}
            if s.cfg["loop_arg"] and world.loop is not None:
                kw["loop"] = world.loop
            peer.channel = R.EncryptedChannelV2(chan, key, R.Role.CLIENT if peer.role == "c" else R.Role.SERVER, **kw)
            peer.hs = "ok"
            return peer.channel

        async def abody(world, s, peer, chan):
            e = make(world, s, peer, chan)
            try:
                for d, writes in s.turns:
                    for x in writes:
                        if d == peer.role:
                            peer.sent.append(list(x["msgs"]))
                            await e.write(*x["msgs"], is_last=x["last"])
                        else:
                            for _ in x["msgs"]:
                                peer.read_ok(await e.read())
                peer.read_ok(await e.read())
            except Exception as x:
                peer.fail("read", x)

        def sbody(world, s, peer, chan):
            e = make(world, s, peer, chan)
            try:
                for d, writes in s.turns:
                    for x in writes:
                        if d == peer.role:
                            peer.sent.append(list(x["msgs"]))
                            world.s_call(s, peer, e, "write", *x["msgs"], is_last=x["last"])
                        else:
                            for _ in x["msgs"]:
                                peer.read_ok(world.s_call(s, peer, e, "read"))
                peer.read_ok(world.s_call(s, peer, e, "read"))
            except Exception as x:
                peer.fail("read", x)
        return abody, sbody

    def judge(self, tr, res, turns, dmg, level):
        v0, (w0, s0, t0) = res[0]
        hit = t0 is not None and t0.hit
        tr.probe("tampered" if hit else "clean")
        for v, (w, s, t) in res:
            need(not w.stuck, "no-progress", lambda: "%s: conversation never ends: %s" % (v, w.stuck))
            for p in (s.client, s.server):
                check_prefix(s, p)
                for op, e in p.errors:
                    need(isinstance(e, R.ex.ComException), "wrong-error", lambda: "%s: %s of %s raised %s" % (
                        v, op, p.name, err(e)))
            if not hit:
                for p in (s.client, s.server):
                    want = expected_for(s, p)
                    need(p.hs == "ok" and p.got == want, "parity", lambda: "%s: %s read %d of %d messages, handshake %s, %s"
                         % (v, p.name, len(p.got), len(want), p.hs if not isinstance(p.hs, Exception) else err(p.hs),
                            [err(e) for _, e in p.errors]))
        for v, (w, s, t) in res[1:]:
            need((t is not None and t.hit) == hit, "parity", lambda: "%s and %s put different frames on the wire" % (v0, v))
            if not hit:
                for side in ("a2b", "b2a"):
                    f0 = [f for _, f in getattr(s0.conn, side).sent_frames]
                    f1 = [f for _, f in getattr(s.conn, side).sent_frames]
                    need(f0 == f1, "parity", lambda: "%s and %s send different bytes %s: %s / %s" % (
                        v0, v, side, [short(f, 20) for f in f0][:9], [short(f, 20) for f in f1][:9]))
                for p0, p in ((s0.client, s.client), (s0.server, s.server)):
                    need(p0.lasts == p.lasts, "parity", lambda: "%s and %s report different last flags at %s" % (
                        v0, v, p.name))
            else:
                # the receiver of the damaged direction sees the same thing in every variant
                p0, p = (s0.server, s.server) if dmg[0] == "c" else (s0.client, s.client)
                need(p0.got == p.got, "parity", lambda: "after the same damage %s read %d messages with %s, %d with %s" % (
                    p.name, len(p0.got), v0, len(p.got), v))
                if dmg[2] != "drop":
                    e0, e1 = self.first(p0), self.first(p)
                    need(e0 == e1, "parity", lambda: "after the same damage %s ends with %s under %s, %s under %s" % (
                        p.name, e0, v0, e1, v))

    def first(self, p):
        return (p.errors[0][0], base(p.errors[0][1])) if p.errors else None
