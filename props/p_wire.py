"""C06, C07: what goes on the wire."""
import asyncio
import gc

from .common import *


class C07(Prop):
    id = "C07"
    title = "Both roles speak exactly Salt Channel v2 and interoperate with it"
    quick = 18000
    thorough = 400000
    expect = ("real_real", "ref_server", "ref_client", "multi_on_wire", "bulk_65535", "bulk_65536", "bare")
    cpu_limit = 90.0

    def directed(self, i):
        return {"special": [1, i]} if i < 2 else None

    def bulk(self, ch, tr):
        """As many messages in one write as one packet can count, and one more, to a reference peer."""
        st = ch.s("cfg")
        n = ch.s("special").pick((65535, 65536, 65534))
        tr.probe("bulk_%d" % n)
        kind = st.pick(("ref_server", "ref_client"))
        cfg = draw_cfg(st, transports=("msg",), net={"seg": "whole", "lat": "none", "short_recv": False})
        cfg.update(keys=keys_for(ch.seed), backend="native", duplex=False, sync=False, pace=False)
        if kind == "ref_client":
            cfg["buffer_M4"] = False        # the server speaks first
        env.use_backend("native")
        d = "c" if kind == "ref_server" else "s"
        both = [{"msgs": [b"%d" % (i % 10) for i in range(n)], "last": False, "ba": False}]
        turns = [(d, both), ("s" if d == "c" else "c", both)]
        w = World(ch, tr, "msg", max_steps=5000000)
        gc.enable()
        s = w.add(cfg, turns, client=ref_client if kind == "ref_client" else None,
                  server=ref_server if kind == "ref_server" else None)
        w.run()
        need(not w.stuck, "no-progress", lambda: "conversation never completes: %s" % w.stuck)
        for p in (s.client, s.server):
            check_complete(s, p)
        self.half_wire(s, kind)
        tr.probe("nontrivial")

    def run(self, ch, tr):
        if ch.s("special").wpick(((9999, "plain"), (1, "bulk"))) == "bulk":
            return self.bulk(ch, tr)
        if ch.s("bare").chance(0.04):
            return self.bare(ch, tr)
        st = ch.s("cfg")
        kind = st.wpick(((50, "real_real"), (25, "ref_server"), (25, "ref_client")))
        tr.probe(kind)
        cfg = draw_cfg(st)
        cfg["keys"] = keys_for(ch.seed)
        env.use_backend(cfg["backend"])
        cs = ch.s("convo")
        scale = cs.wpick(((60, 1), (38, 0), (2, 2)))
        turns = draw_convo(cs, "0", scale=scale, max_turns=5, max_writes=4, max_msgs=10,
                           client_first=cfg["buffer_M4"])
        if kind != "real_real":
            # a reference peer may package its messages either way and use any legal time values
            for d, wl in turns:
                for x in wl:
                    x["style"] = cs.pick(("auto", "single", "multi"))
            first = cs.below(2)
            later = cs.pick((0, 1, 12345, 0xffffffff)) if first else cs.pick((0, 0))
            cfg["ref_times"] = {"m1": first, "m2": first, "m3": later, "m4": later}
            cfg["ref_app_time"] = later
        draw_ff(ch.s("ff"), cfg)
        draw_defer(ch.s("ff"), cfg, turns)
        prelude(ch, tr, ch.s("pre"), cfg, 0.12)
        w = World(ch, tr, cfg["transport"])
        if kind == "ref_client":
            cfg["sync"] = False
        s = w.add(cfg, turns, client=ref_client if kind == "ref_client" else None,
                  server=ref_server if kind == "ref_server" else None)
        tr.log("cfg", kind, desc(s), [(d, [[len(m) for m in x["msgs"]] for x in wl]) for d, wl in turns])
        w.run()
        need(not w.stuck, "no-progress", lambda: "%s conversation never completes: %s" % (kind, w.stuck))
        for p in (s.client, s.server):
            check_complete(s, p)
        if any(ref.use_multi(x["msgs"]) for x in writes_of(turns, "c") + writes_of(turns, "s")):
            tr.probe("multi_on_wire")
        if kind == "real_real":
            check_wire(s)
        else:
            self.half_wire(s, kind)
        tr.probe("nontrivial")

    def bare(self, ch, tr):
        """The encrypted channel by itself, with a key both ends hold and any session nonce."""
        tr.probe("bare")
        st = ch.s("cfg")
        cfg = draw_cfg(st)
        cfg["keys"] = keys_for(ch.seed)
        env.use_backend(cfg["backend"])
        key = key_bytes(ch.seed + "/psk")
        sn = {"c": st.pick((None, key_bytes(ch.seed + "/sn")[:8], b"\xff" * 8, bytes(7) + b"\x01", b"\x01" + bytes(7)))}
        sn["s"] = sn["c"] if sn["c"] is not None or st.below(2) == 0 else bytes(8)
        turns = draw_convo(ch.s("convo"), "0", scale=st.below(2), max_turns=5, max_writes=4, max_msgs=6)

        def make(world, s, peer, chan):
            role = R.Role.CLIENT if peer.role == "c" else R.Role.SERVER
            peer.sess = e = R.EncryptedChannelV2(chan, key, role, **({"session_nonce": sn[peer.role]} if sn[peer.role] is not None else {}))
            peer.hs = "ok"
            return e

        async def abody(world, s, peer, chan):
            e = make(world, s, peer, chan)
            try:
                for d, wl in turns:
                    for x in wl:
                        if d == peer.role:
                            peer.sent.append(x["msgs"])
                            await (e.write(*x["msgs"], is_last=True) if x["last"] else e.write(*x["msgs"]))
                        else:
                            for _ in x["msgs"]:
                                peer.read_ok(await e.read())
                                peer.lasts.append(getattr(e, "last_flag", None))
            except Exception as ex:
                peer.fail("bare", ex)

        def sbody(world, s, peer, chan):
            e = make(world, s, peer, chan)
            try:
                for d, wl in turns:
                    for x in wl:
                        if d == peer.role:
                            peer.sent.append(x["msgs"])
                            e.write_sync(*x["msgs"], is_last=x["last"])
                        else:
                            for _ in x["msgs"]:
                                peer.read_ok(e.read_sync())
                                peer.lasts.append(getattr(e, "last_flag", None))
            except Exception as ex:
                peer.fail("bare", ex)
        cfg["abody"], cfg["sbody"] = abody, sbody
        w = World(ch, tr, cfg["transport"])
        s = w.add(cfg, turns)
        tr.log("cfg", "bare", desc(s), [(d, [[len(m) for m in x["msgs"]] for x in wl]) for d, wl in turns])
        w.run()
        need(not w.stuck, "no-progress", lambda: "bare encrypted channel: conversation never completes: %s" % w.stuck)
        for p, pipe, n in ((s.client, s.conn.a2b, 1), (s.server, s.conn.b2a, 2)):
            check_complete(s, p)
            exp = []
            for x in writes_of(turns, p.role):
                for j, m in enumerate(x["msgs"]):
                    exp.append(ref.enc(ref.seal(key, n, m, sn[p.role] or bytes(8)), x["last"] and j == len(x["msgs"]) - 1))
                    n += 2
            got = [f for _, f in pipe.sent_frames]
            for i, (a, b) in enumerate(zip(got, exp)):
                need(a == b, "wire", lambda: "bare encrypted channel: packet %d of %s is %s, the protocol says %s" % (
                    i, p.name, short(a, 60), short(b, 60)))
            need(len(got) == len(exp), "wire", lambda: "bare encrypted channel: %d packets, the protocol says %d" % (
                len(got), len(exp)))
            want = [x["last"] and j == len(x["msgs"]) - 1 for x in writes_of(turns, "s" if p.role == "c" else "c")
                    for j in range(len(x["msgs"]))]
            need(None in p.lasts or [bool(v) for v in p.lasts] == want, "last-flag", lambda: "bare encrypted channel: last flags read %s, "
                 "written %s" % (p.lasts[:20], want[:20]))
        tr.probe("nontrivial")

    def half_wire(self, s, kind):
        """Only the real side's frames are compared; the reference side already validated the handshake."""
        k = s.cfg["keys"]
        real = s.client if kind == "ref_server" else s.server
        frames = [f for _, f in (s.conn.a2b if real.role == "c" else s.conn.b2a).sent_frames]
        peer_first = (s.conn.b2a if real.role == "c" else s.conn.a2b).sent_frames[0][1]
        key = ref.shared(k["c_enc"][0], k["s_enc"][1])
        m1, m2 = (frames[0], peer_first) if real.role == "c" else (peer_first, frames[0])
        h1, h2 = ref.h512(m1), ref.h512(m2)
        if real.role == "c":
            wanted = s.cfg["wanted"] and k["s_sig"][1] or None
            exp = [ref.m1(0, k["c_enc"][1], wanted)]
            plain = ref.m4(0, k["c_sig"][1], ref.sign(ref.sig2_msg(h1, h2), k["c_sig"][0]))
            n = 1
        else:
            exp = [ref.m2(0, k["s_enc"][1])]
            plain = ref.m3(0, k["s_sig"][1], ref.sign(ref.sig1_msg(h1, h2), k["s_sig"][0]))
            n = 2
        exp.append(ref.enc(ref.seal(key, n, plain)))
        n += 2 + 2 * s.cfg["ff"]
        for x in writes_of(s.turns, real.role):
            pl = ref.plains_of_write(x["msgs"], 0)
            for j, p in enumerate(pl):
                exp.append(ref.enc(ref.seal(key, n, p), x["last"] and j == len(pl) - 1))
                n += 2
        for i, (a, b) in enumerate(zip(frames, exp)):
            need(a == b, "wire", lambda: "frame %d of %s is %s, the protocol says %s" % (i, real.name, short(a, 60),
                                                                                        short(b, 60)))
        need(len(frames) == len(exp), "wire", lambda: "%s sent %d frames, the protocol says %d" % (
            real.name, len(frames), len(exp)))


class C06(Prop):
    id = "C06"
    title = "No nonce is reused and no plaintext or identity leaks, even when writes fail"
    quick = 18000
    thorough = 400000
    expect = ("write_failed", "write_cancelled", "concurrent_writes", "long_session", "no_such_server", "attack_flip")
    cpu_limit = 90.0

    def directed(self, i):
        return {"special": [1]} if i == 0 else None

    def long(self, ch, tr):
        """More packets than any 16-bit counter has, in one session."""
        tr.probe("long_session")
        st = ch.s("cfg")
        cfg = draw_cfg(st, transports=("msg",), net={"seg": "whole", "lat": "none", "short_recv": False})
        cfg.update(keys=keys_for(ch.seed), backend="native", duplex=False, sync=False, pace=False, mitm_c=False,
                   mitm_s=False)
        env.use_backend("native")
        n = 33000
        d = "c" if cfg["buffer_M4"] else st.pick("cs")
        msgs = [payload("big", 65536)] + [payload("k%d" % i, 20) for i in range(3)] + [b"%d" % i for i in range(n)]
        turns = [(d, [{"msgs": msgs, "last": False, "ba": False}])]
        w = World(ch, tr, "msg", max_steps=5000000)
        gc.enable()
        s = w.add(cfg, turns)
        w.run()
        self.judge(s, tr)
        tr.probe("nontrivial")

    def run(self, ch, tr):
        if ch.s("special").wpick(((9999, "plain"), (1, "long"))) == "long":
            return self.long(ch, tr)
        st = ch.s("cfg")
        cfg = draw_cfg(st, transports=("msg", "msg", "aio", "thr"))
        cfg["keys"] = k = keys_for(ch.seed)
        cfg["duplex"] = True
        cfg["sync"] = False
        cfg["net"] = draw_net(st, lat=("none", "const", "jitter"))
        env.use_backend(cfg["backend"])
        fs = ch.s("faults")
        if cfg["transport"] == "thr":
            self.thr_faults(cfg, fs, tr)
        elif cfg["transport"] == "msg":
            self.msg_faults(cfg, fs, tr)
        draw_ff(ch.s("ff"), cfg)
        prelude(ch, tr, ch.s("pre"), cfg, 0.12)
        xs = ch.s("interference")
        att = None
        mode = xs.wpick(((78, "none"), (16, "attacker"), (6, "no_such_server")))
        if mode == "no_such_server":
            b = bytearray(k["s_sig"][1])
            b[xs.below(32)] ^= 1 << xs.below(8)
            cfg["wanted"] = bytes(b) if xs.below(2) else ref.sig_keys(key_bytes(ch.seed + "/nobody"))[1]
            tr.probe("no_such_server")
        elif mode == "attacker":
            att = Attacker(xs, tr, rate=(0.35, 0.8)[xs.below(2)], budget=1 + xs.below(3),
                           attacks=("flip", "drop", "dup", "swap", "replay", "reflect", "inject", "truncate", "extend",
                                    "hdr", "empty"))
        w = World(ch, tr, cfg["transport"])
        cs = ch.s("convo")
        turns = draw_convo(cs, "0", scale=cs.wpick(((70, 0), (30, 1))), max_turns=4, max_writes=5, max_msgs=4,
                           client_first=True, p=0.8)
        s = w.add(cfg, turns, prepare=None if att is None else lambda s: att.attach(s.conn))
        if w.loop is not None:
            self.stubborn(w, s, fs, tr)
        w.deadline(500)
        w.run()
        self.judge(s, tr)
        tr.probe("nontrivial")

    # -- fault models ----------------------------------------------------------------
    def thr_faults(self, cfg, fs, tr):
        n = fs.below(6)
        part = fs.pick((0, 1, 3, 4, 5, 30))
        side = fs.pick("cs")
        on = fs.chance(0.5)

        def setup(s, peer, sock):
            if on and peer.role == side:
                sock.send_fault = (n, part, fs_exc(n))
        cfg["sock_setup"] = setup

    def msg_faults(self, cfg, fs, tr):
        rate = fs.pick((0.0, 0.15, 0.4))
        slow = fs.chance(0.5)

        def setup(s, peer, chn):
            def wf(idx):
                if idx >= (1 if peer.role == "c" and cfg["buffer_M4"] else 2) and fs.chance(rate):
                    m = fs.pick(("before", "after", "partial"))
                    tr.fault("write_error_" + m)
                    tr.log("wfault", peer.name, idx, m)
                    return m
            chn.write_fault = wf
            if slow:
                chn.slow_write = lambda: 0.01 * fs.below(5)
        cfg["chan_setup"] = setup

    def stubborn(self, w, s, fs, tr):
        """Applications that go on writing after failed or cancelled writes, from several tasks."""
        extra = fs.below(4)

        async def writer(peer, i):
            while peer.hs is None:
                await asyncio.sleep(0.05)
                if w.sched.now() > 400:
                    return
            if peer.hs != "ok":
                return
            tr.probe("concurrent_writes")
            for j in range(1 + fs.below(4)):
                huge = fs.chance(0.03)      # one packet per message
                msgs = [payload("x%s%d.%d.%d" % (peer.role, i, j, n), 65536 if huge else fs.pick((40, 20, 64, 300)))
                        for n in range(1 + fs.below(6 if huge else 3))]
                peer.sent.append(msgs)
                t = asyncio.ensure_future(peer.sess.app_channel.write(*msgs, is_last=fs.chance(0.1)))
                if fs.chance(0.3):
                    for _ in range(fs.below(3)):
                        await asyncio.sleep(0)
                    if not t.done():
                        t.cancel()
                        tr.fault("cancel_write")
                try:
                    await t
                except asyncio.CancelledError:
                    tr.probe("write_cancelled")
                except R.ex.ComException:
                    tr.probe("write_failed")
                except Exception as e:
                    peer.fail("write", e)
                await asyncio.sleep(0.01 * fs.below(3))
        for i in range(extra):
            peer = s.client if fs.below(2) == 0 else s.server
            w.tasks.append((peer, w.loop.create_task(writer(peer, i))))

    # -- oracle -----------------------------------------------------------------------
    def judge(self, s, tr):
        k = s.cfg["keys"]
        key = ref.shared(k["c_enc"][0], k["s_enc"][1])
        keys = {"c": key, "s": key}
        for role, pipe, at, own in (("c", s.conn.b2a, 6, "c_enc"), ("s", s.conn.a2b, 10, "s_enc")):
            # the key an endpoint computes from an opening message that was tampered with
            first = pipe.rcvd_frames[0] if pipe.rcvd_frames else b""
            if len(first) >= at + 32:
                try:
                    keys[role] = ref.shared(k[own][0], first[at:at + 32])
                except Exception:
                    pass
        secrets = [("client signing secret", k["c_sig"][0][:32]), ("server signing secret", k["s_sig"][0][:32]),
                   ("client encryption secret", k["c_enc"][0]), ("server encryption secret", k["s_enc"][0]),
                   ("session key", key), ("client identity key", k["c_sig"][1])]
        plains = [m for p in (s.client, s.server) for wl in p.sent for m in wl if len(set(m[:16])) >= 10]
        for peer, pipe, parity in ((s.client, s.conn.a2b, 1), (s.server, s.conn.b2a, 0)):
            frames = [f for _, f in pipe.sent_frames]
            raw = b"|".join(frames)
            for name, sec in secrets:
                need(sec not in raw, "leak", lambda: "%s appears in the clear in what %s sent" % (name, peer.name))
            if not (s.cfg["wanted"] and peer.role == "c"):
                need(k["s_sig"][1] not in raw, "leak", lambda: "the server identity key appears in the clear in what "
                     "%s sent" % peer.name)
            for m in plains:
                need(m not in raw and m[:16] not in raw, "leak", lambda: "application plaintext appears on the wire")
            used = {}
            n_enc = 0
            nxt = 2 - parity
            for i, f in enumerate(frames[1:]):
                need(len(f) >= 18 and f[0] == ref.ENC, "not-encrypted", lambda: "frame %d of %s after its first is not an "
                     "encrypted packet: %s" % (i + 1, peer.name, short(f)))
                n_enc += 1
                found = None
                near = list(range(nxt, nxt + 120))
                if i and s.cfg["ff"]:
                    near += list(range(nxt + 2 * s.cfg["ff"], nxt + 2 * s.cfg["ff"] + 120))
                for n in near + list(range(nxt - 1, -1, -1) if nxt < 4000 else
                                     list(range(nxt - 1, nxt - 400, -1)) + list(range(400))):
                    if ref.unseal(keys[peer.role], n, f[2:]) is not None:
                        found = n
                        break
                need(found is not None, "nonce", lambda: "frame %d of %s opens under none of the nonces around %d" % (
                    i + 1, peer.name, nxt))
                need(found not in used or used[found] == f, "nonce-reuse", lambda: "%s encrypted two messages under "
                     "nonce %d" % (peer.name, found))
                need(found not in used, "nonce-reuse", lambda: "%s sent nonce %d twice" % (peer.name, found))
                need(found % 2 == parity, "nonce", lambda: "%s used nonce %d of the other direction" % (peer.name, found))
                need(found >= nxt, "nonce", lambda: "%s went back to nonce %d after %d" % (peer.name, found, nxt - 2))
                used[found] = f
                nxt = found + 2


def fs_exc(n):
    return (BrokenPipeError, ConnectionResetError, OSError, TimeoutError)[n % 4]
