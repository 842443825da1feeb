"""C16: A1/A2 server discovery."""
import struct

from .common import *

OKCH = b"-./ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_"


def parse_a2(b):
    """('ok'|'either', nosuch, prots) or ('bad',): strict reading of the A2 layout."""
    if len(b) < 3 or b[0] != ref.A2 or not b[1] & 0x80:
        return ("bad",)
    nosuch = b[1] & 1
    n = b[2]
    if n > 127:
        return ("bad",)
    extra = len(b) - 3 - 20 * n
    if extra < 0 or extra >= 20:
        return ("bad",)
    if nosuch and n:
        return ("bad",)
    prots = []
    for i in range(n):
        p = b[3 + 20 * i:23 + 20 * i]
        if any(c not in OKCH for c in p):
            return ("bad",)
        prots.append((p[:10], p[10:]))
    # unspecified: reserved bits, trailing bytes, an empty list without NoSuchServer
    if extra or b[1] & 0x7e or (n == 0 and not nosuch):
        return ("either", nosuch, prots)
    return ("ok", nosuch, prots)


def parse_a1(b):
    if len(b) < 5 or b[0] != ref.A1:
        return ("bad",)
    n = struct.unpack_from("<H", b, 3)[0]
    if n != len(b) - 5:
        return ("bad",)
    if b[2] == 0:
        if n:
            return ("bad",)
    elif b[2] == 1:
        if n != 32:
            return ("bad",)
    else:
        return ("bad",)
    return ("either" if b[1] else "ok", b[2], b[5:])


def prot(st):
    k = st.below(3)
    if k == 0:
        return st.pick((b"SCv2------", b"----------", b"ECHO------", b"a.b/c_9-zZ"))
    return bytes(OKCH[st.below(len(OKCH))] for _ in range(10))


class C16(Prop):
    id = "C16"
    title = "Discovery tells each client what the addressed server offers, or NoSuchServer"
    quick = 30000
    thorough = 400000
    expect = ("real_real", "ref_client", "ref_server", "any", "pubkey_match", "pubkey_mismatch", "injected", "bad_a1",
              "bad_a2", "then_session", "many_prots", "cut", "cut_late",
              "malformed_packet", "repeated", "repeated_after_mismatch", "same_server_session")

    def run(self, ch, tr):
        st = ch.s("cfg")
        hs = ch.s("hostile")
        cfg = draw_cfg(st)
        cfg["net"] = draw_net(st, lat=("none", "const", "jitter"))
        cfg["keys"] = k = keys_for(ch.seed)
        cfg["wanted"] = False
        env.use_backend(cfg["backend"])
        if hs.below(100) >= 80:
            return self.repeated(ch, tr, st, hs, cfg)
        mode = hs.wpick(((50, "real_real"), (25, "ref_client"), (25, "ref_server")))
        tr.probe(mode)
        if mode == "ref_client" or cfg["transport"] == "msg":
            cfg["sync"] = False
        pub = k["s_sig"][1]
        how = hs.wpick(((30, "any"), (35, "pubkey_match"), (35, "pubkey_mismatch")))
        addr = None if how == "any" else pub
        if how == "pubkey_mismatch":
            j = hs.below(3)
            b = bytearray(pub)
            if j == 0:
                b[hs.below(32)] ^= 1 << hs.below(8)
            elif j == 1:
                b[:] = bytes(32)
            else:
                b.reverse()
            addr = bytes(b)
        inj = None
        if hs.chance(0.5):
            n = hs.pick((1, 2, 1, 3, 127, 10))
            inj = [(prot(hs), prot(hs)) for _ in range(n)]
            tr.probe("injected")
            if n > 9:
                tr.probe("many_prots")
        again = hs.chance(0.3)
        bad_a1 = bad_a2 = None
        if mode == "ref_client" and hs.chance(0.6):
            bad_a1 = self.mutate(hs, ref.a1(addr), a1=True)
        if mode == "ref_server":
            bad_a2 = self.mutate(hs, ref.a2(inj or [(prot(hs), prot(hs))]) if hs.below(4) else ref.A2_NO_SUCH, a1=False) \
                if hs.chance(0.7) else (ref.A2_NO_SUCH if how == "pubkey_mismatch" else ref.a2(inj or [
                    (b"SCv2------", b"----------")]))
        out = {}

        def make_client(chan):
            cs = R.A1Client(chan)
            if addr is not None:
                cs.a1.data.AddressType = R.A1Packet.ADDRESS_TYPE_PUBKEY
                cs.a1.data.AddressSize = 32
                cs.a1.Address = addr
            return cs

        def make_server(world, s, peer, chan, first):
            x = world.make_session(s, peer, chan)
            if inj is not None and first:
                x.a2 = R.A2Packet(src_buf=ref.a2(inj))
            return x

        def second():
            return again and mode == "real_real"

        async def abody(world, s, peer, chan):
            try:
                if peer.role == "c":
                    cs = make_client(chan)
                    await cs.do_a1a2()
                    peer.a2 = cs.a2
                else:
                    x = make_server(world, s, peer, chan, True)
                    await x.handshake()
                    peer.sess0 = x
                peer.hs = "ok"
                if second():
                    x = world.make_session(s, peer, chan)
                    await x.handshake()
                    if peer.role == "c":
                        await x.app_channel.write(b"ping")
                        out["pong"] = await x.app_channel.read()
                    else:
                        out["ping"] = await x.app_channel.read()
                        await x.app_channel.write(b"pong")
            except Exception as e:
                if peer.hs is None:
                    peer.hs = e
                peer.fail("a1a2", e)

        def sbody(world, s, peer, chan):
            try:
                if peer.role == "c":
                    cs = make_client(chan)
                    cs.do_a1a2_sync()
                    peer.a2 = cs.a2
                else:
                    x = make_server(world, s, peer, chan, True)
                    x.handshake_sync()
                    peer.sess0 = x
                peer.hs = "ok"
                if second():
                    x = world.make_session(s, peer, chan)
                    x.handshake_sync()
                    if peer.role == "c":
                        x.app_channel.write_sync(b"ping")
                        out["pong"] = x.app_channel.read_sync()
                    else:
                        out["ping"] = x.app_channel.read_sync()
                        x.app_channel.write_sync(b"pong")
            except Exception as e:
                if peer.hs is None:
                    peer.hs = e
                peer.fail("a1a2", e)
        cfg["abody"] = abody
        cfg["sbody"] = sbody

        async def refc(world, s, peer, raw):
            try:
                await raw.send(ref.a1(addr) if bad_a1 is None else bad_a1)
                out["a2"] = await raw.recv()
            except RawEOF:
                pass
            finally:
                raw.close()

        async def refs(world, s, peer, raw):
            try:
                out["a1"] = await raw.recv()
                await raw.send(bad_a2)
                out["more"] = await raw.recv()
            except RawEOF:
                pass
            finally:
                raw.close()
        if bad_a1 is not None or (bad_a2 is not None and parse_a2(bad_a2)[0] != "ok"):
            tr.fault("malformed_packet")
        cut = None
        if mode == "real_real" and hs.chance(0.25):
            cut = (hs.pick("ab"), hs.below(80), hs.chance(0.5))
            again = False
        prelude(ch, tr, ch.s("pre"), cfg, 0.15)
        w = World(ch, tr, cfg["transport"])
        s = w.add(cfg, [], prepare=(lambda s: self.cutter(s, cut, tr)) if cut else None, client=refc if mode == "ref_client" else None, server=refs if mode == "ref_server" else None)
        tr.log("cfg", desc(s), mode, how, inj and len(inj), bad_a1 and short(bad_a1, 40), bad_a2 and short(bad_a2, 40))
        w.deadline(5000)
        w.run()
        need(not w.stuck, "no-progress", lambda: "discovery never completes: %s" % w.stuck)
        if cut:
            return self.judge_cut(tr, s, how, addr, inj)
        self.judge(tr, s, mode, how, addr, pub, inj, bad_a1, bad_a2, out, second())
        tr.probe("nontrivial")

    def repeated(self, ch, tr, st, hs, base):
        """Several requests on one connection, several connections at once, one offer object serving them all."""
        plans = {}
        shared = hs.chance(0.5)
        prots0 = [(prot(hs), prot(hs)) for _ in range(hs.pick((1, 2, 5, 127)))]
        one = R.A2Packet(src_buf=ref.a2(prots0))

        def draw_plan(k):
            pub = k["s_sig"][1]
            rounds = []
            for i in range(1 + hs.below(4)):
                how = hs.wpick(((30, "any"), (35, "pubkey_match"), (35, "pubkey_mismatch")))
                addr = None if how == "any" else pub
                if how == "pubkey_mismatch":
                    b = bytearray(pub)
                    b[hs.below(32)] ^= 1 << hs.below(8)
                    addr = bytes(b)
                if shared:
                    inj, a2 = prots0, one
                elif hs.chance(0.5):
                    inj = [(prot(hs), prot(hs)) for _ in range(hs.pick((1, 2, 3)))]
                    a2 = R.A2Packet(src_buf=ref.a2(inj))
                else:
                    inj, a2 = [(b"SCv2------", b"----------")], None
                rounds.append((how, addr, inj, a2))
            return {"rounds": rounds, "keep": hs.chance(0.3), "session": hs.chance(0.4), "got": [],
                    "same": hs.chance(0.25)}

        def request(plan, chan, i):
            how, addr, _, _ = plan["rounds"][i]
            cs = plan.get("client")
            if cs is None or not plan["keep"]:
                cs = plan["client"] = R.A1Client(chan)
            if addr is not None:
                cs.a1.data.AddressType = R.A1Packet.ADDRESS_TYPE_PUBKEY
                cs.a1.data.AddressSize = 32
                cs.a1.Address = addr
            elif cs.a1.data.AddressType:
                cs = plan["client"] = R.A1Client(chan)
            return cs

        def server(plan, world, s, peer, chan, i=None):
            x = plan.get("server")
            if x is None or not plan["same"]:
                x = plan["server"] = world.make_session(s, peer, chan)
            elif i is None:
                tr.probe("same_server_session")
            if i is not None:
                x.a2 = plan["rounds"][i][3]
            return x

        def note(plan, a2):
            ns = bool(a2.data.Header.NoSuchServer)
            plan["got"].append((ns, [] if ns else [(bytes(p.P1), bytes(p.P2)) for p in a2.Prot]))

        async def abody(world, s, peer, chan):
            plan = plans[s.cid]
            try:
                for i in range(len(plan["rounds"])):
                    if peer.role == "c":
                        cs = request(plan, chan, i)
                        await cs.do_a1a2()
                        note(plan, cs.a2)
                    else:
                        await server(plan, world, s, peer, chan, i).handshake()
                if plan["session"]:
                    x = server(plan, world, s, peer, chan) if peer.role == "s" else world.make_session(s, peer, chan)
                    await x.handshake()
                    if peer.role == "c":
                        await x.app_channel.write(b"ping")
                        plan["pong"] = await x.app_channel.read()
                    else:
                        plan["ping"] = await x.app_channel.read()
                        await x.app_channel.write(b"pong")
                peer.hs = "ok"
            except Exception as e:
                peer.hs = e
                peer.fail("a1a2", e)

        def sbody(world, s, peer, chan):
            plan = plans[s.cid]
            try:
                for i in range(len(plan["rounds"])):
                    if peer.role == "c":
                        cs = request(plan, chan, i)
                        cs.do_a1a2_sync()
                        note(plan, cs.a2)
                    else:
                        server(plan, world, s, peer, chan, i).handshake_sync()
                if plan["session"]:
                    x = server(plan, world, s, peer, chan) if peer.role == "s" else world.make_session(s, peer, chan)
                    x.handshake_sync()
                    if peer.role == "c":
                        x.app_channel.write_sync(b"ping")
                        plan["pong"] = x.app_channel.read_sync()
                    else:
                        plan["ping"] = x.app_channel.read_sync()
                        x.app_channel.write_sync(b"pong")
                peer.hs = "ok"
            except Exception as e:
                peer.hs = e
                peer.fail("a1a2", e)
        prelude(ch, tr, ch.s("pre"), base, 0.12)
        w = World(ch, tr, base["transport"])
        for i in range(1 + hs.geometric(0.4, 2)):
            cfg = dict(base)
            cfg["keys"] = keys_for("%s/%d" % (ch.seed, i))
            if base["transport"] == "msg":
                cfg["sync"] = False
            cfg["abody"], cfg["sbody"] = abody, sbody
            plans[i] = draw_plan(cfg["keys"])
            w.add(cfg, [])
        tr.log("cfg", desc(w.sessions[0]), [[r[0] for r in p["rounds"]] for p in plans.values()])
        w.deadline(5000)
        w.run()
        need(not w.stuck, "no-progress", lambda: "discovery never completes: %s" % w.stuck)
        for s in w.sessions:
            plan = plans[s.cid]
            for p in (s.client, s.server):
                need(p.hs == "ok", "client-outcome" if p.role == "c" else "server-outcome",
                     lambda: "%s: %d discovery requests on one connection ended with %s" % (
                         p.name, len(plan["rounds"]), err(p.hs) if isinstance(p.hs, BaseException) else p.hs))
            want = [(True, []) if how == "pubkey_mismatch" else (False, inj) for how, _, inj, _ in plan["rounds"]]
            need(plan["got"] == want, "client-outcome", lambda: "client reports %s, the server offers %s" % (
                [(n, len(p)) for n, p in plan["got"]], [(n, len(p)) for n, p in want]))
            n = len(want)
            frames = [f for _, f in s.conn.b2a.sent_frames[:n]]
            for i, f in enumerate(frames):
                exp = ref.A2_NO_SUCH if want[i][0] else ref.a2(want[i][1])
                need(f == exp, "wrong-answer", lambda: "request %d was answered %s, expected %s" % (
                    i, short(f, 50), short(exp, 50)))
            if any(h == "pubkey_mismatch" for h, _, _, _ in plan["rounds"][:-1]):
                tr.probe("repeated_after_mismatch")
            if plan["session"]:
                need(plan.get("ping") == b"ping" and plan.get("pong") == b"pong", "session-after-discovery",
                     "a session on the same connection after discovery failed")
        tr.probe("repeated")
        tr.probe("nontrivial")

    def cutter(self, s, cut, tr):
        """The connection breaks after some bytes (or, on message transports, frames) of one direction."""
        pipe = s.conn.a2b if cut[0] == "a" else s.conn.b2a
        if hasattr(pipe, "cut_after"):
            pipe.cut_after = cut[1] % 2
        else:
            pipe.cut = (cut[1], "reset" if cut[2] else "eof")

    def judge_cut(self, tr, s, how, addr, inj):
        """Either end completes correctly or reports a broken connection; nobody reports a wrong offer."""
        tr.probe("cut")
        c, v = s.client, s.server
        for p in (c, v):
            need(p.hs == "ok" or isinstance(p.hs, R.ex.ComException), "cut", lambda: "%s: discovery over a broken "
                 "connection ended with %s" % (p.name, err(p.hs)))
        if c.hs == "ok":
            nosuch = how == "pubkey_mismatch"
            prots = [] if nosuch else inj or [(b"SCv2------", b"----------")]
            got = [(bytes(p.P1), bytes(p.P2)) for p in c.a2.Prot] if prots else []
            need(bool(c.a2.data.Header.NoSuchServer) == nosuch and got == prots, "cut",
                 lambda: "client reports %s over a broken connection" % (got[:3],))
            tr.probe("cut_late")
        tr.probe("nontrivial")

    def mutate(self, hs, f, a1):
        b = bytearray(f)
        k = hs.below(7)
        if k == 0 and b:
            b[hs.below(min(len(b), 5))] ^= 1 << hs.below(8)
        elif k == 1:
            b = b[:hs.below(len(b))]
        elif k == 2:
            b += bytes(hs.below(256) for _ in range(1 + hs.below(21)))
        elif k == 3:
            b[hs.below(len(b))] = hs.pick((0, 255, 0x20, 0x0a, 0x80, 0x40, 0x5b, 0x60, 0x7b, 0x2c, 0xe9))
        elif k == 4:
            b[2] = hs.pick((0, 1, 2, 3, 127, 128, 255))
        elif k == 5 and a1 and len(b) >= 5:
            struct.pack_into("<H", b, 3, hs.pick((0, 1, 31, 32, 33, 65535)))
        elif k == 5:
            b[1] = hs.below(256)
        else:
            b[len(b) - 1] = hs.pick((0x0a, 0, 0x20, 0xff, 0x2d))
        return bytes(b)

    def judge(self, tr, s, mode, how, addr, pub, inj, bad_a1, bad_a2, out, second):
        E = R.ex
        c, v = s.client, s.server
        tr.probe(how)
        prots = inj or [(b"SCv2------", b"----------")]
        want_a2 = ref.A2_NO_SUCH if how == "pubkey_mismatch" else ref.a2(prots)
        # server side
        if mode != "ref_server":
            frames = [f for _, f in s.conn.b2a.sent_frames]
            verdict = parse_a1(bad_a1) if bad_a1 is not None else ("ok", 0 if addr is None else 1, addr)
            if bad_a1 is not None and bad_a1[:5] == b"SCv2\x01":
                return
            if verdict[0] != "bad":
                want = ref.A2_NO_SUCH if verdict[1] == 1 and verdict[2] != pub else ref.a2(prots)
            if verdict[0] == "ok" or (verdict[0] == "either" and v.hs == "ok"):
                need(v.hs == "ok", "server-outcome", lambda: "server failed on a valid request: %s" % err(v.hs))
                need(frames[:1] == [want], "wrong-answer", lambda: "server answered %s to a %s request, expected %s" % (
                    [short(f, 50) for f in frames[:2]], how, short(want, 50)))
                need(len(frames) == 1 or second, "wrong-answer", "server answered more than once")
                need(v.sess0.app_channel is None, "server-outcome", "discovery opened an application channel")
                need(bool(v.sess0.is_done), "server-outcome", "session is not marked done after discovery")
            else:
                need(isinstance(v.hs, E.BadPeer), "bad-request", lambda: "malformed request %s ended with %s" % (
                    short(bad_a1, 40), v.hs if not isinstance(v.hs, Exception) else err(v.hs)))
                need(not frames, "bad-request", lambda: "server answered a malformed request")
                tr.probe("bad_a1")
        # client side
        if mode != "ref_client":
            f = s.conn.a2b.sent_frames
            need(f and f[0][1] == ref.a1(addr), "wrong-request", lambda: "client sent %s, expected %s" % (
                short(f[0][1], 40) if f else None, short(ref.a1(addr), 40)))
            verdict = parse_a2(bad_a2 if mode == "ref_server" else want_a2)
            if verdict[0] == "ok" or (verdict[0] == "either" and c.hs == "ok"):
                need(c.hs == "ok", "client-outcome", lambda: "client failed on a valid answer: %s" % err(c.hs))
                a2 = c.a2
                need(bool(a2.data.Header.NoSuchServer) == bool(verdict[1]), "client-outcome", lambda: "client reports "
                     "NoSuchServer=%r, the answer says %r" % (a2.data.Header.NoSuchServer, verdict[1]))
                got = [(bytes(p.P1), bytes(p.P2)) for p in a2.Prot] if verdict[2] else []
                need(got == verdict[2], "client-outcome", lambda: "client reports protocols %s, the answer offers %s" % (
                    got[:3], verdict[2][:3]))
                need(a2.data.Count == len(verdict[2]), "client-outcome", "Count does not match the answer")
            else:
                need(isinstance(c.hs, E.BadPeer), "bad-answer", lambda: "malformed answer %s ended with %s" % (
                    short(bad_a2, 40), c.hs if not isinstance(c.hs, Exception) else err(c.hs)))
                tr.probe("bad_a2")
            need(len(f) == 1 or second, "wrong-request", "client sent more than its request")
        if second:
            need(out.get("ping") == b"ping" and out.get("pong") == b"pong", "session-after-discovery",
                 lambda: "a session on the same connection after discovery failed: %s" % [
                     err(e) for p in (c, v) for _, e in p.errors])
            tr.probe("then_session")
