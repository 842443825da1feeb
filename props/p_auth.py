"""C03, C04: authentication against hostile peers that run the protocol themselves."""
from .common import *

LOW_ORDER_SIG_KEYS = (bytes([1]) + bytes(31), bytes(32),
                      bytes.fromhex("c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a"))
L = 2 ** 252 + 27742317777372353535851937790883648493


def mangle_sig(st, sig):
    k = st.below(3)
    b = bytearray(sig)
    if k == 0:
        b[st.below(64)] ^= 1 << st.below(8)
    elif k == 1:      # the other encoding of S: S + L
        s = int.from_bytes(sig[32:], "little") + L
        if s < 1 << 256:
            b[32:] = s.to_bytes(32, "little")
        else:
            b[63] ^= 1
    else:
        b[:32], b[32:] = b[32:], b[:32]
    return bytes(b)


# what the hostile side does with its identity message: (weight, name)
IDENT = ((30, "honest"), (10, "flip_sig"), (8, "wrong_prefix"), (8, "other_key"), (8, "swap_hashes"), (8, "bad_h1"),
         (8, "bad_h2"), (8, "zero_sig"), (8, "replayed"), (6, "low_order"), (6, "flip_key"), (6, "bad_size"),
         (6, "bad_type"), (6, "unkeyed"), (4, "own_as_victim"), (4, "no_prefix"), (4, "other_time"))


def ident_time(st):
    """Any time at all: without a time checker of its own an endpoint accepts them all."""
    return st.pick((0, 1, 2, (1 << 32) - 1, 1000, 1 << 31))


def ident_packet(st, tr, how, mk, prefix, other_prefix, h1, h2, own, victim, replay_sig, typ, time):
    """-> (plaintext or None, presented key, does it prove possession of that key for this transcript?)"""
    plain, key, _ = _ident(st, tr, how, mk, prefix, other_prefix, h1, h2, own, victim, replay_sig, typ, time)
    valid = (plain is not None and len(plain) == 102 and plain[0] == typ and plain[6:38] == key and
             ref.verify(plain[38:], prefix + h1 + h2, key))
    return plain, key, valid


def _ident(st, tr, how, mk, prefix, other_prefix, h1, h2, own, victim, replay_sig, typ, time):
    """-> (plaintext, presented key, valid?)  own/victim: (sk, pk)."""
    good = prefix + h1 + h2
    sk, pk = own
    tr.log("ident", how)
    if how != "honest":
        tr.fault("hostile_" + how)
    if how == "honest":
        return mk(time, pk, ref.sign(good, sk)), pk, True
    if how == "other_time":
        return mk((7, 1, 1 << 31, (1 << 32) - 1)[st.below(4)], pk, ref.sign(good, sk)), pk, True
    if how == "flip_sig":
        return mk(time, pk, mangle_sig(st, ref.sign(good, sk))), pk, False
    if how == "wrong_prefix":
        p = other_prefix if st.below(2) == 0 else bytes(b ^ (1 << st.below(8)) if i == 7 else b for i, b in enumerate(prefix))
        return mk(time, pk, ref.sign(p + h1 + h2, sk)), pk, False
    if how == "no_prefix":
        return mk(time, pk, ref.sign(h1 + h2, sk)), pk, False
    if how == "other_key":      # presents the victim's key, signs with its own
        return mk(time, victim[1], ref.sign(good, sk)), victim[1], False
    if how == "own_as_victim":  # presents its own key with the victim's signature over nothing relevant
        return mk(time, pk, ref.sign(good, victim[0])), pk, False
    if how == "swap_hashes":
        return mk(time, pk, ref.sign(prefix + h2 + h1, sk)), pk, False
    if how in ("bad_h1", "bad_h2"):
        h = bytearray(h1 if how == "bad_h1" else h2)
        k = st.below(3)
        if k == 0:
            h[st.below(64)] ^= 1 << st.below(8)
        elif k == 1:
            h[:] = bytes(64)
        else:
            h[32:] = bytes(32)
        a, b = (bytes(h), h2) if how == "bad_h1" else (h1, bytes(h))
        return mk(time, pk, ref.sign(prefix + a + b, sk)), pk, False
    if how == "zero_sig":
        sig = bytes(64) if st.below(2) == 0 else bytes([1]) + bytes(63)
        key = victim[1] if st.below(2) == 0 else pk
        return mk(time, key, sig), key, False
    if how == "replayed":       # an honest signature of the victim from another session
        return mk(time, victim[1], replay_sig), victim[1], False
    if how == "low_order":
        key = st.pick(LOW_ORDER_SIG_KEYS)
        return mk(time, key, st.pick((key + bytes(32), bytes([1]) + bytes(63), bytes(64)))), key, False
    if how == "flip_key":
        b = bytearray(pk)
        b[st.below(32)] ^= 1 << st.below(8)
        return mk(time, bytes(b), ref.sign(good, sk)), bytes(b), False
    if how == "bad_size":
        p = mk(time, pk, ref.sign(good, sk))
        # only shorter identity messages: the signature is then incomplete
        return p[:st.pick((101, 38, 70, 6, 5, 2, 1, 0, 100))], pk, False
    if how == "bad_type":
        p = bytearray(mk(time, pk, ref.sign(good, sk)))
        p[0] = st.pick((3 if typ == 4 else 4, 5, 11, 0, 2, 255))
        return bytes(p), pk, False
    if how == "unkeyed":
        return None, pk, False
    raise HarnessError(how)


class C03(Prop):
    id = "C03"
    title = "A client handshake succeeds only against the holder of the accepted server key"
    quick = 30000
    thorough = 600000
    expect = ("accepted", "rejected", "relay", "pinned_mismatch", "earlier_sessions")

    def run(self, ch, tr):
        st = ch.s("cfg")
        hs = ch.s("hostile")
        cfg = draw_cfg(st)
        cfg["net"] = draw_net(st, lat=("none", "const", "jitter"))
        env.use_backend(cfg["backend"])
        cfg["keys"] = k = keys_for(ch.seed)
        prelude(ch, tr, ch.s("pre"), cfg, 0.25)
        evil = ref.sig_keys(key_bytes(ch.seed + "/evil"))
        cfg["buffer_M4"] = st.chance(0.3)
        cfg["mitm_s"] = False
        relay = hs.chance(0.15)
        if relay:
            return self.relay(ch, tr, st, hs, cfg, evil)
        how = hs.wpick(IDENT)
        bad_m2 = hs.chance(0.05)
        # who the hostile server claims to be: itself or the pinned victim
        own = evil if hs.below(2) == 0 else k["s_sig"]
        pin = hs.wpick(((50, None), (35, k["s_sig"][1]), (15, evil[1])))
        if pin and hs.chance(0.25):     # asked for a key that differs from it in one bit
            b = bytearray(pin)
            b[hs.pick((31, 0, 15, 16, 30, 1, 7, 8, 24))] ^= 1 << hs.below(8)
            pin = bytes(b)
            tr.probe("pinned_near_miss")
        elif pin and hs.chance(0.1):
            pin = hs.pick((bytes(32), b"\xff" * 32, bytes(31) + b"\x01", pin[::-1], bytes(16) + pin[16:], pin[:16] + bytes(16)))
            tr.probe("pinned_odd")
        cfg["wanted"] = pin or False
        out = {}
        turns = [("c", [{"msgs": [payload("x", 20)], "last": False, "ba": False}])] if cfg["buffer_M4"] else \
            draw_convo(ch.s("convo"), "0", scale=0, max_turns=2, max_writes=2, max_msgs=2)
        # a signature the victim really made, in another session
        rs = hs.below(3)
        h1x, h2x = ref.h512(b"other m1"), ref.h512(b"other m2")

        async def hostile(world, s, peer, raw):
            t = {"m2": hs.pick((0, 1)), "m3": 0}
            srv = ref.RefServer(own, k["s_enc"], t)
            try:
                m2f = srv.on_m1(await raw.recv())
                if bad_m2:      # something that is not an M2, followed by an otherwise valid proof
                    m2f = bytes([hs.pick((3, 1, 4, 5, 6, 8, 9, 11, 0, 0x82, 255))]) + m2f[1:]
                    srv.h2 = ref.h512(m2f)
                    tr.fault("hostile_not_m2")
                rsig = ref.sign(ref.sig1_msg(*(((h1x, h2x), (srv.h1, h2x), (h1x, srv.h2))[rs])), k["s_sig"][0])
                plain, key, valid = ident_packet(hs, tr, how, ref.m3, b"SC-SIG01", b"SC-SIG02", srv.h1, srv.h2, own,
                                                 k["s_sig"], rsig, 3, ident_time(hs))
                out.update(key=key, valid=valid and not bad_m2)
                if plain is None:      # encrypted under a key the client does not share
                    other = ref.shared(key_bytes("x/%s" % ch.seed), srv.client_pub)
                    pkt = ref.enc(ref.seal(other, 2, srv.make_m3()))
                else:
                    pkt = srv.box.seal(plain)
                if cfg["buffer_m2"]:
                    await raw.send(m2f, pkt)
                else:
                    await raw.send(m2f)
                    await raw.send(pkt)
                f = await raw.recv()
                out["m4"] = f
                srv.on_m4(f)
                peer.hs = "ok"
                await ref_converse(world, s, peer, raw, srv.box, "s")
            except (RawEOF, ref.RefError) as e:
                peer.fail("ref", e)
            finally:
                raw.close()

        w = World(ch, tr, cfg["transport"])
        s = w.add(cfg, turns, server=hostile)
        w.deadline(2000)
        w.run()
        tr.probe("nontrivial")
        ok_expected = out.get("valid") and (not pin or out["key"] == pin)
        if out.get("valid") and pin and out["key"] != pin:
            tr.probe("pinned_mismatch")
        self.judge(s, tr, ok_expected, out.get("key"), "%s, pinned=%s" % (how, bool(pin)))
        if ok_expected:
            need(not s.client.errors, "spurious-error", lambda: "conversation with the genuine server failed: %s" %
                 err(s.client.errors[0][1]))
            check_prefix(s, s.client)
            check_prefix(s, s.server)

    def judge(self, s, tr, ok_expected, key, what):
        c = s.client
        if ok_expected:
            tr.probe("accepted")
            need(c.hs == "ok", "rejected-genuine", lambda: "client refused a genuine server (%s): %s" % (what, err(c.hs)))
            need(bytes(c.sess.m3.ServerSigKey) == key, "identity", lambda: "client reports server key %s, peer proved %s" %
                 (short(c.sess.m3.ServerSigKey), short(key)))
        else:
            tr.probe("rejected")
            need(c.hs != "ok", "accepted-impostor", lambda: "client completed its handshake with a server that did not "
                 "prove the accepted identity (%s)" % what)
            need(c.hs is not None, "no-progress", "client handshake neither succeeded nor failed")
            need(isinstance(c.hs, R.ex.ComException), "error-kind", lambda: "impostor (%s) made handshake() raise %s" % (
                what, err(c.hs)))
            n = len(s.conn.a2b.sent_frames)
            need(n <= 1, "identity-leak", lambda: "client sent %d frames (its identity message) to an impostor (%s)" % (
                n - 1, what))

    def relay(self, ch, tr, st, hs, cfg, evil):
        """Man in the middle with its own encryption keys who relays the honest server's proof."""
        tr.probe("relay")
        k = cfg["keys"]
        e1 = ref.enc_keys(key_bytes(ch.seed + "/mitm1"))
        e2 = ref.enc_keys(key_bytes(ch.seed + "/mitm2"))
        # the attacker may reuse the client's or the server's public key towards the other side
        pinned = hs.chance(0.5)
        cfg["wanted"] = k["s_sig"][1] if pinned else False
        cfg["buffer_M4"] = False
        box = {}
        w = World(ch, tr, cfg["transport"])
        cfg2 = dict(cfg)
        cfg2["wanted"] = False

        if cfg["transport"] == "thr":
            # sequential: obtain the honest server's M3 first, for a transcript as close as the attacker can make it
            pass
        same_m1_time = hs.pick((0, 1))

        async def to_server(world, s, peer, raw):
            rc = ref.RefClient(evil, e2, {"m1": same_m1_time, "m4": 0}, wanted=k["s_sig"][1] if pinned else None)
            try:
                await raw.send(rc.m1_frame())
                rc.on_m2(await raw.recv())
                rc.on_m3(await raw.recv())
                box["m3"] = rc.m3
                box["m2"] = rc.m2
            except (RawEOF, ref.RefError) as e:
                peer.fail("ref", e)
            finally:
                raw.close()

        async def to_client(world, s, peer, raw):
            srv = ref.RefServer(evil, e1, {"m2": 0, "m3": 0})
            try:
                m2f = srv.on_m1(await raw.recv())
                for _ in range(2000):
                    if "m3" in box or world.sessions[0].client.finished:
                        break
                    if world.loop is not None:
                        import asyncio
                        await asyncio.sleep(0.5)
                    else:
                        world.sched.switch("wait", lambda: "m3" in box or world.sessions[0].client.finished)
                await raw.send(m2f)
                if "m3" in box:
                    tr.probe("relayed_m3")
                    await raw.send(srv.box.seal(box["m3"]))
                f = await raw.recv()
                box["m4"] = f
            except (RawEOF, ref.RefError) as e:
                peer.fail("ref", e)
            finally:
                raw.close()

        turns = draw_convo(ch.s("convo"), "0", scale=0, max_turns=1, max_writes=1, max_msgs=1)
        cfg2["net"] = {"seg": "whole", "lat": "none", "short_recv": False}
        w.add(cfg2, turns, client=to_server)
        s = w.add(cfg, turns, server=to_client)
        w.deadline(2000)
        w.run()
        tr.probe("nontrivial")
        self.judge(s, tr, False, None, "relayed proof of the honest server")


class C04(Prop):
    id = "C04"
    title = "A server handshake succeeds only for the holder of the reported client key"
    quick = 30000
    thorough = 600000
    expect = ("accepted", "rejected", "relay", "earlier_sessions")

    def run(self, ch, tr):
        st = ch.s("cfg")
        hs = ch.s("hostile")
        cfg = draw_cfg(st)
        cfg["net"] = draw_net(st, lat=("none", "const", "jitter"))
        env.use_backend(cfg["backend"])
        cfg["keys"] = k = keys_for(ch.seed)
        prelude(ch, tr, ch.s("pre"), cfg, 0.25)
        evil = ref.sig_keys(key_bytes(ch.seed + "/evil"))
        cfg["mitm_c"] = False
        cfg["sync"] = False
        how = hs.wpick(IDENT)
        if how == "bad_size" and hs.chance(0.3):
            how = "replayed"
        own = evil if hs.below(2) == 0 else k["c_sig"]
        cfg["wanted"] = hs.chance(0.4)
        out = {}
        turns = draw_convo(ch.s("convo"), "0", scale=0, max_turns=2, max_writes=2, max_msgs=2, client_first=True)
        rs = hs.below(3)
        h1x, h2x = ref.h512(b"other m1"), ref.h512(b"other m2")

        async def hostile(world, s, peer, raw):
            rc = ref.RefClient(own, k["c_enc"], {"m1": hs.pick((0, 1)), "m4": 0},
                               wanted=k["s_sig"][1] if cfg["wanted"] else None)
            try:
                await raw.send(rc.m1_frame())
                rc.on_m2(await raw.recv())
                rc.on_m3(await raw.recv())
                if how == "replayed" and rs == 0 and hs.below(2):
                    # reflect the server's own proof back as the client's
                    plain, key, valid = ref.m4(0, rc.server_sig, rc.m3[38:]), rc.server_sig, False
                    tr.probe("relay")
                else:
                    rsig = ref.sign(ref.sig2_msg(*(((h1x, h2x), (rc.h1, h2x), (h1x, rc.h2))[rs])), k["c_sig"][0])
                    plain, key, valid = ident_packet(hs, tr, how, ref.m4, b"SC-SIG02", b"SC-SIG01", rc.h1, rc.h2, own,
                                                     k["c_sig"], rsig, 4, ident_time(hs))
                out.update(key=key, valid=valid)
                if plain is None:
                    other = ref.shared(key_bytes("x/%s" % ch.seed), rc.server_pub)
                    pkt = ref.enc(ref.seal(other, 1, rc.m4_plain()))
                    rc.box.w += 2
                else:
                    pkt = rc.box.seal(plain)
                peer.hs = "ok"
                if cfg["buffer_M4"]:
                    await ref_converse(world, s, peer, raw, rc.box, "c", first=[pkt])
                else:
                    await raw.send(pkt)
                    await ref_converse(world, s, peer, raw, rc.box, "c")
            except (RawEOF, ref.RefError) as e:
                peer.fail("ref", e)
            finally:
                raw.close()

        w = World(ch, tr, cfg["transport"])
        s = w.add(cfg, turns, client=hostile)
        w.deadline(2000)
        w.run()
        tr.probe("nontrivial")
        v = s.server
        if out.get("valid"):
            tr.probe("accepted")
            need(v.hs == "ok", "rejected-genuine", lambda: "server refused a genuine client (%s): %s" % (
                how, err(v.hs) if v.hs else v.hs))
            need(bytes(v.sess.client_sig_key) == out["key"], "identity", lambda: "server reports client key %s, peer "
                 "proved %s" % (short(v.sess.client_sig_key), short(out["key"])))
            check_prefix(s, v)
            check_prefix(s, s.client)
            need(not v.errors, "spurious-error", lambda: "conversation with a genuine client failed: %s" %
                 err(v.errors[0][1]))
        else:
            tr.probe("rejected")
            need(v.hs != "ok", "accepted-impostor", lambda: "server completed its handshake with a client that did not "
                 "prove the key it presented (%s)" % how)
            need(v.hs is not None, "no-progress", "server handshake neither succeeded nor failed")
            need(isinstance(v.hs, R.ex.ComException), "error-kind", lambda: "impostor (%s) made handshake() raise %s" % (
                how, err(v.hs)))
