"""C08: error contract against peers that send anything at all."""
import struct

from .common import *

LOW_ORDER_ENC = tuple(bytes.fromhex(h) for h in (
    "00" * 32, "01" + "00" * 31,
    "e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800",
    "5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157",
    "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
    "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f"))


def junk(st, n):
    return bytes(st.below(256) for _ in range(min(n, 6))) + bytes(max(0, n - 6))


def verdict(plain):
    """('ok', msgs) | ('bad',) | ('either', msgs)"""
    try:
        _, msgs = ref.parse_app(plain)
    except ref.RefError:
        return ("bad",)
    used = 6 + len(msgs[0]) if plain[0] == ref.APP else 8 + sum(2 + len(m) for m in msgs)
    if used != len(plain) or plain[1] != 0:
        return ("either", msgs)
    return ("ok", msgs)


APP_KINDS = ((30, "good"), (12, "trunc"), (10, "count"), (10, "length"), (8, "type"), (8, "tiny"), (6, "trailing"),
             (4, "reserved"), (6, "handshake"), (6, "frame_junk"), (6, "frame_short"), (5, "frame_type"),
             (4, "frame_unsealed"), (3, "frame_empty"), (4, "zero_count"))


def app_item(st, tr, i, box):
    """One hostile application frame -> (frame, verdict)"""
    kind = st.wpick(APP_KINDS)
    msgs = [payload("h%d.%d" % (i, j), st.pick((5, 0, 1, 30, 300))) for j in range(1 + st.below(4))]
    t = st.pick((0, 1, 0xffffffff))
    if len(msgs) == 1 and st.chance(0.6):
        good = ref.app(t, msgs[0])
    else:
        good = ref.multi(t, msgs)
    multi = bytearray(ref.multi(t, msgs))
    plain = good
    if kind != "good":
        tr.fault("hostile_app_" + kind)
    tr.log("app", i, kind)
    if kind == "trunc":
        plain = bytes(multi[:st.below(len(multi))])
    elif kind == "count":
        n = st.pick((len(msgs) + 1, 65535, 256, len(msgs) + 2, max(1, len(msgs) - 1)))
        struct.pack_into("<H", multi, 6, n)
        plain = bytes(multi)
    elif kind == "length":
        off = 8
        k = st.below(len(msgs))
        for m in msgs[:k]:
            off += 2 + len(m)
        n = len(msgs[k])
        struct.pack_into("<H", multi, off, st.pick((n + 1, 65535, 0, max(0, n - 1), n + 2)))
        plain = bytes(multi)
    elif kind == "zero_count":
        struct.pack_into("<H", multi, 6, 0)
        plain = bytes(multi) if st.below(2) else bytes(multi[:8])
    elif kind == "type":
        plain = bytes([st.pick((0, 1, 2, 3, 4, 6, 8, 9, 10, 12, 255, 128 + 5))]) + good[1:]
    elif kind == "tiny":
        plain = good[:st.below(8)]
    elif kind == "trailing":
        plain = bytes(multi) + junk(st, 1 + st.below(5))
    elif kind == "reserved":
        plain = good[:1] + bytes([1 << st.below(8)]) + good[2:]
    elif kind == "handshake":
        plain = (ref.m3 if st.below(2) else ref.m4)(0, bytes(32), bytes(64))
    elif kind == "frame_junk":
        return junk(st, st.pick((1, 2, 17, 18, 40, 120))), ("bad",)
    elif kind == "frame_short":
        return ref.enc(junk(st, st.below(17))), ("bad",)
    elif kind == "frame_empty":
        return b"", ("bad",)
    elif kind == "frame_type":
        f = ref.enc(ref.seal(box.key, box.w, good))
        return bytes([st.pick((5, 1, 2, 3, 4, 7, 8, 9, 11, 0, 255, 0x86))]) + f[1:], ("bad",)
    elif kind == "frame_unsealed":
        return ref.enc(good + bytes(16)), ("bad",)
    return box.seal(plain, st.chance(0.1)), verdict(plain)


async def hostile_apps(st, tr, raw, box, plan, together):
    n = 1 + st.geometric(0.75, 8)
    frames = []
    for i in range(n):
        f, v = app_item(st, tr, i, box)
        plan.append(v)
        frames.append(f)
    if together:
        await raw.send(*frames)
    else:
        for f in frames:
            await raw.send(f)


class C08(Prop):
    id = "C08"
    title = "Whatever a peer sends, only ComException-family errors surface, and no junk"
    quick = 24000
    thorough = 800000
    expect = ("hostile_client", "hostile_server", "hs_ok", "hs_bad", "raw_bytes", "bad_app", "nosuch",
              "hostile_low_order_key", "valid_after_bad", "huge_length_announced")

    def run(self, ch, tr):
        st = ch.s("cfg")
        hs = ch.s("hostile")
        cfg = draw_cfg(st)
        cfg["net"] = draw_net(st, lat=("none", "const", "jitter"))
        cfg["keys"] = keys_for(ch.seed)
        cfg["past"] = 45
        cfg["duplex"] = False
        side = hs.pick("cs")
        if side == "c":
            cfg["sync"] = False
        cfg["wanted"] = hs.chance(0.3)
        env.use_backend(cfg["backend"])
        out = {"plan": [], "hs": "ok", "hsmay": False}
        prelude(ch, tr, ch.s("pre"), cfg, 0.08)
        w = World(ch, tr, cfg["transport"])
        body = self.hostile_client if side == "c" else self.hostile_server
        tr.probe("hostile_client" if side == "c" else "hostile_server")

        async def hostile(world, s, peer, raw):
            try:
                await body(tr, hs, cfg, raw, out)
            except (RawEOF, ref.RefError) as e:
                peer.fail("ref", e)
            finally:
                raw.close()
        turns = []
        if cfg["buffer_M4"]:
            turns = [("c", [{"msgs": [b"go"], "last": False, "ba": False}])]
        cfg["turns"] = turns
        s = w.add(cfg, turns if side == "s" else [], client=hostile if side == "c" else None,
                  server=hostile if side == "s" else None)
        w.deadline(4000)
        try:
            w.run()
        finally:
            if "mem" in out:
                out["mem"].stop()
        if "mem" in out:
            out["mem"].check()
            tr.probe("huge_length_announced")
        real = s.server if side == "c" else s.client
        need(not w.stuck, "no-progress", lambda: "%s never returns: %s" % (real.name, w.stuck))
        self.judge(tr, real, out)
        tr.probe("nontrivial")

    # -- hostile bodies ------------------------------------------------------------------
    def raw_attack(self, hs, tr, cfg, out):
        """Bytes below the framing, or None."""
        if cfg["transport"] == "msg" or not hs.chance(0.06):
            return None
        tr.probe("raw_bytes")
        tr.fault("hostile_raw_bytes")
        k = hs.below(5)
        if k == 0:
            b = struct.pack("<i", -1 - hs.below(3))
        elif k == 1:
            b = struct.pack("<i", -(1 << 31))
        elif k == 2:
            b = struct.pack("<i", 0x7fffffff - hs.below(2)) + junk(hs, hs.below(40))
            out["mem"] = Memory(1 << 31 if cfg["transport"] == "thr" else 0)
        elif k == 3:
            b = junk(hs, hs.below(4))
        else:
            b = struct.pack("<i", 1 + hs.below(50))
        return b

    def bad_frame(self, hs, tr, good, typ_at, sizes):
        """A frame that is certainly not a legal instance of `good`."""
        k = hs.below(4)
        if k == 0:
            return good[:hs.below(sizes)]
        if k == 1:
            b = bytearray(good)
            b[typ_at] = (b[typ_at] + 1 + hs.below(250)) % 256
            return bytes(b)
        if k == 2:
            return b""
        return junk(hs, hs.below(sizes))

    async def hostile_client(self, tr, hs, cfg, raw, out):
        k = cfg["keys"]
        b = self.raw_attack(hs, tr, cfg, out)
        if b is not None:
            out["hs"] = "com"
            return await raw.send_bytes(b)
        want = k["s_sig"][1] if cfg["wanted"] else None
        rc = ref.RefClient(k["c_sig"], k["c_enc"], {"m1": hs.pick((0, 1)), "m4": 0}, wanted=want)
        m1 = rc.m1_frame()
        kind = hs.wpick(((60, "good"), (10, "bad"), (5, "time"), (5, "low_order_key"), (5, "nosuch"), (5, "proto"),
                         (5, "a1"), (5, "trailing"), (3, "reserved")))
        tr.log("m1", kind)
        if kind != "good":
            tr.fault("hostile_" + kind if kind == "low_order_key" else "hostile_m1_" + kind)
        out["hs"] = "bad"
        if kind == "bad":
            m1 = self.bad_frame(hs, tr, m1, 4, len(m1))
            if m1[:1] == b"\x08":
                m1 = b"\x07" + m1[1:]
        elif kind == "time":
            m1 = m1[:6] + struct.pack("<I", hs.pick((2, 255, 256, 1 << 31, 0xffffffff))) + m1[10:]
        elif kind == "low_order_key":
            m1 = m1[:10] + hs.pick(LOW_ORDER_ENC) + m1[42:]
        elif kind == "proto":
            b = bytearray(m1)
            b[hs.below(4)] ^= 1 << hs.below(8)
            m1 = bytes(b)
        elif kind == "a1":
            a = bytearray(hs.pick((ref.a1(), ref.a1(k["s_sig"][1]))))
            j = hs.below(5)
            if j == 0:
                a[2] = 2 + hs.below(200)
            elif j == 1:
                a += b"\0"
            elif j == 2:
                a = a[:hs.below(len(a))]
            elif j == 3:
                struct.pack_into("<H", a, 3, (struct.unpack_from("<H", a, 3)[0] + 1 + hs.below(300)) % 65536)
            else:
                a[2] ^= 1
            m1 = bytes(a)
        elif kind == "nosuch":
            m1 = ref.m1(0, k["c_enc"][1], bytes(32))
            out["hs"] = "nosuch"
        elif kind == "trailing":
            m1 = m1 + junk(hs, 1 + hs.below(40))
            out["hs"] = "any"
        elif kind == "reserved":
            m1 = m1[:5] + bytes([m1[5] | 2 << hs.below(7)]) + m1[6:]
            out["hs"] = "any"
        await raw.send(m1)
        if kind != "good":
            return await self.drain(raw)
        out["hs"] = "com"
        rc.on_m2(await raw.recv())
        b = self.raw_attack(hs, tr, cfg, out)
        if b is not None:
            return await raw.send_bytes(b)
        m4 = rc.m4_plain()
        kind = hs.wpick(((70, "good"), (8, "short"), (5, "type"), (6, "sig"), (5, "frame"), (4, "long"), (4, "early_app"),
                         (3, "clear"), (3, "nonce")))
        tr.log("m4", kind)
        if kind != "good":
            tr.fault("hostile_m4_" + kind)
        out["hs"] = "bad"
        if kind == "short":
            m4 = m4[:hs.below(len(m4))]
        elif kind == "type":
            m4 = bytes([hs.pick((3, 5, 11, 0, 1, 2, 255))]) + m4[1:]
        elif kind == "sig":
            x = bytearray(m4)
            x[6 + hs.below(96)] ^= 1 << hs.below(8)
            m4 = bytes(x)
        elif kind == "long":
            m4 = m4 + junk(hs, 1 + hs.below(9))
            out["hs"] = "any"
        elif kind == "early_app":
            m4 = ref.app(0, b"hi")
        if kind == "frame":
            f = self.bad_frame(hs, tr, rc.box.seal(m4), 0, 18)
        elif kind == "clear":       # a genuine proof, not encrypted at all
            f = m4 if hs.below(2) else ref.enc(m4)
        elif kind == "nonce":       # encrypted for another place in the session
            f = ref.enc(ref.seal(rc.box.key, hs.pick((3, 2, 0, 5, 4)), m4))
        else:
            f = rc.box.seal(m4)
        rc.on_m3(await raw.recv())
        if kind != "good":
            await raw.send(f)
            return await self.drain(raw)
        out["hs"] = "ok"
        if cfg["buffer_M4"]:
            await raw.send(f, rc.box.seal(ref.app(0, b"go")))
            out["plan"].append(("ok", [b"go"]))
        else:
            await raw.send(f)
        await self.tail(hs, tr, cfg, raw, rc.box, out)

    async def hostile_server(self, tr, hs, cfg, raw, out):
        k = cfg["keys"]
        b = self.raw_attack(hs, tr, cfg, out)
        if b is not None:
            out["hs"] = "com"
            return await raw.send_bytes(b)
        srv = ref.RefServer(k["s_sig"], k["s_enc"], {"m2": hs.pick((0, 1)), "m3": 0})
        out["hs"] = "com"
        m2 = srv.on_m1(await raw.recv())
        kind = hs.wpick(((60, "good"), (12, "bad"), (5, "time"), (6, "low_order_key"), (5, "nosuch"), (4, "trailing"),
                         (3, "reserved"), (3, "a2")))
        tr.log("m2", kind)
        if kind != "good":
            tr.fault("hostile_" + kind if kind == "low_order_key" else "hostile_m2_" + kind)
        out["hs"] = "bad"
        if kind == "bad":
            m2 = self.bad_frame(hs, tr, m2, 0, len(m2))
        elif kind == "time":
            m2 = m2[:2] + struct.pack("<I", hs.pick((2, 255, 256, 1 << 31, 0xffffffff))) + m2[6:]
        elif kind == "low_order_key":
            m2 = m2[:6] + hs.pick(LOW_ORDER_ENC)
        elif kind == "nosuch":
            m2 = hs.pick((ref.m2_no_such_server(0), bytes([2, 0x81]) + m2[2:]))
            out["hs"] = "nosuch"
        elif kind == "trailing":
            m2 = m2 + junk(hs, 1 + hs.below(9))
            out["hs"] = "any"
        elif kind == "reserved":
            m2 = m2[:1] + bytes([2 << hs.below(6)]) + m2[2:]
            out["hs"] = "any"
        elif kind == "a2":
            m2 = hs.pick((ref.A2_DEFAULT, ref.A2_NO_SUCH))
        if kind != "good":
            await raw.send(m2)
            return await self.drain(raw)
        m3 = srv.make_m3()
        kind = hs.wpick(((70, "good"), (8, "short"), (5, "type"), (6, "sig"), (5, "frame"), (4, "long"), (4, "early_app"),
                         (3, "clear"), (3, "nonce")))
        tr.log("m3", kind)
        if kind != "good":
            tr.fault("hostile_m3_" + kind)
        if kind == "short":
            m3 = m3[:hs.below(len(m3))]
        elif kind == "type":
            m3 = bytes([hs.pick((4, 5, 11, 0, 1, 2, 255))]) + m3[1:]
        elif kind == "sig":
            x = bytearray(m3)
            x[6 + hs.below(96)] ^= 1 << hs.below(8)
            m3 = bytes(x)
        elif kind == "long":
            m3 = m3 + junk(hs, 1 + hs.below(9))
        elif kind == "early_app":
            m3 = ref.app(0, b"hi")
        if kind == "frame":
            f = self.bad_frame(hs, tr, srv.box.seal(m3), 0, 18)
        elif kind == "clear":
            f = m3 if hs.below(2) else ref.enc(m3)
        elif kind == "nonce":
            f = ref.enc(ref.seal(srv.box.key, hs.pick((4, 1, 0, 3, 6)), m3))
        else:
            f = srv.box.seal(m3)
        if cfg["buffer_m2"]:
            await raw.send(m2, f)
        else:
            await raw.send(m2)
            b = self.raw_attack(hs, tr, cfg, out)
            if b is not None:
                out["hs"] = "com"
                return await raw.send_bytes(b)
            await raw.send(f)
        if kind != "good":
            return await self.drain(raw)
        out["hs"] = "ok"
        srv.on_m4(await raw.recv())
        await self.tail(hs, tr, cfg, raw, srv.box, out)

    async def tail(self, hs, tr, cfg, raw, box, out):
        await hostile_apps(hs, tr, raw, box, out["plan"], hs.chance(0.4))
        b = self.raw_attack(hs, tr, cfg, out)
        if b is not None:
            await raw.send_bytes(b)

    async def drain(self, raw):
        while True:
            await raw.recv()

    # -- oracle --------------------------------------------------------------------------
    def judge(self, tr, real, out):
        E = R.ex
        for op, e in real.errors:
            need(isinstance(e, E.ComException), "error-kind", lambda: "hostile input made %s raise %s" % (op, err(e)))
        h = out["hs"]
        need(real.hs is not None, "no-progress", "handshake neither succeeded nor failed")
        if h == "ok":
            need(real.hs == "ok", "handshake-failed", lambda: "valid handshake refused: %s" % err(real.hs))
            tr.probe("hs_ok")
        elif h == "bad":
            need(isinstance(real.hs, E.BadPeer), "not-reported", lambda: "%s: data that violates the protocol in the "
                 "handshake ended with %s, not BadPeer" % (real.name, real.hs if real.hs == "ok" else err(real.hs)))
            tr.probe("hs_bad")
        elif h == "nosuch":
            need(isinstance(real.hs, E.NoSuchServerException), "not-reported", lambda: "%s: NoSuchServer situation ended "
                 "with %s" % (real.name, real.hs if real.hs == "ok" else err(real.hs)))
            tr.probe("nosuch")
        elif h == "com":
            need(real.hs != "ok", "not-reported", lambda: "%s: handshake completed on broken framing" % real.name)
        if real.hs != "ok":
            need(not real.got, "junk-delivered", lambda: "%s delivered %d messages without a handshake" % (
                real.name, len(real.got)))
            return
        if h == "any":
            need(not real.got, "junk-delivered", lambda: "%s delivered messages nobody sent" % real.name)
            return
        ev = list(real.events)
        pos = 0
        seen_bad = False

        def nxt():
            nonlocal pos
            need(pos < len(ev), "lost-message", lambda: "%s: reads ended after %d outcomes" % (real.name, pos))
            pos += 1
            return ev[pos - 1]
        for i, v in enumerate(out["plan"]):
            if v[0] == "bad":
                x = nxt()
                need(isinstance(x, E.BadPeer), "not-reported" if not isinstance(x, bytes) else "junk-delivered",
                     lambda: "%s: malformed packet %d made read() %s" % (
                         real.name, i, "return " + short(x) if isinstance(x, bytes) else "raise " + err(x)))
                seen_bad = True
                tr.probe("bad_app")
                continue
            if v[0] == "either" and pos < len(ev) and isinstance(ev[pos], E.BadPeer):
                pos += 1
                continue
            for m in v[1]:
                x = nxt()
                need(isinstance(x, bytes) and x == m, "lost-message", lambda: "%s: well-formed packet %d made read() %s "
                     "instead of returning %s" % (real.name, i, "return " + short(x) if isinstance(x, bytes) else
                                                  "raise " + err(x), short(m)))
            if seen_bad:
                tr.probe("valid_after_bad")
        for x in ev[pos:]:
            need(not isinstance(x, bytes), "junk-delivered", lambda: "%s delivered %s, which nobody sent" % (
                real.name, short(x)))
