"""C09: connections that break at any byte.  C10: the clear framing channels by themselves."""
import asyncio
import struct

from .common import *

FAST = ("none", "const", "jitter")


def frames_in(pipe):
    """Frames whose last byte reached the receiving end."""
    if not hasattr(pipe, "total_out"):
        return pipe.rcvd_frames[:pipe.delivered]
    n, out = 0, []
    for f in pipe.rcvd_frames:
        n += 4 + len(f)
        if n > pipe.total_out:
            break
        out.append(f)
    return out


def opened(key, p, fr):
    """The messages in packets that arrived whole, and per message how many its packet brings in altogether."""
    want, whole = [], []
    n = 4 if p.role == "c" else 3
    for f in fr:
        pl = ref.unseal(key, n, f[2:])
        if pl is None:
            raise Violation("wire", "%s received a packet that does not decrypt" % p.name)
        want += ref.parse_app(pl)[1]
        whole += [len(want)] * (len(want) - len(whole))
        n += 2
    return want, whole


def draw_offset(st, total):
    k = st.wpick(((30, 3), (10, 0), (12, 1), (18, 2), (30, 4)))
    if k == 0:
        return st.below(8)
    if k == 1:
        return st.below(60)
    if k == 2:
        return st.below(300)
    if k == 3:
        return min(total, 150) + st.below(max(1, total - 150))
    return max(0, total - st.below(60))


def estimate(turns, d, raw=False):
    if raw:
        return sum(4 + len(m) for w in writes_of(turns, d) for m in w["msgs"])
    n = 46 + 124 + 4
    for w in writes_of(turns, d):
        n += sum(len(m) + 2 for m in w["msgs"]) + 32
    return n


def place_faults(ch, tr, fs, s, turns, raw=False):
    """Breaks for one connection; returns the kinds chosen."""
    kinds = []
    for _ in range(1 + (1 if fs.chance(0.2) else 0)):
        d = fs.pick("cs")
        pipe = s.conn.a2b if d == "c" else s.conn.b2a
        if s.cfg["transport"] == "msg":
            pipe.cut_after = 2 + fs.below(10) if fs.below(4) else fs.below(4)
            kinds.append("eof")
            continue
        kind = fs.wpick(((60, "eof"), (40, "reset")))
        kinds.append(kind)
        total = estimate(turns, d, raw)
        pipe.cut = (fs.below(total + 1) if raw else draw_offset(fs, total), kind)
    return kinds


SOCK_ERRORS = (ConnectionResetError, BrokenPipeError, TimeoutError, OSError, ConnectionAbortedError)


def sock_faults(fs):
    def setup(s, peer, sock):
        if not s.cfg.get("sockfault"):
            return
        if fs.chance(0.5):
            if fs.chance(0.5):
                sock.recv_fault = (1 + fs.below(30), fs.pick(SOCK_ERRORS))
            else:
                sock.send_fault = (fs.below(6), fs.below(60), fs.pick(SOCK_ERRORS))
    return setup


class C09(Prop):
    id = "C09"
    title = "A connection broken at any point yields whole messages, then an error"
    quick = 30000
    thorough = 800000
    expect = ("cut_eof", "cut_reset", "recv_ConnectionResetError", "send_BrokenPipeError", "cut_in_handshake",
              "cut_in_data", "cut_mid_frame", "reconnect", "write_refused", "late_write")

    def run(self, ch, tr):
        st = ch.s("cfg")
        fs = ch.s("faults")
        cfg = draw_cfg(st)
        cfg["net"] = draw_net(st, lat=FAST)
        cfg["keys"] = keys_for(ch.seed)
        env.use_backend(cfg["backend"])
        cs = ch.s("convo")
        turns = draw_convo(cs, "0", scale=cs.wpick(((70, 0), (30, 1))), max_turns=5, max_writes=3, max_msgs=5,
                           client_first=cfg["buffer_M4"])
        total = sum(len(w["msgs"]) for _, wl in turns for w in wl)
        cfg["past"] = total + 3
        draw_defer(ch.s("defer"), cfg, turns, 0.5)
        draw_nest(ch.s("defer"), cfg, ch.seed)
        sf = fs.chance(0.25)
        cfg["sockfault"] = sf
        cfg["sock_setup"] = sock_faults(fs)
        if cfg["transport"] == "msg" and fs.chance(0.5):
            self.refusing(cfg, fs, tr)
        if cfg["transport"] == "aio" and ch.s("late").chance(0.5):
            cfg["late_write"] = [payload("late%d" % i, ch.s("late").pick((0, 1, 9, 300, 5000))) for i in range(
                ch.s("late").pick((1, 1, 2, 3)))]
        prelude(ch, tr, ch.s("pre"), cfg, 0.08)
        w = World(ch, tr, cfg["transport"])

        def prep(s):
            if not (sf and cfg["transport"] == "thr") and not cfg.get("refused"):
                place_faults(ch, tr, fs, s, turns)
        s = w.add(cfg, turns, prepare=prep)
        tr.log("cfg", desc(s), [(d, [[len(m) for m in x["msgs"]] for x in wl]) for d, wl in turns])
        w.deadline(4000)
        w.run()
        need(not w.stuck, "no-progress", lambda: "an endpoint of a broken connection never returns: %s" % w.stuck)
        self.judge(tr, s)
        if fs.chance(0.25):
            self.reconnect(ch, tr, cfg, turns)
        tr.probe("nontrivial")

    def refusing(self, cfg, fs, tr):
        """One end whose writes are refused from some point on; what it was sent stays readable."""
        side, first = fs.pick("cs"), 1 + fs.below(6)
        cfg["refused"] = True

        def setup(s, peer, chn):
            if peer.role != side:
                return
            out = s.conn.a2b if side == "c" else s.conn.b2a

            def wf(idx):
                if idx >= first:
                    tr.fault("write_refused")
                    out.fin = True
                    out.kick()
                    return "before"
            chn.write_fault = wf
        cfg["chan_setup"] = setup

    def judge(self, tr, s):
        E = R.ex
        k = s.cfg["keys"]
        key = ref.shared(k["c_enc"][0], k["s_enc"][1])
        hard = {"c": False, "s": False}
        for p, inp, out in ((s.client, s.conn.b2a, s.conn.a2b), (s.server, s.conn.a2b, s.conn.b2a)):
            for op, e in p.errors:
                need(isinstance(e, E.ComException), "error-kind", lambda: "%s: broken connection made %s raise %s" % (
                    p.name, op, err(e)))
            need(p.hs is not None, "no-progress", lambda: "%s: handshake neither succeeded nor failed" % p.name)
            need(not (getattr(p, "sock", None) and p.sock.send_failed) or any(op != "read" for op, _ in p.errors),
                 "false-success", lambda: "%s: sending failed, yet no write reported it" % p.name)
            if getattr(p, "late", None):
                lost, e = p.late
                need(e is None or isinstance(e, E.ComException), "error-kind", lambda: "%s: writing to a broken connection "
                     "raised %s" % (p.name, err(e)))
                if lost:
                    tr.probe("late_write")
                    need(e is not None, "false-success", lambda: "%s: the connection is gone, yet a write on it succeeded" %
                         p.name)
            check_prefix(s, p, "torn-message")
            arrived = fr = frames_in(inp)
            if s.cfg.get("nest"):
                ko = s.cfg["nest"]["keys"]
                fr, _ = opened(ref.shared(ko["c_enc"][0], ko["s_enc"][1]), p, fr[2:])
            rst = any(x.cut and x.cut[1] == "reset" and x.dead for x in (inp, out)) if hasattr(inp, "cut") else False
            sockerr = s.cfg["sockfault"] and s.cfg["transport"] == "thr"
            if len(fr) < 2:
                need(p.hs != "ok", "false-success", lambda: "%s: handshake succeeded with %d of its 2 incoming "
                     "messages" % (p.name, len(fr)))
                tr.probe("cut_in_handshake")
                continue
            if hasattr(inp, "total_out") and inp.dead and inp.total_out != sum(4 + len(f) for f in arrived):
                tr.probe("cut_mid_frame")
            if inp.dead:
                tr.probe("cut_in_data")
            want, whole = opened(key, p, fr[2:])
            need(p.got == want[:len(p.got)], "torn-message", lambda: "%s read %d messages, only %d arrived whole" % (
                p.name, len(p.got), len(want)))
            if not rst and not sockerr and p.hs == "ok":
                need(len(p.got) == len(want), "lost-message", lambda: "%s read %d of the %d messages that arrived whole "
                     "before the end of the stream" % (p.name, len(p.got), len(want)))
            if p.got:
                need(len(p.got) >= whole[len(p.got) - 1], "lost-message", lambda: "%s read only part of the messages of a "
                     "packet it had received whole" % p.name)
            if p.hs == "ok":
                # once broken, always an error, never an empty or stale message
                need(p.events and isinstance(p.events[-1], Exception), "false-success",
                     lambda: "%s: reading past the end of the stream returned data" % p.name)

    def reconnect(self, ch, tr, cfg, turns):
        tr.probe("reconnect")
        cfg = dict(cfg)
        cfg["past"] = 0
        cfg["sockfault"] = False
        cfg.pop("chan_setup", None)
        cfg.pop("late_write", None)
        k2 = keys_for(ch.seed + "/again")
        cfg["keys"] = dict(cfg["keys"], c_enc=k2["c_enc"], s_enc=k2["s_enc"])
        w = World(ch, tr, cfg["transport"])
        s = w.add(cfg, turns)
        w.run()
        need(not w.stuck, "no-progress", lambda: "after a broken connection a new one never completes: %s" % w.stuck)
        for p in (s.client, s.server):
            check_complete(s, p)


class C10(Prop):
    id = "C10"
    title = "Framing channels carry whole byte messages over any byte stream"
    quick = 30000
    thorough = 800000
    expect = ("clean", "broken", "ref_peer", "zero_length", "cut_mid_frame", "mitm_counted", "neg_prefix", "many_in_one_write", "closed_by_channel", "giant_aio", "giant_thr")

    def directed(self, i):
        if i < 6:
            return {"giant": [1, i % 3, i // 3]}

    def run(self, ch, tr):
        st = ch.s("cfg")
        fs = ch.s("faults")
        giant = ch.s("giant").wpick(((29999, 0), (1, 1)))
        size = ch.s("giant").pick(((1 << 24) + 5, 1 << 24, (1 << 24) - 1)) if giant else 0
        cfg = draw_cfg(st, transports=(ch.s("giant").pick(("aio", "thr")),) if giant else ("aio", "thr"), backends=False)
        cfg["net"] = draw_net(st)
        cfg["keys"] = None
        mode = fs.wpick(((50, "clean"), (30, "broken"), (20, "ref_peer")))
        tr.probe(mode)
        cs = ch.s("convo")
        turns = draw_convo(cs, "0", scale=cs.wpick(((60, 0), (37, 1), (3, 2))), max_turns=5, max_writes=4, max_msgs=6)
        if cs.chance(0.01):
            n = cs.pick((17, 64, 255, 256, 257, 300))
            turns[cs.below(len(turns))][1].append({"msgs": [b"%d" % i for i in range(n)], "last": False, "ba": False})
            tr.probe("many_in_one_write")
        if giant:       # longer than three bytes can say
            turns[0][1][0]["msgs"] = [payload("G", size)]
            cfg["net"] = {"seg": st.pick(("whole", "mss")), "lat": "none", "short_recv": False}
            cfg["window"] = 1 << 30
            mode = "clean"
            tr.probe("giant_" + cfg["transport"])
        if any(len(m) == 0 for _, wl in turns for x in wl for m in x["msgs"]):
            tr.probe("zero_length")
        if mode == "broken":
            cfg["net"] = draw_net(st, lat=FAST)
        side = None
        neg = None
        if mode == "ref_peer":
            side = fs.pick("cs")
            if side == "c":
                cfg["sync"] = False
            if fs.chance(0.3):
                neg = fs.pick((-1, -2, -(1 << 31), 0x7fffffff))
        # one end closes its channel when it is done; the other must get everything and then the end
        closer = fs.pick("cs") if mode == "clean" and cfg["transport"] == "aio" and fs.chance(0.3) else None
        if closer:
            cfg["no_close"] = True
            cfg["sync"] = False
            tr.probe("closed_by_channel")
        api = {"c": fs.pick(("sync", "async")), "s": fs.pick(("sync", "async"))}
        past = sum(len(x["msgs"]) for _, wl in turns for x in wl) + 2 if mode == "broken" else \
            (1 if neg is not None else 0)

        async def abody(world, s, peer, chan):
            try:
                if cfg["duplex"] and mode != "ref_peer":
                    async def reader():
                        for _ in range(len(flat(turns, "s" if peer.role == "c" else "c"))):
                            await self.read(world, peer, chan)
                    rd = asyncio.ensure_future(reader())
                    try:
                        for x in writes_of(turns, peer.role):
                            await self.write(world, peer, chan, x)
                    except Exception:
                        pass
                    await rd
                else:
                    for d, wl in turns:
                        for x in wl:
                            if d == peer.role:
                                await self.write(world, peer, chan, x)
                            else:
                                for _ in x["msgs"]:
                                    await self.read(world, peer, chan)
                peer.hs = "ok"
            except Exception:
                pass
            if closer:
                if closer != peer.role:
                    try:
                        peer.beyond = await chan.read()
                    except Exception as e:
                        peer.beyond = e
                    peer.ended = world.sched.now()
                chan.close()
                return
            for _ in range(past):
                try:
                    if cfg["sockfault"] and any(op == "read" for op, _ in peer.errors):
                        break       # a failed recv() may have eaten part of a frame
                    await self.read(world, peer, chan)
                except Exception:
                    pass

        def sbody(world, s, peer, chan):
            try:
                for d, wl in turns:
                    for x in wl:
                        if d == peer.role:
                            self.call(world, peer, chan, "write", api, x)
                        else:
                            for _ in x["msgs"]:
                                self.call(world, peer, chan, "read", api)
                peer.hs = "ok"
            except Exception:
                pass
            for _ in range(past):
                try:
                    if cfg["sockfault"] and any(op == "read" for op, _ in peer.errors):
                        break       # a failed recv() may have eaten part of a frame
                    self.call(world, peer, chan, "read", api)
                except Exception:
                    pass
        cfg["abody"] = abody
        cfg["sbody"] = sbody

        async def refbody(world, s, peer, raw):
            try:
                for d, wl in turns:
                    for x in wl:
                        if d == peer.role:
                            peer.sent.append(list(x["msgs"]))
                            await raw.send(*x["msgs"])
                        else:
                            for _ in x["msgs"]:
                                peer.got.append(await raw.recv())
                if neg is not None:
                    await raw.send_bytes(struct.pack("<i", neg) + bytes(fs.below(10)))
                    tr.fault("neg_prefix")
                peer.hs = "ok"
            except RawEOF:
                pass
            finally:
                raw.close()
        w = World(ch, tr, cfg["transport"])
        sf = mode == "broken" and cfg["transport"] == "thr" and fs.chance(0.3)
        cfg["sockfault"] = sf
        cfg["sock_setup"] = sock_faults(fs)

        def prep(s):
            if not sf:
                place_faults(ch, tr, fs, s, turns, raw=True)
        s = w.add(cfg, turns, client=refbody if side == "c" else None, server=refbody if side == "s" else None,
                  prepare=prep if mode == "broken" else None)
        tr.log("cfg", mode, cfg["transport"], [(d, [[len(m) for m in x["msgs"]] for x in wl]) for d, wl in turns])
        w.deadline(30000 if mode != "broken" else 4000)
        w.run()
        need(not w.stuck, "no-progress", lambda: "raw channel never returns: %s" % w.stuck)
        self.judge(tr, s, mode, neg)
        if closer:
            p = s.server if closer == "c" else s.client
            need(isinstance(p.beyond, R.ex.ComException), "closed-channel", lambda: "%s: reading past the last message of a "
                 "peer that closed its channel gave %s" % (p.name, err(p.beyond) if isinstance(p.beyond, Exception) else
                                                           short(p.beyond)))
            need(p.ended < 29999, "closed-channel", lambda: "%s never learns that its peer closed its channel" % p.name)
        tr.probe("nontrivial")

    # -- operations
    async def write(self, world, peer, chan, x):
        msgs = [bytearray(m) if x["ba"] else m for m in x["msgs"]]
        peer.sent.append(list(x["msgs"]))
        try:
            await chan.write(*msgs, is_last=x["last"])
        except Exception as e:
            peer.fail("write", e)
            raise
        peer.acked += 1
        if x["ba"]:
            for m in msgs:
                m[:] = b"\xee" * len(m)

    async def read(self, world, peer, chan):
        try:
            m = await chan.read()
        except Exception as e:
            peer.fail("read", e)
            raise
        peer.read_ok(m)

    def call(self, world, peer, chan, op, api, x=None):
        if api[peer.role] == "async":
            return R.util.force_event_loop().run_until_complete(
                self.write(world, peer, chan, x) if op == "write" else self.read(world, peer, chan))
        try:
            if op == "read":
                peer.read_ok(chan.read_sync())
                return
            msgs = [bytearray(m) if x["ba"] else m for m in x["msgs"]]
            peer.sent.append(list(x["msgs"]))
            chan.write_sync(*msgs, is_last=x["last"])
            peer.acked += 1
        except Exception as e:
            peer.fail(op, e)
            raise

    def judge(self, tr, s, mode, neg):
        for p, inp, out, other in ((s.client, s.conn.b2a, s.conn.a2b, s.server),
                                   (s.server, s.conn.a2b, s.conn.b2a, s.client)):
            if p.channel is None and mode == "ref_peer":
                continue
            for op, e in p.errors:
                need(isinstance(e, R.ex.ComException), "error-kind", lambda: "%s: %s raised %s" % (p.name, op, err(e)))
            need(not (getattr(p, "sock", None) and p.sock.send_failed) or any(op != "read" for op, _ in p.errors),
                 "false-success", lambda: "%s: sending failed, yet no write reported it" % p.name)
            want = other.sent_flat()
            need(p.got == want[:len(p.got)] and all(isinstance(m, bytes) for m in p.got), "wrong-message",
                 lambda: "%s read %s, its peer wrote %s" % (p.name, [short(m) for m in p.got[:8]],
                                                            [short(m) for m in want[:8]]))
            # bytes on the wire
            sent = [f for _, f in out.sent_frames]
            mine = p.sent_flat()
            need(sent == mine[:len(sent)] and not out.parser.bad, "wire", lambda: "%s put frames %s on the wire for "
                 "writes %s" % (p.name, [short(m) for m in sent[:8]], [short(m) for m in mine[:8]]))
            if mode != "broken":
                need(len(sent) == len(mine) and not out.parser.buf, "wire", lambda: "%s put %d frames on the wire for %d "
                     "messages" % (p.name, len(sent), len(mine)))
                need(len(p.got) == len(want), "lost-message", lambda: "%s read %d of %d messages: %s" % (
                    p.name, len(p.got), len(want), p.errors[:1]))
                if neg is None:
                    need(not p.errors, "spurious-error", lambda: "%s: %s raised %s" % (p.name, p.errors[0][0],
                                                                                      err(p.errors[0][1])))
                else:
                    tr.probe("neg_prefix")
                    need(p.events and isinstance(p.events[-1], Exception), "false-success",
                         lambda: "%s: read() of a broken frame returned data" % p.name)
                if s.cfg["mitm_c" if p.role == "c" else "mitm_s"]:
                    c = p.channel
                    need(c.counter_read == sum(map(len, p.got)) and c.counter_write == sum(map(len, mine)), "counters",
                         lambda: "%s: traffic counters read=%d write=%d, carried %d and %d" % (
                             p.name, c.counter_read, c.counter_write, sum(map(len, p.got)), sum(map(len, mine))))
                    tr.probe("mitm_counted")
            else:
                fr = frames_in(inp)
                rst = any(x.cut and x.cut[1] == "reset" and x.dead for x in (inp, out)) or s.cfg["sockfault"]
                need(p.got == fr[:len(p.got)], "torn-message", lambda: "%s read a message that did not arrive whole" %
                     p.name)
                if inp.dead and inp.total_out != sum(4 + len(f) for f in fr):
                    tr.probe("cut_mid_frame")
                if not rst:
                    need(len(p.got) == len(fr), "lost-message", lambda: "%s read %d of the %d messages that arrived "
                         "whole" % (p.name, len(p.got), len(fr)))
                need(p.events and isinstance(p.events[-1], Exception), "false-success",
                     lambda: "%s: reading past the end of the stream returned data" % p.name)
