"""Worlds: real sessions of the code under test (and reference peers) on the simulator."""
import asyncio
import gc

from . import refsalt as ref
from .aio import SimLoop, SimTransport
from .core import SimDeadlock, SimKill, SimStuck, Violation, key_bytes, payload, short
from .env import R, RAND, CREATED_LOOPS, REPO, enter_sim_thread, use_backend
from .net import Conn, MsgPipe, StreamPipe, draw_net, FrameParser, frame
from .thr import SimSocket, ThreadSim

SMALL = (5, 1, 0, 2, 3, 4, 6, 7, 8, 13, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129)
MEDIUM = (200, 255, 256, 257, 511, 512, 1000, 1023, 1024, 4095, 4096, 4097)
LARGE = (65535, 65536, 65537, 65534, 65529, 65530, 32767, 32768, 16384, 66000, 131072, 200000)


def draw_size(st, scale):
    """scale 0: small only .. 3: all the way to 1 MB."""
    k = st.below(100)
    if scale == 0 or k < 70:
        return st.pick(SMALL)
    if scale == 1 or k < 90:
        return st.pick(MEDIUM)
    if scale == 2 or k < 99:
        return st.pick(LARGE)
    return 1 << 20


# beginnings of the protocol's own packets
LOOKALIKES = (b"\x06\x80", b"SCv2\x01\0\0\0\0\0", b"SCv2", b"\x05\0\0\0\0\0", b"\x04\0", b"\x03\0", b"\x02\x81",
              b"\x08\0\0\0\0", b"\x09\x80\x01", b"\x0b\0\0\0\0\0\xff\xff", b"\x06\0")


def content(st, tag, size):
    """Message bytes: mostly arbitrary, sometimes of a shape that code likes to treat specially."""
    m = payload(tag, size)
    k = st.below(100)
    if k < 82 or not size:
        return m
    if k < 85:
        return bytes(size)
    if k < 87:
        return b"\xff" * size
    if k < 90:
        return m[:size // 2] + bytes(size - size // 2)
    if k < 92:
        return bytes(size // 2) + m[:size - size // 2]
    if k < 94:
        return (m + b" \r\n\0")[-size:]
    if k < 96:
        return (LOOKALIKES[st.below(len(LOOKALIKES))] + m)[:size]
    if k < 98:
        return (b"\x0b\0\0\0\0\0\x02\0" + m)[:size]
    return ((size - 4 & 0xffffffff).to_bytes(4, "little") + m)[:size]


def draw_convo(st, name, scale=1, max_turns=4, max_writes=4, max_msgs=5, p=0.6, client_first=False, last="maybe"):
    """A conversation: list of (dir, [write]); write = {'msgs': [bytes], 'last': bool, 'ba': bool}."""
    turns = []
    n = 1 + st.geometric(p, max_turns - 1)
    d = "c" if client_first or st.below(2) == 0 else "s"
    tag = 0
    name = "%s/%d" % (name, st.below(1 << 16))
    for ti in range(n):
        writes = []
        for wi in range(1 + st.geometric(0.5, max_writes - 1)):
            k = st.wpick(((600, 1), (200, 2), (80, 3), (117, 0), (3 if max_msgs > 3 else 0, -1)))
            msgs = []
            if k < 0:       # a crowd of tiny messages in one write
                k = 0
                for _ in range(st.pick((200, 255, 256, 257, 300, 130))):
                    tag += 1
                    msgs.append(b"%d" % tag)
            elif k == 0:
                k = 1 + st.below(max_msgs)
            for _ in range(k):
                tag += 1
                msgs.append(content(st, "%s.%d" % (name, tag), draw_size(st, scale)))
            writes.append({"msgs": msgs, "last": False, "ba": st.chance(0.15)})
        turns.append((d, writes))
        d = "s" if d == "c" else "c"
    if last != "never":
        for side in "cs":
            ws = [w for (dd, wl) in turns for w in wl if dd == side]
            if ws and st.chance(0.5):
                ws[-1]["last"] = True
            elif len(ws) > 1 and st.chance(0.1):      # marked too early: what follows is delivered all the same
                ws[st.below(len(ws) - 1)]["last"] = True
    return turns


def flat(turns, d):
    return [m for (dd, wl) in turns if dd == d for w in wl for m in w["msgs"]]


def writes_of(turns, d):
    return [w for (dd, wl) in turns if dd == d for w in wl]


class Peer:
    """Record of everything observable at one endpoint."""

    def __init__(self, name, role):
        self.name = name
        self.role = role
        self.sess = None
        self.hs = None            # None: not finished; 'ok'; or the exception
        self.sent = []            # writes attempted, in order (lists of bytes)
        self.acked = 0            # writes that returned
        self.got = []             # messages returned by reads
        self.lasts = []           # value of .last after each successful read
        self.errors = []          # (operation, exception)
        self.events = []          # reads in order: bytes or the exception
        self.finished = False
        self.channel = None
        self.checker = None
        self.keeper = None
        self.last0 = None         # value of .last right after the handshake
        self.times = []           # (start, end) simulated time of each write call

    def fail(self, op, e):
        self.errors.append((op, e))
        if op == "read":
            self.events.append(e)

    def read_ok(self, m):
        self.got.append(m)
        self.events.append(m)

    @property
    def first_error(self):
        return self.errors[0] if self.errors else None

    def sent_flat(self):
        return [m for w in self.sent for m in w]


class Sess:
    """One connection with its two endpoints."""

    def __init__(self, cid, cfg, turns):
        self.cid = cid
        self.cfg = cfg
        self.turns = turns
        self.client = Peer("client#%d" % cid, "c")
        self.server = Peer("server#%d" % cid, "s")
        self.conn = None


def draw_cfg(st, transports=("msg", "aio", "thr"), backends=True, net=None, **over):
    cfg = {
        "transport": st.pick(transports),
        "buffer_m2": st.chance(0.4),
        "buffer_M4": st.chance(0.4),
        "wanted": st.chance(0.3),
        "mitm_c": st.chance(0.2),
        "mitm_s": st.chance(0.15),
        "duplex": st.chance(0.35),
        "sync": st.chance(0.25),
        "loop_arg": st.chance(0.2),
        "window": st.pick((1 << 30, 1 << 30, 2000, 100)),
        "limit": st.pick((65536, 65536, 1024, 64)),
        "backend": st.wpick(((70, "native"), (20, "pynacl"), (10, "tweetnacl"))) if backends else "native",
        "preempt": 0,
        "pace": st.chance(0.3),
        "ff": 0,
        "defer": "",
    }
    cfg["net"] = net or draw_net(st)
    cfg.update(over)
    return cfg


FF_BITS = (16, 32, 8, 17, 24, 31, 33, 40, 48, 53, 56, 62)


def draw_ff(st, cfg, p=0.12):
    """Long sessions without their cost: both ends start the conversation D packets into the session."""
    if cfg["buffer_M4"] or not st.chance(p):
        return
    k = st.pick(FF_BITS)
    d = (1 << (k - 1)) - 1 - st.below(8)
    if d > 0 and ff_supported():
        cfg["ff"] = d


def draw_defer(st, cfg, turns, p=0.25):
    """One application that reads what it is sent only after (some of) its own writes."""
    if cfg["duplex"] or cfg["window"] < (1 << 29) or not st.chance(p):
        return
    if sum(len(m) + 64 for _, wl in turns for w in wl for m in w["msgs"]) < 20000:
        cfg["defer"] = st.pick("cs")


def draw_nest(st, cfg, seed, p=0.06):
    """A session inside a session: the application channel is itself a byte channel."""
    if st.chance(p):
        cfg["nest"] = {"keys": keys_for("%s/outer" % seed), "buffer_M4": st.chance(0.4), "buffer_m2": st.chance(0.4)}


def _nonce_pos(n):
    return int.from_bytes(bytes(n)[:8], "little")


def fast_forward(enc, d):
    """Advance both counters of an EncryptedChannelV2 by d packets. False (nothing changed) if it cannot be done."""
    try:
        pair = (enc.read_nonce, enc.write_nonce)
        old = [(n.value, _nonce_pos(n)) for n in pair]
        for n in pair:
            n.value += 2 * d
        if all(_nonce_pos(n) == p + 2 * d for n, (_, p) in zip(pair, old)):
            return True
        for n, (v, _) in zip(pair, old):
            n.value = v
    except Exception:
        pass
    return False


_FF = {}


def ff_supported():
    """Decided once per process with throw-away channels, so that both ends agree."""
    if "ok" not in _FF:
        try:
            _FF["ok"] = all(fast_forward(R.EncryptedChannelV2(None, bytes(range(32)), role), 5)
                            for role in (R.Role.CLIENT, R.Role.SERVER)) and all(
                hasattr(cls(kp(ref.sig_keys(bytes(32))), None), "enc_channel")
                for cls in (R.Client, R.Server))
        except Exception:
            _FF["ok"] = False
    return _FF["ok"]


def keys_for(tag):
    return {
        "c_sig": ref.sig_keys(key_bytes(tag + "/cs")),
        "s_sig": ref.sig_keys(key_bytes(tag + "/ss")),
        "c_enc": ref.enc_keys(key_bytes(tag + "/ce")),
        "s_enc": ref.enc_keys(key_bytes(tag + "/se")),
    }


def related(st, a, b):
    """A secret made of parts of two others: what is remembered under part of a key must not be found under another."""
    n = st.pick((4, 8, 1, 16, 28, 31))
    return a[:n] + b[n:] if st.below(2) == 0 else b[:-n] + a[-n:]


def kp(pair):
    return R.KeyPair(sec=pair[0], pub=pair[1])


class World:
    """One simulated execution: any number of sessions on one transport kind."""

    def __init__(self, choices, trace, transport, max_steps=300000, preempt=0, max_time=1e7):
        self.ch = choices
        self.trace = trace
        self.transport = transport
        self.sessions = []
        self.tasks = []
        self.stuck = None
        self.keep = []
        gc.disable()
        RAND.start(choices.seed)
        if transport == "thr":
            self.sched = ThreadSim(choices, trace, max_steps, preempt, REPO.rstrip("/") + "/saltchannel")
            self.loop = None
        else:
            self.loop = self.sched = SimLoop(trace, max_steps, max_time)
            asyncio.set_event_loop(self.loop)
            self.loop.connector = self._connector
        self.server_started = False
        self.pending_conn = None
        self.sync_main = None

    def new_conn(self, cfg, cid):
        kind = MsgPipe if self.transport == "msg" else StreamPipe
        return Conn(self.sched, self.ch, cfg["net"], self.trace, cid, kind)

    def _connector(self):
        s = self.pending_conn
        return s.conn, {"high": s.cfg["window"] if s.cfg["window"] < (1 << 29) else 65536}

    # -- endpoint bodies (asynchronous API) ------------------------------------------
    def make_session(self, s, peer, chan):
        k = s.cfg["keys"]
        R = self.ns(s, peer)

        def kp(pair):
            return R.KeyPair(sec=pair[0], pub=pair[1])
        loop = self.loop if (s.cfg["loop_arg"] and self.loop is not None) else None
        if peer.role == "c":
            x = R.Client(kp(k["c_sig"]), chan, loop=loop) if loop else R.Client(kp(k["c_sig"]), chan)
            x.enc_keypair = kp(k["c_enc"])
            x.buffer_M4 = s.cfg["buffer_M4"]
            w = s.cfg["wanted"]
            if w:
                x.wanted_server_sig_key = w if isinstance(w, bytes) else k["s_sig"][1]
        else:
            x = R.Server(kp(k["s_sig"]), chan, loop=loop) if loop else R.Server(kp(k["s_sig"]), chan)
            x.enc_keypair = kp(k["s_enc"])
            x.buffer_m2 = s.cfg["buffer_m2"]
            if s.cfg.get("a2") is not None:
                x.a2 = s.cfg["a2"]
        if s.cfg.get("timing"):
            s.cfg["timing"](self, s, peer, x)
        peer.sess = x
        peer.channel = chan
        return x

    def outer(self, s, peer, chan):
        """The session that carries another session: its application channel is the other's clear channel."""
        n = s.cfg["nest"]
        R = self.ns(s, peer)
        me = peer.role

        def pair(p):
            return R.KeyPair(sec=p[0], pub=p[1])
        x = (R.Client if me == "c" else R.Server)(pair(n["keys"][me + "_sig"]), chan)
        x.enc_keypair = pair(n["keys"][me + "_enc"])
        if me == "c":
            x.buffer_M4 = n["buffer_M4"]
        else:
            x.buffer_m2 = n["buffer_m2"]
        peer.outer = x
        self.trace.probe("nested")
        return x

    def ns(self, s, peer):
        """The instance of the library this endpoint uses (separately imported in C18)."""
        ns = s.cfg.get("ns")
        return ns[peer.role] if ns else R

    def forward(self, s, peer):
        d = s.cfg.get("ff")
        if d:
            if fast_forward(peer.sess.enc_channel, d):
                self.trace.probe("fast_forward")
            else:
                self.ff_failed = True

    def wrap(self, s, peer, chan):
        if s.cfg["mitm_c" if peer.role == "c" else "mitm_s"]:
            import logging
            return self.ns(s, peer).MitmChannel(chan, log=logging.getLogger("sim.mitm"))
        return chan

    async def pace(self, s, peer):
        if s.cfg["pace"]:
            await asyncio.sleep(0.001 * self.ch.s("pace%d%s" % (s.cid, peer.role)).below(40))

    async def a_write(self, s, peer, w):
        for f in w.get("before", ()):
            await f(self, s, peer, lambda name, *a, **kw: getattr(peer.sess.app_channel, name)(*a, **kw))
        msgs = [bytearray(m) if w["ba"] else m for m in w["msgs"]]
        peer.sent.append(list(w["msgs"]))
        t0 = self.sched.now()
        try:
            if w["last"]:
                await peer.sess.app_channel.write(*msgs, is_last=True)
            else:
                await peer.sess.app_channel.write(*msgs)
        except Exception as e:
            peer.fail("write", e)
            raise
        finally:
            peer.times.append((t0, self.sched.now()))
        peer.acked += 1
        if w["ba"]:
            for m in msgs:      # the caller may reuse its buffer after the call returned
                m[:] = b"\xee" * len(m)

    async def a_read(self, s, peer):
        try:
            m = await peer.sess.app_channel.read()
        except Exception as e:
            peer.fail("read", e)
            raise
        peer.read_ok(m)
        peer.lasts.append(peer.sess.app_channel.last)
        self.trace.log("got", peer.name, short(m))
        return m

    async def a_endpoint(self, s, peer, chan):
        me = peer.role
        try:
            chan = self.wrap(s, peer, chan)
            if s.cfg.get("abody"):
                peer.channel = chan
                await s.cfg["abody"](self, s, peer, chan)
                return
            try:
                if s.cfg.get("nest"):
                    o = self.outer(s, peer, chan)
                    await o.handshake()
                    chan = o.app_channel
                x = self.make_session(s, peer, chan)
                await x.handshake()
                peer.hs = "ok"
            except Exception as e:
                peer.hs = e
                peer.fail("handshake", e)
                return
            self.trace.log("hs", peer.name)
            peer.last0 = x.app_channel.last
            self.forward(s, peer)
            if s.cfg["duplex"]:
                rd = asyncio.ensure_future(self.a_reader(s, peer, len(flat(s.turns, "s" if me == "c" else "c"))))
                try:
                    for w in writes_of(s.turns, me):
                        await self.pace(s, peer)
                        await self.a_write(s, peer, w)
                except Exception:
                    pass
                await rd
            else:
                owed = 0
                ds = self.ch.s("defer%d" % s.cid) if s.cfg.get("defer") == me else None
                for d, writes in s.turns:
                    for w in writes:
                        await self.pace(s, peer)
                        if d == me:
                            await self.a_write(s, peer, w)
                        elif ds is None:
                            for _ in w["msgs"]:
                                await self.a_read(s, peer)
                        else:
                            owed += len(w["msgs"])
                            n = ds.below(owed + 1)
                            owed -= n
                            for _ in range(n):
                                await self.a_read(s, peer)
                for _ in range(owed):
                    await self.a_read(s, peer)
            await self.extra_reads(s, peer)
        except Exception:
            await self.extra_reads(s, peer)
        finally:
            peer.finished = True
            self.trace.log("end", peer.name)
            if not s.cfg.get("no_close"):
                self.close_chan(s, peer)

    async def a_reader(self, s, peer, n):
        try:
            for _ in range(n):
                await self.a_read(s, peer)
        except Exception:
            pass

    async def extra_reads(self, s, peer):
        """Keep reading after the conversation or after an error: nothing wrong may come out."""
        if peer.hs != "ok":
            return
        for _ in range(s.cfg.get("past", 0)):
            try:
                await self.a_read(s, peer)
            except Exception:
                pass
        if s.cfg.get("late_write") and getattr(getattr(peer, "transport", None), "lost", False):
            peer.late = [True, None]       # the connection is gone
            try:
                await peer.sess.app_channel.write(*s.cfg["late_write"])
            except Exception as e:
                peer.late[1] = e

    def close_chan(self, s, peer):
        ch = peer.raw
        ch.close()

    # -- endpoint bodies (synchronous API) ---------------------------------------------
    def s_call(self, s, peer, obj, name, *args, **kw):
        """Call the sync twin of a coroutine method."""
        if s.cfg.get("run_async_in_thread"):
            loop = self.ns(s, peer).util.force_event_loop()
            return loop.run_until_complete(getattr(obj, name)(*args, **kw))
        return getattr(obj, name + "_sync")(*args, **kw)

    def s_write(self, s, peer, w):
        for f in w.get("before", ()):
            async def call(name, *a, **kw):
                return self.s_call(s, peer, peer.sess.app_channel, name, *a, **kw)
            try:
                f(self, s, peer, call).send(None)       # never waits: the call is synchronous
            except StopIteration:
                pass
        msgs = [bytearray(m) if w["ba"] else m for m in w["msgs"]]
        peer.sent.append(list(w["msgs"]))
        t0 = self.sched.now()
        try:
            if w["last"]:
                self.s_call(s, peer, peer.sess.app_channel, "write", *msgs, is_last=True)
            else:
                self.s_call(s, peer, peer.sess.app_channel, "write", *msgs)
        except Exception as e:
            peer.fail("write", e)
            raise
        finally:
            peer.times.append((t0, self.sched.now()))
        peer.acked += 1
        if w["ba"]:
            for m in msgs:
                m[:] = b"\xee" * len(m)

    def s_read(self, s, peer):
        try:
            m = self.s_call(s, peer, peer.sess.app_channel, "read")
        except Exception as e:
            peer.fail("read", e)
            raise
        peer.read_ok(m)
        peer.lasts.append(peer.sess.app_channel.last)
        self.trace.log("got", peer.name, short(m))
        return m

    def s_endpoint(self, s, peer, chan):
        me = peer.role
        try:
            chan = self.wrap(s, peer, chan)
            if s.cfg.get("sbody"):
                peer.channel = chan
                s.cfg["sbody"](self, s, peer, chan)
                return
            try:
                if s.cfg.get("nest"):
                    o = self.outer(s, peer, chan)
                    self.s_call(s, peer, o, "handshake")
                    chan = o.app_channel
                x = self.make_session(s, peer, chan)
                self.s_call(s, peer, x, "handshake")
                peer.hs = "ok"
            except Exception as e:
                peer.hs = e
                peer.fail("handshake", e)
                return
            self.trace.log("hs", peer.name)
            peer.last0 = x.app_channel.last
            self.forward(s, peer)
            owed = 0
            ds = self.ch.s("defer%d" % s.cid) if s.cfg.get("defer") == me else None
            for d, writes in s.turns:
                for w in writes:
                    if d == me:
                        self.s_write(s, peer, w)
                    elif ds is None:
                        for _ in w["msgs"]:
                            self.s_read(s, peer)
                    else:
                        owed += len(w["msgs"])
                        n = ds.below(owed + 1)
                        owed -= n
                        for _ in range(n):
                            self.s_read(s, peer)
            for _ in range(owed):
                self.s_read(s, peer)
            self.s_extra(s, peer)
        except Exception as e:
            if peer.hs is None:
                peer.hs = e
                peer.fail("construct", e)
            self.s_extra(s, peer)
        finally:
            peer.finished = True
            self.trace.log("end", peer.name)
            if not s.cfg.get("no_close"):
                peer.raw.close()

    def s_extra(self, s, peer):
        if peer.hs != "ok":
            return
        for _ in range(s.cfg.get("past", 0)):
            try:
                self.s_read(s, peer)
            except Exception:
                pass

    # -- wiring ---------------------------------------------------------------------------
    def add(self, cfg, turns, client=None, server=None, prepare=None):
        """Add a session. client/server: optional replacement bodies (reference or hostile peers):
        async callables (world, sess, peer, raw) where raw has recv()/send()/close()."""
        cid = len(self.sessions)
        s = Sess(cid, cfg, turns)
        self.sessions.append(s)
        s.conn = self.new_conn(cfg, cid)
        if prepare:
            prepare(s)
        if self.transport == "thr":
            self._add_thr(s, client, server)
        elif self.transport == "msg":
            self._add_msg(s, client, server)
        else:
            self._add_aio(s, client, server)
        return s

    def _body(self, s, peer, custom, raw_factory):
        raise NotImplementedError

    def _thread_main(self, fn):
        def run():
            enter_sim_thread(self.sched)
            # a fresh caller thread: no event loop of its own
            try:
                asyncio.set_event_loop(None)
            except Exception:
                pass
            fn()
        return run

    def _add_thr(self, s, client, server):
        for peer, side, custom in ((s.client, "a", client), (s.server, "b", server)):
            peer.sock = sock = SimSocket(self.sched, s.conn, side, s.cfg["window"])
            peer.raw = sock
            peer.sock = sock
            if s.cfg.get("sock_setup"):
                s.cfg["sock_setup"](s, peer, sock)
            if custom is None:
                def body(peer=peer, sock=sock):
                    self.s_endpoint(s, peer, self.ns(s, peer).channel.SocketChannel(sock))
            else:
                def body(peer=peer, sock=sock, custom=custom):
                    _drive(custom(self, s, peer, SockRaw(sock)))
                    peer.finished = True
            t = self.sched.spawn(peer.name, self._thread_main(body))
            peer.thread = t

    def _add_msg(self, s, client, server):
        for peer, side, custom in ((s.client, "a", client), (s.server, "b", server)):
            ch = self.ns(s, peer).MsgChannel(self.loop, s.conn, side)
            peer.raw = ch
            if s.cfg.get("chan_setup"):
                s.cfg["chan_setup"](s, peer, ch)
            if custom is None:
                if s.cfg["sync"] and peer.role == "c" and self.sync_main is None:
                    self.sync_main = (lambda s=s, peer=peer, ch=ch: self.s_endpoint(s, peer, ch))
                    continue
                coro = self._guard(peer, self.a_endpoint(s, peer, ch))
            else:
                coro = self._guard(peer, custom(self, s, peer, MsgRaw(ch)))
            self.tasks.append((peer, self.loop.create_task(coro)))

    async def _guard(self, peer, coro):
        try:
            await coro
        finally:
            peer.finished = True

    def _add_aio(self, s, client, server):
        if not self.server_started:
            self.server_started = True
            self.loop.run_until_complete(R.csa.start_saltchannel_server(
                self._on_accept, "sim", 1, loop=self.loop, limit=s.cfg["limit"]))
        s.custom_server = server
        self.pending_conn = s
        if client is not None:
            coro = self._ref_connect(s, client)
            self.tasks.append((s.client, self.loop.create_task(self._guard(s.client, coro))))
            self.loop.run_until_complete(_ticks(3))
            return
        reader, writer = self.loop.run_until_complete(
            R.csa.open_saltchannel_connection("sim", 1, loop=self.loop, limit=s.cfg["limit"]))
        chan = self.ns(s, s.client).channel.AsyncioChannel(reader, writer, loop=self.loop)
        s.client.raw = chan
        s.client.transport = writer.transport
        self.keep.append((reader, writer))
        if s.cfg["sync"] and self.sync_main is None:
            self.sync_main = lambda: self.s_endpoint(s, s.client, chan)
        else:
            self.tasks.append((s.client, self.loop.create_task(
                self._guard(s.client, self.a_endpoint(s, s.client, chan)))))

    async def _ref_connect(self, s, client):
        proto = RawProto(self.loop)
        await self.loop.create_connection(lambda: proto, "sim", 1)
        s.client.raw = proto
        await client(self, s, s.client, proto)

    async def _on_accept(self, reader, writer):
        cid = writer.get_extra_info("peername")[1]
        s = self.sessions[cid]
        self.keep.append((reader, writer))
        if s.custom_server is not None:
            raw = StreamRaw(reader, writer)
            s.server.raw = raw
            await self._guard(s.server, s.custom_server(self, s, s.server, raw))
            return
        chan = self.ns(s, s.server).channel.AsyncioChannel(reader, writer, loop=self.loop)
        s.server.raw = chan
        s.server.transport = writer.transport
        await self._guard(s.server, self.a_endpoint(s, s.server, chan))

    def deadline(self, t):
        """At simulated time t every connection ends, so that runs with lost frames terminate."""
        def end():
            for s in self.sessions:
                for p in (s.conn.a2b, s.conn.b2a):
                    p.paused = False
                    p.close()
                    p.kick()
        self.sched.call_later(t, end)

    # -- running -----------------------------------------------------------------------------
    def run(self, extra=None):
        """Run to quiescence. self.stuck says why it stopped early, if it did."""
        try:
            if self.transport == "thr":
                self.sched.run()
                self.stuck = self.sched.deadlock
                for t in self.sched.threads:
                    if isinstance(t.exc, SimStuck):
                        self.stuck = str(t.exc)
                    elif t.exc is not None:
                        raise t.exc
            else:
                try:
                    if self.sync_main is not None:
                        self.sync_main()
                    self.loop.run_until_complete(self._drain(extra))
                except SimDeadlock:
                    self.stuck = "deadlock: " + ", ".join(p.name for s in self.sessions for p in (s.client, s.server)
                                                          if not p.finished)
                except SimStuck as e:
                    self.stuck = str(e)
        finally:
            self.trace.sim_time += self.sched.now()
            self.close()

    async def _drain(self, extra):
        """Until every endpoint body has ended."""
        while True:
            if all(p.finished for s in self.sessions for p in (s.client, s.server)) and \
                    (extra is None or extra()):
                # let in-flight frames land
                await asyncio.sleep(50)
                return
            await asyncio.sleep(30)
            self._idle = getattr(self, "_idle", 0) + 1
            if self._idle > 4000:
                raise SimDeadlock()

    def close(self):
        RAND.stop()
        if self.loop is not None:
            for peer, t in self.tasks:
                if not t.done():
                    t.cancel()
            try:
                others = [t for t in asyncio.all_tasks(self.loop) if not t.done()]
                for t in others:
                    t.cancel()
                if others:
                    self.loop.max_steps = self.loop.steps + 5000
                    self.loop.run_until_complete(asyncio.wait(others, timeout=1))
            except BaseException:
                pass
            asyncio.set_event_loop(None)
            try:
                self.loop.close()
            except BaseException:
                pass
        for l in CREATED_LOOPS:
            try:
                l.close()
            except BaseException:
                pass
        CREATED_LOOPS.clear()


async def _ticks(n):
    for _ in range(n):
        await asyncio.sleep(0)


def _drive(coro):
    """Run a coroutine that never suspends (sync raw endpoints)."""
    try:
        coro.send(None)
    except StopIteration as e:
        return e.value
    raise RuntimeError("coroutine suspended in thread mode")


class RawEOF(Exception):
    pass


class SockRaw:
    """Reference framing over a SimSocket."""

    def __init__(self, sock):
        self.sock = sock
        self.p = FrameParser()
        self.q = []

    async def recv(self):
        while not self.q:
            try:
                d = self.sock.recv(65536)
            except OSError:
                raise RawEOF()
            if not d:
                raise RawEOF()
            self.q += self.p.feed(d)
        return self.q.pop(0)

    async def send(self, *frames):
        await self.send_bytes(b"".join(frame(f) for f in frames))

    async def send_bytes(self, b):
        try:
            self.sock.sendall(b)
        except OSError:
            raise RawEOF()

    def close(self):
        self.sock.close()


class MsgRaw:
    def __init__(self, ch):
        self.ch = ch

    async def recv(self):
        try:
            return await self.ch.read()
        except Exception:
            raise RawEOF()

    async def send(self, *frames):
        await self.ch.write(frames[0], *frames[1:])

    async def send_bytes(self, b):
        raise RuntimeError("no byte level")

    def close(self):
        self.ch.close()


class StreamRaw:
    """Reference framing over asyncio streams."""

    def __init__(self, reader, writer):
        self.reader = reader
        self.writer = writer
        self.p = FrameParser()
        self.q = []

    async def recv(self):
        while not self.q:
            try:
                d = await self.reader.read(65536)
            except OSError:
                raise RawEOF()
            if not d:
                raise RawEOF()
            self.q += self.p.feed(d)
        return self.q.pop(0)

    async def send(self, *frames):
        await self.send_bytes(b"".join(frame(f) for f in frames))

    async def send_bytes(self, b):
        self.writer.write(b)

    def close(self):
        self.writer.close()


class RawProto(asyncio.Protocol):
    """Plain client-side protocol with reference framing."""

    def __init__(self, loop):
        self.loop = loop
        self.p = FrameParser()
        self.q = []
        self.eof = False
        self.waiter = None

    def connection_made(self, tr):
        self.tr = tr

    def pause_writing(self):
        pass

    def resume_writing(self):
        pass

    def _wake(self):
        if self.waiter and not self.waiter.done():
            self.waiter.set_result(None)

    def data_received(self, d):
        self.q += self.p.feed(d)
        self._wake()

    def eof_received(self):
        self.eof = True
        self._wake()
        return True

    def connection_lost(self, exc):
        self.eof = True
        self._wake()

    async def recv(self):
        while not self.q:
            if self.eof:
                raise RawEOF()
            self.waiter = self.loop.create_future()
            await self.waiter
        return self.q.pop(0)

    async def send(self, *frames):
        await self.send_bytes(b"".join(frame(f) for f in frames))

    async def send_bytes(self, b):
        self.tr.write(b)

    def close(self):
        self.tr.close()


# --------------------------------------------------------------------------- reference peers

async def ref_server(world, s, peer, raw, box_hook=None):
    """Honest reference server playing s.turns."""
    k = s.cfg["keys"]
    peer.ref = rs = ref.RefServer(k["s_sig"], k["s_enc"], s.cfg.get("ref_times"))
    try:
        m2f = rs.on_m1(await raw.recv())
        if s.cfg["buffer_m2"]:
            await raw.send(m2f, rs.m3_packet())
        else:
            await raw.send(m2f)
            await raw.send(rs.m3_packet())
        rs.on_m4(await raw.recv())
        peer.hs = "ok"
        await ref_converse(world, s, peer, raw, rs.box, "s")
    except (RawEOF, ref.RefError) as e:
        peer.fail("ref", e)
        if peer.hs is None:
            peer.hs = e
    finally:
        raw.close()


async def ref_client(world, s, peer, raw):
    k = s.cfg["keys"]
    peer.ref = rc = ref.RefClient(k["c_sig"], k["c_enc"], s.cfg.get("ref_times"),
                                  wanted=k["s_sig"][1] if s.cfg["wanted"] is True else (s.cfg["wanted"] or None))
    try:
        await raw.send(rc.m1_frame())
        rc.on_m2(await raw.recv())
        if rc.no_such:
            peer.hs = "nosuch"
            return
        rc.on_m3(await raw.recv())
        m4p = rc.box.seal(rc.m4_plain())
        peer.hs = "ok"
        if s.cfg["buffer_M4"]:
            await ref_converse(world, s, peer, raw, rc.box, "c", first=[m4p])
        else:
            await raw.send(m4p)
            await ref_converse(world, s, peer, raw, rc.box, "c")
    except (RawEOF, ref.RefError) as e:
        peer.fail("ref", e)
        if peer.hs is None:
            peer.hs = e
    finally:
        raw.close()


async def ref_converse(world, s, peer, raw, box, me, first=()):
    first = list(first)
    q = []
    box.w += 2 * s.cfg.get("ff", 0)
    box.r += 2 * s.cfg.get("ff", 0)
    for d, writes in s.turns:
        for w in writes:
            if d == me:
                t = s.cfg.get("ref_app_time", 0)
                style = w.get("style", "auto")
                if style == "single":
                    plains = [ref.app(t, m) for m in w["msgs"]]
                elif style == "multi" and all(len(m) <= ref.MAXU16 for m in w["msgs"]):
                    plains = [ref.multi(t, w["msgs"])]
                else:
                    plains = ref.plains_of_write(w["msgs"], t)
                if s.cfg.get("ref_pick_time"):
                    plains = [p[:2] + s.cfg["ref_pick_time"]().to_bytes(4, "little") + p[6:] for p in plains]
                pk = [box.seal(p, w["last"] and i == len(plains) - 1) for i, p in enumerate(plains)]
                peer.sent.append(list(w["msgs"]))
                await raw.send(*(first + pk))
                first = []
                peer.acked += 1
            else:
                for _ in w["msgs"]:
                    while not q:
                        p, last = box.open(await raw.recv())
                        t, ms = ref.parse_app(p)
                        peer.lastflag = last
                        q += ms
                    peer.got.append(q.pop(0))
    if first:
        await raw.send(*first)


# --------------------------------------------------------------------------- wire oracle

def check_wire(s, times=None, complete=True):
    """Compare every frame both endpoints put on the wire with the protocol definition.
    times(dir, what, value, frame_time) -> bool decides Time fields (default: must be 0)."""
    k = s.cfg["keys"]
    if times is None:
        times = lambda d, what, v, t, wi=None: v == 0
    cf = [f for _, f in s.conn.a2b.sent_frames]
    sf = [f for _, f in s.conn.b2a.sent_frames]
    ct = [t for t, _ in s.conn.a2b.sent_frames]
    stt = [t for t, _ in s.conn.b2a.sent_frames]

    def bad(what, got, want):
        raise Violation("wire", "%s: on the wire %s, protocol says %s" % (what, short(got, 60), short(want, 60)))

    def tm(f, off):
        return int.from_bytes(f[off:off + 4], "little")

    def chk_time(d, what, v, t, wi=None):
        if not times(d, what, v, t, wi):
            raise Violation("time-field", "%s carries Time %d at simulated time %.6f" % (what, v, t))

    if not cf:
        return
    wanted = s.cfg["wanted"]
    wanted = (k["s_sig"][1] if wanted is True else wanted) or None
    m1 = cf[0]
    want = ref.m1(tm(m1, 6) if len(m1) >= 10 else 0, k["c_enc"][1], wanted)
    if m1 != want:
        bad("M1", m1, want)
    chk_time("c", "M1", tm(m1, 6), ct[0])
    if not sf:
        return
    m2 = sf[0]
    want = ref.m2(tm(m2, 2) if len(m2) >= 6 else 0, k["s_enc"][1])
    if m2 != want:
        bad("M2", m2, want)
    chk_time("s", "M2", tm(m2, 2), stt[0])
    h1, h2 = ref.h512(m1), ref.h512(m2)
    key = ref.shared(k["c_enc"][0], k["s_enc"][1])
    for d, frames, tt, first_n, mk, peer, name in (
            ("s", sf[1:], stt[1:], 2, lambda t: ref.m3(t, k["s_sig"][1], ref.sign(ref.sig1_msg(h1, h2), k["s_sig"][0])),
             s.server, "M3"),
            ("c", cf[1:], ct[1:], 1, lambda t: ref.m4(t, k["c_sig"][1], ref.sign(ref.sig2_msg(h1, h2), k["c_sig"][0])),
             s.client, "M4")):
        n = first_n
        i = 0

        def open_at(i):
            f = frames[i]
            if len(f) < 18 or f[0] != ref.ENC:
                bad("encrypted packet header", f, bytes([ref.ENC, 0]))
            at = n + 2 * i + (2 * s.cfg.get("ff", 0) if i else 0)
            p = ref.unseal(key, at, f[2:])
            if p is None:
                bad("ciphertext %d of %s" % (i, d), f, b"nonce %d" % at)
            return p
        if not frames:
            continue
        p = open_at(0)
        t = tm(p, 2) if len(p) >= 6 else 0
        if p != mk(t):
            bad(name, p, mk(t))
        if frames[0] != ref.enc(ref.seal(key, n, p), False):
            bad(name + " packet", frames[0], ref.enc(ref.seal(key, n, p), False))
        chk_time(d, name, t, tt[0])
        i = 1
        for wi, w in enumerate(writes_of(s.turns, d)[:len(peer.sent)]):
            count = 1 if ref.use_multi(w["msgs"]) else len(w["msgs"])
            for j in range(count):
                if i >= len(frames):
                    if complete:
                        raise Violation("wire", "%s stopped before write %d was complete" % (peer.name, wi))
                    return
                p = open_at(i)
                t = tm(p, 2) if len(p) >= 6 else 0
                want = ref.plains_of_write(w["msgs"], t)[j] if count > 1 else ref.plains_of_write(w["msgs"], t)[0]
                if p != want:
                    bad("application packet %d of %s" % (i, peer.name), p, want)
                chk_time(d, "App", t, tt[i], wi)
                last = bool(w["last"] and j == count - 1)
                if frames[i][:2] != bytes([ref.ENC, 0x80 if last else 0]):
                    bad("flags of application packet %d of %s" % (i, peer.name), frames[i][:2],
                        bytes([ref.ENC, 0x80 if last else 0]))
                i += 1
        if i < len(frames):
            raise Violation("wire", "%s sent %d frames beyond its writes" % (peer.name, len(frames) - i))
