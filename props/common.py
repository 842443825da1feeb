"""Shared pieces of the property modules."""
import gc
import json
import os
import tracemalloc

from sim import env, refsalt as ref
from sim.core import Choices, HarnessError, Trace, Violation, key_bytes, payload, short
from sim.env import R
from sim.net import Attacker, draw_net, frame
from sim.session import (Peer, Sess, World, check_wire, draw_cfg, draw_convo, draw_size, flat, keys_for, kp, related,
                         draw_defer, draw_ff, draw_nest, ref_client, ref_converse, ref_server, writes_of, RawEOF, RawProto, SockRaw, StreamRaw, MsgRaw)

REAL = [
    "saltchannel.v2.SaltClientSession / SaltServerSession", "saltchannel.v2.EncryptedChannelV2 / AppChannelV2",
    "saltchannel.v2.packets, saltchannel.a1a2.packets, saltchannel.util.packets (wire codecs)",
    "saltchannel.channel (AsyncioChannel, SocketChannel, ByteChannel)",
    "saltchannel.dev.client_server_a stream reader/writer/protocol, saltchannel.dev.mitm_channel",
    "saltchannel.saltlib with its native (libsodium via ctypes) and PyNaCl back ends",
    "CPython asyncio streams and BaseEventLoop scheduling",
]
STUB = [
    "network (sim.net byte/message pipes)", "sockets (sim.thr.SimSocket)",
    "asyncio selector, clock and transports (sim.aio)", "thread scheduler (sim.thr: real threads, one runs at a time)",
    "os.urandom (seeded)", "C extension tweetnacl.raw (not installed; stub over libsodium)",
]


class Prop:
    id = None
    title = ""
    rule = ("one case = one seeded simulated run (workload, configuration, schedule, segmentation, delays and faults all "
            "drawn from the seed); non-trivial = application data or an injected fault reached the code under test; "
            "distinct = different hash of the complete event log")
    quick = 1000
    thorough = 100000
    expect = ()
    cpu_limit = 25.0        # seconds of CPU one run may use (typical: 0.01)
    real = REAL
    stub = STUB
    assumptions = ["NaCl primitives of libsodium are correct", "the attacker does not hold the endpoints' secret keys"]

    def load(self):
        env.load()

    def run(self, ch, tr):
        raise NotImplementedError

    def directed(self, index):
        """Forced first choices of some indexes, so that rare corners are in every batch."""
        return None

    def known(self, info):
        return match_known(self.id, info)


_KNOWN = None


def match_known(pid, info):
    """known_findings.json: entries {'property','kind','contains','what'} that are reported, not alarmed."""
    global _KNOWN
    if _KNOWN is None:
        try:
            with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                                   "known_findings.json")) as f:
                _KNOWN = json.load(f).get("findings", [])
        except FileNotFoundError:
            _KNOWN = []
    for k in _KNOWN:
        if k["property"] == pid and k["kind"] == info["kind"] and k["contains"] in info["detail"]:
            return k["what"]
    return None


def err(e):
    return "%s(%s)" % (type(e).__name__, ", ".join(str(a)[:120] for a in getattr(e, "args", ())))


def need(cond, kind, detail):
    if not cond:
        raise Violation(kind, detail() if callable(detail) else detail)


def expected_for(s, peer):
    """What this endpoint must read: the flat list of the other side's messages."""
    return flat(s.turns, "s" if peer.role == "c" else "c")


def check_prefix(s, peer, kind="not-what-was-sent"):
    """Everything read is a prefix of what the peer's application wrote."""
    other = s.server if peer.role == "c" else s.client
    want = other.sent_flat()
    for i, m in enumerate(peer.got):
        if i >= len(want):
            raise Violation(kind, "%s read message %d (%s) but its peer only wrote %d" % (
                peer.name, i, short(m), len(want)))
        if m != want[i] or not isinstance(m, bytes):
            raise Violation(kind, "%s read %s as message %d, its peer wrote %s" % (
                peer.name, short(m) if isinstance(m, (bytes, bytearray)) else repr(m)[:80], i, short(want[i])))


def check_complete(s, peer):
    check_prefix(s, peer)
    want = expected_for(s, peer)
    need(peer.hs == "ok", "handshake-failed", lambda: "%s: fault-free handshake ended with %s" % (
        peer.name, err(peer.hs) if peer.hs is not None else "no result"))
    need(not peer.errors, "spurious-error", lambda: "%s: fault-free %s failed with %s" % (
        peer.name, peer.errors[0][0], err(peer.errors[0][1])))
    need(len(peer.got) == len(want), "lost-message", lambda: "%s read %d of %d messages" % (
        peer.name, len(peer.got), len(want)))


class Memory:
    """Memory the process takes while a peer has announced, not sent, a message of 2 GB.  A blocking socket's
    recv(n) takes a buffer of n bytes of its own, so there one buffer of the announced size is no worse."""

    def __init__(self, allowed=0):
        self.allowed = allowed
        self.on = not tracemalloc.is_tracing()
        self.peak = 0
        if self.on:
            tracemalloc.start()

    def stop(self):
        if self.on and tracemalloc.is_tracing():
            self.peak = tracemalloc.get_traced_memory()[1]
            tracemalloc.stop()

    def check(self):
        need(self.peak < self.allowed + (128 << 20), "runaway-allocation", lambda: "%d MB allocated for a message that was only announced" %
             (self.peak >> 20))


def prelude(ch, tr, st, cfg, p=0.25):
    """Earlier sessions of the same process between the same parties: what they leave behind must not matter.
    Runs none to three genuine conversations (some cut short) before the scenario proper."""
    if not st.chance(p):
        return 0
    tr.probe("earlier_sessions")
    if st.below(5) == 4:
        abandoned(ch, tr, st, cfg)
    n = 1 + st.below(3)
    for j in range(n):
        c = dict(cfg)
        for k in ("abody", "sbody", "chan_setup", "past", "timing", "ns", "ff", "defer", "nest", "late_write"):
            c.pop(k, None)
        c.update(transport="msg", sync=False, duplex=False, mitm_c=False, mitm_s=False, pace=False,
                 net={"seg": "whole", "lat": "none", "short_recv": False}, wanted=st.chance(0.5))
        k = dict(cfg["keys"])
        if st.below(3):
            rel = st.wpick(((70, ""), (10, "c"), (10, "s"), (10, "cs")))
            for x in "cs":
                sk = key_bytes("%s/pre%d/%se" % (ch.seed, j, x))
                if x in rel:
                    tr.probe("related_keys")
                    sk = related(st, k[x + "_enc"][0], sk)
                elif rel:
                    continue        # the other party keeps its key
                k[x + "_enc"] = ref.enc_keys(sk)
        c["keys"] = k
        turns = [("c", [{"msgs": [payload("pre%d" % j, 9), payload("pre%d'" % j, 5)][:1 + st.below(2)], "last": False, "ba": False}]),
                 ("s", [{"msgs": [payload("per%d" % j, 7)], "last": False, "ba": False}])]
        cut = st.below(4) == 3
        w = World(ch, tr, "msg")
        s = w.add(c, turns)
        if cut:
            tr.probe("earlier_session_cut")
            end = (s.conn.a2b, s.conn.b2a)[st.below(2)]
            end.cut_after = st.below(5)
        w.deadline(2000)
        w.run()
        for x in (s.client, s.server):
            check_prefix(s, x)
            if not cut:
                check_complete(s, x)
    return n


def abandoned(ch, tr, st, cfg):
    """Earlier sessions left with messages unread, and forgotten."""
    tr.probe("earlier_session_abandoned")
    n = 1 + st.below(6)
    w = World(ch, tr, "msg")

    async def body(world, s, peer, chan):
        try:
            x = world.make_session(s, peer, chan)
            await x.handshake()
            if peer.role == "c":
                await x.app_channel.write(payload("ab1", 5), payload("ab2", 6), payload("ab3", 7))
            await x.app_channel.read() if peer.role == "s" else None
            if peer.role == "s":
                await x.app_channel.write(payload("ab4", 5), payload("ab5", 6))
            else:
                await x.app_channel.read()
            peer.hs = "ok"
        except Exception as e:
            peer.hs = e
    for j in range(n):
        c = dict(cfg)
        for k in ("abody", "sbody", "chan_setup", "past", "timing", "ns", "ff", "defer", "nest", "late_write"):
            c.pop(k, None)
        c.update(transport="msg", sync=False, duplex=False, mitm_c=False, mitm_s=False, pace=False, wanted=False,
                 net={"seg": "whole", "lat": "none", "short_recv": False}, abody=body,
                 keys=keys_for("%s/ab%d" % (ch.seed, j)))
        w.add(c, [])
    w.deadline(2000)
    w.run()
    for s in w.sessions:
        for p in (s.client, s.server):
            need(p.hs == "ok", "handshake-failed", lambda: "%s: an earlier session failed: %s" % (p.name, p.hs))
    w = s = p = None
    gc.collect()


_WARM = set()


def warm(key, ns=None):
    """One plain session before the first run, so that what the library sets up on first use (its singletons) does not make
    a process's first run different from its later ones."""
    if key in _WARM:
        return
    _WARM.add(key)
    ch, tr = Choices("warm"), Trace()
    cfg = draw_cfg(ch.s("cfg"), transports=("msg",), backends=False)
    cfg.update(backend="native", keys=keys_for("warm"), sync=False, duplex=False, mitm_c=False, mitm_s=False, pace=False,
               buffer_M4=False, net={"seg": "whole", "lat": "none", "short_recv": False})
    if ns is not None:
        cfg["ns"] = {"c": ns, "s": ns}
    try:
        w = World(ch, tr, "msg")
        w.add(cfg, [("c", [{"msgs": [b"warm"], "last": False, "ba": False}]),
                    ("s", [{"msgs": [b"up"], "last": False, "ba": False}])])
        w.deadline(2000)
        w.run()
    except Exception:
        pass        # the runs proper will tell


def desc(s):
    c = s.cfg
    return "%s %s sync=%d bufM2=%d bufM4=%d wanted=%d duplex=%d net=%s" % (
        c["transport"], c["backend"], c["sync"], c["buffer_m2"], c["buffer_M4"], bool(c["wanted"]), c["duplex"],
        "/".join(str(v) for v in c["net"].values()))
