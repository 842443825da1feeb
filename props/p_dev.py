"""C21: the shipped client/server pairs and example sessions, run whole."""
from sim import proc
from sim.core import SimStuck

from .common import *
from .p_fault import SOCK_ERRORS  # noqa: F401

REQ1 = bytes([1, 5, 5, 5, 5, 5])
REQ2 = [bytes([1, 4, 4, 4, 4]), bytes([3, 3, 3, 3])]
_NS = {}


def dev_ns(backend):
    if backend not in _NS:
        try:
            _NS[backend] = env.import_fresh(*env.HOSTS[backend], extra=proc.import_dev)
        except Violation:
            raise
        except Exception as e:
            raise Violation("import", "the shipped client/server programs cannot be imported: %s" % err(e))
        warm("dev/" + backend, _NS[backend])
    return _NS[backend]


class Rec:
    """What the sessions a pair ran did."""

    def __init__(self, m):
        self.m = m
        self.clients = []
        self.servers = []

    def begin(self, lst, cid):
        r = {"cid": cid, "t0": self.m.sim.now(), "end": None, "exc": None, "obj": None}
        lst.append(r)
        self.m.trace.log("session", "c" if lst is self.clients else "s", cid)
        return r

    def end(self, r, exc):
        r["exc"] = exc
        r["end"] = self.m.sim.now()
        self.m.trace.log("session.end", r["cid"], type(exc).__name__ if exc else "ok")


def cid_of(m, channel):
    x = channel
    for a in ("orig", "sock"):
        x = getattr(x, a, x)
    try:
        return x.getpeername()[1] % 40000
    except Exception:
        return m.thread_conn.get(id(m.sim.local.me), -1)


def recorded(base, rec, m):
    class Recorded(base):
        def server_session(self, channel):
            r = rec.begin(rec.servers, cid_of(m, channel))
            try:
                super().server_session(channel)
                rec.end(r, None)
            except Exception as e:
                rec.end(r, e)
                raise

        def client_session(self, channel):
            r = rec.begin(rec.clients, cid_of(m, channel))
            r["obj"] = channel
            try:
                super().client_session(channel)
                rec.end(r, None)
            except Exception as e:
                rec.end(r, e)
                raise
    return Recorded


def recorded_a(base, rec, m):
    class Recorded(base):
        async def server_session(self, reader, writer):
            r = rec.begin(rec.servers, writer.get_extra_info("peername")[1] - 40000)
            try:
                await super().server_session(reader, writer)
                rec.end(r, None)
            except Exception as e:
                rec.end(r, e)
                raise

        async def client_session(self, reader, writer):
            r = rec.begin(rec.clients, writer.get_extra_info("peername")[1] - 40000)
            try:
                await super().client_session(reader, writer)
                rec.end(r, None)
            except Exception as e:
                rec.end(r, e)
                raise
    return Recorded


def user_session(NS, st, tag):
    """A session an application would write: each client sends its own messages, the server answers each."""
    nmsg = 1 + st.below(4)
    sizes = [draw_size(st, 0) for _ in range(nmsg)]
    count = [0]

    class User(NS.dev["client_server"].Session):
        def server_session(self, channel):
            try:
                while True:
                    m = channel.read_sync()
                    channel.write_sync(m, b"re:" + m[:5])
            except NS.ex.ComException:
                pass

        def client_session(self, channel):
            count[0] += 1
            me = count[0]
            for i, n in enumerate(sizes):
                m = payload("%s/%d/%d" % (tag, me, i), n)
                channel.write_sync(m)
                for want in (m, b"re:" + m[:5]):
                    got = channel.read_sync()
                    if got != want:
                        raise Violation("wrong-answer", "a client that sent %s got the answer %s" % (
                            short(m), short(got)))

    class UserA(NS.dev["client_server_a"].SessionA):
        async def server_session(self, reader, writer):
            ch = NS.channel.AsyncioChannel(reader, writer)
            try:
                while True:
                    m = await ch.read()
                    await ch.write(m, b"re:" + m[:5])
            except NS.ex.ComException:
                pass
            ch.close()

        async def client_session(self, reader, writer):
            ch = NS.channel.AsyncioChannel(reader, writer)
            count[0] += 1
            me = count[0]
            for i, n in enumerate(sizes):
                m = payload("%s/%d/%d" % (tag, me, i), n)
                await ch.write(m)
                for want in (m, b"re:" + m[:5]):
                    got = await ch.read()
                    if got != want:
                        raise Violation("wrong-answer", "a client that sent %s got the answer %s" % (
                            short(m), short(got)))
            ch.close()
    return User, UserA


class C21(Prop):
    id = "C21"
    title = "The shipped client/server pairs serve every client and outlive broken ones"
    quick = 5000
    thorough = 200000
    expect = ("mp", "aio", "echo", "ex1", "ex2", "ex3", "user", "rogue", "cut", "preempt", "second_round", "crowd",
              "connect_refused")

    real = REAL + ["saltchannel.dev client/server pairs, echo and example sessions", "CPython socketserver"]
    stub = STUB + ["threading.Thread/Event, socket.socket, time.sleep and socketserver's selector (sim.proc)",
                   "worker processes of the asyncio pair (simulated threads with loops of their own)"]

    def run(self, ch, tr):
        st = ch.s("cfg")
        fs = ch.s("faults")
        NS = dev_ns(st.wpick(((75, "native"), (20, "pynacl"), (5, "tweetnacl"))))
        kind = st.pick(("mp", "aio"))
        what = st.pick(("echo", "ex1", "user", "ex3", "ex2"))
        n = 1 + st.geometric(0.5, 4)
        if st.chance(0.04):
            n = 8 + st.below(5)
            tr.probe("crowd")
        tr.probe(kind)
        tr.probe(what)
        rounds = 1 + st.chance(0.35)
        jitter = st.chance(0.3)
        pre = st.wpick(((50, 0), (20, 3), (20, 12), (10, 60)))
        m = proc.Machine(ch, tr, draw_net(st, lat=("none", "const", "jitter")), preempt=pre,
                         window=st.pick((1 << 30, 1 << 30, 2000, 100)))
        rec = Rec(m)
        m.thread_conn = {}
        touched = set()
        rogues = set()
        state = {"port": None, "ran": 0, "stopped": False, "run_exc": None}
        rogue_threads = set()
        cut_rate = fs.pick((0, 0, 0.3))
        refuse_rate = fs.pick((0, 0, 0, 0.15))
        nrogue = fs.geometric(0.35, 3)
        state["refused"] = 0

        def owner(conn):
            me = id(m.sim.local.me)
            m.thread_conn[me] = conn.cid
            if me in rogue_threads:
                rogues.add(conn.cid)
                return
            if cut_rate and fs.chance(cut_rate):
                touched.add(conn.cid)
                tr.probe("cut")
                how = "reset" if kind == "aio" else fs.pick(("reset", "eof"))
                (conn.a2b, conn.b2a)[fs.below(2)].cut = (fs.below(120), how)
        m.owner = owner

        def refuse():
            if id(m.sim.local.me) in rogue_threads:
                return False
            if refuse_rate and fs.chance(refuse_rate):
                tr.probe("connect_refused")
                state["refused"] += 1
                return True
            return False
        m.refuse = refuse

        tag = ch.seed
        dev = NS.dev
        if kind == "mp":
            base = {"echo": lambda: dev["simple_echo_session"].SimpleEchoSession,
                    "ex1": lambda: dev["example_session1"].ExampleSession,
                    "ex2": lambda: dev["example_session2"].ExampleSession,
                    "ex3": lambda: dev["example_session3"].ExampleSession,
                    "user": lambda: user_session(NS, st, tag)[0]}[what]()
        else:
            base = {"echo": lambda: dev["simple_echo_session_a"].SimpleEchoSessionA,
                    "ex1": lambda: dev["example_session1_a"].ExampleSessionA,
                    "ex2": lambda: dev["example_session2_a"].ExampleSessionA,
                    "ex3": lambda: dev["example_session3_a"].ExampleSessionA,
                    "user": lambda: user_session(NS, st, tag)[1]}[what]()

        def rogue(i):
            def body():
                m.wait("sleep", lambda: state["port"] or state["stopped"], None)
                m.wait("sleep", lambda: state["stopped"], 0.001 * fs.below(100))
                s = proc.Socket()
                rogue_threads.add(id(m.sim.local.me))
                try:
                    s.connect(("127.0.0.1", state["port"]))
                except OSError:
                    return
                tr.probe("rogue")
                tr.fault("rogue_client")
                act = fs.pick(("close", "partial", "junk", "negative", "m1", "frames", "huge"))
                tr.log("rogue", act)
                try:
                    if act == "partial":
                        s.sendall(frame(payload("rogue", 50))[:1 + fs.below(40)])
                    elif act == "junk":
                        s.sendall(frame(payload("rogue%d" % i, fs.below(60))))
                    elif act == "negative":
                        s.sendall(b"\xff\xff\xff\xff")
                    elif act == "huge":
                        s.sendall(b"\xff\xff\xff\x7f" + bytes(fs.below(30)))
                    elif act == "m1":
                        s.sendall(frame(ref.m1(0, ref.enc_keys(key_bytes("rogue"))[1])))
                    elif act == "frames":
                        for j in range(1 + fs.below(4)):
                            s.sendall(frame(payload("rogue%d" % j, 1 + fs.below(30))))
                    if fs.chance(0.5):
                        m.wait("sleep", lambda: False, 0.001 * fs.below(50))
                except OSError:
                    pass
                if fs.chance(0.3):
                    s.s.conn.reset()
                s.close()
            return body

        def main():
            if kind == "aio":
                import asyncio
                asyncio.set_event_loop(proc.ThrLoop(m))
                pair = dev["client_server_a"].ClientServerPairA(recorded_a(base, rec, m)(), n)
                pair.start_server()
                state["port"] = next(iter(m.listeners), None)
            else:
                pair = dev["client_server"].MpClientServerPair(recorded(base, rec, m)())
                pair.start_server()
                state["port"] = next(iter(m.listeners), None)
            need(state["port"], "not-serving", "start_server() returned but nothing listens")
            for _ in range(rounds):
                before = len(rec.clients)
                r0 = state["refused"]
                try:
                    if kind == "aio":
                        pair.run_sessions()
                    elif st.chance(0.5) or jitter:
                        pair.run_sessions(n, jitter)
                    else:
                        pair.run_sessions(n, jitter=False)
                except Exception as e:
                    if isinstance(e, Violation):
                        raise
                    bad = [r for r in rec.clients[before:] if r["exc"] is not None]
                    need(kind == "aio" and (bad or state["refused"] > r0), "run-sessions", lambda: "run_sessions() failed "
                         "with %s though no client session failed" % err(e))
                got = rec.clients[before:]
                need(len(got) == n - (state["refused"] - r0), "sessions-run", lambda: "run_sessions() for %d clients ran %d "
                     "client sessions (%d connections refused)" % (n, len(got), state["refused"] - r0))
                need(all(r["end"] is not None for r in got), "returned-early", lambda: "run_sessions() returned while %d of %d "
                     "client sessions were still running" % (sum(r["end"] is None for r in got), len(got)))
                state["ran"] += 1
            tr.log("stopping")
            state["stop_conns"] = len(m.conns)
            pair.stop_server()
            state["stopped"] = True
            tr.log("stopped")
            need(not m.listeners, "not-stopped", "stop_server() returned but the server still listens")
            if kind == "mp":
                # server sessions of connections still open may finish; nothing may serve on
                m.wait("sleep", lambda: not any(t.is_alive() for t in m.api_threads), 30)
                alive = [t.name for t in m.api_threads if t.is_alive()]
                need(not alive, "not-stopped", lambda: "30 s after stop_server() returned %s still runs" % ", ".join(alive))
        mt = m.spawn("main", main)
        for i in range(nrogue):
            m.spawn("rogue-%d" % i, rogue(i))
        if rounds > 1:
            tr.probe("second_round")
        m.run()
        self.judge(ch, tr, NS, m, mt, rec, kind, what, n, touched, rogues, state, nrogue)

    def judge(self, ch, tr, NS, m, mt, rec, kind, what, n, touched, rogues, state, nrogue):
        for t in m.sim.threads:
            if isinstance(t.exc, Violation):
                raise t.exc
        for r in rec.clients:
            if isinstance(r["exc"], Violation):
                raise r["exc"]
        if isinstance(mt.exc, Exception) and not isinstance(mt.exc, SimStuck):
            raise Violation("pair-failed", "the %s pair failed with %s" % (kind, err(mt.exc)))
        stuck = m.sim.deadlock or next((str(t.exc) for t in m.sim.threads if isinstance(t.exc, SimStuck)), None)
        need(not stuck and state["stopped"], "no-progress", lambda: "the %s pair with session %s never finishes: %s" % (
            kind, what, stuck or "main program did not end"))
        for t in m.sim.threads:
            if t.exc is not None:
                raise t.exc
        for r in rec.clients:
            if r["cid"] in touched:
                continue
            need(r["exc"] is None, "client-failed", lambda: "a client session (%s, %s) on an undisturbed connection failed: "
                 "%s" % (kind, what, err(r["exc"])))
            if 0 <= r["cid"] < len(m.conns):
                self.wire(NS, m.conns[r["cid"]], kind, what)
                c = r["obj"]
                if c is not None and hasattr(c, "counter_write") and hasattr(c, "counter_read"):
                    conn = m.conns[r["cid"]]
                    out = sum(len(f) for _, f in conn.a2b.sent_frames)
                    inn = sum(len(f) for _, f in conn.b2a.sent_frames)
                    need(c.counter_write == out and c.counter_read == inn, "counters", lambda: "the connection carried %d bytes "
                         "out and %d in, its counters say %d and %d" % (out, inn, c.counter_write, c.counter_read))
        used = [r["cid"] for r in rec.clients]
        need(len(set(used)) == len(used), "shared-connection", "two client sessions were given the same connection")
        if not touched and not nrogue:
            for r in rec.servers:
                need(r["exc"] is None, "server-failed", lambda: "a server session (%s, %s) failed: %s" % (
                    kind, what, err(r["exc"])))
            need(len(rec.servers) == len(rec.clients), "server-sessions", lambda: "%d clients connected, %d server sessions "
                 "ran" % (len(rec.clients), len(rec.servers)))
        tr.probe("nontrivial")

    def wire(self, NS, conn, kind, what):
        c = [f for _, f in conn.a2b.sent_frames]
        s = [f for _, f in conn.b2a.sent_frames]
        if what == "echo":
            sent = c[:-1] if kind == "aio" and c and c[-1] == b"" else c
            need(sent and all(sent) and s == sent, "wire", lambda: "echo client sent %d messages, the server answered %d, "
                 "not the same ones" % (len(sent), len(s)))
        elif what == "user":
            want = [x for f in c for x in (f, b"re:" + f[:5])]
            need(s == want, "wire", lambda: "server answered %d messages, not those the session sends" % len(s))
        elif what == "ex2":
            need(c == [ref.a1(b"\x08" * 32)] and s == [ref.a2([(b"SCv2------", b"ECHO------")])], "wire", lambda:
                 "discovery example exchanged %s / %s" % ([x.hex() for x in c], [x.hex() for x in s]))
        else:
            T = NS.CryptoTestData
            keys = {}
            for k, v in (("c_sig", T.aSig), ("s_sig", T.bSig), ("c_enc", T.aEnc), ("s_enc", T.bEnc)):
                keys[k] = (bytes(v.sec), bytes(v.pub))
                good = ref.sig_keys(v.sec[:32]) if k.endswith("sig") else ref.enc_keys(bytes(v.sec))
                need(good == keys[k], "example-keys", "the example key pair %s is not a valid pair" % k)
            if what == "ex1":
                turns = [("c", [{"msgs": [REQ1], "last": True}]), ("s", [{"msgs": [REQ1], "last": False}])]
                times = None
            else:
                turns = [("c", [{"msgs": [REQ1], "last": False}]), ("s", [{"msgs": [REQ1], "last": False}]),
                         ("c", [{"msgs": REQ2, "last": False}]), ("s", [{"msgs": REQ2, "last": True}])]

                def times(d, name, v, t, wi=None):
                    return v == {"M1": 1, "M2": 1, "M3": 2, "M4": 2}.get(name, None if wi is None else 3 + wi)
            ss = Sess(0, {"keys": keys, "wanted": False, "ff": 0}, turns)
            ss.conn = conn
            ss.client.sent = [w["msgs"] for w in writes_of(turns, "c")]
            ss.server.sent = [w["msgs"] for w in writes_of(turns, "s")]
            check_wire(ss, times=times)
