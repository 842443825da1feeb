"""A simulated process for code that makes its own threads, sockets and event loops: while a
Machine is active, threading.Thread/Event, socket.socket, time.sleep, socketserver's selector and
new event loops are those of one ThreadSim.  Used to run the shipped client/server pairs whole."""
import asyncio
import contextlib
import errno
import io
import os
import random
import selectors
import socket
import socketserver
import sys
import threading
import time
import types

from . import env
from .aio import SimTransport
from .core import SimKill, SimStuck
from .net import Conn, StreamPipe
from .thr import SimSocket, ThreadSim

_real_thread = threading.Thread
_real_event = threading.Event
_real_socket = socket.socket
_real_create_connection = socket.create_connection
_real_sleep = time.sleep
_real_counter = time.perf_counter
_real_monotonic = time.monotonic

ACTIVE = None


class Thread:
    """threading.Thread of a simulated process."""

    def __new__(cls, *a, **kw):
        if ACTIVE is None:
            return _real_thread(*a, **kw)
        return super().__new__(cls)

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._m = ACTIVE
        self._target = target
        self._args = args
        self._kwargs = kwargs or {}
        self._m.nthreads += 1
        self.name = name or "thread-%d" % self._m.nthreads
        self.daemon = bool(daemon)
        self._t = None

    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    def start(self):
        if self._t is not None:
            raise RuntimeError("threads can only be started once")
        self._m.trace.log("thread.start", self.name)

        def body():
            try:
                self.run()
            except SimKill:
                raise
            except SystemExit:
                pass
            except Exception as e:      # as threading.excepthook: printed, the thread just ends
                self._m.thread_errors.append((self.name, e))
        self._t = self._m.spawn(self.name, body)
        self._m.api_threads.append(self)
        self._m.sim.block("yield", lambda: True)

    def join(self, timeout=None):
        if self._t is None:
            raise RuntimeError("cannot join thread before it is started")
        self._m.wait("join", lambda: self._t.done, timeout)

    def is_alive(self):
        return self._t is not None and not self._t.done

    @property
    def ident(self):
        return None if self._t is None else id(self._t)

    def setDaemon(self, d):
        self.daemon = d

    def getName(self):
        return self.name


class Event:
    def __new__(cls):
        if ACTIVE is None:
            return _real_event()
        return super().__new__(cls)

    def __init__(self):
        self._f = False

    def is_set(self):
        return self._f

    isSet = is_set

    def set(self):
        self._f = True

    def clear(self):
        self._f = False

    def wait(self, timeout=None):
        ACTIVE.wait("event", lambda: self._f, timeout)
        return self._f


class Socket:
    """socket.socket of a simulated process: TCP on the simulated network."""

    def __new__(cls, *a, **kw):
        if ACTIVE is None:
            return _real_socket(*a, **kw)
        return super().__new__(cls)

    def __init__(self, family=socket.AF_INET, type=socket.SOCK_STREAM, proto=0, fileno=None, _s=None, _addr=None):
        self.m = ACTIVE
        self.family, self.type, self.proto = family, type, proto
        self.s = _s
        self.addr = _addr
        self.backlog = None
        self.closed = False
        self.timeout = None

    def __getattr__(self, name):
        s = self.__dict__.get("s")
        if s is None:
            if name in ("recv", "send", "sendall", "recv_into", "getpeername", "sendmsg"):
                raise OSError(errno.ENOTCONN, "not connected")
            raise AttributeError(name)
        return getattr(s, name)

    def setsockopt(self, *a):
        pass

    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setblocking(self, flag):
        pass

    def fileno(self):
        return -1 if self.closed else 7

    def bind(self, addr):
        host, port = addr[:2]
        if not port:
            self.m.next_port += 1
            port = self.m.next_port
        if (port in self.m.listeners):
            raise OSError(errno.EADDRINUSE, "Address already in use")
        self.addr = ("127.0.0.1", port)

    def getsockname(self):
        return self.addr or ("127.0.0.1", 0)

    def listen(self, backlog=128):
        self.backlog = max(1, backlog) + 1
        self.m.listeners[self.addr[1]] = self
        self.pending = []

    def accept(self):
        if self.closed:
            raise OSError(errno.EBADF, "Bad file descriptor")
        self.m.sim.block("accept", lambda: self.pending or self.closed)
        if not self.pending:
            raise OSError(errno.EINVAL, "closed")
        s, addr = self.pending.pop(0)
        self.m.trace.log("accept", addr[1])
        return Socket(_s=s, _addr=self.addr), addr

    def connect(self, addr):
        m = self.m
        if self.s is not None:
            raise OSError(errno.EISCONN, "already connected")
        m.sim.block("connect", lambda: True)
        port = addr[1]
        lst = m.listeners.get(port)
        if lst is not None and m.refuse():
            lst = None
        if lst is None:
            m.trace.fault("connect_refused")
            raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")
        if hasattr(lst, "pending"):
            m.sim.block("connect", lambda: len(lst.pending) < lst.backlog or lst.closed)
            if lst.closed:
                raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")
        conn = m.new_conn()
        self.cid = conn.cid
        self.s = SimSocket(m.sim, conn, "a", m.window)
        self.addr = ("127.0.0.1", 40000 + conn.cid)
        m.owner(conn)
        lst_accept(m, lst, conn)

    def connect_ex(self, addr):
        try:
            self.connect(addr)
            return 0
        except OSError as e:
            return e.errno

    def shutdown(self, how):
        if self.s is None:
            raise OSError(errno.ENOTCONN, "not connected")
        self.s.shutdown(how)

    def close(self):
        if self.closed:
            return
        self.closed = True
        if self.backlog is not None:
            if self.m.listeners.get(self.addr[1]) is self:
                del self.m.listeners[self.addr[1]]
            for s, _ in self.pending:
                s.conn.reset()
            self.pending.clear()
        elif self.s is not None:
            self.s.close()

    def detach(self):
        return self.fileno()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def lst_accept(m, lst, conn):
    if hasattr(lst, "pending"):
        s = SimSocket(m.sim, conn, "b", m.window)
        lst.pending.append((s, ("127.0.0.1", 40000 + conn.cid)))
    else:
        lst.incoming(conn)


def create_connection(address, timeout=None, source_address=None, **kw):
    if ACTIVE is None:
        return _real_create_connection(address, timeout, source_address, **kw)
    s = Socket()
    s.connect(address)
    return s


class ServerSelector:
    """The selector socketserver polls its listening socket with."""

    def __init__(self):
        self.objs = []

    def register(self, obj, events, data=None):
        self.objs.append((obj, data))

    def unregister(self, obj):
        self.objs = [o for o in self.objs if o[0] is not obj]

    def select(self, timeout=None):
        ACTIVE.wait("select", self._ready, timeout)
        return [(selectors.SelectorKey(o, 7, selectors.EVENT_READ, d), selectors.EVENT_READ)
                for o, d in self.objs if getattr(o, "socket", o).pending]

    def _ready(self):
        return any(getattr(o, "socket", o).pending for o, _ in self.objs)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


# --------------------------------------------------------------------------- event loops on threads

class ThrTransport(SimTransport):
    """Transport whose network side runs in the scheduler and whose protocol side runs in its loop's thread."""

    def on_data(self, seg):
        self.loop.post(SimTransport.on_data, self, seg)

    def on_eof(self):
        self.loop.post(SimTransport.on_eof, self)

    def on_reset(self):
        self.loop.post(SimTransport.on_reset, self)

    def _space(self):
        self.loop.post(SimTransport._space, self)

    def get_extra_info(self, name, default=None):
        if name == "peername":
            return ("127.0.0.1", 40000 + self.conn.cid)
        return default


class _Sel:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout):
        loop = self.loop
        m = loop.m
        loop.steps += 1
        if loop.steps > 200000:
            raise SimStuck("step budget of an event loop exhausted")
        if timeout is None or timeout > 0:
            m.wait("select", lambda: loop.inq, timeout)
        else:
            m.sim.block("yield", lambda: True)
        for h in loop.inq:
            loop._ready.append(h)
        loop.inq.clear()
        return []

    def close(self):
        pass


class _Numbered:
    """Hashes by creation order, so that sets of futures and tasks iterate the same way in every execution."""
    __slots__ = ()

    def __hash__(self):
        return self._no


class NumberedFuture(_Numbered, asyncio.Future):
    def __init__(self, no, **kw):
        self._no = no
        super().__init__(**kw)


class NumberedTask(_Numbered, asyncio.Task):
    def __init__(self, no, coro, **kw):
        self._no = no
        super().__init__(coro, **kw)


class ThrLoop(asyncio.BaseEventLoop):
    """An event loop that runs on one simulated thread, beside others."""

    def __init__(self, m):
        super().__init__()
        self.m = m
        self.made = 0
        self.set_task_factory(lambda loop, coro, **kw: NumberedTask(loop.number(), coro, loop=loop, **kw))
        self.inq = []
        self.steps = 0
        self._clock_resolution = 1e-7
        self._selector = _Sel(self)
        self.unhandled = []
        self.keep = []
        self.set_exception_handler(lambda l, ctx: self.unhandled.append(ctx))
        m.loops.append(self)

    def time(self):
        return self.m.sim.now()

    def _process_events(self, ev):
        pass

    def _write_to_self(self):
        pass

    def post(self, fn, *args):
        self.inq.append(asyncio.Handle(fn, args, self))

    def call_soon_threadsafe(self, callback, *args, context=None):
        h = asyncio.Handle(callback, args, self, context)
        self.inq.append(h)
        return h

    def number(self):
        self.made += 1
        return self.made

    def create_future(self):
        return NumberedFuture(self.number(), loop=self)

    def run_in_executor(self, executor, func, *args):
        """A worker (thread or process): another simulated thread."""
        fut = self.create_future()
        m = self.m
        m.nthreads += 1

        def done(res, exc):
            if fut.cancelled():
                return
            if exc is not None:
                fut.set_exception(exc)
            else:
                fut.set_result(res)

        def body():
            try:
                r = func(*args)
            except SimKill:
                raise
            except Exception as e:
                self.call_soon_threadsafe(done, None, e)
            else:
                self.call_soon_threadsafe(done, r, None)
        m.trace.log("worker.start")
        m.spawn("worker-%d" % m.nthreads, body)
        return fut

    async def create_server(self, protocol_factory, host=None, port=None, **kw):
        m = self.m
        if not port:
            m.next_port += 1
            port = m.next_port
        if port in m.listeners:
            raise OSError(errno.EADDRINUSE, "Address already in use")
        srv = ThrServer(self, protocol_factory, port)
        m.listeners[port] = srv
        return srv

    async def create_connection(self, protocol_factory, host=None, port=None, **kw):
        m = self.m
        await asyncio.sleep(0)
        lst = m.listeners.get(port)
        if lst is not None and m.refuse():
            lst = None
        if lst is None:
            m.trace.fault("connect_refused")
            raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")
        conn = m.new_conn()
        m.owner(conn)
        proto = protocol_factory()
        tr = ThrTransport(self, conn, "a", proto, high=m.high)
        self.keep.append(tr)
        lst_accept(m, lst, conn)
        proto.connection_made(tr)
        return tr, proto


class ThrServer:
    def __init__(self, loop, factory, port):
        self.loop = loop
        self.factory = factory
        self.port = port
        self.closed = False

    @property
    def sockets(self):
        return [] if self.closed else [self]

    def getsockname(self):
        return ("127.0.0.1", self.port)

    def incoming(self, conn):
        proto = self.factory()
        tr = ThrTransport(self.loop, conn, "b", proto, high=self.loop.m.high)
        self.loop.keep.append(tr)
        self.loop.post(proto.connection_made, tr)

    def is_serving(self):
        return not self.closed

    def get_loop(self):
        return self.loop

    def close(self):
        if not self.closed:
            self.closed = True
            if self.loop.m.listeners.get(self.port) is self:
                del self.loop.m.listeners[self.port]

    async def wait_closed(self):
        await asyncio.sleep(0)

    async def start_serving(self):
        pass

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        self.close()


class PoolFuture:
    def __init__(self, m):
        self.m = m
        self.t = None
        self.value = self.exc = None

    def done(self):
        return self.t.done

    def result(self, timeout=None):
        self.m.wait("future", lambda: self.t.done, timeout)
        if self.exc is not None:
            raise self.exc
        return self.value

    def exception(self, timeout=None):
        self.m.wait("future", lambda: self.t.done, timeout)
        return self.exc


class Pool:
    """concurrent.futures executor: every job gets a simulated thread."""

    def __init__(self, *a, **kw):
        self.jobs = []

    def submit(self, fn, *args, **kw):
        m = ACTIVE
        f = PoolFuture(m)

        def body():
            try:
                f.value = fn(*args, **kw)
            except Exception as e:
                f.exc = e
        m.nthreads += 1
        f.t = m.spawn("pool-%d" % m.nthreads, body)
        self.jobs.append(f)
        return f

    def map(self, fn, *its, timeout=None, chunksize=1):
        jobs = [self.submit(fn, *a) for a in zip(*its)]
        return (j.result() for j in jobs)

    def shutdown(self, wait=True, **kw):
        if wait:
            for j in self.jobs:
                j.m.wait("pool", j.done, None)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()


def _sleep(t):
    if ACTIVE is None:
        return _real_sleep(t)
    ACTIVE.wait("sleep", lambda: False, t)


def _counter():
    return _real_counter() if ACTIVE is None else ACTIVE.sim.now()


def _monotonic():
    return _real_monotonic() if ACTIVE is None else ACTIVE.sim.now()


_SHIM = None


def shim():
    """The module 'threading' as the code under test and socketserver see it."""
    global _SHIM
    if _SHIM is None:
        _SHIM = types.ModuleType("threading")
        _SHIM.__dict__.update({k: v for k, v in vars(threading).items() if not k.startswith("__")})
        _SHIM.Thread = Thread
        _SHIM.Event = Event
    return _SHIM


def import_dev(NS):
    """Import the shipped client/server programs so that 'threading' is the simulated one for them."""
    import importlib
    import codecs, functools, timeit, multiprocessing  # noqa: F401,E401
    import concurrent.futures
    concurrent.futures.ProcessPoolExecutor, concurrent.futures.ThreadPoolExecutor
    saved = sys.modules["threading"]
    sys.modules["threading"] = shim()
    try:
        with patched():
            for name in list(sys.modules):
                if name.startswith("saltchannel.dev"):
                    del sys.modules[name]
            NS.dev = {n: importlib.import_module("saltchannel.dev." + n) for n in (
                "client_server", "client_server_a", "simple_echo_session", "simple_echo_session_a", "example_session1",
                "example_session2", "example_session3", "example_session1_a", "example_session2_a",
                "example_session3_a", "mitm_channel")}
            from saltchannel.util.crypto_test_data import CryptoTestData
            NS.CryptoTestData = CryptoTestData
    finally:
        sys.modules["threading"] = saved


@contextlib.contextmanager
def patched():
    """The names code may import; every stand-in falls back to the real thing when no Machine is active."""
    import concurrent.futures
    saved = []

    def put(obj, name, val):
        saved.append((obj, name, getattr(obj, name)))
        setattr(obj, name, val)
    try:
        put(socketserver, "threading", shim())
        put(socket, "socket", Socket)
        put(socket, "create_connection", create_connection)
        put(time, "sleep", _sleep)
        put(time, "perf_counter", _counter)
        put(time, "monotonic", _monotonic)
        put(socketserver, "_ServerSelector", ServerSelector)
        concurrent.futures.ProcessPoolExecutor, concurrent.futures.ThreadPoolExecutor
        put(concurrent.futures, "ProcessPoolExecutor", Pool)
        put(concurrent.futures, "ThreadPoolExecutor", Pool)
        yield
    finally:
        for obj, name, val in reversed(saved):
            setattr(obj, name, val)


class Machine:
    def __init__(self, choices, trace, net, preempt=0, max_steps=300000, window=1 << 30, high=65536, max_time=5000):
        self.ch = choices
        self.trace = trace
        self.net = net
        self.sim = ThreadSim(choices, trace, max_steps, preempt, env.REPO.rstrip("/") + "/saltchannel")
        self.window = window
        self.high = high
        self.listeners = {}
        self.next_port = 5000
        self.nthreads = 0
        self.api_threads = []
        self.thread_errors = []
        self.conns = []
        self.loops = []
        self.refuse = lambda: False
        self.owner = lambda conn: None
        self.max_time = max_time
        self.out = io.StringIO()

    def new_conn(self):
        conn = Conn(self.sim, self.ch, self.net, self.trace, len(self.conns), StreamPipe)
        conn.born = self.sim.now()
        self.conns.append(conn)
        self.trace.log("connect", conn.cid)
        return conn

    def spawn(self, name, fn):
        def run():
            env.enter_sim_thread(self.sim)
            try:
                asyncio.set_event_loop(None)
            except Exception:
                pass
            fn()
        return self.sim.spawn(name, run)

    def wait(self, why, pred, timeout=None):
        """Block the calling simulated thread until pred() or the time is up."""
        if self.sim.now() > self.max_time:
            raise SimStuck("simulated time budget exhausted")
        if timeout is None:
            self.sim.block(why, pred)
            return
        until = self.sim.now() + max(timeout, 0)
        self.sim.call_later(max(timeout, 0), lambda: None)
        self.sim.block(why, lambda: pred() or self.sim.now() >= until - 1e-9)

    def run(self):
        global ACTIVE
        import gc
        gc.disable()
        env.RAND.start(self.ch.seed)
        rs = random.getstate()
        random.seed(self.ch.seed)
        so, se = sys.stdout, sys.stderr
        env.MACHINE = self
        ACTIVE = self
        try:
            with patched():
                sys.stdout = sys.stderr = self.out
                self.sim.run()
        finally:
            sys.stdout, sys.stderr = so, se
            ACTIVE = None
            env.MACHINE = None
            random.setstate(rs)
            env.RAND.stop()
            self.trace.sim_time += self.sim.now()
            for l in self.loops:
                try:
                    if not l.is_closed():
                        l._ready.clear()
                        l.close()
                except BaseException:
                    pass
            for l in env.CREATED_LOOPS:
                try:
                    l.close()
                except BaseException:
                    pass
            env.CREATED_LOOPS.clear()
