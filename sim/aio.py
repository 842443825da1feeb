"""Virtual-time asyncio: event loop, TCP-like transports and message channels."""
import asyncio
import gc
from collections import deque

from .core import SimDeadlock, SimStuck
from .net import Conn, StreamPipe, MsgPipe


class _Selector:
    """Stands where epoll would be: advances the virtual clock instead of waiting."""

    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout):
        loop = self.loop
        loop.steps += 1
        if loop.steps % 10000 == 0:
            gc.collect()
        if loop.steps > loop.max_steps:
            raise SimStuck("step budget %d exhausted" % loop.max_steps)
        if timeout is None:
            raise SimDeadlock()
        if timeout > 0:
            loop._now += timeout
            if loop._now > loop.max_time:
                raise SimStuck("simulated time budget exhausted")
        return []

    def close(self):
        pass


class SimLoop(asyncio.BaseEventLoop):
    """asyncio's own scheduler (FIFO ready queue, timer heap) on a simulated clock and network."""

    def __init__(self, trace=None, max_steps=400000, max_time=1e7):
        super().__init__()
        self._now = 0.0
        self.steps = 0
        self.max_steps = max_steps
        self.max_time = max_time
        self._clock_resolution = 1e-7
        self._selector = _Selector(self)
        self.trace = trace
        self.listeners = {}
        self.connector = None
        self.keep = []
        self.unhandled = []
        self.set_exception_handler(self._on_unhandled)

    def _on_unhandled(self, loop, ctx):
        self.unhandled.append(ctx.get("message"))

    def time(self):
        return self._now

    def now(self):
        return self._now

    def _process_events(self, event_list):
        pass

    def _write_to_self(self):
        pass

    def run_in_executor(self, executor, func, *args):
        fut = self.create_future()
        try:
            fut.set_result(func(*args))
        except Exception as e:
            fut.set_exception(e)
        return fut

    # -- connections -------------------------------------------------------------
    async def create_server(self, protocol_factory, host=None, port=None, **kw):
        self.listeners[(host, port)] = protocol_factory
        return SimServer(self, (host, port))

    async def create_connection(self, protocol_factory, host=None, port=None, **kw):
        factory = self.listeners.get((host, port))
        if factory is None:
            raise ConnectionRefusedError(host, port)
        conn, side_cfg = self.connector()
        await asyncio.sleep(0)
        sproto = factory()
        st = SimTransport(self, conn, "b", sproto, **side_cfg)
        cproto = protocol_factory()
        ct = SimTransport(self, conn, "a", cproto, **side_cfg)
        self.keep.append((conn, st, ct, sproto, cproto))
        sproto.connection_made(st)
        cproto.connection_made(ct)
        return ct, cproto


class SimServer:
    def __init__(self, loop, key):
        self.loop = loop
        self.key = key
        self.sockets = []

    def close(self):
        self.loop.listeners.pop(self.key, None)

    async def wait_closed(self):
        pass


class SimTransport(asyncio.Transport):
    """TCP transport with write-side flow control, over a Conn."""

    def __init__(self, loop, conn, side, protocol, high=65536, window=None):
        super().__init__()
        self.loop = loop
        self.conn = conn
        self.side = side
        self.protocol = protocol
        self.out, self.inp = conn.pipes(side)
        self.inp.sink = self
        self.out.on_space = self._space
        self.high = high
        self.low = high // 4
        self.write_paused = False
        self.closing = False
        self.lost = False
        self.eof_seen = False
        self.lazy = []

    # asyncio.Transport API used by streams
    def get_extra_info(self, name, default=None):
        if name == "peername":
            return ("sim", self.conn.cid)
        return default

    def is_closing(self):
        return self.closing

    def set_protocol(self, protocol):
        self.protocol = protocol

    def get_protocol(self):
        return self.protocol

    def pause_reading(self):
        self.conn.trace.probe("transport_paused_reading")
        self.inp.pause()

    def resume_reading(self):
        self.inp.resume()

    def is_reading(self):
        return not self.inp.paused

    def get_write_buffer_size(self):
        return len(self.out.buf)

    def get_write_buffer_limits(self):
        return (self.low, self.high)

    def set_write_buffer_limits(self, high=None, low=None):
        if high is not None:
            self.high = high
            self.low = low if low is not None else high // 4

    def can_write_eof(self):
        return True

    def write_eof(self):
        self._flush()
        self.out.close()

    def write(self, data):
        if not isinstance(data, (bytes, bytearray, memoryview)):
            raise TypeError("data argument must be a bytes-like object, not %r" % type(data).__name__)
        if self.closing or self.lost:
            return
        self.conn.trace.log("tx", self.side, self.conn.cid, len(data))
        if self.lazy or not (isinstance(data, bytes) or (isinstance(data, memoryview) and data.readonly)):
            # like a selector transport whose socket is full: the object itself is kept until it can be sent
            self.lazy.append(data)
            self.conn.trace.fault("kept_buffer")
            self.loop.call_soon(self._flush)
            return
        self.out.push(bytes(data))
        self._pressure()

    def _flush(self):
        data, self.lazy = self.lazy, []
        for d in data:
            self.out.push(bytes(d))
        if data:
            self._pressure()

    def _pressure(self):
        if len(self.out.buf) > self.high and not self.write_paused and not self.out.dead:
            self.write_paused = True
            self.conn.trace.fault("backpressure")
            self.protocol.pause_writing()

    def writelines(self, lst):
        self.write(b"".join(lst))

    def _space(self):
        if self.write_paused and (len(self.out.buf) <= self.low or self.out.dead):
            self.write_paused = False
            self.protocol.resume_writing()

    def close(self):
        if self.closing:
            return
        self._flush()
        self.closing = True
        self.out.close()
        self.inp.pause()
        self.loop.call_soon(self._lose, None)

    def abort(self):
        if self.lost:
            return
        self.closing = True
        self.conn.reset()

    def _lose(self, exc):
        if not self.lost:
            self.lost = True
            self.protocol.connection_lost(exc)

    # Conn side
    def on_data(self, seg):
        if not self.lost and not self.closing:
            self.protocol.data_received(seg)

    def on_eof(self):
        if not self.lost and not self.closing:
            self.eof_seen = True
            keep = self.protocol.eof_received()
            if not keep:
                self.close()

    def on_reset(self):
        if not self.lost:
            self.closing = True
            self.loop.call_soon(self._lose, ConnectionResetError("simulated reset"))
            self.conn.trace.log("rst", self.side, self.conn.cid)


def make_conn(loop, choices, cfg, trace, cid, kind):
    return Conn(loop, choices, cfg, trace, cid, kind)


def make_msg_channel_class(ByteChannel, ComException):
    """A user-written ByteChannel over a simulated message transport."""

    class SimMsgChannel(ByteChannel):
        def __init__(self, loop, conn, side, window=None):
            super().__init__(loop=loop)
            self.sim = loop
            self.conn = conn
            self.out, self.inp = conn.pipes(side)
            self.inp.sink = self
            self.rx = deque()
            self.eof = False
            self.waiter = None
            self.write_fault = None   # callable(idx) -> None | 'before' | 'after' | 'partial'
            self.slow_write = None    # callable() -> seconds to stay suspended after queueing
            self.nwrites = 0
            self.told_last = []       # frames that were the end of a write marked as last

        def _wake(self):
            w = self.waiter
            if w is not None and not w.done():
                w.set_result(None)

        def on_msg(self, m):
            self.rx.append(m)
            self._wake()

        def on_eof(self):
            self.eof = True
            self._wake()

        on_reset = on_eof

        async def read(self):
            while not self.rx:
                if self.eof:
                    raise ComException("simulated end of stream")
                if self.waiter is not None and not self.waiter.done():
                    raise ComException("concurrent read on message channel")
                self.waiter = self.sim.create_future()
                try:
                    await self.waiter
                finally:
                    self.waiter = None
            return self.rx.popleft()

        async def write(self, msg, *args, is_last=False):
            idx = self.nwrites
            self.nwrites += 1
            mode = self.write_fault(idx) if self.write_fault else None
            msgs = (msg,) + args
            if mode == "before":
                raise ComException("simulated write failure")
            if mode == "partial":
                msgs = msgs[:max(1, len(msgs) // 2)] if len(msgs) > 1 else msgs
            for m in msgs:
                self.out.push_msg(m)
            if is_last:
                self.told_last.append(len(self.out.sent_frames) - 1)
            if mode in ("after", "partial"):
                raise ComException("simulated write failure after sending")
            if self.slow_write is not None:
                d = self.slow_write()
                if d is not None:
                    await asyncio.sleep(d)

        def close(self):
            self.out.close()

    return SimMsgChannel
