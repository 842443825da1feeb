"""Deterministic threads: real threads, exactly one of which runs at a time; which one runs
next is decided by a Stream.  Blocking happens only in simulated sockets (and at injected
preemption points inside the code under test)."""
import gc
import heapq
import os
import socket
import sys
import threading
import _thread

from .core import SimKill, SimStuck
from .env import enter_sim_thread


class SimThread:
    def __init__(self, sim, name, fn):
        self.sim = sim
        self.name = name
        self.fn = fn
        self.go = _thread.allocate_lock()
        self.go.acquire()
        self.pred = None
        self.why = "start"
        self.done = False
        self.kill = False
        self.exc = None
        self.result = None
        self.th = threading.Thread(target=self._main, name=name, daemon=True)
        self.countdown = 0

    def _main(self):
        self.go.acquire()
        try:
            if not self.kill:
                self.sim.local.me = self
                if self.sim.preempt:
                    self.countdown = self.sim.next_preempt()
                    sys.settrace(self._trace)
                try:
                    self.result = self.fn()
                finally:
                    sys.settrace(None)
        except SimKill:
            self.why = "killed"
        except BaseException as e:
            self.exc = e
        finally:
            enter_sim_thread(None)      # from here on the thread is on its own: its locks are real ones
            self.done = True
            self.sim.main.release()

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.sim.trace_prefix):
            return None
        return self._line

    def _line(self, frame, event, arg):
        if event == "line" and not self.kill:
            self.countdown -= 1
            if self.countdown <= 0:
                self.countdown = self.sim.next_preempt()
                self.sim.trace.fault("preempt")
                self.sim.switch("preempt", None)
        return self._line


class ThreadSim:
    def __init__(self, choices, trace, max_steps=200000, preempt=0, trace_prefix="/repo/"):
        self.st = choices.s("sched")
        self.ps = choices.s("preempt")
        self.trace = trace
        self.threads = []
        self.heap = []
        self.seq = 0
        self._now = 0.0
        self.steps = 0
        self.max_steps = max_steps
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.local = threading.local()
        self.deadlock = None
        self.preempt = preempt
        self.trace_prefix = trace_prefix
        self.last = None
        self.dying = False

    def next_preempt(self):
        return 1 + self.ps.below(self.preempt)

    def now(self):
        return self._now

    def call_later(self, dt, fn, *args):
        self.seq += 1
        heapq.heappush(self.heap, (self._now + dt, self.seq, fn, args))

    def spawn(self, name, fn):
        t = SimThread(self, name, fn)
        self.threads.append(t)
        t.th.start()
        return t

    # called from simulated threads
    def switch(self, why, pred):
        t = self.local.me
        if t.kill:
            raise SimKill()
        t.why = why
        t.pred = pred
        self.main.release()
        t.go.acquire()
        t.pred = None
        if t.kill:
            raise SimKill()

    def block(self, why, pred):
        if self.dying:
            raise SimKill()
        if not pred():
            self.switch(why, pred)
        else:
            self.switch("yield", None)

    # scheduler
    def _run_thread(self, t):
        if t is not self.last:
            self.trace.log("run", t.name)
            self.last = t
        t.go.release()
        self.main.acquire()

    def run(self):
        try:
            while True:
                self.steps += 1
                if self.steps % 20000 == 0:
                    gc.collect()
                if self.steps > self.max_steps:
                    self.deadlock = "step budget %d exhausted" % self.max_steps
                    break
                alive = [t for t in self.threads if not t.done]
                if not alive and not self.heap:
                    break
                runnable = [t for t in alive if t.pred is None or t.pred()]
                n = len(runnable)
                # threads may be slow (events overtake them), but not by more than a few seconds
                due = bool(self.heap) and (n == 0 or self.heap[0][0] <= self._now + 5)
                opts = n + (1 if due else 0)
                if opts == 0:
                    self.deadlock = "blocked: " + ", ".join("%s in %s" % (t.name, t.why) for t in alive)
                    break
                if not alive:
                    k = n
                else:
                    k = self.st.below(opts)
                if k < n:
                    self._run_thread(runnable[k])
                else:
                    when, _, fn, args = heapq.heappop(self.heap)
                    if when > self._now:
                        self._now = when
                    fn(*args)
        finally:
            self.dying = True
            for t in self.threads:
                if not t.done:
                    t.kill = True
                    t.go.release()
                    self.main.acquire()
            for t in self.threads:
                t.th.join(10)


class SimSocket:
    """A blocking stream socket of a ThreadSim."""

    def __init__(self, sim, conn, side, window=1 << 30):
        self.sim = sim
        self.conn = conn
        self.side = side
        self.out, self.inp = conn.pipes(side)
        self.inp.sink = self
        self.rx = bytearray()
        self.eof = False
        self.rst = False
        self.closed = False
        self.window = window
        self.timeout = None
        self.recv_calls = 0
        self.send_fault = None    # (call index, bytes sent before failing, exception)
        self.recv_fault = None    # (call index, exception)
        self.send_calls = 0
        self.send_failed = False
        self.after_eof = 0
        self.st = conn.a2b.st if side == "a" else conn.b2a.st
        self.short = conn.a2b.cfg.get("short_recv")

    # network side
    def on_data(self, seg):
        self.rx += seg

    def on_eof(self):
        self.eof = True

    def on_reset(self):
        self.rst = True

    # socket API
    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setblocking(self, flag):
        pass

    def setsockopt(self, *a):
        pass

    def fileno(self):
        return 1000 + self.conn.cid

    def getpeername(self):
        return ("sim", self.conn.cid)

    def recv(self, n, flags=0):
        if n < 0:
            raise ValueError("negative buffersize in recv")
        if flags & 0x100:       # MSG_WAITALL
            out = b""
            while len(out) < n:
                more = self.recv(n - len(out))
                if not more:
                    break
                out += more
            return out
        if n > (1 << 33):
            raise MemoryError()
        self.recv_calls += 1
        if self.closed:
            raise OSError(9, "Bad file descriptor")
        f = self.recv_fault
        if f is not None and self.recv_calls >= f[0]:
            self.recv_fault = None
            self.sim.trace.fault("recv_" + f[1].__name__)
            raise f[1]("simulated")
        if n == 0:
            return b""
        self.sim.block("recv", lambda: self.rx or self.eof or self.rst or self.closed)
        if self.rst:
            raise ConnectionResetError(104, "simulated reset")
        if self.rx:
            k = min(n, len(self.rx))
            if self.short and k > 1 and self.recv_calls < 600:
                k = max(1, k - self.st.below(k)) if k < 8 else min(k, self.st.pick((k, 1, 2, 3, k // 2, k - 1)))
            out = bytes(self.rx[:k])
            del self.rx[:k]
            self.sim.trace.log("recv", self.side, self.conn.cid, n, k)
            return out
        self.after_eof += 1
        if self.after_eof > 2000:
            raise SimStuck("recv called %d times after end of stream" % self.after_eof)
        return b""

    def recv_into(self, buf, nbytes=0, flags=0):
        n = nbytes or len(buf)
        data = self.recv(n)
        memoryview(buf)[:len(data)] = data
        return len(data)

    def sendmsg(self, buffers, *a):
        return self.send(b"".join(buffers))

    def sendall(self, data, flags=0):
        data = bytes(data)
        self.send_calls += 1
        if self.closed:
            raise OSError(9, "Bad file descriptor")
        f = self.send_fault
        if f is not None and self.send_calls > f[0]:
            self.send_fault = None
            self.send_failed = True
            self.sim.trace.fault("send_" + f[2].__name__)
            self.sim.trace.log("send.fault", self.side, self.conn.cid, f[1])
            self.out.push(data[:min(f[1], max(0, len(data) - 1))])
            raise f[2]("simulated")
        if self.rst:
            raise BrokenPipeError(32, "simulated broken pipe")
        self.sim.trace.log("tx", self.side, self.conn.cid, len(data))
        if len(self.out.buf) + len(data) > self.window:
            self.sim.trace.fault("backpressure")
            self.out.push(data)
            self.sim.block("send", lambda: len(self.out.buf) <= self.window or self.out.dead or self.rst)
            if self.rst:
                raise ConnectionResetError(104, "simulated reset")
        else:
            self.out.push(data)
            self.sim.block("yield", lambda: True)

    def send(self, data, flags=0):
        data = bytes(data)
        k = len(data)
        if k > 1 and self.short:
            k = max(1, k - self.st.below(min(k, 9)))
        self.sendall(data[:k])
        return k

    def shutdown(self, how):
        if how in (1, 2):
            self.out.close()

    def close(self):
        if not self.closed:
            self.closed = True
            self.out.close()

    def getsockopt(self, *a):
        return 0

    def getsockname(self):
        return ("sim", self.conn.cid)

    def getblocking(self):
        return self.timeout != 0

    def makefile(self, mode="r", buffering=None, **kw):
        return socket.socket.makefile(self, mode, buffering, **kw)

    _io_refs = 0

    def _decref_socketios(self):
        self._io_refs -= 1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
