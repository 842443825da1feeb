"""Loads the code under test from /repo and puts its process-wide sources of
nondeterminism (os.urandom, thread locks, event-loop creation) behind simulator seams."""
import asyncio
import hashlib
import logging
import os
import sys
import threading
import types
import warnings

from .core import SimStuck, Violation

REPO = os.environ.get("SALT_REPO", "/repo")


class _Rand:
    """Deterministic stand-in for os.urandom while a run is active."""

    def __init__(self):
        self.real = os.urandom
        self.seed = None
        self.n = 0
        self.log = None
        self.fail = None        # callable(n) -> exception to raise at the n-th call, or None

    def start(self, seed):
        self.seed = str(seed)
        self.n = 0
        self.log = []
        self.bytes = {"urandom": 0, "impl": 0}      # drawn from the system's source and from the libraries' own
        self.fail = None

    def stop(self):
        self.seed = None
        self.fail = None

    def impl(self, size):
        return self(size, "impl")

    def __call__(self, size, source="urandom"):
        if self.seed is None:
            return self.real(size)
        self.n += 1
        if self.fail is not None:
            e = self.fail(self.n)
            if e is not None:
                raise e
        out = hashlib.shake_256(("%s|%d" % (self.seed, self.n)).encode()).digest(size)
        self.log.append(out)
        self.bytes[source] += size
        return out


RAND = _Rand()

_real_lock = threading.Lock
_real_rlock = threading.RLock
_current = threading.local()   # .sim set by SimThread bodies through sim_thread()


def others_asleep():
    """Every other thread of this process is blocked."""
    me = str(threading.get_native_id())
    for t in os.listdir("/proc/self/task"):
        if t != me:
            try:
                with open("/proc/self/task/%s/stat" % t) as f:
                    if f.read().rsplit(")", 1)[1].split()[0] not in "SZX":
                        return False
            except OSError:
                pass
    return True


class SimLock:
    """Lock that parks a simulated thread in the scheduler instead of blocking the process."""

    def __init__(self):
        self._l = _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        sim = getattr(_current, "sim", None)
        if sim is None or not blocking:
            if blocking and timeout < 0:
                return self._acquire_outside()
            return self._l.acquire(blocking, timeout)
        while not self._l.acquire(False):
            sim.switch("lock", lambda: not self._l.locked())
        return True

    def _acquire_outside(self):
        """Not a simulated thread: nobody but another running thread of this process can release the lock."""
        idle = 0
        while not self._l.acquire(True, 0 if idle == 0 else 0.3):
            idle = idle + 1 if others_asleep() else 1
            if idle > 5:
                raise SimStuck("waits for a lock that nobody will release")
        return True

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    def _at_fork_reinit(self):
        self._l._at_fork_reinit()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimRLock:
    def __init__(self):
        self._l = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if self._l.acquire(blocking, timeout):
            self._owner = me
            self._count = 1
            return True
        return False

    def release(self):
        if self._owner != threading.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._l.release()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    # used by threading.Condition
    def _is_owned(self):
        return self._owner == threading.get_ident()

    def _release_save(self):
        st = (self._count, self._owner)
        self._count = 0
        self._owner = None
        self._l.release()
        return st

    def _acquire_restore(self, st):
        self._l.acquire()
        self._count, self._owner = st


def enter_sim_thread(sim):
    _current.sim = sim


class _Policy(asyncio.DefaultEventLoopPolicy):
    """Loops the code under test creates by itself are simulated loops too."""

    def new_event_loop(self):
        if MACHINE is not None:
            from .proc import ThrLoop
            return ThrLoop(MACHINE)
        from .aio import SimLoop
        loop = SimLoop()
        CREATED_LOOPS.append(loop)
        return loop


CREATED_LOOPS = []
MACHINE = None            # the sim.proc.Machine that is running, if any


CALLS = {"pynacl": 0, "tweetnacl": 0}      # calls into the two Python-visible crypto libraries
CRYPTO = ("crypto_sign", "crypto_sign_open", "crypto_box_beforenm", "crypto_box_afternm", "crypto_box_open_afternm",
          "crypto_scalarmult_base", "crypto_sign_seed_keypair")


def counted(lib, fn):
    def call(*a, **kw):
        CALLS[lib] += 1
        return fn(*a, **kw)
    return call


def tweetnacl_stub():
    """Stub of the C extension 'tweetnacl.raw' (not installed here), on top of libsodium."""
    class nb:
        pass
    for f in CRYPTO:
        setattr(nb, f, staticmethod(counted("tweetnacl", _ORIG[f])))
    pkg = types.ModuleType("tweetnacl")
    raw = types.ModuleType("tweetnacl.raw")

    def crypto_sign_seed_keypair(seed):
        return nb.crypto_sign_seed_keypair(seed)
    raw.crypto_sign_seed_keypair = crypto_sign_seed_keypair
    raw.crypto_sign = nb.crypto_sign
    raw.crypto_sign_open = nb.crypto_sign_open
    raw.crypto_box_beforenm = nb.crypto_box_beforenm
    raw.crypto_box_afternm = nb.crypto_box_afternm
    raw.crypto_box_open_afternm = nb.crypto_box_open_afternm
    raw.crypto_scalarmult_base = nb.crypto_scalarmult_base
    raw.crypto_hash = lambda m: hashlib.sha512(m).digest()
    raw.randombytes = lambda n: RAND.impl(n)
    pkg.raw = raw
    pkg.__path__ = []
    return pkg, raw


class R:
    """Namespace of the code under test, filled by load()."""
    loaded = False


_KEEP = []


def seam_sodium():
    """libsodium's own generator draws from the simulator too (it has an interface for that)."""
    import ctypes
    import ctypes.util
    try:
        lib = ctypes.CDLL(ctypes.util.find_library("sodium"))
        name_t = ctypes.CFUNCTYPE(ctypes.c_char_p)
        rand_t = ctypes.CFUNCTYPE(ctypes.c_uint32)
        void_t = ctypes.CFUNCTYPE(None)
        uni_t = ctypes.CFUNCTYPE(ctypes.c_uint32, ctypes.c_uint32)
        buf_t = ctypes.CFUNCTYPE(None, ctypes.c_void_p, ctypes.c_size_t)
        close_t = ctypes.CFUNCTYPE(ctypes.c_int)

        class Impl(ctypes.Structure):
            _fields_ = [("name", name_t), ("random", rand_t), ("stir", void_t), ("uniform", uni_t), ("buf", buf_t),
                        ("close", close_t)]

        def fill(p, n):
            ctypes.memmove(p, RAND.impl(n), n)
        impl = Impl(name_t(lambda: b"sim"), rand_t(lambda: int.from_bytes(RAND.impl(4), "little")), void_t(lambda: None),
                    uni_t(0), buf_t(fill), close_t(lambda: 0))
        _KEEP.append(impl)
        lib.randombytes_set_implementation(ctypes.byref(impl))
    except (OSError, AttributeError, TypeError):
        pass        # no libsodium here


def base_env():
    """Everything except importing the code under test."""
    if getattr(R, "base", False):
        return
    R.base = True
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    # library modules that keep locks of their own are imported before locks are patched
    import nacl.bindings  # noqa: F401
    import concurrent.futures.thread  # noqa: F401
    import concurrent.futures.process  # noqa: F401
    import queue  # noqa: F401
    import multiprocessing.connection  # noqa: F401
    import multiprocessing.queues  # noqa: F401
    import random
    import secrets  # noqa: F401
    os.urandom = RAND
    random._urandom = RAND          # secrets and random.SystemRandom
    if hasattr(os, "getrandom"):
        os.getrandom = lambda size, flags=0: RAND(size)
    seam_sodium()
    nacl.bindings.randombytes = lambda size: RAND.impl(size)
    threading.Lock = SimLock
    threading.RLock = SimRLock
    asyncio.set_event_loop_policy(_Policy())
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


_NACL = None
_ORIG = {}


_FOUND = {}


def import_fresh(native, pynacl, tweetnacl, extra=None):
    """A separate copy of the code under test, imported on a host where only the given crypto
    libraries exist (native None: libsodium is found but cannot be loaded).  Returns a namespace like R; import errors
    propagate."""
    import ctypes.util
    global _NACL
    base_env()
    if _NACL is None:
        _NACL = {k: v for k, v in sys.modules.items() if k == "nacl" or k.startswith("nacl.")}
        nb = _NACL["nacl.bindings"]
        for f in CRYPTO:
            _ORIG[f] = getattr(nb, f)
            setattr(nb, f, counted("pynacl", _ORIG[f]))
    saved = {k: v for k, v in sys.modules.items()
             if k.split(".")[0] in ("saltchannel", "nacl", "tweetnacl")}
    find = ctypes.util.find_library
    pkg, raw = tweetnacl_stub()

    def find_library(name):
        if "sodium" in name and not native:
            return None if native is False else "/nonexistent/libsodium.so.23"
        if name not in _FOUND:
            _FOUND[name] = find(name)
        return _FOUND[name]
    try:
        for k in saved:
            if not k.startswith("nacl"):
                del sys.modules[k]
        if not pynacl:
            for k in _NACL:
                sys.modules[k] = None
        else:
            sys.modules.update(_NACL)
        sys.modules["tweetnacl"] = pkg if tweetnacl else None
        sys.modules["tweetnacl.raw"] = raw if tweetnacl else None
        ctypes.util.find_library = find_library

        class NS:
            pass
        _fill(NS)
        if extra is not None:
            extra(NS)
        return NS
    finally:
        ctypes.util.find_library = find
        for k in list(sys.modules):
            if k.split(".")[0] in ("saltchannel", "nacl", "tweetnacl"):
                del sys.modules[k]
        sys.modules.update(saved)


def load():
    """Fill R. Nothing of the code under test is imported before this."""
    if R.loaded:
        return R
    base_env()
    R.loaded = True
    R.backend = None
    use_backend("native")
    return R


def _fill(R):
    import saltchannel
    f = os.path.realpath(saltchannel.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("wrong saltchannel imported: " + f)
    import saltchannel.exceptions as ex
    import saltchannel.channel as channel
    import saltchannel.util as util
    import saltchannel.util.time as stime
    from saltchannel.util.key_pair import KeyPair
    from saltchannel.saltlib import SaltLib
    import saltchannel.saltlib.saltlib as saltlib_mod
    from saltchannel.v2.salt_client_session import SaltClientSession
    from saltchannel.v2.salt_server_session import SaltServerSession
    from saltchannel.v2.encrypted_channel_v2 import EncryptedChannelV2, Role
    from saltchannel.v2.app_channel_v2 import AppChannelV2
    from saltchannel.a1a2.a1_client_session import A1ClientSession
    import saltchannel.a1a2.packets as a1a2_packets
    from saltchannel.dev.mitm_channel import MitmChannel
    import saltchannel.dev.client_server_a as csa
    R.ex = ex
    R.channel = channel
    R.util = util
    R.stime = stime
    R.KeyPair = KeyPair
    R.SaltLib = SaltLib
    R.saltlib_mod = saltlib_mod
    R.Client = SaltClientSession
    R.Server = SaltServerSession
    R.EncryptedChannelV2 = EncryptedChannelV2
    R.Role = Role
    R.AppChannelV2 = AppChannelV2
    R.A1Client = A1ClientSession
    R.A1Packet = a1a2_packets.A1Packet
    R.A2Packet = a1a2_packets.A2Packet
    R.MitmChannel = MitmChannel
    R.csa = csa
    from .aio import make_msg_channel_class
    R.MsgChannel = make_msg_channel_class(channel.ByteChannel, ex.ComException)


HOSTS = {"native": (True, True, True), "pynacl": (False, True, True), "tweetnacl": (False, False, True)}
_NS = {}


def use_backend(name, cold=False):
    """Switch R to the library as imported on a host whose best crypto library is `name`; cold: to a copy of it nobody has
    used before."""
    if R.backend == name and not cold:
        return
    ns = None
    if name not in _NS or cold:
        try:
            ns = import_fresh(*HOSTS[name])
        except Exception as e:
            raise Violation("import", "on a host whose best crypto library is %s, importing the package fails: %s: %s" % (
                name, type(e).__name__, e))
    if ns is not None and not cold:
        _NS[name] = ns
    for k, v in vars(ns or _NS[name]).items():
        if not k.startswith("__"):
            setattr(R, k, v)
    R.backend = None if cold else name
