"""Independent executable model of Salt Channel v2 (draft 8) used as the oracle and as an
honest or hostile peer.  Written from the protocol definition; shares no code with /repo.
Crypto: PyNaCl's libsodium bindings, called directly.
"""
import hashlib
import struct

import types

from nacl import bindings

# captured now: sim.env later wraps nacl.bindings to count the code under test's own calls
nb = types.SimpleNamespace(**{k: v for k, v in vars(bindings).items() if k.startswith("crypto_")})

M1, M2, M3, M4, APP, ENC, A1, A2, MULTI = 1, 2, 3, 4, 5, 6, 8, 9, 11
MAXU16 = 65535


class RefError(Exception):
    pass


def h512(b):
    return hashlib.sha512(b).digest()


def sig_keys(seed):
    pk, sk = nb.crypto_sign_seed_keypair(seed)
    return sk, pk


def enc_keys(sec):
    return sec, nb.crypto_scalarmult_base(sec)


def sign(msg, sk):
    return nb.crypto_sign(msg, sk)[:64]


def verify(sig, msg, pk):
    try:
        nb.crypto_sign_open(sig + msg, pk)
        return True
    except Exception:
        return False


def shared(sec, pub):
    return nb.crypto_box_beforenm(pub, sec)


def nonce(value, session=bytes(8)):
    return struct.pack("<Q", value) + session + bytes(8)


def seal(key, n, plain, session=bytes(8)):
    return nb.crypto_box_afternm(plain, nonce(n, session), key)


def unseal(key, n, cipher):
    try:
        return nb.crypto_box_open_afternm(cipher, nonce(n), key)
    except Exception:
        return None


# ------------------------------------------------------------------ packet layouts

def m1(time, client_pub, server_sig=None, flags=None):
    f = (1 if server_sig is not None else 0) if flags is None else flags
    return b"SCv2" + bytes([M1, f]) + struct.pack("<I", time) + client_pub + (server_sig or b"")


def m2(time, server_pub):
    return bytes([M2, 0]) + struct.pack("<I", time) + server_pub


def m2_no_such_server(time):
    return bytes([M2, 0x81]) + struct.pack("<I", time) + bytes(32)


def m3(time, sig_pub, sig):
    return bytes([M3, 0]) + struct.pack("<I", time) + sig_pub + sig


def m4(time, sig_pub, sig):
    return bytes([M4, 0]) + struct.pack("<I", time) + sig_pub + sig


def app(time, data):
    return bytes([APP, 0]) + struct.pack("<I", time) + data


def multi(time, msgs):
    return (bytes([MULTI, 0]) + struct.pack("<IH", time, len(msgs)) +
            b"".join(struct.pack("<H", len(m)) + m for m in msgs))


def enc(cipher, last=False):
    return bytes([ENC, 0x80 if last else 0]) + cipher


def a1(addr=None):
    if addr is None:
        return bytes([A1, 0, 0, 0, 0])
    return bytes([A1, 0, 1]) + struct.pack("<H", len(addr)) + addr


def a2(prots):
    return bytes([A2, 0x80, len(prots)]) + b"".join(p1 + p2 for p1, p2 in prots)


A2_NO_SUCH = bytes([A2, 0x81, 0])
A2_DEFAULT = a2([(b"SCv2------", b"----------")])


def sig1_msg(h1, h2):
    return b"SC-SIG01" + h1 + h2


def sig2_msg(h1, h2):
    return b"SC-SIG02" + h1 + h2


def time_of(plain):
    return struct.unpack_from("<I", plain, 2)[0]


def use_multi(msgs):
    return 2 <= len(msgs) <= MAXU16 and all(len(m) <= MAXU16 for m in msgs)


def plains_of_write(msgs, time):
    """The plaintext packets one application-channel write stands for."""
    if use_multi(msgs):
        return [multi(time, msgs)]
    return [app(time, m) for m in msgs]


def parse_app(plain):
    """Strict parse of a decrypted application packet -> (time, [messages]); RefError if malformed."""
    if len(plain) < 6:
        raise RefError("short")
    t = time_of(plain)
    if plain[0] == APP:
        return t, [plain[6:]]
    if plain[0] != MULTI:
        raise RefError("type")
    if len(plain) < 8:
        raise RefError("short")
    n = struct.unpack_from("<H", plain, 6)[0]
    if n < 1:
        raise RefError("count")
    off, out = 8, []
    for _ in range(n):
        if off + 2 > len(plain):
            raise RefError("trunc")
        k = struct.unpack_from("<H", plain, off)[0]
        off += 2
        if off + k > len(plain):
            raise RefError("trunc")
        out.append(plain[off:off + k])
        off += k
    return t, out


class Box:
    """One side of the encrypted channel."""

    def __init__(self, key, client):
        self.key = key
        self.w = 1 if client else 2
        self.r = 2 if client else 1

    def seal(self, plain, last=False):
        c = seal(self.key, self.w, plain)
        self.w += 2
        return enc(c, last)

    def open(self, pkt):
        if len(pkt) < 18 or pkt[0] != ENC:
            raise RefError("not an encrypted packet")
        p = unseal(self.key, self.r, pkt[2:])
        if p is None:
            raise RefError("cannot decrypt")
        self.r += 2
        return p, bool(pkt[1] & 0x80)


class RefServer:
    """Honest server, sans IO: feed frames, take frames."""

    def __init__(self, sig, encp, times=None, wire_together=False):
        self.sig_sk, self.sig_pk = sig
        self.enc_sk, self.enc_pk = encp
        self.times = times or {"m2": 0, "m3": 0}

    def on_m1(self, f):
        if len(f) < 42 or f[:4] != b"SCv2" or f[4] != M1:
            raise RefError("bad M1")
        self.m1 = f
        self.m1_time = struct.unpack_from("<I", f, 6)[0]
        self.client_pub = f[10:42]
        self.wanted = f[42:74] if f[5] & 1 else None
        self.h1 = h512(f)
        self.m2 = m2(self.times["m2"], self.enc_pk)
        self.h2 = h512(self.m2)
        self.key = shared(self.enc_sk, self.client_pub)
        self.box = Box(self.key, client=False)
        return self.m2

    def make_m3(self):
        return m3(self.times["m3"], self.sig_pk, sign(sig1_msg(self.h1, self.h2), self.sig_sk))

    def m3_packet(self):
        return self.box.seal(self.make_m3())

    def on_m4(self, f):
        p, _ = self.box.open(f)
        if len(p) != 102 or p[0] != M4:
            raise RefError("bad M4")
        self.m4 = p
        self.client_sig = p[6:38]
        if not verify(p[38:102], sig2_msg(self.h1, self.h2), self.client_sig):
            raise RefError("bad signature2")


class RefClient:
    def __init__(self, sig, encp, times=None, wanted=None):
        self.sig_sk, self.sig_pk = sig
        self.enc_sk, self.enc_pk = encp
        self.times = times or {"m1": 0, "m4": 0}
        self.wanted = wanted

    def m1_frame(self):
        self.m1 = m1(self.times["m1"], self.enc_pk, self.wanted)
        self.h1 = h512(self.m1)
        return self.m1

    def on_m2(self, f):
        if len(f) != 38 or f[0] != M2:
            raise RefError("bad M2")
        self.m2 = f
        self.h2 = h512(f)
        self.no_such = bool(f[1] & 1)
        if self.no_such:
            return
        self.server_pub = f[6:38]
        self.key = shared(self.enc_sk, self.server_pub)
        self.box = Box(self.key, client=True)

    def on_m3(self, f):
        p, _ = self.box.open(f)
        if len(p) != 102 or p[0] != M3:
            raise RefError("bad M3")
        self.m3 = p
        self.server_sig = p[6:38]
        if not verify(p[38:102], sig1_msg(self.h1, self.h2), self.server_sig):
            raise RefError("bad signature1")

    def m4_plain(self):
        return m4(self.times["m4"], self.sig_pk, sign(sig2_msg(self.h1, self.h2), self.sig_sk))
