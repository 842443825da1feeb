"""C18: crypto library selection and interoperability.  C20: key generation."""
import asyncio
import threading

from sim.env import CALLS, RAND, enter_sim_thread, import_fresh
from sim.thr import ThreadSim

from .common import *

HOSTS = tuple((bool(i & 1), bool(i & 2), bool(i & 4)) for i in range(7, -1, -1))    # native, pynacl, tweetnacl
HOSTS += tuple((None,) + h[1:] for h in HOSTS if not h[0])      # libsodium is there and cannot be loaded
LIBS = ("native", "pynacl", "tweetnacl")
CLASSES = {"native": ("saltlib_native", "SaltLibNative"), "pynacl": ("saltlib_pynacl", "SaltLibPyNaCl"),
           "tweetnacl": ("saltlib_tweetnaclext", "SaltLibTweetNaClExt")}
_CACHE = {}


def host(avail, lib=None, rng=None):
    """The library on a host with the given crypto libraries, whose first SaltLib() call is SaltLib(lib, rng)."""
    key = (avail, lib, rng)
    if key not in _CACHE:
        try:
            ns = import_fresh(*avail)
        except Exception as e:
            raise Violation("import", "on a host with crypto libraries %s importing the package fails: %s" % (
                name(avail), err(e)))
        m = ns.saltlib_mod
        kw = {}
        if lib is not None:
            kw["lib_type"] = getattr(m.LibType, {"best": "LIB_TYPE_BEST", "native": "LIB_TYPE_NATIVE",
                                                 "pynacl": "LIB_TYPE_PYNACL",
                                                 "tweetnacl": "LIB_TYPE_TWEETNACL_EXT"}[lib])
        if rng is not None:
            kw["rand_type"] = m.RngType.RNG_URANDOM if rng == "urandom" else m.RngType.RNG_IMPL
        ns.first = None
        try:
            ns.first = ns.SaltLib(**kw)
        except Exception as e:
            ns.first = e
        _CACHE[key] = ns
    return _CACHE[key]


def name(avail):
    return ("unloadable native+" if avail[0] is None else "") + ("+".join(l for l, a in zip(LIBS, avail) if a) or "none")


def best(avail):
    for l, a in zip(LIBS, avail):
        if a:
            return l
    return None


def is_a(e, cls):
    return any(c.__name__ == cls for c in type(e).__mro__)


def lib_class(ns, lib):
    cls = CLASSES[lib][1]
    g = ns.SaltLib.__dict__.get("lib_map")
    for api in (g or {}).values():
        if type(api).__name__ == cls:
            return type(api)
    return None


class C18(Prop):
    id = "C18"
    title = "Any installed crypto library works alone, is picked by rank, and interoperates"
    quick = 9000
    thorough = 300000
    expect = ("session", "select", "no_library", "mixed", "attacked", "explicit", "explicit_missing",
              "asked_again", "unloadable")

    def run(self, ch, tr):
        st = ch.s("cfg")
        tr.probe("nontrivial")
        if st.chance(0.25):
            return self.select(ch, tr, st)
        return self.session(ch, tr, st)

    def select(self, ch, tr, st):
        tr.probe("select")
        avail = st.pick(HOSTS)
        lib = st.pick((None, "best", "native", "pynacl", "tweetnacl"))
        rng = st.pick((None, "urandom", "impl"))
        RAND.start(ch.seed)
        ns = host(avail, lib, rng)
        if avail[0] is None:
            tr.probe("unloadable")
        tr.log("host", name(avail), lib, rng)
        want = best(avail) if lib in (None, "best") else lib
        ok = want is not None and avail[LIBS.index(want)]
        if not ok:
            tr.probe("no_library" if best(avail) is None else "explicit_missing")
            tr.fault("library_missing")
            need(isinstance(ns.first, Exception) and is_a(ns.first, "NoSuchLibException"), "no-such-lib",
                 lambda: "host with %s: asking for the %s library gave %s instead of NoSuchLibException" % (
                     name(avail), lib or "best", ns.first if not isinstance(ns.first, Exception) else err(ns.first)))
            return
        need(not isinstance(ns.first, Exception), "no-such-lib", lambda: "host with %s: asking for the %s library "
             "failed with %s" % (name(avail), lib or "best", err(ns.first)))
        if lib not in (None, "best"):
            tr.probe("explicit")
        tr.fault("library_missing", 3 - sum(map(bool, avail)))
        if avail[0] is None:
            tr.fault("library_unloadable")
        sl = ns.first
        cls = lib_class(ns, want)
        need(cls is None or isinstance(sl.api, cls), "wrong-lib", lambda: "host with %s: asking for the %s library "
             "gave %s" % (name(avail), lib or "best", type(sl.api).__name__))
        before = dict(CALLS)
        self.functions(ch, tr, sl, ns, want, avail)
        used = [l for l in CALLS if CALLS[l] != before[l]]
        need(all(l == want for l in used), "wrong-lib", lambda: "host with %s: the %s library was selected but %s was "
             "called" % (name(avail), want, used))
        for n in (32, 1, 0, 64, 1000):
            r = sl.random_bytes(n)
            need(isinstance(r, bytes) and len(r) == n, "random-bytes", lambda: "random_bytes(%d) gave %r" % (
                n, r if not hasattr(r, "__len__") else len(r)))
        a, b = sl.random_bytes(32), sl.random_bytes(32)
        need(a != b and a != bytes(32), "random-bytes", "random_bytes repeats itself")
        self.again(st, tr, ns, avail)

    def again(self, st, tr, ns, avail):
        """Libraries asked for one after another in one process: no request depends on an earlier one."""
        get = getattr(ns.SaltLib, "getLib", None)
        if get is None:
            return
        T = ns.saltlib_mod.LibType
        types = {"native": T.LIB_TYPE_NATIVE, "pynacl": T.LIB_TYPE_PYNACL, "tweetnacl": T.LIB_TYPE_TWEETNACL_EXT}
        done = []
        for _ in range(st.below(5)):
            lib = st.pick(("best", "native", "pynacl", "tweetnacl"))
            want = best(avail) if lib == "best" else lib
            done.append(lib)
            try:
                if lib == "best":
                    api = get() if st.below(2) else get(T.LIB_TYPE_BEST)
                else:
                    api = get(types[lib])
            except Exception as e:
                need(not avail[LIBS.index(want)] and is_a(e, "NoSuchLibException"), "no-such-lib",
                     lambda: "host with %s: asking for libraries %s failed with %s" % (name(avail), done, err(e)))
                tr.probe("explicit_missing")
                continue
            need(avail[LIBS.index(want)], "no-such-lib", lambda: "host with %s: asking for libraries %s gave %s" % (
                name(avail), done, type(api).__name__))
            cls = lib_class(ns, want)
            need(cls is None or isinstance(api, cls), "wrong-lib", lambda: "host with %s: asking for libraries %s gave %s" %
                 (name(avail), done, type(api).__name__))
            if len(done) > 1:
                tr.probe("asked_again")

    def functions(self, ch, tr, sl, ns, want, avail):
        """The facade agrees with the reference on keys, signatures, hashes and boxes."""
        st = ch.s("fun")
        d = "%s of host %s" % (want, name(avail))
        seed = key_bytes(ch.seed + "/f")
        sk = sl.create_sig_keys_from_sec(seed)
        rs, rp = ref.sig_keys(seed)
        need((sk.sec, sk.pub) == (rs, rp), "wrong-crypto", "%s: signing keys differ from NaCl" % d)
        e = sl.create_enc_keys_from_sec(seed)
        es, ep = ref.enc_keys(seed)
        need((e.sec, e.pub) == (es, ep), "wrong-crypto", "%s: encryption keys differ from NaCl" % d)
        msg = payload(ch.seed, draw_size(st, 1) if st.chance(0.98) else st.pick(((1 << 16) + 1, (1 << 20) + 1, 3000000)))
        sm = sl.sign(msg, sk.sec)
        need(sm == ref.sign(msg, rs) + msg, "wrong-crypto", "%s: signed message differs from NaCl" % d)
        need(sl.sign_open(sm, sk.pub) == msg, "wrong-crypto", "%s: own signature does not verify" % d)
        other = ref.enc_keys(key_bytes(ch.seed + "/o"))
        k = sl.compute_shared_key(e.sec, other[1])
        need(k == ref.shared(e.sec, other[1]), "wrong-crypto", "%s: shared key differs from NaCl" % d)
        need(sl.sha512(msg) == ref.h512(msg), "wrong-crypto", "%s: hash differs from SHA-512" % d)
        nonce = (1 + st.below(1 << 40)).to_bytes(8, "little") + bytes(16)
        if st.chance(0.5):
            nonce = key_bytes(ch.seed + "/n")[:24]
        c = sl.encrypt(k, nonce, msg)
        need(c == ref.nb.crypto_box_afternm(msg, nonce, k), "wrong-crypto",
             "%s: ciphertext differs from NaCl" % d)
        need(sl.decrypt(k, nonce, c) == msg, "wrong-crypto", "%s: own ciphertext does not open" % d)
        tr.fault("tampered_box")
        for what, good, fn, exc in (("ciphertext", c, lambda x: sl.decrypt(k, nonce, x), "BadEncryptedDataException"),
                                    ("signature", sm, lambda x: sl.sign_open(x, sk.pub), "BadSignatureException")):
            b = bytearray(good)
            how = st.below(3)
            if how == 0:
                b[st.below(min(len(b), 64) if what == "signature" else len(b))] ^= 1 << st.below(8)
            elif how == 1:
                b = b[:st.below(len(b))]
            else:
                b += b"\x01"
            try:
                out = fn(bytes(b))
            except Exception as x:
                need(is_a(x, exc), "wrong-error", lambda: "%s: altered %s raises %s, not %s" % (d, what, err(x), exc))
            else:
                raise Violation("forgery", "%s: altered %s accepted as %s" % (d, what, short(out)))

    def session(self, ch, tr, st):
        cfg = draw_cfg(st, backends=False)
        cfg["net"] = draw_net(st, lat=("none", "const", "jitter"))
        usable = [h for h in HOSTS if any(h)]
        hc, hs = st.pick(usable), st.pick(usable)
        env.use_backend("native")
        nc = host(hc)
        nsv = host(hs)
        for h, n in ((hc, nc), (hs, nsv)):
            need(not isinstance(n.first, Exception), "no-such-lib", lambda: "host with %s: no library found: %s" % (
                name(h), err(n.first)))
        cfg["ns"] = {"c": nc, "s": nsv}
        cfg["keys"] = keys_for(ch.seed)
        tr.probe("session")
        if best(hc) != best(hs):
            tr.probe("mixed")
        tr.fault("library_missing", 6 - sum(map(bool, hc + hs)))
        w = World(ch, tr, cfg["transport"])
        if st.chance(0.5):
            g = {}
            for role, n in (("c", nc), ("s", nsv)):
                lib = n.SaltLib()
                a, b = lib.create_sig_keys(), lib.create_enc_keys()
                g[role + "_sig"] = (a.sec, a.pub)
                g[role + "_enc"] = (b.sec, b.pub)
            cfg["keys"] = g
            tr.probe("generated_keys")
        attack = st.chance(0.3)
        cfg["past"] = 2 if attack else 0
        att = Attacker(ch.s("attacker"), tr, rate=0.4, budget=1 + st.below(2), attacks=("flip", "truncate", "extend", "dup",
                                                                                       "drop", "swap"),
                       eligible=lambda pipe, idx, f: True) if attack else None
        cs = ch.s("convo")
        turns = draw_convo(cs, "m", scale=cs.wpick(((70, 1), (27, 0), (3, 2))), max_turns=4, client_first=cfg["buffer_M4"])
        s = w.add(cfg, turns, prepare=(lambda s: att.attach(s.conn)) if attack else None)
        tr.log("cfg", name(hc), name(hs), desc(s))
        if attack:
            w.deadline(2000)
        before = dict(CALLS)
        w.run()
        used = [l for l in CALLS if CALLS[l] != before[l]]
        need(set(used) <= {best(hc), best(hs)}, "wrong-lib", lambda: "hosts with %s and %s: %s was called" % (
            name(hc), name(hs), used))
        if attack and att.done:
            tr.probe("attacked")
            for p in (s.client, s.server):
                check_prefix(s, p)
                for op, e in p.errors:
                    need(is_a(e, "ComException"), "wrong-error", lambda: "%s on a host with %s: after interference %s "
                         "failed with %s" % (p.name, name(hc if p is s.client else hs), op, err(e)))
            return
        need(not w.stuck, "no-progress", lambda: "hosts with %s and %s: conversation never completes: %s" % (
            name(hc), name(hs), w.stuck))
        for p in (s.client, s.server):
            if attack:
                want = expected_for(s, p)
                need(p.hs == "ok" and p.got == want, "no-interop", lambda: "%s (host %s): handshake %s, %d of %d" % (
                    p.name, name(hc if p is s.client else hs), p.hs, len(p.got), len(want)))
            else:
                check_complete(s, p)
        check_wire(s)


class C20(Prop):
    id = "C20"
    title = "Generated keys are valid, fresh and wholly random, or generation fails"
    quick = 15000
    thorough = 400000
    expect = ("threads", "rng_failure", "impl_rng", "many_keys", "many_keys_impl")
    cpu_limit = 90.0

    def directed(self, i):
        n = len(self.hosts())
        if i < 2 * n + 6:       # the implementations' own generators: one host each
            return {"special": [1, i % 2, i // 2, 0] if i < 2 * n else [1, i % 2, (3, 5, 6)[(i - 2 * n) // 2], 1]}

    def hosts(self):
        return [h for h in HOSTS if any(h)]

    def many(self, ch, tr, sp):
        """Enough keys of one kind that every byte of the secret must have taken every value."""
        tr.probe("many_keys")
        kind = sp.pick(("enc", "sig"))
        avail = sp.pick(self.hosts())
        rng = sp.pick((None, "impl"))
        ns = host(avail, None, rng)
        h = name(avail) + (", own generator" if rng else "")
        if rng:
            tr.probe("many_keys_impl")
        tr.log("many", kind, h)
        lib = ns.SaltLib()
        RAND.start(ch.seed)
        try:
            secs = []
            for _ in range(9000):
                k = lib.create_enc_keys() if kind == "enc" else lib.create_sig_keys()
                secs.append(bytes(k.sec[:32]))
        finally:
            RAND.stop()
        need(len(set(secs)) == len(secs), "not-random", "host %s: a key was generated twice" % h)
        for pos in range(32):
            seen = set(x[pos] for x in secs)
            if kind == "enc" and pos in (0, 31):        # X25519 clamping
                full = len(set(v & 0xf8 for v in seen)) == 32 if pos == 0 else len(set(v & 0x3f for v in seen)) == 64
            else:
                full = len(seen) == 256
            need(full, "not-random", lambda: "host %s: byte %d of 9000 %s secret keys takes only %d values" % (
                h, pos, kind, len(seen)))
            mean = sum(x[pos] & 0x38 for x in secs) / 9000 / 8      # three free bits, clamped or not
            need(abs(mean - 3.5) < 0.25, "not-random", lambda: "host %s: byte %d of %s secret keys is biased" % (
                h, pos, kind))
        tr.probe("nontrivial")

    def run(self, ch, tr):
        sp = ch.s("special")
        if sp.wpick(((9999, "plain"), (1, "many"))) == "many":
            return self.many(ch, tr, sp)
        st = ch.s("cfg")
        avail = st.pick([h for h in HOSTS if any(h)])
        rng = st.wpick(((6, None), (2, "urandom"), (1, "impl")))
        ns = host(avail, None, rng)
        need(not isinstance(ns.first, Exception), "no-such-lib", lambda: "host with %s: %s" % (name(avail), err(ns.first)))
        n = 1 + st.below(4)
        count = 1 + st.below(5)
        fs = ch.s("rngfault")
        rate = st.pick((0, 0, 0.2, 0.6)) if rng != "impl" else 0
        faults = []

        def fail(i):
            if rate and fs.chance(rate):
                e = OSError(5, "Input/output error") if fs.below(2) == 0 else NotImplementedError("no entropy source")
                e.gen = threading.current_thread().name
                faults.append(e)
                tr.fault("rng_failure")
                tr.probe("rng_failure")
                return e
        preempt = st.pick((3, 8, 30))
        if rng == "impl":
            tr.probe("impl_rng")
        tr.log("cfg", name(avail), rng, n, count, rate)
        rounds = []
        for rnd in range(2):
            keys = self.round(ch, tr, ns, n, count, preempt, "%s/%d" % (ch.seed, rnd), fail, faults)
            src = "impl" if rng == "impl" else "urandom"
            other = sum(RAND.bytes.values()) - RAND.bytes[src]
            need(not other or RAND.bytes[src] >= 32 * len(keys), "wrong-source", lambda: "host %s: %d keys generated with the %s "
                 "random source selected, and %d bytes drawn from it" % (name(avail), len(keys), src, RAND.bytes[src]))
            rounds.append(keys)
        allk = [k for r in rounds for k in r]
        self.judge(tr, allk, name(avail), rng)
        tr.probe("nontrivial")

    def round(self, ch, tr, ns, n, count, preempt, seed, fail, faults):
        """n threads generate `count` keys each, preempted between any two lines of the library."""
        sim = ThreadSim(ch, tr, 200000, preempt if n > 1 else 0, env.REPO.rstrip("/") + "/saltchannel")
        RAND.start(seed)
        RAND.fail = fail
        keys = []
        if n > 1:
            tr.probe("threads")

        def body(t):
            enter_sim_thread(sim)
            asyncio.set_event_loop(None)
            ks = ch.s("kind%d" % t)
            for i in range(count):
                kind = ks.pick(("enc", "sig"))
                lib = ns.SaltLib()
                me = threading.current_thread().name
                f0 = sum(f.gen == me for f in faults)
                try:
                    k = lib.create_enc_keys() if kind == "enc" else lib.create_sig_keys()
                except Exception as e:
                    if any(e is f for f in faults) or any(e.__cause__ is f or e.__context__ is f for f in faults):
                        tr.log("keyfail", t, i)
                        continue
                    raise Violation("spurious-error", "key generation failed with %s" % err(e))
                tr.log("key", t, i, kind)
                keys.append((kind, k, sum(f.gen == me for f in faults) != f0))
        for t in range(n):
            sim.spawn("gen%d" % t, lambda t=t: body(t))
        try:
            sim.run()
            need(not sim.deadlock, "no-progress", lambda: "key generation never completes: %s" % sim.deadlock)
            for t in sim.threads:
                if t.exc is not None:
                    raise t.exc
        finally:
            RAND.stop()
        return keys

    def judge(self, tr, keys, h, rng):
        secs = []
        for kind, k, faulted in keys:
            need(not faulted, "rng-failure-hidden", "host %s: the random source failed, yet a key was generated" % h)
            sec, pub = k.sec, k.pub
            if kind == "enc":
                need(isinstance(sec, bytes) and len(sec) == 32, "bad-key", "host %s: secret key of wrong shape" % h)
                need(pub == ref.enc_keys(sec)[1], "bad-key", "host %s: public encryption key does not belong to secret" % h)
            else:
                need(isinstance(sec, bytes) and len(sec) == 64, "bad-key", "host %s: signing key of wrong shape" % h)
                need((sec, pub) == ref.sig_keys(sec[:32]), "bad-key", "host %s: signing key pair is inconsistent" % h)
            secs.append(sec[:32])
        for i in range(len(secs)):
            # (X25519 clamping may fix up to 2 bytes)
            for j in range(i):
                same = sum(a == b for a, b in zip(secs[i], secs[j]))
                need(same < 12, "not-random", lambda: "host %s: two generated keys share %d of 32 secret bytes" % (h, same))
            need(max(secs[i].count(b) for b in set(secs[i])) < 12, "not-random",
                 lambda: "host %s: a generated key is mostly one byte" % h)
