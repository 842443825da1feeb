"""C02, C05: active network attacker."""
from .common import *

FAST = ("none", "const", "jitter")
ATT = ("flip", "drop", "dup", "swap", "replay", "reflect", "inject", "truncate", "extend", "hdr", "cross", "empty")


def swarm(st, kinds):
    """A random subset of attack kinds for this run (swarm testing)."""
    k = 1 + st.below(4)
    return tuple(st.pick(kinds) for _ in range(k))


class C02(Prop):
    id = "C02"
    title = "Reads return only a prefix of what the peer wrote, whatever the network does"
    quick = 18000
    thorough = 600000
    expect = tuple("attack_" + k for k in ATT) + ("tampered_then_read",)

    def run(self, ch, tr):
        st = ch.s("cfg")
        base = draw_cfg(st)
        base["net"] = draw_net(st, lat=FAST)
        env.use_backend(base["backend"])
        base["keys"] = keys_for("%s/0" % ch.seed)
        prelude(ch, tr, ch.s("pre"), base, 0.08)
        w = World(ch, tr, base["transport"])
        at = ch.s("attacker")
        # most runs leave the handshake alone so that the data phase is what gets attacked
        data_only = not st.chance(0.15)
        att = Attacker(at, tr, rate=(0.35, 0.15, 0.8)[st.below(3)], budget=1 + st.below(5), attacks=swarm(at, ATT),
                       eligible=(lambda pipe, idx, f: idx >= (2 if data_only else 0)))
        n = 1 + (1 if "cross" in att.attacks else 0) + (1 if st.chance(0.1) else 0)
        for i in range(n):
            cfg = dict(base)
            cfg["keys"] = keys_for("%s/%d" % (ch.seed, i))
            cfg["past"] = 1 + st.below(6)
            draw_nest(ch.s("nest"), cfg, "%s/%d" % (ch.seed, i))
            cs = ch.s("convo%d" % i)
            turns = draw_convo(cs, "%d" % i, scale=cs.wpick(((60, 0), (40, 1))), max_turns=5, max_writes=4, max_msgs=6,
                               client_first=cfg["buffer_M4"])
            w.add(cfg, turns, prepare=lambda s: att.attach(s.conn))
        w.deadline(2000)
        w.run()
        for s in w.sessions:
            for p in (s.client, s.server):
                check_prefix(s, p)
                if att.done and any(op == "read" for op, _ in p.errors) and p.got:
                    tr.probe("tampered_then_read")
        if not att.done:
            need(not w.stuck, "no-progress", lambda: "conversation without interference never completes: %s" % w.stuck)
            for s in w.sessions:
                n_past = s.cfg["past"]
                for p in (s.client, s.server):
                    want = expected_for(s, p)
                    need(p.hs == "ok" and len(p.got) == len(want), "lost-message",
                         lambda: "%s without interference: handshake %s, %d of %d messages" % (
                             p.name, p.hs, len(p.got), len(want)))
        tr.probe("nontrivial")


class C05(Prop):
    id = "C05"
    title = "Both ends agree on the handshake transcript, keys and identities, or fail"
    quick = 18000
    thorough = 600000
    expect = ("tampered_client_failed", "untampered_ok")

    def run(self, ch, tr):
        st = ch.s("cfg")
        base = draw_cfg(st)
        base["net"] = draw_net(st, lat=FAST)
        env.use_backend(base["backend"])
        base["keys"] = keys_for("%s/0" % ch.seed)
        prelude(ch, tr, ch.s("pre"), base, 0.12)
        w = World(ch, tr, base["transport"])
        at = ch.s("attacker")
        kinds = st.pick((("flip",), ("flip", "hdr"), ("flip", "drop", "dup", "swap", "replay", "reflect", "inject",
                                                      "truncate", "extend", "cross", "empty", "hdr")))
        att = Attacker(at, tr, rate=(0.4, 0.2)[st.below(2)], budget=1 + st.below(2), attacks=kinds,
                       eligible=lambda pipe, idx, f: idx < 2)
        # sessions of the same two parties: same long-term keys, fresh encryption keys
        n = 1 + (1 if "cross" in kinds or st.chance(0.15) else 0)
        for i in range(n):
            cfg = dict(base)
            cfg["keys"] = dict(keys_for("%s/%d" % (ch.seed, i)))
            k0 = keys_for("%s/0" % ch.seed)
            cfg["keys"]["c_sig"] = k0["c_sig"]
            cfg["keys"]["s_sig"] = k0["s_sig"]
            if i and st.chance(0.3):        # one party's encryption key again, or one much like it
                x = st.pick(("c_enc", "s_enc"))
                cfg["keys"][x] = k0[x] if st.below(2) == 0 else ref.enc_keys(related(st, k0[x][0], cfg["keys"][x][0]))
                tr.probe("related_keys")
            cs = ch.s("convo%d" % i)
            turns = draw_convo(cs, "%d" % i, scale=0, max_turns=2, max_writes=2, max_msgs=2,
                               client_first=cfg["buffer_M4"])
            w.add(cfg, turns, prepare=lambda s: att.attach(s.conn))
        w.deadline(2000)
        w.run()
        for s in w.sessions:
            self.judge(s, w, tr, att)
        tr.probe("nontrivial")

    def judge(self, s, w, tr, att):
        k = s.cfg["keys"]
        c_sent = [f for _, f in s.conn.a2b.sent_frames]
        s_sent = [f for _, f in s.conn.b2a.sent_frames]
        c_rcvd = s.conn.b2a.rcvd_frames
        s_rcvd = s.conn.a2b.rcvd_frames
        touched = [d for d in att.done if d[1].endswith("#%d" % s.cid)]
        same_m1 = bool(c_sent and s_rcvd) and c_sent[0] == s_rcvd[0]
        same_m2 = bool(s_sent and c_rcvd) and s_sent[0] == c_rcvd[0]
        for p in (s.client, s.server):
            if p.hs != "ok":
                continue
            need(same_m1, "transcript", lambda: "%s completed its handshake although the server received another M1 "
                 "than the client sent (%s)" % (p.name, touched))
            need(same_m2, "transcript", lambda: "%s completed its handshake although the client received another M2 "
                 "than the server sent (%s)" % (p.name, touched))
        if s.server.hs == "ok":
            need(s.client.hs == "ok", "transcript", lambda: "server completed its handshake, client did not: %s" %
                 (s.client.hs,))
            need(bytes(s.server.sess.client_sig_key) == k["c_sig"][1], "identity",
                 lambda: "server reports client identity %s" % short(s.server.sess.client_sig_key))
        if s.client.hs == "ok" and s.server.hs == "ok":
            want = ref.shared(k["c_enc"][0], k["s_enc"][1])
            for p in (s.client, s.server):
                got = getattr(p.sess, "session_key", None)
                need(got is None or bytes(got) == want, "session-key", lambda: "%s holds another session key" % p.name)
        if s.client.hs == "ok":
            need(bytes(s.client.sess.m3.ServerSigKey) == k["s_sig"][1], "identity",
                 lambda: "client accepted server identity %s" % short(s.client.sess.m3.ServerSigKey))
        for p in (s.client, s.server):
            check_prefix(s, p)
        if not touched:
            need(not (w.stuck and not att.done), "no-progress", "handshake without interference never completes")
            for p in (s.client, s.server):
                check_complete(s, p)
            tr.probe("untampered_ok")
        elif s.client.hs != "ok":
            tr.probe("tampered_client_failed")
        else:
            tr.probe("tampered_client_ok")
