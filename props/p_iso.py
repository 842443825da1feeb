"""C13: sessions of one process do not influence each other."""
import asyncio

from .common import *
from .p_fault import place_faults, SOCK_ERRORS


def classes():
    if getattr(R, "TagKeeper_base", None) is R.stime.TimeKeeper:
        return      # built for this copy of the library already
    R.TagKeeper_base = R.stime.TimeKeeper

    class TagKeeper(R.stime.TimeKeeper):
        """A session's own clock: every time it hands out carries the session's tag."""

        def __init__(self, tag):
            self.tag = tag
            self.first = 0

        def get_first_time(self):
            self.first += 1
            return 1

        def get_time(self):
            return self.tag

    class TagChecker(R.stime.TimeChecker):
        def __init__(self, tag):
            self.tag = tag
            self.n = 0

        def report_first_time(self, time):
            if time != (1 if self.tag else 0):
                raise R.ex.BadPeer("first time of another session: %d, mine %d" % (time, self.tag))

        def check_time(self, time):
            self.n += 1
            # a server that sends M2 and M3 together stamps both with its first time
            if time != self.tag and not (self.n == 1 and time == 1):
                raise R.ex.TimeException("time of another session: %d, mine %d" % (time, self.tag))
    R.TagKeeper = TagKeeper
    R.TagChecker = TagChecker


def scripted(replies=()):
    """A channel that records what is written and answers reads from a list."""

    class Scripted(R.channel.ByteChannel):
        async def read(self):
            if not self.replies:
                raise R.ex.ComException("no more")
            return self.replies.pop(0)

        async def write(self, *msgs, is_last=False):
            self.written += [bytes(m) for m in msgs]

        def close(self):
            pass
    c = Scripted.__new__(Scripted)
    c.written = []
    c.replies = list(replies)
    return c


def untouched(tr, seed, loop):
    """A session with nothing set but its keys behaves as in a process that never had another session, and one without
    session keys has none."""
    keys = keys_for(seed)

    def pair(k):
        return R.KeyPair(sec=keys[k][0], pub=keys[k][1])

    def go(sess):
        try:
            loop.run_until_complete(sess.handshake())
        except Exception as e:
            return e
    for role, cls, req in (("c", R.Client, ()), ("s", R.Server, (ref.m1(0, keys["c_enc"][1]),))):
        chan = scripted(req)
        e = go(cls(pair(role + "_sig"), chan, loop=loop))
        need(e is not None and not chan.written, "cross-talk", lambda: "a new %s session that was given no session keys "
             "sent %s (%s)" % (cls.__name__, [short(m) for m in chan.written], e and err(e)))
        chan = scripted(req)
        s = cls(pair(role + "_sig"), chan, loop=loop)
        s.enc_keypair = pair(role + "_enc")
        go(s)
        want = [ref.m1(0, keys["c_enc"][1])] if role == "c" else [ref.m2(0, keys["s_enc"][1])]
        need(chan.written[:1] == want and (role == "c" or len(chan.written) == 2), "cross-talk", lambda: "a new %s session "
             "with default options sent %s, not %s%s" % (cls.__name__, [short(m) for m in chan.written], short(want[0]),
                                                        " and M3" if role == "s" else ""))
    tr.probe("default_options")


class C13(Prop):
    id = "C13"
    title = "Concurrent sessions in one process never influence each other"
    quick = 5000
    thorough = 300000
    expect = ("preempt", "faulty_neighbour", "hostile_neighbour", "threads", "tasks", "own_clock", "late_start",
              "loop_per_thread", "cold_start", "crowd", "default_options")

    def load(self):
        super().load()
        classes()

    def run(self, ch, tr):
        st = ch.s("cfg")
        fs = ch.s("faults")
        base = draw_cfg(st)
        base["sync"] = False
        base["net"] = draw_net(st, lat=("none", "const", "jitter"))
        cold = st.chance(0.04)
        env.use_backend(base["backend"], cold)
        if cold:
            tr.probe("cold_start")
        else:
            warm(base["backend"])
        classes()
        pre = st.wpick(((30, 0), (25, 3), (25, 12), (20, 80))) if base["transport"] == "thr" else 0
        base["keys"] = shared = keys_for(ch.seed + "/shared")
        if not cold:
            prelude(ch, tr, ch.s("pre"), base, 0.1)
        w = World(ch, tr, base["transport"], preempt=pre, max_steps=600000)
        tr.probe("threads" if base["transport"] == "thr" else "tasks")
        n = 2 + st.geometric(0.4, 3 if not pre else 1)
        if not pre and st.chance(0.008):
            n = 20 + st.below(50)
            tr.probe("crowd")
        att = Attacker(ch.s("attacker"), tr, rate=0.5, budget=4)
        bad = set()
        for i in range(n):
            cfg = draw_cfg(st, transports=(base["transport"],), backends=False)
            cfg["backend"] = base["backend"]
            cfg["sync"] = False
            cfg["net"] = draw_net(st, lat=("none", "const", "jitter"))
            cfg["keys"] = keys_for("%s/%d" % (ch.seed, i))
            if st.chance(0.5):
                cfg["keys"]["s_sig"] = shared["s_sig"]
            for k in ("c_sig", "s_enc", "c_enc"):       # the same party in several sessions
                if st.chance(0.2):
                    cfg["keys"][k] = shared[k]
                    tr.probe("shared_" + k)
                elif k != "c_sig" and st.chance(0.15):
                    cfg["keys"][k] = ref.enc_keys(related(st, shared[k][0], cfg["keys"][k][0]))
                    tr.probe("related_keys")
            if base["transport"] == "thr" and st.chance(0.3):
                cfg["run_async_in_thread"] = True
                tr.probe("loop_per_thread")
            draw_nest(st, cfg, "%s/%d" % (ch.seed, i))
            tags = {"c": 0, "s": 0}
            if st.chance(0.6):
                tags = {"c": 10000 + 100 * i + 1 + st.below(5), "s": 20000 + 100 * i + 1 + st.below(5)}
                tr.probe("own_clock")

            def timing(world, s, peer, x, tags=tags):
                if tags["c"]:
                    x.time_keeper = peer.keeper = R.TagKeeper(tags[peer.role])
                x.time_checker = peer.checker = R.TagChecker(tags["s" if peer.role == "c" else "c"])
            cfg["timing"] = timing
            cfg["tags"] = tags
            cs = ch.s("convo%d" % i)
            turns = draw_convo(cs, "%d" % i, scale=cs.wpick(((70, 0), (30, 1))), max_turns=4, max_writes=3, max_msgs=4,
                               client_first=cfg["buffer_M4"])
            trouble = fs.wpick(((60, None), (20, "cut"), (20, "attack"))) if i else None
            prep = None
            if trouble == "cut":
                bad.add(i)
                cfg["past"] = 3

                def prep(s, turns=turns):
                    place_faults(ch, tr, fs, s, turns)
                tr.probe("faulty_neighbour")
            elif trouble == "attack":
                bad.add(i)
                cfg["past"] = 3
                prep = (lambda s: att.attach(s.conn))
                tr.probe("hostile_neighbour")
            if w.loop is not None and i and st.chance(0.4):
                # started while the others are under way
                w.loop.run_until_complete(asyncio.sleep(0.001 * st.below(30)))
                tr.probe("late_start")
            w.add(cfg, turns, prepare=prep)
        if bad:
            w.deadline(5000)
        for s in w.sessions:
            tr.log("cfg", s.cid, desc(s), s.cid in bad)
        if w.loop is not None and st.chance(0.3):
            w.loop.run_until_complete(asyncio.sleep(0.01 * st.below(10)))
            untouched(tr, ch.seed + "/default", w.loop)
        w.run()
        for s in w.sessions:
            for p in (s.client, s.server):
                check_prefix(s, p, "cross-talk")
        if not bad:
            need(not w.stuck, "no-progress", lambda: "independent sessions never complete: %s" % w.stuck)
        for s in w.sessions:
            if s.cid in bad:
                continue
            for p in (s.client, s.server):
                check_complete(s, p)
            need(bytes(s.server.sess.client_sig_key) == s.cfg["keys"]["c_sig"][1], "identity", lambda: "%s reports the "
                 "identity of another session's client" % s.server.name)
            tags = s.cfg["tags"]

            def times(d, what, v, t, wi=None):
                tag = tags[d]
                if not tag:
                    return v == 0
                if what in ("M1", "M2"):
                    return v == 1
                return v == tag or (what == "M3" and v == 1)
            if not s.cfg.get("nest"):
                check_wire(s, times=times)
        tr.probe("nontrivial")
