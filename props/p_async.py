"""C11: cancelled operations.  C12: concurrent tasks on one channel."""
import asyncio

from .common import *

FIN = b"<fin>"


def uniq(tag, n):
    return payload(tag, max(8, n))


class TaskProp(Prop):
    """Two real endpoints whose application side is several tasks."""

    def setup(self, ch, tr, st):
        cfg = draw_cfg(st, transports=("aio", "msg"))
        cfg["net"] = draw_net(st, lat=("none", "const", "jitter", "slow"))
        cfg["keys"] = keys_for(ch.seed)
        cfg["sync"] = False
        cfg["window"] = st.pick((100, 2000, 1 << 30, 30))
        env.use_backend(cfg["backend"])
        ss = ch.s("slow")

        def chan_setup(s, peer, c):
            if st.chance(0.6):
                c.slow_write = lambda: ss.pick((None, 0, 0.001, 0.01, 0.5, 3.0))
        cfg["chan_setup"] = chan_setup
        draw_nest(ss, cfg, ch.seed)
        return cfg

    async def open(self, world, s, peer, chan):
        if s.cfg.get("nest"):
            o = world.outer(s, peer, chan)
            await o.handshake()
            chan = o.app_channel
        x = world.make_session(s, peer, chan)
        await x.handshake()
        peer.hs = "ok"
        world.trace.log("hs", peer.name)
        return x.app_channel


class C11(TaskProp):
    id = "C11"
    title = "Cancelling a read or write never loses, repeats, tears or corrupts messages"
    quick = 15000
    thorough = 500000
    expect = ("read_cancelled", "write_cancelled", "write_cancelled_sent", "write_cancelled_unsent",
              "read_cancelled_mid_frame", "raw_level", "many_packets", "cancelled_among_writers",
              "crowd_in_one_write")

    def run(self, ch, tr):
        st = ch.s("cfg")
        cfg = self.setup(ch, tr, st)
        cs = ch.s("convo")
        raw = st.chance(0.2)       # the framing channel by itself
        if raw:
            tr.probe("raw_level")
        plan = {}
        for d in "cs":
            plan[d] = [{"msgs": [uniq("%s%d.%d" % (d, i, j), draw_size(cs, 1)) for j in range(1 + cs.geometric(0.4, 4))],
                        "last": False, "ba": False} for i in range(1 + cs.geometric(0.7, 6))]
        if cs.chance(0.06):        # one write that needs many packets
            d = cs.pick("cs")
            x = cs.pick(plan[d])
            x["msgs"] += [uniq("%sm%d" % (d, j), cs.pick((8, 20, 100))) for j in range(cs.pick((3, 9, 20, 60)))]
            x["msgs"].insert(cs.below(len(x["msgs"])), uniq("B" + d, 65536 + cs.below(3)))
            tr.probe("many_packets")
        elif cs.chance(0.02):
            d = cs.pick("cs")
            cs.pick(plan[d])["msgs"] += [uniq("%sk%d" % (d, j), 8) for j in range(cs.pick((70, 130, 260, 600)))]
            tr.probe("crowd_in_one_write")
        # most sides have one writer; some have several, each of which may be cancelled while others are under way
        tasks = {d: [plan[d]] for d in "cs"}
        for d in "cs":
            if cs.chance(0.3):
                k = 2 + cs.below(2)
                more = [{"msgs": [uniq("%s+%d.%d" % (d, i, j), draw_size(cs, 0)) for j in range(1 + cs.geometric(0.4, 3))],
                         "last": False, "ba": False} for i in range(1 + cs.below(5))]
                allw = plan[d] + more
                tasks[d] = [x for x in (allw[i::k] for i in range(k)) if x]
                if len(tasks[d]) > 1:
                    tr.probe("cancelled_among_writers")
        fate = {d: [[] for _ in tasks[d]] for d in "cs"}

        async def abody(world, s, peer, chan):
            try:
                app = chan if raw else await self.open(world, s, peer, chan)
                peer.hs = "ok"
            except Exception as e:
                peer.hs = e
                peer.fail("handshake", e)
                return
            rd = asyncio.ensure_future(self.reader(world, s, peer, app, ch.s("rcancel" + peer.role), tr))
            try:
                me = peer.role
                await asyncio.gather(*[
                    self.writer(world, s, peer, app, ch.s("wcancel" + me + (str(i) if i else "")), tr, x, fate[me][i])
                    for i, x in enumerate(tasks[me])])
                await app.write(FIN)
            except Exception as e:
                peer.fail("write", e)
            await rd
        cfg["abody"] = abody
        cfg["turns"] = None
        prelude(ch, tr, ch.s("pre"), cfg, 0.08)
        w = World(ch, tr, cfg["transport"])
        s = w.add(cfg, [])
        tr.log("cfg", desc(s), raw, [[len(m) for m in x["msgs"]] for x in plan["c"]],
               [[len(m) for m in x["msgs"]] for x in plan["s"]])
        w.deadline(100000)
        w.run()
        for p in (s.client, s.server):
            for op, e in p.errors:
                raise Violation("channel-broken", "%s: after cancelled operations %s failed with %s" % (p.name, op, err(e)))
        need(not w.stuck, "no-progress", lambda: "conversation with cancelled operations never completes: %s" % w.stuck)
        for p, d in ((s.client, "s"), (s.server, "c")):
            if len(tasks[d]) > 1:
                self.judge_many(p, tasks[d], fate[d])
            else:
                self.judge(tr, p, tasks[d][0], fate[d][0])
        tr.probe("nontrivial")

    async def reader(self, world, s, peer, app, st, tr):
        budget = 1 + st.below(30)
        while True:
            try:
                how = st.below(4) if budget > 0 else 0
                if how == 0:
                    m = await app.read()
                elif how == 1:
                    budget -= 1
                    m = await asyncio.wait_for(app.read(), st.pick((0.0005, 0.0, 0.002, 0.03, 0.2, 1.5)))
                else:
                    budget -= 1
                    t = asyncio.ensure_future(app.read())
                    if how == 2:
                        for _ in range(st.below(9)):
                            await asyncio.sleep(0)
                    else:
                        await asyncio.sleep(st.pick((0.0005, 0.001, 0.0001, 0.01, 0.4)))
                    inp = s.conn.b2a if peer.role == "c" else s.conn.a2b
                    t.cancel()
                    m = await t
            except (asyncio.CancelledError, asyncio.TimeoutError):
                tr.fault("read_cancelled")
                tr.log("rcancel", peer.name)
                inp = s.conn.b2a if peer.role == "c" else s.conn.a2b
                if hasattr(inp, "total_out"):
                    n = 0
                    for f in inp.rcvd_frames:
                        if n == inp.total_out:
                            break
                        n += 4 + len(f)
                        if n > inp.total_out:
                            tr.probe("read_cancelled_mid_frame")
                            break
                continue
            except Exception as e:
                peer.fail("read", e)
                return
            if m == FIN:
                return
            tr.log("got", peer.name, short(m))
            peer.got.append(m)

    async def writer(self, world, s, peer, app, st, tr, plan, fate):
        for x in plan:
            how = st.below(4)
            peer.sent.append(x["msgs"])
            if how == 0:
                await app.write(*x["msgs"])
                fate.append("sent")
                continue
            out = s.conn.a2b if peer.role == "c" else s.conn.b2a
            n0 = len(out.sent_frames)
            t = asyncio.ensure_future(app.write(*x["msgs"]))
            if how == 1:
                for _ in range(st.pick((0, 1, 2, 3, 5, 9))):
                    await asyncio.sleep(0)
            else:
                await asyncio.sleep(st.pick((0.0001, 0.001, 0.0, 0.01, 0.3)))
            t.cancel()
            try:
                await t
                fate.append("sent")
            except asyncio.CancelledError:
                tr.fault("write_cancelled")
                tr.probe("write_cancelled_sent" if len(out.sent_frames) > n0 else "write_cancelled_unsent")
                tr.log("wcancel", peer.name, len(out.sent_frames) - n0)
                fate.append("maybe")

    def judge_many(self, p, tasks, fates):
        """An interleaving of the writers' whole writes; of the cancelled ones any may be missing."""
        got = p.got
        pos = [0] * len(tasks)
        i = 0
        have = set(got)

        def skip(t, to):
            for x in tasks[t][pos[t]:to]:
                hit = [m for m in x["msgs"] if m in have]
                need(not hit, "torn-write", lambda: "%s: of a cancelled write of %d messages, %d arrived" % (
                    p.name, len(x["msgs"]), len(hit)))
        while i < len(got):
            found = None
            for t, ws in enumerate(tasks):
                j = pos[t]
                while j < len(ws) and ws[j]["msgs"][0] != got[i] and fates[t][j] == "maybe":
                    j += 1
                if j < len(ws) and ws[j]["msgs"][0] == got[i]:
                    found = (t, j)
                    break
            need(found is not None, "not-what-was-sent", lambda: "%s: message %d (%s) starts no writer's next write" % (
                p.name, i, short(got[i])))
            t, j = found
            skip(t, j)
            ms = tasks[t][j]["msgs"]
            need(got[i:i + len(ms)] == ms, "torn-write", lambda: "%s: the messages of one write arrived as %s, written %s"
                 % (p.name, [short(m) for m in got[i:i + len(ms)]], [short(m) for m in ms]))
            pos[t] = j + 1
            i += len(ms)
        for t, ws in enumerate(tasks):
            for j in range(pos[t], len(ws)):
                need(fates[t][j] == "maybe", "lost-message", lambda: "%s: the completed write %s never arrived" % (
                    p.name, [short(m) for m in ws[j]["msgs"]]))
            skip(t, len(ws))

    def judge(self, tr, p, plan, fate):
        got = p.got
        i = 0
        for x, f in zip(plan, fate):
            n = len(x["msgs"])
            if got[i:i + n] == x["msgs"]:
                i += n
                continue
            need(f == "maybe", "lost-message", lambda: "%s: the completed write %s was read as %s" % (
                p.name, [short(m) for m in x["msgs"]], [short(m) for m in got[i:i + n]]))
            hit = [m for m in x["msgs"] if m in got]
            need(not hit, "torn-write", lambda: "%s: of the cancelled write of %d messages, %d arrived" % (
                p.name, n, len(hit)))
        need(i == len(got), "not-what-was-sent", lambda: "%s read %d messages beyond the writes, first %s" % (
            p.name, len(got) - i, short(got[i])))


class C12(TaskProp):
    id = "C12"
    title = "Concurrent tasks writing to one channel get atomic, ordered writes"
    quick = 15000
    thorough = 500000
    expect = ("interleaved", "backpressure", "buffered_m4_race", "big_split", "crowd_in_one_write")

    def run(self, ch, tr):
        st = ch.s("cfg")
        cfg = self.setup(ch, tr, st)
        cs = ch.s("convo")
        plan = {}
        big = cs.chance(0.03)
        crowd = cs.chance(0.04)
        for d in "cs":
            n = 2 + cs.below(3) if d == "c" or cs.chance(0.7) else cs.below(2)
            plan[d] = []
            for t in range(n):
                ws = []
                for i in range(1 + cs.geometric(0.6, 5)):
                    msgs = [uniq("%s%d.%d.%d" % (d, t, i, j), draw_size(cs, 1)) for j in range(1 + cs.geometric(0.4, 4))]
                    if big and cs.chance(0.2):
                        if cs.below(3) == 2:
                            msgs += [uniq("%s%d.%dm%d" % (d, t, i, j), 8) for j in range(cs.pick((8, 20, 60)))]
                        msgs.insert(cs.below(len(msgs) + 1), uniq("B%s%d.%d" % (d, t, i), 65536 + cs.below(3)))
                        tr.probe("big_split")
                    if crowd and cs.chance(0.2):
                        msgs += [uniq("%s%d.%dk%d" % (d, t, i, j), 8) for j in range(cs.pick((70, 130, 260, 600)))]
                        tr.probe("crowd_in_one_write")
                    ws.append({"msgs": msgs, "last": False, "ba": cs.chance(0.1)})
                plan[d].append(ws)
        if cfg["buffer_M4"]:
            tr.probe("buffered_m4_race")

        async def abody(world, s, peer, chan):
            try:
                app = await self.open(world, s, peer, chan)
            except Exception as e:
                peer.hs = e
                peer.fail("handshake", e)
                return
            n = sum(len(w["msgs"]) for t in plan["s" if peer.role == "c" else "c"] for w in t)

            async def reader():
                try:
                    for _ in range(n):
                        m = await app.read()
                        peer.got.append(m)
                except Exception as e:
                    peer.fail("read", e)

            async def writer(i, ws):
                p = ch.s("pace%s%d" % (peer.role, i))
                try:
                    for x in ws:
                        k = p.below(4)
                        if k == 1:
                            await asyncio.sleep(0)
                        elif k == 2:
                            await asyncio.sleep(0.001 * p.below(20))
                        msgs = [bytearray(m) if x["ba"] else m for m in x["msgs"]]
                        await self.between(tr, app, peer, p)
                        await app.write(*msgs)
                        if x["ba"]:
                            for m in msgs:
                                m[:] = b"\xee" * len(m)
                except Exception as e:
                    peer.fail("write", e)
            ts = [asyncio.ensure_future(writer(i, ws)) for i, ws in enumerate(plan[peer.role])]
            ts.insert(ch.s("order" + peer.role).below(len(ts) + 1), asyncio.ensure_future(reader()))
            await asyncio.gather(*ts)
        cfg["abody"] = abody
        prelude(ch, tr, ch.s("pre"), cfg, 0.08)
        w = World(ch, tr, cfg["transport"])
        s = w.add(cfg, [])
        tr.log("cfg", desc(s), [[[len(m) for m in x["msgs"]] for x in t] for t in plan["c"]],
               [[[len(m) for m in x["msgs"]] for x in t] for t in plan["s"]])
        w.deadline(200000)
        w.run()
        for p in (s.client, s.server):
            for op, e in p.errors:
                raise Violation("channel-broken", "%s: concurrent use made %s fail with %s" % (p.name, op, err(e)))
        need(not w.stuck, "no-progress", lambda: "concurrent writers never complete: %s" % w.stuck)
        for p, d in ((s.client, "s"), (s.server, "c")):
            self.judge(tr, p, plan[d])
        tr.probe("nontrivial")

    async def between(self, tr, app, peer, p):
        pass

    def judge(self, tr, p, plan):
        pos = [0] * len(plan)
        i = 0
        order = []
        got = p.got
        while i < len(got):
            for t, ws in enumerate(plan):
                if pos[t] < len(ws) and ws[pos[t]]["msgs"][0] == got[i]:
                    break
            else:
                raise Violation("order", "%s: message %d (%s) starts no writer's next write" % (p.name, i, short(got[i])))
            ms = ws[pos[t]]["msgs"]
            need(got[i:i + len(ms)] == ms, "torn-write", lambda: "%s: the messages of one write arrived as %s, written %s"
                 % (p.name, [short(m) for m in got[i:i + len(ms)]], [short(m) for m in ms]))
            pos[t] += 1
            order.append(t)
            i += len(ms)
        need(all(pos[t] == len(ws) for t, ws in enumerate(plan)), "lost-message", lambda: "%s: writes received per "
             "writer %s of %s" % (p.name, pos, [len(ws) for ws in plan]))
        if any(order[i] != order[i + 1] and order[i] in order[i + 2:] for i in range(len(order) - 2)):
            tr.probe("interleaved")
