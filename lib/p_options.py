"""C21: options and note targets in scopes and threads"""
import itertools
import os
import build, drv


def history(r, steps, threads, depth):
    """a random history that leaves all of its scopes"""
    ops, st, live = [], {0: 0}, [0]
    for _ in range(steps):
        k = r.random()
        free = [t for t in range(1, threads + 1) if t not in st]
        if k < .1 and free:
            t = free[0]
            st[t] = 0
            ops.append((t, "start", "-", 0))
            continue
        t = r.choice(list(st))
        if k < .15 and t and st[t] == 0:
            del st[t]
            ops.append((t, "end", "-", 0))
        elif k < .5 and st[t] < depth:
            o = r.choice(["sil", "cla", "hk", "nt"])
            v = r.randrange(2) if o in ("sil", "cla") else r.randrange(4) if o == "hk" else r.randrange(1, 4)
            ops.append((t, "open", o, v))
            st[t] += 1
        elif k < .7 and st[t]:
            ops.append((t, "close", "-", 0))
            st[t] -= 1
        elif k < .85 and st[t]:
            n = r.randint(1, st[t])
            ops.append((t, "throw", "-", n))
            st[t] -= n
        elif k < .95:
            o = r.choice(["sil", "cla", "hk", "nt"])
            ops.append((t, "assign", o, r.randrange(2) if o in ("sil", "cla") else r.randrange(4) if o == "hk" else r.randrange(1, 4)))
        else:
            ops.append((t, "nothing", "-", 0))
    return finish(ops, st)


def finish(ops, st):
    for t in list(st):
        if st[t]:
            ops.append((t, "throw", "-", st[t]) if len(ops) % 2 else (t, "close", "-", 0))
            if ops[-1][1] == "close":
                st[t] -= 1
                while st[t]:
                    ops.append((t, "close", "-", 0))
                    st[t] -= 1
    return ops


def all_histories(length):
    """all short histories of two threads"""
    acts = [("open", "sil", 1), ("open", "sil", 0), ("open", "cla", 1), ("open", "hk", 1), ("open", "hk", 0), ("open", "nt", 1), ("close", "-", 0), ("throw", "-", 1), ("throw", "-", 2),
            ("assign", "hk", 2), ("assign", "nt", 2)]
    for h in itertools.product([(t,) + a for t in (0, 1) for a in acts], repeat=length):
        if h[0][0] == 1:
            continue
        st, ok = {0: 0, 1: 0}, True
        for t, op, o, v in h:
            if op == "open":
                st[t] += 1
            elif op == "close" or op == "throw":
                st[t] -= max(1, v)
                if st[t] < 0:
                    ok = False
                    break
        if ok:
            yield finish([(1, "start", "-", 0)] + list(h), st)


def c21(ctx):
    r = ctx.rng
    ctx.model("OptionsMC", "OptionsMC.cfg")
    if ctx.thorough:
        ctx.model("OptionsMC", "OptionsMC1.cfg")
    env = drv.environ(os.path.join(build.REPO, "tables"))
    cs = []

    def case(ops, free):
        return dict(id=len(cs) + 1, all=0 if free else 1, ops=[dict(t=t, op=op, o=o, v=v) for t, op, o, v in ops],
                    _cmd=("optsfree " if free else "opts ") + " ".join("%d %s %s %d" % q for q in ops), _size=len(ops) * 2)

    def merge(c, o):
        if c["all"]:
            obs = o.get("obs", [])
        else:
            left = {int(t): list(x) for t, x in o.get("threads", {}).items()}
            obs = []
            for q in c["ops"]:
                if q["op"] == "start":
                    # nothing is looked at before the first step
                    obs.append(None)
                    continue
                s = left.get(q["t"])
                obs.append([dict(t=q["t"], x=s.pop(0))] if s else [])
            # what a thread starts with is what it has before its first step
            fresh = dict(sil=0, cla=0, hk=0, nt=0, pol=["error", 0], note=0)
            obs = [x if x is not None else [dict(t=q["t"], x=fresh)] for x, q in zip(obs, c["ops"])]
        obs = (obs + [[] for _ in c["ops"]])[:len(c["ops"])]
        return dict(c, st=o["st"], obs=obs)

    def observe(c):
        return merge(c, drv.run([c["_cmd"]], env)[0])

    for n in range(1, ctx.n(3, 4) + 1):
        for h in all_histories(n):
            if n > ctx.n(2, 3) and r.random() > ctx.n(.35, .12):
                continue
            cs.append(case(h, False))
    ctx.note(short_histories=len(cs))
    for _ in range(ctx.n(500, 20000)):
        cs.append(case(history(r, r.choice([5, 10, 20, 40]), r.choice([1, 2, 4]), r.choice([1, 2, 3, 6])), False))
    for _ in range(ctx.n(300, 10000)):
        h = [q for q in history(r, r.choice([40, 100]), 4, 4) if q[1] != "end"]
        # threads run once
        seen, out = {0}, []
        for q in h:
            if q[1] == "start":
                if q[0] in seen:
                    continue
                seen.add(q[0])
            out.append(q)
        cs.append(case(out, True))
    obs = drv.run([c["_cmd"] for c in cs], env)
    cs = [merge(c, o) for c, o in zip(cs, obs)]
    ctx.note(steps=sum(len(c["ops"]) for c in cs), looks=sum(len(x) for c in cs for x in c["obs"]), concurrent_runs=sum(1 - c["all"] for c in cs))
    ctx.judge("OptionsTrace", cs, {}, observe, "histories")
