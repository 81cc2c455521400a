"""C23, C24: comparing and inspecting bulletins; histories of bulletins"""
import copy, json, os, re
import drv, tables, p_bufr, p_crex, bufrgen as bg
from p_bufr import small, gen, var_cmd, enc_cmd

FIELDS = dict(mt=255, ce=65535, sc=65535, upd=255, cat=255, sub=255, lsub=255, mtv=255, mtl=255, yr=65535, mo=255, dy=255,
              hh=255, mi=255, ss=255, ed=255)
QUESTIONS = ["print", "structured", "datadesc", "details", "encode", "validate", "features"]


class Slot:
    def __init__(self, kind, subs, tabs, h=None, opt=(), m=None):
        self.kind, self.subs, self.tabs = kind, [list(s) for s in subs], tabs
        self.h = dict(h or {})
        self.opt = list(opt)
        self.m = m      # the message it was decoded from, as long as it has not been changed


class History:
    """Writes a history, keeping track of what it needs to know to go on"""

    def __init__(self, r, tab, pool, vars, elems):
        self.r, self.tab, self.pool, self.vars, self.elems = r, tab, pool, vars, elems
        self.sl = {1: None, 2: None}
        self.ops, self.toks = [], []
        self.asked = []

    def op(self, op, s, toks=(), **q):
        self.ops.append(dict(op=op, s=s, **q))
        self.toks.append(" ".join([op, str(s)] + [str(t) for t in toks]))

    # ------------------------------------------------ whole bulletins
    def decode(self, s, m):
        self.op("decode", s, [m["kind"], m["m"].hex() or "-"], kind=m["kind"], l=list(m["m"]))
        self.sl[s] = Slot(m["kind"], m["outs"], True, m["h"], m["opt"], m) if m["ok"] else None

    def verbose(self, m):
        self.op("verbose", 1, [m["kind"], m["m"].hex() or "-"], kind=m["kind"], l=list(m["m"]))

    def new(self, s, kind):
        self.op("new", s, [kind], kind=kind)
        self.sl[s] = Slot(kind, [], False)

    def clear(self, s):
        self.op("clear", s)
        self.sl[s] = Slot(self.sl[s].kind, [], False)

    def diff(self, s, t):
        self.op("diff", s, [t], t=t)

    def ask(self, s, what=None):
        b = self.sl[s]
        q = what or self.r.choice(QUESTIONS)
        if not b.tabs and q != "details":
            q = "details"
        if b.m:
            self.asked.append((len(self.ops), q, b.m))
        self.op(q, s)

    # ------------------------------------------------ changes: a function of the slot, to do the same elsewhere
    def some_var(self):
        r = self.r
        v = copy.deepcopy(r.choice(self.vars))
        if v["set"] and v["y"] in "id" and v["c"] >> 8 != 31 and r.random() < .4:
            p_bufr.setval(r, v, self.tab)
            self.fit(v)
        return v

    def fit(self, v):
        """no value if it may be out of range"""
        if v["set"] and v["y"] in "id":
            e = self.tab["B"].get(str(v["c"]), v)
            same = (e["sc"], e["bl"], e["rf"]) == (v["sc"], v["bl"], v["rf"])
            n = v["v"][0] * 65536 + v["v"][1]
            if not self.inrange(dict(v, len=e["len"] if same else len(str(1 << v["bl"]))), n) or n >= 2 ** 31 or n < -2 ** 31:
                v.update(set=0, v=[0, 0])

    def change(self, s):
        do = self.change0(s)

        def change(t):
            self.sl[t].m = None
            do(t)
        return change

    def change0(self, s):
        """picks a change that slot s allows; returns a function that does it"""
        r, b = self.r, self.sl[s]
        subs = [i for i, x in enumerate(b.subs)]
        full = [i for i in subs if b.subs[i]]
        kinds = ["set", "set", "set", "desc", "obtain", "subset", "diffkind"]
        if b.kind == "bufr":
            kinds += ["opt", "tables"]
        if subs:
            kinds += ["add", "add", "pop", "map", "fixedmap", "copysub"]
            if b.tabs and b.kind == "bufr":
                kinds += ["undef", "int"]
        if full:
            kinds += ["put"] * 4 + ["value"] * 4 + ["attr"] * 4 + ["noattr"] * 2 + ["poke"] * 4
        k = r.choice(kinds)
        if k in ("set", "diffkind"):
            fs = dict(FIELDS)
            fs.update(dict(comp=1) if b.kind == "bufr" else dict(bv=255, cd=1))
            f = r.choice(sorted(fs))
            n = r.choice([0, 1, fs[f], r.randrange(fs[f] + 1), (b.h.get(f, 7) + r.choice([1, 256, -1])) % (fs[f] + 1)])

            def do(t):
                self.op("set", t, [f, n], f=f, n=n)
                self.sl[t].h[f] = n
        elif k == "opt":
            l = [r.choice([0, 0, 32, 255, r.randrange(256)]) for _ in range(r.choice([0, 1, 2, 3, 5, 9]))]
            if b.opt and r.random() < .7:
                l = list(b.opt)
                k = r.randrange(len(l))
                l[k:k + 1] = r.choice([[], [l[k] ^ 1], [l[k] ^ 128], [l[k], 0], [l[k] ^ 32]])

            def do(t):
                self.op("opt", t, [bytes(l).hex() or "-"], l=l)
                self.sl[t].opt = list(l)
        elif k == "tables":
            def do(t):
                self.op("tables", t)
                h = self.sl[t].h
                if h.get("mt", 0) == 0 and h.get("mtv", 19) <= 14:
                    self.sl[t].tabs = True
        elif k == "desc":
            l = [r.choice(self.elems) for _ in range(r.choice([0, 1, 2, 3]))]

            def do(t):
                self.op("desc", t, [len(l)] + l, l=l)
        elif k == "obtain":
            i = len(b.subs) + r.choice([-1, 0, 0, 1, 2]) if b.subs else r.choice([0, 1])

            def do(t):
                self.op("obtain", t, [i], i=i)
                while self.sl[t].tabs and len(self.sl[t].subs) <= i:
                    self.sl[t].subs.append([])
        elif k == "subset":
            i = r.randrange(len(b.subs) + 2)

            def do(t):
                self.op("subset", t, [i], i=i)
        elif k == "add":
            i, v, mv = r.choice(subs), self.some_var(), r.randrange(2)

            def do(t):
                self.op("add", t, [i, mv, var_cmd(v)], i=i)
                self.sl[t].subs[i].append(v)
        elif k == "undef":
            i, c = r.choice(subs), r.choice(self.elems + [r.randrange(16384)])

            def do(t):
                self.op("undef", t, [i, c], i=i, c=c)
                if str(c) in self.tab["B"]:
                    self.sl[t].subs[i].append(dict(c=c, at=[]))
        elif k == "int":
            cs = [c for c in self.elems if self.tab["B"][str(c)]["y"] == "i"]
            i, c = r.choice(subs), r.choice(cs)
            e = self.tab["B"][str(c)]
            rf = e["rf"][0] * 65536 + e["rf"][1]
            n = r.choice([rf, rf + 1, rf + (1 << min(e["bl"], 30)) - 2, rf + (1 << min(e["bl"], 30)), rf - 1, 0, 7])
            n = max(-2 ** 31, min(2 ** 31 - 1, n))
            top = rf + (1 << e["bl"]) - 1
            ok = self.inrange(e, n)

            def do(t):
                self.op("int", t, [i, c, n], i=i, c=c, n=n)
                if ok:
                    self.sl[t].subs[i].append(dict(c=c, at=[]))
        elif k == "pop":
            i = r.choice(subs)

            def do(t):
                self.op("pop", t, [i], i=i)
                if self.sl[t].subs[i]:
                    self.sl[t].subs[i].pop()
        elif k in ("put", "value"):
            i = r.choice(full)
            j = r.randrange(len(b.subs[i]))
            # the kinds of variables that are rare in messages as often as the others
            kinds = {}
            for x, o in enumerate(b.subs[i]):
                kinds.setdefault((o.get("y"), o.get("bl", 0) % 8 == 0), []).append(x)
            if k == "value":
                j = r.choice(kinds[r.choice(sorted(kinds, key=str))])
            old = b.subs[i][j]
            v = self.some_var()
            if k == "value" and "bl" in old and b.kind == "bufr":
                v = self.tweak(copy.deepcopy(old))

            def do(t):
                self.op("put", t, [i, j, var_cmd(v)], i=i, j=j)
                self.sl[t].subs[i][j] = v
        elif k == "poke":
            i = r.choice(full)
            j = r.randrange(len(b.subs[i]))
            old = b.subs[i][j]
            y = r.choice("uiiicc" if old.get("y", "b") != "b" else "uuiii")
            n = r.choice([0, 1, 2, 3, 100, -5])
            if "v" in old and r.random() < .6:
                n = old["v"][0] * 65536 + old["v"][1] + r.choice([0, 1, -1])
                n = max(-2 ** 31, min(2 ** 31 - 1, n))
            l = list(r.choice([b"1", b"-3", b"A", b"", b"2 ", b"B   "]))
            if old.get("tx") and r.random() < .6:
                l = list(old["tx"])
                l[r.randrange(len(l))] ^= r.choice([1, 0, 128])
            l = [x for x in l if x]

            def do(t):
                if y == "u":
                    self.op("poke", t, [i, j, y], i=i, j=j, y=y)
                elif y == "i":
                    self.op("poke", t, [i, j, y, n], i=i, j=j, y=y, n=n)
                else:
                    self.op("poke", t, [i, j, y, bytes(l).hex() or "-"], i=i, j=j, y=y, l=l)
                self.sl[t].subs[i][j] = dict(c=old["c"], y=old.get("y", "b"), at=self.sl[t].subs[i][j]["at"])
        elif k == "attr":
            i = r.choice(full)
            j = r.randrange(len(b.subs[i]))
            v = self.some_var()
            if r.random() < .7:
                v = dict(self.attr())
            if r.random() < .2:
                v["at"] = [self.attr()]

            def do(t):
                self.op("attr", t, [i, j, var_cmd(v)], i=i, j=j)
                at = self.sl[t].subs[i][j]["at"] = [a for a in self.sl[t].subs[i][j]["at"] if a["c"] != v["c"]]
                at.append(dict(v, at=[]))
        elif k == "noattr":
            i = r.choice(full)
            j = r.randrange(len(b.subs[i]))
            at = b.subs[i][j]["at"]
            c = r.choice(at)["c"] if at and r.random() < .9 else r.choice(self.elems)

            def do(t):
                self.op("noattr", t, [i, j, c], i=i, j=j, c=c)
                x = self.sl[t].subs[i][j]
                x["at"] = [a for a in x["at"] if a["c"] != c]
        elif k == "map":
            i = r.choice(subs)
            n = r.choice([1, 2, 3, len(b.subs[i]) + 1, max(1, len(b.subs[i]))])
            cc = r.choice([2 << 14 | 22 << 8, 2 << 14 | 23 << 8])
            have = [a["c"] for x in b.subs[i] for a in x["at"]]
            a = r.choice(have) if have and r.random() < .8 else 33 << 8 | 7

            def do(t):
                self.op("map", t, [i, cc, n, a], i=i, c=cc, n=n, a=a)
                self.sl[t].subs[i].append(dict(c=cc, at=[]))
        elif k == "fixedmap":
            i, n, cc = r.choice(subs), r.choice([1, 2, 5, 9]), 2 << 14 | 22 << 8

            def do(t):
                self.op("fixedmap", t, [i, cc, n], i=i, c=cc, n=n)
                self.sl[t].subs[i].append(dict(c=cc, at=[]))
        elif k == "copysub":
            i = r.choice(subs)
            j = r.randrange(len(b.subs) + 1)

            def do(t):
                self.op("copysub", t, [i, j], i=i, j=j)
                x = self.sl[t]
                while len(x.subs) <= j:
                    x.subs.append([])
                x.subs[j] = copy.deepcopy(x.subs[i])
        return do

    def inrange(self, e, n):
        rf = e["rf"][0] * 65536 + e["rf"][1]
        if e["len"] >= 10:
            return True
        lo, hi = -(10 ** e["len"] - 1), 10 ** e["len"] - 2
        if e["bl"]:
            top = (1 << e["bl"]) + rf
            lo, hi = max(rf, lo), min(top if e["c"] >> 8 == 31 else top - 2, hi)
        return lo <= n <= hi

    def attr(self):
        r = self.r
        e = self.tab["B"][r.choice(sorted(c for c in self.tab["B"] if int(c) >> 8 == 33))]
        v = dict(c=e["c"], y=e["y"], sc=e["sc"], bl=e["bl"], rf=e["rf"], set=1, v=[0, 0], tx=[], at=[])
        if r.random() < .15:
            v["set"] = 0
        else:
            p_bufr.setval(r, v, self.tab)
        if v["set"] and v["y"] in "id" and not self.inrange(e, v["v"][0] * 65536 + v["v"][1]):
            v["v"] = e["rf"]
        return v

    def tweak(self, v):
        """the same variable with a value that is only a little different"""
        r = self.r
        if not v["set"] or r.random() < .15:
            if v["set"]:
                v.update(set=0, v=[0, 0], tx=[])
            elif v["y"] in "id":
                v.update(set=1, v=v["rf"])
                self.fit(v)
            elif v["y"] == "s":
                v.update(set=1, tx=[r.choice(b"abc")])
        elif v["y"] in "id":
            n = v["v"][0] * 65536 + v["v"][1]
            rf = v["rf"][0] * 65536 + v["rf"][1]
            n += r.choice([1, -1])
            if n < rf:
                n = rf + 1
            if n - rf >= (1 << v["bl"]) - 1:
                n = rf
            v["v"] = tables.wide(max(-2 ** 31, min(2 ** 31 - 1, n)))
            self.fit(v)
        elif v["y"] == "b":
            k = r.choice([0, len(v["tx"]) - 1, r.randrange(len(v["tx"]))])
            bits = v["bl"] % 8 if k == len(v["tx"]) - 1 and v["bl"] % 8 else 8
            v["tx"][k] ^= 1 << r.randrange(bits)
            full = [255] * (v["bl"] // 8) + ([(1 << v["bl"] % 8) - 1] if v["bl"] % 8 else [])
            if v["tx"] == full:
                v["tx"][0] ^= 1
        elif v["tx"] and v["c"] >> 14 == 0:
            k = r.randrange(len(v["tx"]))
            v["tx"][k] = r.choice([x for x in b"abcXYZ" if x != v["tx"][k]])
        return v


class Lane:
    def __init__(self, ctx, tabdir, tab):
        self.ctx, self.env, self.tlcenv = ctx, drv.environ(tabdir), {"TABLES": ctx.tabs({"small": tab})}
        self.next = 0

    def merge(self, c, o):
        c = dict(c)
        c["st"] = o["st"]
        c["_err"] = o.get("err", "")
        obs = o.get("obs", [])
        c["ops"] = [dict(q) for q in c["ops"]]
        for q, x in zip(c["ops"], obs):
            if "v" in x:
                q["v"] = x["v"]
        c["obs"] = obs
        return c

    def redo(self, case):
        return self.merge(case, drv.run([case["_cmd"]], self.env)[0])

    def judge(self, hs, label):
        cs = []
        for h in hs:
            self.next += 1
            cs.append(dict(id=self.next, tab="small", ops=h.ops, _cmd="bul %d %s" % (len(h.ops), " ".join(h.toks)), _size=120 * len(h.ops)))
        obs = drv.run([c["_cmd"] for c in cs], self.env)
        cs = [self.merge(c, o) for c, o in zip(cs, obs)]
        for h, c in zip(hs, cs):
            h.obs = c["obs"]
        diffs = [x for c in cs for q, x in zip(c["ops"], c["obs"]) if q["op"] == "diff"]
        self.ctx.note(operations=sum(len(c["obs"]) for c in cs), comparisons=len(diffs), found_equal=sum(x.get("n") == 0 for x in diffs))
        for k in range(0, len(cs), 1500):
            self.ctx.judge("BulletinTrace", cs[k:k + 1500], self.tlcenv, self.redo, label)
            if self.ctx.violations:
                return


    def alike(self, hs, often):
        """the same questions about the same messages, in other histories and in processes that have done nothing else"""
        seen = {}

        def collect(h, fresh):
            for k, q, m in h.asked:
                if k < len(h.obs) and "ans" in h.obs[k]:
                    seen.setdefault((q, m["kind"], m["m"].hex()), []).append((h.obs[k]["ans"], fresh, h))
        for h in hs:
            collect(h, 0)
        r = self.ctx.rng

        def alone(m):
            out = []
            for q in QUESTIONS:
                h = History(r, None, None, None, None)
                h.decode(1, m)
                h.ask(1, q)
                h.obs = drv.run(["bul %d %s" % (len(h.ops), " ".join(h.toks))], self.env)[0].get("obs", [])
                out.append(h)
            return out
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(8) as ex:
            for out in ex.map(alone, often):
                for h in out:
                    collect(h, 1)
        keys = sorted(k for k in seen if len(seen[k]) > 1)
        self.ctx.note(questions_asked_again_elsewhere=len(keys), answers_compared=sum(len(seen[k]) for k in keys))
        cs = []
        for k in range(0, len(keys), 40):
            self.next += 1
            part = [(key, x) for key in keys[k:k + 40] for x in seen[key]]
            cs.append(dict(id=self.next, tab="small", ops=[dict(op="seen", s=1, q=key[0], kind=key[1], l=list(bytes.fromhex(key[2]))) for key, x in part],
                           obs=[dict(ans=x[0]) for key, x in part], st="ok", _cmd="answers recorded in other histories", _size=50 * len(part)))
        self.ctx.judge("BulletinTrace", cs, self.tlcenv, None, "answers")


def material(ctx, tab, n, bad=0.0):
    """messages that are small enough, with what they decode to"""
    r = ctx.rng
    kinds = lambda r: r.choice(["plain", "plain", "mapped", "mapped", "fields", "wild"])
    ms = [m for m, t, u in gen(ctx, tab, n, kinds, .3, mut=bad)]
    env = drv.environ(ctx.work + "/tables")
    out = []
    for m, o in zip(ms, drv.run(["dec 0 %s" % (m.hex() or "-") for m in ms], env)):
        out.append(dict(kind="bufr", m=m, o=o))
    td, ct = p_crex.small(ctx)
    cs = [m for m, t in p_crex.items(ctx, ct, n // 4, mut=bad)]
    for m, o in zip(cs, drv.run(["cdec %s" % (m.hex() or "-") for m in cs], env)):
        out.append(dict(kind="crex", m=m, o=o))
    for x in out:
        o = x.pop("o")
        x["ok"] = o["st"] == "ok"
        x["outs"] = o.get("outs", [])
        x["opt"] = o.get("opt", [])
        x["desc"] = o.get("desc", [])
        x["h"] = dict(o.get("h", {}), ed=o.get("ed", 0)) if x["ok"] else {}
    out = [x for x in out if sum(len(s) for s in x["outs"]) < 40 and len(x["m"]) < 400]
    r.shuffle(out)
    return out


def traits(m):
    """what is special about a message"""
    t = {"%s/%d/%s" % (m["kind"], c >> 14, c >> 8 & 63 if c >> 14 == 2 else "") for c in m["desc"] if c >> 14}
    t |= {"%s/%d" % (m["kind"], c) for c in m["desc"] if c >> 14 == 2 and (c >> 8 & 63) > 20}
    if m["opt"]:
        t.add("opt")
    for s in m["outs"]:
        for v in s:
            t.add("%s/%s/%d" % (m["kind"], v["y"], bool(v["at"])))
            if v["y"] == "b":
                t.add("b/%d" % (v["bl"] % 8 != 0))
    if len(m["outs"]) > 1:
        t.add("%s/many" % m["kind"])
    return t


class Strata:
    """messages chosen by what is special about them"""

    def __init__(self, r, pool):
        self.r, self.pool, self.by = r, pool, {}
        for m in pool:
            for t in traits(m):
                self.by.setdefault(t, []).append(m)
        self.names = sorted(self.by)

    def one(self):
        return self.r.choice(self.pool if self.r.random() < .4 else self.by[self.r.choice(self.names)])


def workshop(ctx, n, bad=0.0):
    td, tab = small(ctx)
    pool = material(ctx, tab, n, bad)
    vars = [v for m in pool if m["ok"] and m["kind"] == "bufr" for s in m["outs"] for v in s]
    elems = [int(c) for c in tab["B"]]
    return Lane(ctx, td, tab), tab, pool, vars, elems


def every(ctx, L, tab, depth, limit):
    """all short histories over a few operations: the specification explored exhaustively, the library on the same"""
    def var(c, val=None, at=()):
        e = tab["B"][str(tables.code(c))]
        v = dict(c=e["c"], y=e["y"], sc=e["sc"], bl=e["bl"], rf=e["rf"], set=int(val is not None), v=[0, 0], tx=[], at=list(at))
        if val is not None:
            v.update(dict(tx=list(val)) if e["y"] == "s" else dict(v=tables.wide(val)))
        return v
    a7, a2 = var("B33007", 50), var("B33002", 1)
    vs = [var("B01001", 7), var("B01001", 7, [a7]), var("B01011", b"ab"), var("B12001")]
    R = History(ctx.rng, tab, None, None, None)

    def take(f):
        """operations as f writes them"""
        del R.ops[:], R.toks[:]
        f()
        return list(zip(R.ops, R.toks))

    def start(s, kind, fill):
        R.op("new", s, [kind], kind=kind)
        R.op("set", s, ["mtv", 14], f="mtv", n=14)
        if kind == "bufr" and fill:
            R.op("tables", s)
            R.op("obtain", s, [0], i=0)
            for v in vs[:fill]:
                R.op("add", s, [0, 0, var_cmd(v)], i=0)
    init = [take(lambda: (start(1, a, m), start(2, b, n))) for a, m, b, n in
            [("bufr", 0, "bufr", 0), ("bufr", 1, "bufr", 1), ("bufr", 2, "bufr", 2), ("bufr", 3, "bufr", 2), ("crex", 0, "crex", 0), ("crex", 0, "bufr", 0)]]

    def some(s):
        for f, ns in dict(cat=(1,), yr=(2001,), comp=(1,), upd=(1,), mtv=(14, 15), ed=(3,)).items():
            for n in ns:
                R.op("set", s, [f, n], f=f, n=n)
        R.op("clear", s)
        for l in ([], [0], [0, 0]):
            R.op("opt", s, [bytes(l).hex() or "-"], l=l)
        for l in ([tables.code("B01001")], [tables.code("B01001")] * 2):
            R.op("desc", s, [len(l)] + l, l=l)
        R.op("tables", s)
        for i in (0, 1):
            R.op("obtain", s, [i], i=i)
            R.op("pop", s, [i], i=i)
            R.op("add", s, [i, 0, var_cmd(vs[0])], i=i)
            for y, x, q in (("u", [], {}), ("i", [7], dict(n=7)), ("i", [8], dict(n=8)), ("i", [9999], dict(n=9999)), ("c", [b"ab".hex()], dict(l=list(b"ab")))):
                R.op("poke", s, [0, i, y] + x, i=0, j=i, y=y, **q)
            R.op("attr", s, [0, i, var_cmd(a7)], i=0, j=i)
            R.op("noattr", s, [0, i, a7["c"]], i=0, j=i, c=a7["c"])
        R.op("attr", s, [0, 0, var_cmd(a2)], i=0, j=0)
        R.op("add", s, [0, 1, var_cmd(vs[2])], i=0)
        R.op("put", s, [0, 0, var_cmd(vs[3])], i=0, j=0)
        R.op("put", s, [0, 1, var_cmd(vs[1])], i=0, j=1)
        c = tables.code("C22000")
        R.op("map", s, [0, c, 2, a7["c"]], i=0, c=c, n=2, a=a7["c"])
        R.op("fixedmap", s, [0, c, 2], i=0, c=c, n=2)
        R.op("copysub", s, [0, 1], i=0, j=1)
        R.op("encode", s)
    ops = take(lambda: (some(1), some(2)))
    # the variables, as the library describes them
    text = lambda t: re.sub(r"^(add) \d+ \d+ \d+ |^(put|attr) \d+ \d+ \d+ ", "", t)
    known = {}
    for v in vs + [a7, a2]:
        h = take(lambda: (start(1, "bufr", 1), R.op("add", 1, [0, 0, var_cmd(v)], i=0)))
        known[var_cmd(v)] = drv.run(["bul %d %s" % (len(h), " ".join(t for q, t in h))], L.env)[0]["obs"][-1]["v"]
    spec = lambda l: [dict(q, v=known[text(t)]) if q["op"] in ("add", "put", "attr") else q for q, t in l]
    p = os.path.join(ctx.work, "ops.json")
    json.dump(dict(init=[spec(i) for i in init], ops=spec(ops), depth=depth, tab=tab), open(p, "w"))
    out = ctx.model("BulletinMC", "BulletinMC.cfg", env=dict(OPS=p, EXPORT="1"))
    hs = sorted(set(tuple(int(x) for x in h.split(",")) for h in re.findall(r'<<"HIST", <<([^>]*)>>>>', out)))
    inner = {h[:-1] for h in hs}
    hs = [h for h in hs if h not in inner]
    ctx.note(small_histories=len(hs))
    ctx.rng.shuffle(hs)
    todo = []
    for x in hs[:limit]:
        h = History(ctx.rng, tab, None, None, None)
        l = list(init[x[0] - 1])
        for k in x[1:]:
            l += [ops[k - 1], (dict(op="diff", s=1, t=2), "diff 1 2")]
        h.ops, h.toks = [q for q, t in l], [t for q, t in l]
        todo.append(h)
    for k in range(0, len(todo), 10000):
        if not ctx.violations:
            L.judge(todo[k:k + 10000], "small histories")


def c23(ctx):
    r = ctx.rng
    L, tab, pool, vars, elems = workshop(ctx, ctx.n(900, 6000))
    every(ctx, L, tab, ctx.n(2, 3), ctx.n(5000, 60000))
    if ctx.violations:
        return
    good = [m for m in pool if m["ok"]]
    strata = Strata(r, good)
    hs = []
    for _ in range(ctx.n(2600, 30000)):
        h = History(r, tab, pool, vars, elems)
        m = strata.one()
        k = r.random()
        if k < .08:
            h.new(1, r.choice(["bufr", "crex"]))
            h.new(2, h.sl[1].kind if r.random() < .8 else "bufr")
        elif k < .9:
            h.decode(1, m)
            h.decode(2, m)
        else:
            h.decode(1, m)
            h.decode(2, strata.one())
        h.diff(1, 2)
        same = k < .9 and h.sl[1].kind == h.sl[2].kind
        for _ in range(r.choice([1, 2, 3, 4])):
            if r.random() < .04:
                s = r.choice([1, 2])
                h.clear(s)
                h.diff(1, 2)
                if r.random() < .5 and h.sl[3 - s]:
                    h.clear(3 - s)
                    h.diff(1, 2)
                continue
            s = r.choice([1, 2])
            if not h.sl[s] or not h.sl[3 - s]:
                break
            do = h.change(s)
            do(s)
            h.diff(1, 2) if r.random() < .5 else h.diff(2, 1)
            # the same change on the other side
            if r.random() < .6 and [len(x) for x in h.sl[3 - s].subs] == [len(x) for x in h.sl[s].subs][:len(h.sl[3 - s].subs)] and same:
                try:
                    mark = len(h.ops)
                    do(3 - s)
                    h.diff(r.choice([1, 2]), r.choice([1, 2]))
                except (IndexError, KeyError):
                    del h.ops[mark:], h.toks[mark:]
                    break
            else:
                same = False
        hs.append(h)
    L.judge(hs, "compare")


def c24(ctx):
    r = ctx.rng
    L, tab, pool, vars, elems = workshop(ctx, ctx.n(1500, 12000), bad=.25)
    # a few messages that come again and again
    strata = Strata(r, [m for m in pool if m["ok"]])
    often = [r.choice(strata.by[t]) for t in strata.names]
    ctx.note(messages_asked_about_in_fresh_processes=len(often))
    hs = []
    for _ in range(ctx.n(2400, 30000)):
        h = History(r, tab, pool, vars, elems)
        m = r.choice(often if r.random() < .5 else pool)
        h.decode(1, m)
        if r.random() < .7:
            h.verbose(m)
        for _ in range(r.choice([2, 4, 6, 8])):
            k = r.random()
            live = [s for s in (1, 2) if h.sl[s]]
            if k < .6 and live:
                h.ask(r.choice(live))
                if r.random() < .3:
                    h.ask(r.choice(live), h.ops[-1]["op"])
            elif k < .7:
                h.verbose(r.choice([m, m, r.choice(pool)]))
            elif k < .8:
                h.decode(r.choice([1, 2]), r.choice([m, m, r.choice(pool)]))
            elif k < .85 and len(live) == 2:
                h.diff(1, 2)
            elif live:
                s = r.choice(live)
                h.change(s)(s)
        hs.append(h)
    L.judge(hs, "inspect")
    if not ctx.violations:
        L.alike(hs, often)
