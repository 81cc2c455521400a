"""C29: histories of subsets"""
import json, os, re
import drv, p_var, tables
from p_var import DEFAULT, dec_record
from tables import code, wide

OTHER = "B0000000000000013000"
LOOSE = ["newi", "newd", "news", "new", "newv", "seti", "sets", "seta", "seta", "unset", "copy"]
SUBSET = ["s-new", "s-copy", "s-copy", "s-assign", "s-assign", "s-move", "s-massign", "s-clear", "s-bad", "s-undefi", "s-diff", "s-diff", "s-diff"] \
    + ["s-var", "s-varm", "s-code", "s-i", "s-d", "s-c", "s-undef"] * 3 + ["s-dpb"] * 4 + ["s-fix"] * 2 + ["e-seta"] * 5 + ["e-unset", "e-get"]
PAIR = {"s-copy", "s-assign", "s-move", "s-massign", "s-diff"}
VAR = {"s-var", "s-varm", "s-code", "e-seta", "e-get"}
CODED = {"s-code", "s-i", "s-d", "s-c", "s-undef"}


def another(rows):
    """Other tables: some codes are missing and others differ."""
    out = []
    for k, (c, u, sc, rf, bl, cu, csc, cl) in enumerate(rows):
        if k % 7 == 3:
            continue
        if k % 3 == 1:
            if u == tables.STR:
                bl += 8
            elif bl < 28:
                bl += 3
        if k % 5 == 2 and u not in (tables.STR, tables.CODE, tables.FLAG):
            sc += 1
        out.append((c, u, sc, rf, bl, cu, csc, cl))
    return out


class Lane(p_var.VarLane):
    def __init__(self, ctx):
        p_var.VarLane.__init__(self, ctx)
        d = os.path.join(ctx.work, "tables")
        tables.write_small(d, "0000000000000013000.txt", another(tables.SMALL_B))
        self.bt2 = tables.read_bufr_b(os.path.join(d, OTHER + ".txt"))

    def entries(self, c):
        """what the three tables say of a code"""
        return [t.get(str(c), dict(c=-1)) for t in (self.bt, self.bt2, self.ct)]

    def run(self, histories):
        cmds = ["subset " + " ".join(o["_t"] for o in h) for h in histories]
        cases = []
        for h, c, o in zip(histories, cmds, self.record(cmds)):
            self.next += 1
            case = dict(id=self.next, ops=[full(x) for x in h], obs=o["obs"], st=o["st"], _cmd=c, _size=len(h) * 8)
            if "err" in o:
                case["_err"] = o["err"]
            cases.append(case)
        return cases

    def record(self, cmds):
        out = []
        for o in drv.run(cmds, self.env):
            if o["st"] != "ok":
                out.append(dict(st="crash", obs=[], err=o.get("err", "")))
                continue
            for step in o["obs"]:
                r = step["r"]
                r["cls"] = r.pop("err", "")
                if r["st"] == "std":
                    r["st"] = "std-exception"
                r.update(m=[0, 0], e=0, tx=[], va=dict(c=-1))
            out.append(o)
        return out

    def judge(self, cases, label=None):
        return self.ctx.judge("SubsetTrace", cases, {}, self.redo, label)


def full(o):
    z = dict(t=0, k=0, cc=0, e=[dict(c=-1)] * 3)
    z.update(p_var._zero(o))
    return z


def op(lane, name, a, b=0, pol=DEFAULT, t=None, cc=None, k=None, c=None, n=None, d=None, tx=None, q=None):
    o = dict(op=name, a=a, b=b, p=pol)
    w = [name, a, b, pol["sil"], pol["cla"], pol["hook"]]
    if q:
        o["q"] = q
        w += [q["kind"], q["c"], q["sc"], q["bl"], q["rf"][0] * 65536 + q["rf"][1]]
    for key, x in (("t", t), ("cc", cc), ("k", k), ("c", c)):
        if x is not None:
            o[key] = x
            w.append(x)
    if name in CODED:
        o["e"] = lane.entries(c)
    if n is not None:
        o["n"] = wide(n)
        w.append(n)
    if d is not None:
        o["d"] = dec_record(d)
        w.append(d)
    if tx is not None:
        o["tx"] = list(tx)
        w.append(tx.hex() or "-")
    o["_t"] = " ".join(map(str, w))
    return o


class Gen(p_var.Gen):
    def __init__(self, rng, lane):
        p_var.Gen.__init__(self, rng, lane.bt, lane.ct, LOOSE)
        self.lane = lane
        self.some = rng.sample(self.attrs, 3)

    def plain(self):
        """a descriptor that a variable can be made with"""
        r = self.r
        while True:
            q = self.info(r.random() < .5)
            if p_var.acceptable(q):
                return q

    def code(self):
        """not the ones whose units are converted"""
        r = self.r
        while True:
            c = r.choice(self.favourites + self.some) if r.random() < .6 else r.choice(self.codes) if r.random() < .9 else r.choice([code("B60001"), code("C07012"), code("B01255")])
            if c >> 8 != 12:
                return c

    def hist(self, length):
        r = self.r
        ops = [op(self.lane, "new", 1, q=self.plain()), op(self.lane, "newi", 2, q=self.number_attr(), n=r.randrange(2))]
        ops += [op(self.lane, "s-new", a, t=r.choice([1, 1, 1, 2, 3])) for a in (1, 2, 3)]
        pol = DEFAULT
        focus = r.randrange(1, 4)
        while len(ops) < length:
            if r.random() < .1:
                pol = self.policy()
            if r.random() < .25:
                ops.append(self.loose(pol))
                continue
            name = r.choice(SUBSET)
            a = focus if r.random() < .6 and name not in ("s-new", "s-clear") else r.randrange(1, 4)
            b = r.randrange(1, 4) if name in PAIR else r.randrange(1, 3) if name in VAR else 0
            if name == "s-move" and a == b:
                continue
            ops.append(self.one(name, a, b, pol))
        return ops

    def number_attr(self):
        c = self.r.choice(self.some)
        while self.bt[str(c)]["y"] == "s":
            c = self.r.choice(self.attrs)
        e = self.bt[str(c)]
        return dict(kind="q", c=c, sc=e["sc"], bl=e["bl"], rf=e["rf"], base=e)

    def loose(self, pol):
        r = self.r
        name = r.choice(LOOSE)
        a = r.randrange(1, 3)
        b = r.randrange(1, 3) if name in ("newv", "seta", "copy") else 0
        kw = {}
        q = None
        if name.startswith("new"):
            q = kw["q"] = self.number_attr() if r.random() < .4 else self.plain()
        if name in ("newi", "seti"):
            kw["n"] = self.integer(q)
        if name in ("newd", "setd"):
            kw["d"] = self.number(q)
        if name in ("news", "sets"):
            kw["tx"] = self.raw(r.randrange(1, 12)) if q and q["kind"] == "u" else self.text(q)
        return op(self.lane, name, a, b, pol, **kw)

    def one(self, name, a, b, pol):
        r = self.r
        kw = {}
        if name == "s-new":
            kw["t"] = r.choice([1, 1, 2, 3])
        if name == "s-undefi":
            kw["q"] = self.plain()
        if name in ("s-dpb", "s-fix"):
            kw["cc"] = code(r.choice(["C22000", "C23000", "C24000", "C25000", "C32000", "C36000", "C60001", "C60002", "C22001"]))
            kw["k"] = r.choice([0, 1, 2, 3, 4, 5, 6, 8, 12, 40])
        if name == "s-dpb":
            kw["c"] = r.choice(self.some)
        if name[0] == "e":
            kw["k"] = r.randrange(12)
        if name in CODED:
            c = kw["c"] = self.code()
            e = self.lane.entries(c)[0]
            q = dict(kind="q", c=c, sc=e["sc"], bl=e["bl"], rf=e["rf"], base=e) if e["c"] >= 0 else None
            if name == "s-i":
                kw["n"] = self.integer(q)
            if name == "s-d":
                kw["d"] = self.number(q)
            if name == "s-c":
                kw["tx"] = self.text(q).replace(b"\0", b"0")
        return op(self.lane, name, a, b, pol, **kw)


def small(lane):
    """a few operations of each kind on two subsets"""
    E = lambda c: dict(kind="q", c=code(c), sc=lane.bt[str(code(c))]["sc"], bl=lane.bt[str(code(c))]["bl"], rf=lane.bt[str(code(c))]["rf"], base=lane.bt[str(code(c))])
    O = lambda *a, **kw: op(lane, *a, **kw)
    init = []
    for t1, t2 in ((1, 1), (1, 2), (1, 3), (2, 3)):
        for begin in ([], [O("s-i", 1, c=code("B01001"), n=1), O("e-seta", 1, 2, k=0), O("s-c", 1, c=code("B01011"), tx=b"xy"), O("s-fix", 1, cc=code("C22000"), k=2), O("s-i", 1, c=code("B33007"), n=50)]):
            init.append([O("newi", 1, q=E("B02001"), n=1), O("newi", 2, q=E("B33007"), n=70), O("s-new", 1, t=t1), O("s-new", 2, t=t2), O("s-new", 3, t=3)] + begin)
    ops = []
    for a, b in ((1, 2), (2, 1)):
        ops += [O("s-" + x, a, b) for x in ("copy", "assign", "move", "massign", "diff")] + [O("s-assign", a, a), O("s-massign", a, a), O("s-diff", a, a), O("s-clear", a), O("s-bad", a)]
        ops += [O("s-var", a, 1), O("s-varm", a, 2), O("s-code", a, 2, c=code("B33007")), O("s-code", a, 1, c=code("B01001"))]
        ops += [O("s-i", a, c=code("B01001"), n=n) for n in (1, 98, 99, 127)] + [O("s-i", a, c=code("B60001"), n=1), O("s-d", a, c=code("B11011"), d="2.5"), O("s-c", a, c=code("B01011"), tx=b"xyz"), O("s-undef", a, c=code("B01001")), O("s-undef", a, c=code("B05002"))]
        ops += [O("s-dpb", a, cc=code("C22000"), k=k, c=code("B33007")) for k in (1, 2, 3, 5)] + [O("s-dpb", a, cc=code("C23000"), k=3, c=code("B33002"))] + [O("s-fix", a, cc=code("C24000"), k=k) for k in (1, 3)]
        ops += [O("e-seta", a, 2, k=k) for k in (0, 1, 2, 3)] + [O("e-unset", a, k=0), O("e-get", a, 1, k=1)]
    return init, ops


def c29(ctx):
    lane = Lane(ctx)
    init, ops = small(lane)
    p = os.path.join(ctx.work, "ops.json")
    json.dump(dict(init=[[full(o) for o in x] for x in init], ops=[full(o) for o in ops], depth=ctx.n(2, 3)), open(p, "w"))
    out = ctx.model("SubsetMC", "SubsetMC.cfg", env=dict(OPS=p, EXPORT="1"))
    hs = sorted(set(tuple(int(x) for x in h.split(",")) for h in re.findall(r'<<"HIST", <<([^>]*)>>>>', out)))
    inner = {h[:-1] for h in hs}
    hs = [h for h in hs if h not in inner]
    ctx.note(small_histories=len(hs))
    ctx.rng.shuffle(hs)
    hs = hs[:ctx.n(5000, 200000)]
    while hs and not ctx.violations:
        part, hs = hs[:20000], hs[20000:]
        cases = lane.run([init[h[0] - 1] + [ops[k - 1] for k in h[1:]] for h in part])
        p_var.tally(ctx, cases)
        lane.judge(cases, "small histories of subsets")
    left = ctx.n(1500, 40000)
    while left > 0 and not ctx.violations:
        k = min(left, 3000)
        left -= k
        cases = lane.run([Gen(ctx.rng, lane).hist(ctx.rng.randint(10, 32)) for _ in range(k)])
        p_var.tally(ctx, cases)
        lane.judge(cases, "histories of subsets")
