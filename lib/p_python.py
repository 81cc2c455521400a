"""C26: the Python bindings"""
import os
import drv, p_var, p_conv, p_tables
from p_var import VarLane, Gen, _zero, limits
from tables import code, wide

ABUSES = 53
MIX = ["new", "newi", "newi", "newd", "newd", "newc", "news", "newbig", "copy", "copy", "copyi", "copyd", "copys", "drop", "seta", "seta", "seta", "unseta", "enqa", "enqa", "enqi", "enqd", "enqc",
       "enqt", "enqt", "gett", "gett", "isset", "format", "str", "repr", "eq", "eq", "eq", "eqx", "bad", "has", "ask"]
BIG = [2 ** 31, 2 ** 31 + 7, 2 ** 32, 2 ** 32 + 5, 2 ** 33, 2 ** 63 - 1, 2 ** 63, 2 ** 64, 2 ** 64 + 3, 10 ** 30, -2 ** 31 - 1, -2 ** 32, -2 ** 32 + 1, -2 ** 63, -2 ** 63 - 1, -2 ** 64, -10 ** 25]


class PyGen(Gen):
    def plain(self, attr=False):
        """a descriptor as in one of the tables"""
        r = self.r
        c = r.choice(self.attrs) if attr else r.choice(self.favourites if r.random() < .7 else self.codes)
        if str(c) in self.ct and r.random() < .2:
            e, kind = self.ct[str(c)], "x"
        else:
            e, kind = self.bt[str(c)], "q"
        return dict(kind=kind, c=c, sc=e["sc"], bl=e["bl"], rf=e["rf"], base=e)

    def nowhere(self):
        c = self.r.randrange(65536)
        while str(c) in self.bt:
            c = self.r.randrange(65536)
        return dict(kind=self.r.choice("qx"), c=c, sc=0, bl=1, rf=[0, 0], base=self.bt[str(self.codes[0])])

    def ascii(self, q):
        return bytes(x for x in self.text(q) if x < 128)

    def op(self, name, a, b=0, q=None, **kw):
        o = dict(op=name, a=a + 1, b=b, p=dict(sil=0, cla=0, hook="none"), **kw)
        t = [name, a + 1, b]
        if q:
            o["q"] = q
            t += [q["kind"], q["c"]]
        return o, t

    def history(self, length):
        r = self.r
        ops, live, q = [], {}, [None] * 4
        while len(ops) < length:
            name = r.choice(MIX)
            a = r.randrange(4)
            b = 0
            if name in ("copy", "copyi", "copyd", "copys", "seta", "eq"):
                if not live:
                    continue
                b = r.choice(sorted(live)) + 1
            if not name.startswith("new") and name not in ("has", "ask", "copy", "drop"):
                if not live:
                    continue
                a = r.choice(sorted(live))
            nq = None
            if name.startswith("new") or name in ("has", "ask"):
                nq = self.plain(r.random() < .4) if r.random() < .9 else self.nowhere()
                # again what is there already, to meet it
                if r.random() < .4 and live:
                    nq = q[r.choice(sorted(live))]
            if name in ("copyi", "copyd", "copys"):
                # what fails leaves the slot as it is, so that what follows applies only with something in it
                nq = q[b - 1]
                o, t = self.op(name, a, b)
            else:
                o, t = self.op(name, a, b, nq)
            known = nq and str(nq["c"]) in (self.bt if nq["kind"] == "q" else self.ct)
            arg = None
            if name in ("newi", "copyi"):
                v = self.integer(nq)
                o["n"], arg = wide(v), v
            elif name == "newbig":
                arg = r.choice(BIG)
            elif name in ("newd", "copyd"):
                arg = self.number(nq)
                o["d"] = p_var.dec_record(arg)
            elif name in ("newc", "news", "copys", "format"):
                x = self.ascii(nq or q[a])
                if name == "format":
                    x = x.replace(b"\0", b"")
                elif r.random() < .05:
                    x = x[:2] + b"\0" + x[2:]
                o["tx"], arg = list(x), x.hex() or "-"
                if name == "newc":
                    o["tx"] = list(x.split(b"\0")[0])
            elif name in ("unseta", "enqa"):
                o["c"] = arg = r.choice(self.attrs + self.favourites)
            elif name == "bad":
                arg = r.randrange(ABUSES)
            if arg is not None:
                t.append(arg)
            o["_t"] = " ".join(map(str, t))
            ops.append(o)
            if name == "drop":
                live.pop(a, None)
            elif name == "copy":
                live[a] = 1
                q[a] = q[b - 1]
            elif name == "new" and known:
                live[a] = 1
                q[a] = nq
            elif name in ("newi", "newd", "newc", "news") and known:
                # constructors that may fail: only when the slot has something already, or what is known to fit
                if name in ("newc", "news") and nq["base"]["y"] == "s":
                    live[a] = 1
                    q[a] = nq
                elif a not in live:
                    ops.pop()
                elif self.fits(name, o, nq, arg):
                    q[a] = nq
        return ops

    def fits(self, name, o, nq, arg):
        """whether the constructor works, as far as the rest of the history is concerned"""
        return False


class PyLane(VarLane):
    def record(self, cmds):
        real = drv.run
        drv.run = drv.run_py
        try:
            return super().record(cmds)
        finally:
            drv.run = real

    def run(self, histories):
        cmds = ["pyvar " + " ".join(o["_t"] for o in h) for h in histories]
        cases = []
        for h, c, o in zip(histories, cmds, self.record(cmds)):
            self.next += 1
            case = dict(id=self.next, ops=[_zero(x) for x in h], obs=o["obs"], st=o["st"], _cmd=c, _size=len(h) * 4)
            if "err" in o:
                case["_err"] = o["err"]
            cases.append(case)
        return cases

    def judge(self, cases, label=None):
        return self.ctx.judge("PyTrace", cases, {"TABLES": self.ctx.tabs(dict(q=self.bt, x=self.ct))}, self.redo, label)


class PyConv(p_conv.Conv):
    def observe(self, c):
        return self.merge(c, drv.run_py([c["_cmd"]], self.env)[0])

    def judge(self, cs, label):
        obs = drv.run_py([c["_cmd"] for c in cs], self.env)
        cs = [self.merge(c, o) for c, o in zip(cs, obs)]
        self.ctx.note(converted=sum(o["st"] == "ok" for c in cs for o in c["obs"]), conversions_refused=sum(o["st"] == "err" for c in cs for o in c["obs"]))
        self.ctx.judge("ConvTrace", cs, {}, self.observe, label)


def c26(ctx):
    lane = PyLane(ctx)
    left = ctx.n(1500, 30000)
    while left > 0 and not ctx.violations:
        k = min(left, 3000)
        left -= k
        hs = [PyGen(ctx.rng, lane.bt, lane.ct, []).history(ctx.rng.randint(10, 26)) for _ in range(k)]
        cases = lane.run(hs)
        p_var.tally(ctx, cases)
        lane.judge(cases, "variables from Python")
    if not ctx.violations:
        conversions(ctx)
    if not ctx.violations:
        p_tables.c17(ctx, py=True)


def conversions(ctx):
    r, c = ctx.rng, PyConv(ctx)
    pairs = list(c.pairs) * 4 + [(b, a) for a, b in c.pairs] * 4 + [(r.choice(c.units), r.choice(c.units)) for _ in range(500)]
    pairs = [p for p in pairs if set(p) != {"octants", "DEGREE TRUE"}] * ctx.n(1, 20)
    r.shuffle(pairs)
    qs = [(a, b, float(p_conv.value(r))) for a, b in pairs]
    cs = []
    for k in range(0, len(qs), 120):
        part = qs[k:k + 120]
        cs.append(c.case("conv", [dict(a=a, b=b, v=p_conv.limbs(p_conv.Decimal(repr(v)))) for a, b, v in part],
                         "conv " + " ".join("%s %s %r" % (p_conv.hx(a), p_conv.hx(b), v) for a, b, v in part)))
    c.judge(cs, "conversions from Python")
