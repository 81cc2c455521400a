"""C19, C20: conversions"""
import os, re, decimal
import build, drv, tables
from decimal import Decimal

decimal.getcontext().prec = 60


def limbs(x):
    """a decimal number for the specification"""
    x = Decimal(x)
    s, ds, e = x.as_tuple()
    n = int("".join(map(str, ds)))
    if n == 0:
        return dict(s=0, m=[], e=0)
    n *= 10 ** (e % 4)
    e //= 4
    m = []
    while n:
        m.append(n % 10000)
        n //= 10000
    while m[0] == 0:
        m.pop(0)
        e += 1
    return dict(s=-1 if s else 1, m=m, e=e)


def names():
    """the units in the specification"""
    t = open(os.path.join(build.VERIF, "spec", "Units.tla")).read()
    a, b = t.index("Linear == {"), t.index("Names == {")
    lin = set(re.findall(r'<<"([^"]+)", "([^"]+)"', t[a:b]))
    nam = set(re.findall(r'<<"([^"]+)", "([^"]+)"', t[b:t.index("}", b)]))
    return sorted(lin), sorted(nam)


def hx(s):
    return s.encode("latin-1").hex() or "-"


class Conv:
    def __init__(self, ctx):
        self.ctx, self.next, self.env = ctx, 0, drv.environ()
        lin, nam = names()
        self.pairs = lin + nam
        self.units = sorted(set(u for p in self.pairs for u in p))

    def case(self, k, ops, cmd):
        self.next += 1
        return dict(id=self.next, k=k, ops=ops, _cmd=cmd, _size=len(ops))

    def merge(self, c, o):
        obs = o.get("obs", [])
        n = len(c["ops"])
        out = []
        for i in range(n):
            x = obs[i] if i < len(obs) else dict(st="crash")
            y = dict(st=x["st"])
            if x["st"] == "ok":
                if c["k"] == "set":
                    v = x["v"]
                    if v == "unset":
                        y["st"] = "unset"
                    else:
                        y["r"] = limbs(Decimal(v) * Decimal(10) ** -c["_sc"][i])
                elif c["k"] == "code":
                    f = Decimal(x["r"])
                    y["n"] = int(f) if f == int(f) and abs(f) < 2 ** 30 else -999999
                elif x["r"] in ("nan", "-nan", "inf", "-inf"):
                    y["st"] = x["r"]
                else:
                    y["r"] = limbs(repr(float(x["r"])))
            out.append(y)
        return dict(c, st=o["st"], obs=out)

    def observe(self, c):
        return self.merge(c, drv.run([c["_cmd"]], self.env)[0])

    def judge(self, cs, label):
        obs = drv.run([c["_cmd"] for c in cs], self.env)
        cs = [self.merge(c, o) for c, o in zip(cs, obs)]
        key = "converted" if label != "variables" else "variables_set"
        self.ctx.note(**{key: sum(o["st"] == "ok" for c in cs for o in c["obs"]), "refused": sum(o["st"] == "err" for c in cs for o in c["obs"])})
        self.ctx.judge("ConvTrace", cs, {}, self.observe, label)


def value(r):
    k = r.random()
    if k < .1:
        return Decimal(r.choice([0, 1, -1, 10, 100, 273, 360, 8]))
    if k < .2:
        return Decimal(r.choice(["273.15", "-273.15", "0.1", "1e-9", "101325", "1013.25", "12.5", "1e9", "-40", "36.6", "2731.5"]))
    m = r.randrange(-10 ** r.choice([1, 3, 6, 12]), 10 ** r.choice([1, 3, 6, 12]))
    return Decimal(m).scaleb(r.randrange(-9, 6))


def c19(ctx):
    r, c = ctx.rng, Conv(ctx)
    others = ["", "k", "K ", " K", "c", "NUMERIC", "CODE TABLE", "FLAG TABLE", "CCITTIA5", "Pa", "pa", "ft", "KG/M**2 ", "m/s", "~", "PART PER THOUSAND X"]
    # every pair of units
    pairs = [(a, b) for a in c.units for b in c.units] + [(a, b) for a in others for b in r.sample(c.units, 12) + others] + [(b, a) for a in others for b in r.sample(c.units, 12)]
    octs = ("octants", "DEGREE TRUE")
    pairs = [p for p in pairs if not (set(p) == set(octs))]
    cs = []

    def pack(qs):
        for k in range(0, len(qs), 120):
            part = qs[k:k + 120]
            cs.append(c.case("conv", [dict(a=a, b=b, v=limbs(Decimal(repr(v)))) for a, b, v in part],
                             "conv " + " ".join("%s %s %r" % (hx(a), hx(b), v) for a, b, v in part)))
    r.shuffle(pairs)
    pack([(a, b, float(value(r))) for a, b in pairs])
    # values, there and back
    qs = []
    for a, b in c.pairs:
        for _ in range(ctx.n(30, 2000)):
            v = float(value(r))
            qs.append((a, b, v))
            qs.append((b, a, v))
    r.shuffle(qs)
    obs = drv.run(["conv " + " ".join("%s %s %r" % (hx(a), hx(b), v) for a, b, v in qs[k:k + 500]) for k in range(0, len(qs), 500)], c.env)
    back = []
    for (a, b, v), o in zip(qs, [x for o in obs for x in o.get("obs", [])]):
        if o["st"] == "ok" and o["r"] not in ("nan", "inf", "-inf", "-nan"):
            back.append((b, a, float(o["r"])))
    pack(qs + back)
    c.judge(cs, "values")
    if ctx.violations:
        return
    # the standard atmosphere
    hs = sorted(set([0, 1000, 2000, 5000, 8000, 11000, 15000, 20000, 10999, 11001] + [r.randrange(0, 30000) for _ in range(60)]))
    c.judge([c.case("icao", [dict(h=h) for h in hs], "convcode " + " ".join("icao> %d" % h for h in hs))], "heights")
    # variables
    path = os.path.join(ctx.work, "B.txt")
    units = [u for u in c.units if len(u) <= 23] + ["NUMERIC"]
    lines, info = [], {}
    code = 0
    for u in units:
        for _ in range(3):
            code += r.randrange(1, 3)
            sc, bl = r.choice([-2, -1, 0, 0, 1, 2, 3, 5]), r.choice([8, 12, 16, 20, 24, 31, 32])
            rf = r.choice([0, 0, -1024, -100000, 500])
            lines.append(tables.bline(code, "X", u, sc, rf, bl))
            info[code] = (u, sc)
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")
    o = drv.run(["bload b %s 0" % path], c.env)[0]
    full = {i["c"]: dict(lo=i["lo"][0] * 65536 + i["lo"][1], hi=i["hi"][0] * 65536 + i["hi"][1]) for i in o["q"]}
    info = {k: x for k, x in info.items() if full[k]["lo"] <= full[k]["hi"]}
    by = {}
    for k, (u, _) in info.items():
        by.setdefault(u, []).append(k)
    units = [u for u in units if u in by]
    partners = {}
    for a, b in c.pairs:
        partners.setdefault(a, set()).add(b)
        partners.setdefault(b, set()).add(a)
    cs = []
    for _ in range(ctx.n(250, 8000)):
        ops, cmd, scs = [], [], []
        for _ in range(40):
            s = r.choice(list(info))
            us = info[s][0]
            ps = [u for u in partners.get(us, ()) if u in by]
            ud = r.choice(ps) if ps and r.random() < .85 else r.choice([us, r.choice(units)])
            if set((us, ud)) == set(octs):
                continue
            d = r.choice(by[ud])
            lo, hi = full[s]["lo"], full[s]["hi"]
            v = r.choice([lo, hi, r.randint(lo, hi), r.randint(lo, hi), max(lo, min(hi, r.randrange(-1000, 1000)))])
            dsc = info[d][1]
            half = Decimal("0.5").scaleb(-dsc)
            ops.append(dict(a=us, b=ud, v=limbs(Decimal(v).scaleb(-info[s][1])), lo=limbs(Decimal(full[d]["lo"]).scaleb(-dsc)),
                            hi=limbs(Decimal(full[d]["hi"]).scaleb(-dsc)), half=limbs(half)))
            scs.append(dsc)
            cmd.append("%s %d %d %d" % (r.choice(["set", "new", "copy"]), s, d, v))
        cs.append(dict(c.case("set", ops, "convset %s " % path + " ".join(cmd)), _sc=scs))
    c.judge(cs, "variables")


def c20(ctx):
    r, c = ctx.rng, Conv(ctx)
    qs = []
    for f in ("0500", "0509", "0515", "0513", "4677", "4561"):
        for v in list(range(-130, 300)) + [-2 ** 31, 2 ** 31 - 1, 1000, 512, 65535, 65536]:
            qs += [(f + ">", v), ("<" + f, v)]
    qs += [("08001>", v) for v in range(128)] + [("aof>", v) for v in range(512)]
    if ctx.thorough:
        qs += [("<08042", v) for v in range(2 ** 18)]
    else:
        few = set([0] + [1 << i for i in range(18)] + [(1 << i) | (1 << j) for i in range(18) for j in range(i)] + [2 ** 18 - 1 - (1 << i) for i in range(18)])
        few |= set(r.randrange(2 ** 18) for _ in range(6000))
        qs += [("<08042", v) for v in sorted(few)]
    for u in ("", "u"):
        qs += [("oct%s>" % u, v) for v in range(-20, 40)] + [("<oct" + u, v) for v in range(-100, 3800)]
    cs = []
    for k in range(0, len(qs), 200):
        part = qs[k:k + 200]
        cs.append(c.case("code", [dict(f=f, v=max(-10 ** 9, min(10 ** 9, v))) for f, v in part], "convcode " + " ".join("%s %d" % q for q in part)))
    c.judge(cs, "codes")
