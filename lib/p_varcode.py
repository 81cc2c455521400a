"""C25: descriptor codes, their text forms, and lists of descriptors"""
import itertools
import drv

MANY = 1000000
BIG = [2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32 - 2]


class Lane:
    def __init__(self, ctx):
        self.ctx, self.env, self.next = ctx, drv.environ("/nonexistent"), 0

    def merge(self, c, o):
        return dict(c, st=o["st"], obs=o.get("obs", []), _err=o.get("err", ""))

    def redo(self, c):
        return self.merge(c, drv.run([c["_cmd"]], self.env)[0])

    def judge(self, cases, label):
        cs = []
        for kind, cmd, kw in cases:
            self.next += 1
            cs.append(dict(kw, id=self.next, kind=kind, _cmd=cmd, _size=20 * len(kw["ops"])))
        cs = [self.merge(c, o) for c, o in zip(cs, drv.run([c["_cmd"] for c in cs], self.env))]
        self.ctx.note(**{label: sum(len(c["obs"]) for c in cs)})
        self.ctx.judge("VarcodesTrace", cs, {}, self.redo, label)


def texts(ctx):
    """spellings near the right ones"""
    r = ctx.rng
    good = [b"B01001", b"R00255", b"C63000", b"D07063", b"012101", b"363255", b"105000", b"222000"]
    out = list(good) + [b""]
    for t in good:
        out += [t[:k] for k in range(len(t))]
        out += [t + x for x in (b" ", b"1", b"12", b"/B01001", b"x", b"\xff")]
        for k in range(6):
            out += [t[:k] + bytes([x]) + t[k + 1:] for x in range(1, 256)]
            out += [t[:k] + t[k + 1:], t[:k] + b" " + t[k:]]
    out += [b"%c%02d%03d" % (f, x, y) for f in b"BRCD0123" for x in range(100) for y in (0, 1, 99, 100, 199, 255, 256, 300, 999)]
    out += [b"B00%03d" % y for y in range(1000)]
    for _ in range(ctx.n(3000, 100000)):
        n = r.choice([3, 5, 6, 6, 6, 7])
        out.append(bytes(r.choice(b"BRCDbrcd0123456789 +-.EFA") for _ in range(n)))
    return out


def types():
    out = [b"binary", b"string", b"integer", b"decimal", b"", b"unknown"]
    for t in out[:4]:
        out += [t[:-1], t + b"s", t.upper(), t[1:], b" " + t, t + b" ", t[:1]]
    return out


def ops(r, n):
    o = []
    for _ in range(n):
        k = r.choice(["at", "size", "empty", "head", "pop", "pop", "popn", "next", "sub", "sub2", "nextgo", "subgo", "sub2go", "popngo"])
        v = lambda: r.choice([0, 1, 1, 2, 3, 4, 5, 7] + ([r.choice(BIG)] if r.random() < .3 else []))
        o.append((k, v(), v()))
    return o


def lists(ctx):
    """all single operations on all short lists, all pairs of operations, and longer histories"""
    r = ctx.rng
    out = []
    one = [(k, i, 0) for k in ("at", "popn", "sub", "subgo", "popngo") for i in [0, 1, 2, 3, 4, 5] + BIG]
    one += [(k, i, j) for k in ("sub2", "sub2go") for i in [0, 1, 2, 3, 4] + BIG for j in [0, 1, 2, 3, 4] + BIG]
    one += [(k, 0, 0) for k in ("size", "empty", "head", "pop", "next", "nextgo")]
    for n in range(5):
        l = [r.randrange(1, 65536) for _ in range(n)]
        for a in one:
            out.append((l, [a, ("size", 0, 0), ("next", 0, 0)]))
        if n in (2, 3):
            some = [x for x in one if x[0].endswith("go") or x[0].startswith("pop")]
            for a, b in itertools.product(some, one):
                if r.random() < ctx.n(.15, 1.0):
                    out.append((l, [a, b]))
    for _ in range(ctx.n(1500, 20000)):
        out.append(([r.choice([r.randrange(65536), 0, 1]) for _ in range(r.choice([0, 1, 2, 4, 7, 12]))], ops(r, r.choice([3, 6, 10]))))
    return out


def c25(ctx):
    ctx.model("VarcodesMC", "VarcodesMC")
    L = Lane(ctx)
    L.judge([("code", "vcode %d 256" % c, dict(c=c, ops=[0] * 256)) for c in range(0, 65536, 256)], "codes")
    if ctx.violations:
        return
    ts = texts(ctx)
    L.judge([("text", "vtext " + " ".join(t.hex() or "-" for t in ts[k:k + 100]), dict(ops=[list(t) for t in ts[k:k + 100]])) for k in range(0, len(ts), 100)], "texts")
    if ctx.violations:
        return
    ts = types()
    L.judge([("type", "vtype " + " ".join(t.hex() or "-" for t in ts), dict(ops=[t.decode() for t in ts]))], "types")
    if ctx.violations:
        return
    L.judge([("list", "vlist %d %s %s" % (len(l), " ".join(map(str, l)), " ".join("%s %d %d" % o for o in h)),
              dict(l=l, ops=[dict(op=o, i=min(i, MANY), j=min(j, MANY)) for o, i, j in h])) for l, h in lists(ctx)], "list_operations")
