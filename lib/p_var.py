"""C12..C15: histories of variables"""
import decimal, itertools, json, os, re
import build, drv, tables
from tables import code, wide

NAME = "B0000000000000014000"
D = decimal.Decimal
decimal.getcontext().prec = 60


def dec_record(text):
    """exact decimal of a text, as the specification wants it"""
    t = text.lower()
    if "nan" in t:
        return dict(k="nan", m=[0, 0], e=0)
    if "inf" in t:
        return dict(k="-inf" if t.startswith("-") else "inf", m=[0, 0], e=0)
    sign, digits, e = D(text).as_tuple()
    m = int("".join(map(str, digits)))
    while m and m % 10 == 0:
        m //= 10
        e += 1
    if m == 0:
        e = 0
    return dict(k="n", m=wide(-m if sign else m), e=e)


class Gen:
    """Makes up histories. Operations are dicts for the specification plus the text for the driver"""

    def __init__(self, rng, bt, ct, mix):
        self.r, self.bt, self.ct, self.mix = rng, bt, ct, mix
        self.codes = sorted(int(k) for k in bt)
        self.attrs = [c for c in self.codes if c >> 8 == 33] + [code("B01019"), code("B22001"), code("B12101")]
        self.favourites = rng.sample(self.codes, 5)

    # -------------------------------------------------------- descriptors
    def info(self, attr=False):
        """a descriptor that some value fits in, or that is refused"""
        while True:
            q = self._info(attr)
            if not acceptable(q) or q["base"]["y"] not in "id" or limits(q)[0] <= limits(q)[1]:
                return q

    def _info(self, attr=False):
        r = self.r
        k = r.random()
        c = r.choice(self.attrs) if attr else r.choice(self.favourites if r.random() < .7 else self.codes)
        if k < .08 and not attr:
            bl = r.choice([1, 5, 8, 9, 16, 31, 64, 71, 255])
            cc = code("B63%03d" % r.randrange(1, 6))
            return dict(kind="u", c=cc, sc=0, bl=bl, rf=[0, 0], base=self.bt[str(self.codes[0])])
        if k < .2 and str(c) in self.ct and c >> 8 != 12:
            e = self.ct[str(c)]
            return dict(kind="x", c=c, sc=e["sc"], bl=0, rf=[0, 0], base=e)
        e = self.bt[str(c)]
        sc, bl, rf = e["sc"], e["bl"], e["rf"][0] * 65536 + e["rf"][1]
        if k < .45:
            if e["y"] == "s":
                bl = 8 * r.choice([1, 2, 3, 9, 40])
            else:
                if r.random() < .6:
                    sc += r.choice([-3, -2, -1, 1, 2, 3, 5])
                if r.random() < .5:
                    bl = max(1, min(32, bl + r.choice([-4, -1, 1, 3, 8])))
                if r.random() < .4:
                    rf = r.choice([0, -1, 5, -1000, 100, -rf, max(-2 ** 31, min(2 ** 31 - 1, rf * 10)), -2 ** 30, 2 ** 30])
                if r.random() < .02:
                    sc, bl = r.choice([(17, bl), (-17, bl), (sc, 33), (sc, 0)])
        return dict(kind="q", c=c, sc=sc, bl=bl, rf=wide(rf), base=e)

    # -------------------------------------------------------- values
    def integer(self, q=None):
        r = self.r
        k = r.random()
        if q and q["kind"] != "u" and q["base"]["y"] in "id" and k < .75:
            lo, hi = limits(q)
            v = r.choice([lo, hi, lo - 1, hi + 1, lo + 1, hi - 1, r.randint(min(lo, hi), max(lo, hi)), r.randint(min(lo, hi), max(lo, hi)), 0, hi + r.randrange(1, 5000), lo - r.randrange(1, 5000)])
        elif k < .9:
            v = r.choice([0, 1, -1, 5, 10, 99, 100, 127, 255, 1000, r.randrange(-300, 300), r.randrange(70000)])
        else:
            v = r.choice([2 ** 31 - 1, -2 ** 31, 10 ** 9, -10 ** 9])
        return max(-2 ** 31, min(2 ** 31 - 1, v))

    def number(self, q=None):
        """decimal text of a number"""
        r = self.r
        k = r.random()
        if k < .04:
            return r.choice(["nan", "inf", "-inf", "1e300", "-1e300", "1e-300", "4e9", "-4e9", "1e12"])
        sc = q["sc"] if q and q["kind"] != "u" else r.choice([0, 0, 1, 2, -1, -3])
        v = self.integer(q)
        t = D(v)
        if k < .5:
            # digits beyond the scale
            f = r.choice(["0", ".5", ".49", ".51", ".4", ".6", ".999", ".001", "-.5", "-.49", "-.51"])
            t = t + D(f)
        t = t.scaleb(-sc)
        s = "{:f}".format(t)
        return s if abs(sc) < 13 else "{:E}".format(t)

    def text(self, q=None):
        r = self.r
        k = r.random()
        if k < .35:
            return str(self.integer(q)).encode()
        if k < .45:
            return r.choice([b"", b"-", b"12x", b" 5", b"+5", b"1.5", b"abc", b"-0", b"007", b"99999999999", b"-99999999999", b"2147483648", b"-2147483649", b"9" * 40])
        n = r.choice([0, 1, 2, 3, 8, 9, 10, 31, 32, 33, 60])
        return bytes(r.choice(b"abcXYZ 019.\xff\x80~") for _ in range(n))

    def raw(self, n):
        return bytes(self.r.choice([0, 255, 65, self.r.randrange(256)]) for _ in range(n))

    def near(self, t):
        """Something, often hardly different from what was used before."""
        r = self.r
        last = self.__dict__.setdefault("recent", [])
        if last and r.random() < .35:
            o = bytearray(r.choice(last))
            if len(t) == len(o) or r.random() < .5:
                k = r.random()
                if o and k < .5:
                    o[r.randrange(len(o))] ^= r.choice([1, 128, 32, 255])
                elif o and k < .6:
                    o = o[:-1]
                elif k < .7:
                    o += b"x"
                t = bytes(o)
        last.append(t)
        del last[:-6]
        return t

    def policy(self):
        r = self.r
        k = r.random()
        if k < .4:
            return dict(sil=0, cla=0, hook="none")
        if k < .55:
            return dict(sil=1, cla=0, hook="none")
        if k < .7:
            return dict(sil=0, cla=1, hook="none")
        if k < .88:
            return dict(sil=0, cla=0, hook=r.choice(["keep", "unset", "low"]))
        return dict(sil=r.randrange(2), cla=r.randrange(2), hook=r.choice(["none", "keep", "unset", "low"]))

    # -------------------------------------------------------- histories
    def history(self, length):
        r = self.r
        pol = self.policy()
        ops = []
        q = [None] * 4
        for a in range(4):
            while q[a] is None or not acceptable(q[a]):
                q[a] = self.info(a == 3 and r.random() < .7)
            ops.append(self.make("new", a, 0, pol, q=q[a]))
        while len(ops) < length:
            if r.random() < .15:
                pol = self.policy()
            a, b = r.randrange(4), r.randrange(4)
            name = r.choice(self.mix)
            if name.startswith("new"):
                # keep to descriptors already seen, most of the times, so that they meet
                nq = self.info(r.random() < .4) if r.random() < .4 else r.choice(q)
                if name != "newv" and name != "new" and r.random() < .5:
                    nq = self.info()
                # only when the descriptor itself is acceptable the constructors are called
                if not acceptable(nq):
                    name = "new"
                ops.append(self.make(name, a, b + 1 if name == "newv" else 0, pol, q=nq))
                if acceptable(nq):
                    q[a] = nq
                continue
            if name in ("copy", "assign", "move", "massign"):
                q[a] = q[b]
            if name == "move" and a == b:
                continue
            if name == "setam" and a == b:
                continue
            ops.append(self.make(name, a, b + 1 if name in TWO else 0, pol, hint=q[a]))
        return ops

    def make(self, name, a, b, pol, q=None, hint=None):
        r = self.r
        o = dict(op=name, a=a + 1, b=b, p=pol)
        cmd = [name, a + 1, b, pol["sil"], pol["cla"], pol["hook"]]
        if name.startswith("new"):
            o["q"] = q
            cmd += [q["kind"], q["c"], q["sc"], q["bl"], q["rf"][0] * 65536 + q["rf"][1]]
            hint = q
        if name in ("newi", "seti", "enqid"):
            n = self.integer(hint)
            o["n"] = wide(n)
            cmd.append(n)
        elif name in ("newd", "setd", "enqdd"):
            t = self.number(hint)
            if name == "enqdd" and ("n" in t):
                t = "1.5"
            o["d"] = dec_record(t)
            cmd.append(t)
        elif name in ("newc", "setc", "setct", "enqcd", "enqsd", "format", "news", "sets"):
            t = self.text(hint)
            binary = hint and hint["kind"] == "u"
            if binary and name in ("newc", "setc", "setct"):
                # these read as many bytes as the variable has
                n = (hint["bl"] + 7) // 8
                t = self.near(self.raw(n))[:n].ljust(n, b"\0")
            elif binary or (name in ("news", "sets") and r.random() < .1):
                t = self.near(self.raw(r.choice([r.randrange(40), (hint["bl"] + 7) // 8 if hint else 3])))
            elif name in ("news", "sets", "newc", "setc", "setct"):
                t = self.near(t)
                if name in ("newc", "setc", "setct"):
                    t = t.replace(b"\0", b"0")
            if name in ("enqcd", "enqsd", "format"):
                t = t.replace(b"\0", b"0")
            o["tx"] = list(t)
            cmd.append(t.hex() or "-")
        elif name == "setf":
            t = self.number(hint)
            if "n" in t or "E" in t or len(t) > 20:
                t = "12"
            if r.random() < .1:
                t = ""
            o["tx"] = list(t.encode())
            o["d"] = dec_record(t or "0")
            cmd.append(t.encode().hex() or "-")
        elif name in ("setaa", "unseta", "enqa"):
            c = r.choice(self.attrs + self.favourites)
            o["c"] = c
            cmd.append(c)
        o["_t"] = " ".join(map(str, cmd))
        return o


TWO = {"copy", "move", "assign", "massign", "setval", "setattrs", "setvar", "seta", "setam", "setap", "setaa", "setfmt", "eq", "veq", "diff", "newv"}


def digits(bits):
    return bits * 30103 // 100000 + 1


def acceptable(q):
    if q["kind"] != "q":
        return True
    e = q["base"]
    rf = q["rf"]
    if (q["sc"], q["bl"], rf) == (e["sc"], e["bl"], e["rf"]):
        return True
    return e["y"] == "s" or (-16 <= q["sc"] <= 16 and 1 <= q["bl"] <= 32)


def limits(q):
    """roughly, to choose interesting values only"""
    e = q["base"]
    rf = q["rf"][0] * 65536 + q["rf"][1]
    ln = e["len"] if q["kind"] == "x" or (q["sc"], q["bl"], q["rf"]) == (e["sc"], e["bl"], e["rf"]) else digits(max(1, min(32, q["bl"])))
    if ln >= 10:
        return -2 ** 31, 2 ** 31 - 1
    lo, hi = -(10 ** ln - 1), 10 ** ln - 2
    if q["bl"]:
        lo, hi = max(lo, rf), min(hi, (1 << min(q["bl"], 32)) + rf - 2)
    return lo, hi


def _zero(o):
    """all the fields the specification may ask for"""
    z = dict(n=[0, 0], d=dict(k="n", m=[0, 0], e=0), tx=[], c=0, q=dict(kind="u", c=0, sc=0, bl=1, rf=[0, 0], base=dict(c=0)))
    z.update({k: v for k, v in o.items() if not k.startswith("_")})
    q = dict(z["q"])
    z["q"] = q
    return z


class VarLane:
    def __init__(self, ctx):
        self.ctx = ctx
        d = os.path.join(ctx.work, "tables")
        tables.write_small(d)
        self.bt = tables.read_bufr_b(os.path.join(d, NAME + ".txt"))
        self.ct = tables.read_crex_b(os.path.join(d, NAME + ".txt"))
        self.env = drv.environ(d)
        self.next = 0

    def record(self, cmds):
        out = []
        for o in drv.run(cmds, self.env):
            if o["st"] != "ok":
                out.append(dict(st="crash", obs=[], err=o.get("err", "")))
                continue
            for step in o["obs"]:
                r = step["r"]
                dd = dec_record(r.pop("dbl"))
                cls = r.pop("err", "")
                r.update(m=dd["m"], e=dd["e"], cls=cls)
                if r["st"] == "std":
                    r["st"] = "std-exception"
                if dd["k"] != "n":
                    r["e"] = 99999
            out.append(o)
        return out

    def run(self, histories):
        cmds = ["var %s " % NAME + " ".join(o["_t"] for o in h) for h in histories]
        cases = []
        for h, c, o in zip(histories, cmds, self.record(cmds)):
            self.next += 1
            case = dict(id=self.next, ops=[_zero(x) for x in h], obs=o["obs"], st=o["st"], _cmd=c, _size=len(h) * 4)
            if "err" in o:
                case["_err"] = o["err"]
            cases.append(case)
        return cases

    def redo(self, case):
        c = dict(case)
        o = self.record([case["_cmd"]])[0]
        c.update(obs=o["obs"], st=o["st"])
        return c

    def judge(self, cases, label=None):
        return self.ctx.judge("VarTrace", cases, {}, self.redo, label)


NEW = ["new", "newi", "newd", "newc", "news", "newv"]
SET = ["seti", "setd", "setc", "sets", "setct", "setf", "setval", "setfmt", "unset"]
READ = ["enqi", "enqid", "enqd", "enqdd", "enqc", "enqs", "enqcd", "enqsd", "isset", "format"]
COPY = ["copy", "move", "assign", "massign", "setvar", "setval", "newv"]
ATTR = ["seta", "setam", "setap", "setaa", "unseta", "clear", "setattrs", "enqa"]
CMP = ["eq", "veq", "diff"]
LUA = [k + m for k in ("lua-", "luc-") for m in ("code", "enqi", "enqd", "enqc", "tostring", "same")]
ABUSE = ["lua-bad" + m for m in ("num", "nil", "tab", "file", "ptr", "none", "get")]


def tally(ctx, cases):
    n, err, hk = {}, 0, 0
    for c in cases:
        for o, b in zip(c["ops"], c["obs"]):
            n[o["op"]] = n.get(o["op"], 0) + 1
            err += b["r"]["st"] != "ok"
            hk += b["r"]["hk"]
    ctx.note(operations=sum(n.values()), operations_refused=err, hook_calls=hk)
    for k, v in n.items():
        ctx.note(**{"op_" + k: v})


def histories(ctx, mix, quick, thorough, length=(12, 30)):
    lane = VarLane(ctx)
    left = ctx.n(quick, thorough)
    while left > 0 and not ctx.violations:
        k = min(left, 3000)
        left -= k
        hs = []
        for _ in range(k):
            g = Gen(ctx.rng, lane.bt, lane.ct, mix)
            hs.append(g.history(ctx.rng.randint(*length)))
        cases = lane.run(hs)
        tally(ctx, cases)
        lane.judge(cases, "histories of variables")
    return lane


DEFAULT = dict(sil=0, cla=0, hook="none")
POLICIES = [DEFAULT, dict(sil=1, cla=0, hook="none"), dict(sil=0, cla=1, hook="none"), dict(sil=0, cla=0, hook="keep"), dict(sil=1, cla=1, hook="unset")]


def op(name, a, b=0, pol=DEFAULT, q=None, n=None, d=None, tx=None, c=None):
    o = dict(op=name, a=a, b=b, p=pol)
    t = [name, a, b, pol["sil"], pol["cla"], pol["hook"]]
    if q:
        o["q"] = q
        t += [q["kind"], q["c"], q["sc"], q["bl"], q["rf"][0] * 65536 + q["rf"][1]]
    if n is not None:
        o["n"] = wide(n)
        t.append(n)
    if d is not None:
        o["d"] = dec_record(d)
    if tx is not None:
        o["tx"] = list(tx)
        t.append(tx.hex() or "-")
    elif d is not None:
        t.append(d)
    if c is not None:
        o["c"] = c
        t.append(c)
    o["_t"] = " ".join(map(str, t))
    return o


def alphabet(lane, what, lua=False):
    """a few operations of each kind, on two variables"""
    e = lambda c, **kw: dict(dict(kind="q", c=code(c), sc=lane.bt[str(code(c))]["sc"], bl=lane.bt[str(code(c))]["bl"], rf=lane.bt[str(code(c))]["rf"], base=lane.bt[str(code(c))]), **kw)
    K, T, S = e("B02001"), e("B13011", bl=3), e("B01021")
    U = dict(kind="u", c=code("B12001"), sc=0, bl=3, rf=[0, 0], base=dict(c=0))
    D3 = e("B13011", bl=3, sc=2)
    ops = []
    for a, b in ((1, 2), (2, 1)):
        if what == "policies":
            for p in POLICIES:
                ops += [op("seti", a, pol=p, n=n) for n in (-2, -1, 0, 2, 3, 6, 7)]
                ops += [op("setd", a, pol=p, d=x) for x in ("-0.16", "-0.1", "-0.14", "0.04", "0.5", "0.54", "0.56", "2.4", "2.6", "nan", "-inf")]
                ops += [op("sets", a, pol=p, tx=x) for x in (b"-2", b"1", b"7", b"x")]
                ops += [op("setval", a, b, pol=p), op("newv", a, b, pol=p, q=T), op("newi", a, pol=p, q=D3, n=9)]
            ops += [op("unset", a), op("setf", a, tx=b"0.6", d="0.6"), op("setf", a, tx=b"-0.2", d="-0.2")]
        elif what == "values":
            ops += [op("seti", a, n=n) for n in (-1, 0, 1)] + [op("setd", a, d=x) for x in ("0.1", "-0.05", "0.25")]
            ops += [op("sets", a, tx=x) for x in (b"", b"1", b"A", b"\xff\0", b"AB")]
            ops += [op("setf", a, tx=x, d=x.decode()) for x in (b"0.3", b"1")] + [op("setfmt", a, b), op("setval", a, b), op("unset", a), op("newv", a, b, q=S), op("newv", a, b, q=U), op("newv", a, b, q=K)]
            if lua:
                ops += [op(x, a) for x in LUA]
                continue
            ops += [op(x, a) for x in ("enqi", "enqd", "enqc", "enqs", "isset")] + [op("format", a, tx=b"?"), op("enqid", a, n=5), op("enqdd", a, d="2.5"), op("enqcd", a, tx=b"d"), op("enqsd", a, tx=b"")]
        elif what == "attributes":
            ops += [op("seta", a, b), op("seta", a, a), op("setap", a, b), op("setam", a, b), op("setattrs", a, b), op("clear", a), op("copy", a, b), op("assign", a, b), op("setvar", a, b), op("massign", a, b)]
            for c in ("B02001", "B13011", "B01021"):
                ops += [op("unseta", a, c=code(c)), op("enqa", a, c=code(c)), op("setaa", a, b, c=code(c))]
            ops += [op("seti", a, n=1), op("unset", a), op("sets", a, tx=b"1"), op("new", a, q=K), op("new", a, q=T), op("new", a, q=S), op("new", 3, q=T), op("seta", a, 3), op("seti", 3, n=0)]
        else:
            ops += [op(x, a, b) for x in ("copy", "move", "assign", "massign", "setvar", "setval", "seta", "setattrs", "eq", "veq", "diff")] + [op("assign", a, a), op("massign", a, a), op("eq", a, a), op("setvar", a, a)]
            ops += [op("copy", 3, a), op("assign", a, 3), op("eq", a, 3), op("diff", 3, a)]
            ops += [op("seti", a, n=n) for n in (0, 1)] + [op("sets", a, tx=x) for x in (b"", b"1", b"\1")] + [op("unset", a)]
            ops += [op("new", a, q=x) for x in (K, T, D3, S, U)]
    init = [[op("new", 1, q=x), op("new", 2, q=y)] for x in (K, T, D3, S, U) for y in (K, T, D3, S, U)]
    return init, ops


def every(ctx, what, depth, limit):
    """every history of the exhaustive model, on the library"""
    lane = VarLane(ctx)
    init, ops = alphabet(lane, "values", True) if what == "lua" else alphabet(lane, what)
    p = os.path.join(ctx.work, "ops.json")
    json.dump(dict(init=[[_zero(o) for o in x] for x in init], ops=[_zero(o) for o in ops], depth=depth), open(p, "w"))
    out = ctx.model("VarMC", "VarMC.cfg", env=dict(OPS=p, EXPORT="1"))
    hs = sorted(set(tuple(int(x) for x in h.split(",")) for h in re.findall(r'<<"HIST", <<([^>]*)>>>>', out)))
    # histories that others begin with are not run on their own
    inner = {h[:-1] for h in hs}
    hs = [h for h in hs if h not in inner]
    ctx.note(small_histories=len(hs))
    ctx.rng.shuffle(hs)
    hs = hs[:limit]
    while hs and not ctx.violations:
        part, hs = hs[:20000], hs[20000:]
        cases = lane.run([init[h[0] - 1] + [ops[k - 1] for k in h[1:]] for h in part])
        tally(ctx, cases)
        lane.judge(cases, "small histories")


def twins(ctx, count):
    """pairs of variables that are the same, or hardly differ, compared"""
    lane = VarLane(ctx)
    r = ctx.rng
    hs = []
    for _ in range(count):
        g = Gen(r, lane.bt, lane.ct, [])
        q = g.info()
        while not acceptable(q):
            q = g.info()
        if r.random() < .4:
            q = dict(kind="u", c=code("B63001"), sc=0, bl=r.choice([8, 13, 16, 24, 31, 64]), rf=[0, 0], base=lane.bt[str(g.codes[0])])
        q2 = q
        if r.random() < .15 and q["kind"] == "q":
            q2 = dict(q, sc=q["sc"] + 1) if q["base"]["y"] != "s" and -15 < q["sc"] < 15 else q
            if not acceptable(q2):
                q2 = q
        h = [op("new", 1, q=q), op("new", 2, q=q2)]
        if q["kind"] == "u" or q["base"]["y"] == "s":
            n = (q["bl"] + 7) // 8 if q["kind"] == "u" else r.choice([1, 2, 5, 9])
            x = bytearray(g.raw(n) if q["kind"] == "u" else bytes(r.choice(b"ab Z9") for _ in range(n)))
            if q["kind"] == "u" and r.random() < .6:
                x[r.randrange(n)] = 0
            y = bytearray(x)
            k = r.random()
            if k < .6:
                i = r.randrange(n)
                y[i] = (y[i] ^ r.choice([1, 32, 128])) or 65
            elif k < .75:
                y = y[:-1]
            h += [op("sets", 1, tx=bytes(x)), op("sets", 2, tx=bytes(y))]
        else:
            lo, hi = limits(q)
            x = r.randint(max(lo, -2 ** 31), min(hi, 2 ** 31 - 1)) if lo <= hi else 0
            y = x if r.random() < .4 else x + r.choice([1, -1, 10, -10])
            y = max(-2 ** 31, min(2 ** 31 - 1, y))
            h += [op("seti", 1, n=x), op("seti", 2, n=y)]
        for a in (1, 2):
            if r.random() < .1:
                h.append(op("unset", a))
        if r.random() < .3:
            aq = g.info(True)
            if acceptable(aq):
                h += [op("new", 3, q=aq)] + [op("seta", a, 3) for a in (1, 2) if r.random() < .8]
        h += [op("eq", 1, 2), op("veq", 2, 1), op("diff", 1, 2), op("copy", 4, 1), op("eq", 4, 1), op("eq", 4, 2)]
        hs.append(h)
    cases = lane.run(hs)
    tally(ctx, cases)
    lane.judge(cases, "pairs of variables compared")


def c12(ctx):
    every(ctx, "policies", ctx.n(2, 3), ctx.n(2500, 200000))
    histories(ctx, ["seti", "setd"] * 4 + ["setc", "sets", "setf", "newi", "newd", "newc", "news", "setval", "newv", "setvar", "setfmt", "isset", "enqi", "unset"], 1800, 40000)


def c13(ctx):
    every(ctx, "values", ctx.n(3, 4), ctx.n(2500, 200000))
    histories(ctx, SET * 2 + READ * 2 + ["setfmt"] * 3 + ["newc", "news", "newi", "newd"], 1800, 40000)


def c14(ctx):
    every(ctx, "attributes", ctx.n(3, 4), ctx.n(2500, 200000))
    histories(ctx, ATTR * 3 + ["seti", "setc", "unset", "newi", "copy", "assign", "massign", "setvar", "eq", "move"], 1800, 40000)


def c15(ctx):
    every(ctx, "copies", ctx.n(3, 4), ctx.n(2500, 200000))
    twins(ctx, ctx.n(1200, 20000))
    histories(ctx, COPY * 2 + CMP * 3 + ["seta", "setap", "unseta", "setattrs"] + ["seti", "setd", "setc", "sets", "unset", "newi", "newc", "news", "new"], 1800, 40000)


def c28(ctx):
    """Lua"""
    every(ctx, "lua", ctx.n(2, 3), ctx.n(2500, 200000))
    histories(ctx, LUA * 3 + ABUSE + SET + ["newc", "news", "newi", "newd", "copy", "assign", "seta", "unset"], 1800, 40000)
