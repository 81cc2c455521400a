"""C08..C10: CREX decoding and encoding"""
import copy, glob, os
import build, drv, tables, p_model
from tables import code, name, wide
from p_bufr import var_cmd, clean, tally, batches

F = lambda c: c >> 14
X = lambda c: (c >> 8) & 63
Y = lambda c: c & 255


def small(ctx):
    d = os.path.join(ctx.work, "tables")
    tables.write_small(d)
    n = "0000000000000014000.txt"
    return d, dict(B=tables.read_crex_b(os.path.join(d, "B" + n)), D=tables.read_d(os.path.join(d, "D" + n)))


class Lane:
    def __init__(self, ctx, tabdir, tabs):
        self.ctx, self.tabs = ctx, tabs
        self.env = drv.environ(tabdir)
        self.tlcenv = {"TABLES": ctx.tabs(tabs)}
        self.next = 0

    def ids(self):
        self.next += 1
        return self.next

    def run(self, cmds):
        return drv.run(cmds, self.env)

    def decode(self, items, op="dec"):
        cmds = ["c%s %s" % (op, m.hex() or "-") for m, t in items]
        obs = self.run(cmds)
        return [dict(id=self.ids(), op=op, d=list(m), tab=t, obs=clean(o), _cmd=c, _size=len(m) + 60)
                for (m, t), c, o in zip(items, cmds, obs)]

    def encode(self, bulletins):
        cmds = [enc_cmd(b) for b in bulletins]
        cases = []
        for b, c, o in zip(bulletins, cmds, self.run(cmds)):
            if o.get("stage") == "build" and o["st"] == "err":
                continue
            outs = o.get("outs", b["outs"])
            cases.append(dict(id=self.ids(), op="enc", h=b["h"], cd=b["cd"], desc=b["desc"], outs=outs, tab=b["tab"],
                              obs=dict(st=o["st"], d=o.get("d", [])), _cmd=c, _size=100 + 3 * sum(len(x) for x in outs)))
        return cases

    def redo(self, case):
        c = dict(case)
        o = self.run([case["_cmd"]])[0]
        if case["op"] == "enc":
            c["obs"] = dict(st=o["st"], d=o.get("d", []))
        elif case["op"] == "rt":
            c["obs"] = clean(self.run(["cdec %s" % (bytes(o.get("d", [])).hex() or "-")])[0] if o["st"] == "ok" else o)
        else:
            c["obs"] = clean(o)
        return c

    def judge(self, cases, label=None):
        return self.ctx.judge("CrexTrace", cases, self.tlcenv, self.redo, label)


def enc_cmd(b):
    h = b["h"]
    t = ["cenc"] + [h[k] for k in ("mt", "ed", "mtv", "cat", "sub", "lsub")] + [b["cd"], len(b["desc"])] + b["desc"] + [len(b["outs"])]
    for s in b["outs"]:
        t.append(len(s))
        t += [var_cmd(v) for v in s]
    return " ".join(str(x) for x in t)


# ------------------------------------------------------------ generation

class TooBig(Exception):
    pass


class Gen:
    """Random descriptor lists and texts that fit them. Not an oracle: the specification judges the outcome."""

    def __init__(self, r, tab):
        self.r, self.tab = r, tab
        self.elems = [int(c) for c in tab["B"] if (int(c) >> 8) != 31]
        self.texts = [c for c in self.elems if tab["B"][str(c)]["y"] == "s"]
        self.long = code("B01022")

    def elem(self):
        r = self.r
        k = r.random()
        if k < .2:
            return r.choice(self.texts if r.random() < .1 else [c for c in self.texts if c != self.long])
        if k < .23:
            return code("B31021")
        return r.choice([c for c in self.elems if c != self.long])

    def template(self, depth=0):
        r = self.r
        out = []
        for _ in range(r.choice([1, 1, 2, 3, 4]) if depth else r.choice([1, 2, 3, 4, 6, 8])):
            k = r.random()
            if k < .62 or depth > 3:
                out.append(self.elem())
            elif k < .74:
                out.append(r.choice([int(c) for c in self.tab["D"] if not any(F(x) == 2 for x in self.flat(int(c)))]))
            else:
                body = self.template(depth + 1)[:63]
                if r.random() < .45:
                    out += [(1 << 14) | (len(body) << 8) | r.choice([1, 2, 2, 3, 4])] + body
                else:
                    # factors are implicit in CREX, but may be there
                    fac = [] if r.random() < .8 else [code(r.choice(["B31001", "B31012"]))]
                    if not fac and body and F(body[0]) == 0 and X(body[0]) == 31:
                        continue
                    out += [(1 << 14) | (len(body) << 8)] + fac + body
        return out

    def flat(self, c):
        out = []
        for x in self.tab["D"].get(str(c), []):
            out += self.flat(x) if F(x) == 3 else [x]
        return out

    # -------------------------------------------------- values
    def number(self, i):
        r = self.r
        top = 10 ** i["len"] - 1
        if self.style == "missing" and r.random() < .6 or r.random() < .12:
            return b"/" * i["len"]
        if self.style == "edge":
            v = r.choice([0, 1, top - 1, top - 2, -1, -top, 1 - top, top if r.random() < .1 else 7])
        else:
            v = r.choice([r.randint(0, top - 1), r.randint(-top, top - 1), r.randint(0, min(50, top - 1) if top > 1 else 0)])
        if i["len"] >= 10:
            v = max(-2 ** 31, min(2 ** 31 - 1, v))
        if self.odd and r.random() < self.odd:
            return self.malformed(i["len"])
        return b"%0*d" % (i["len"] + (v < 0), v)

    def malformed(self, n):
        """What should have been a number of n digits."""
        r = self.r
        ds = [b"%d" % r.randrange(10) for _ in range(n)]
        k = r.randrange(n)
        how = r.randrange(7)
        if how == 0:
            return b"+" + b"".join(ds)
        if how == 1:
            return b"-" * r.choice([1, 2]) + b"".join(ds)
        if how == 2:
            return b"/" * k + b"".join(ds[k:])
        if how == 3:
            return b" " * k + b"".join(ds[k:])
        if how == 4:
            return b"".join(ds[:k]).ljust(n)
        if how == 5:
            return b"-" + b"/" * n
        ds[k] = r.choice([b"+", b"-", b".", b"x", b"e", b"O", b"/", b" ", b"\x00"])
        return b"".join(ds)

    def text(self, i):
        r = self.r
        n = i["len"]
        k = r.random()
        if k < .15:
            return b"/" * n
        m = r.randrange(n + 1)
        t = bytes(r.choice(b"AZaz09 ./+") if r.random() < .97 else r.choice([0, 9, 200, 255]) for _ in range(m)).ljust(n)
        if not self.cd and t[:1].isspace():
            t = b"x" + t[1:]
        return t

    def field(self, t):
        if self.cd:
            t = b"%d" % self.exp + t
            self.exp = (self.exp + 1) % 10
        self.n += 1
        if self.n > 400:
            raise TooBig()
        r = self.r
        self.out += self.gap() + t

    def gap(self):
        k = self.r.random()
        return b" " if k < .8 else self.r.choice([b"", b"  ", b"\r\r\n", b"\n ", b"\t"])

    def run(self, ops):
        r = self.r
        ops = list(ops)
        while ops:
            c = ops.pop(0)
            f = F(c)
            if f == 0:
                i = self.tab["B"].get(str(c))
                if i is None:
                    continue
                self.field(self.text(i) if i["y"] == "s" else self.number(i))
            elif f == 1:
                n = Y(c)
                if n == 0:
                    if ops and F(ops[0]) == 0 and X(ops[0]) == 31:
                        ops.pop(0)
                    n = r.choice([0, 1, 2, 3, 0, 1, 12]) if self.n < 150 else 0
                    self.field(b"%04d" % n)
                body, ops = ops[:X(c)], ops[X(c):]
                for _ in range(n):
                    self.run(body)
            elif f == 3:
                self.run(self.tab["D"].get(str(c), []))

    def message(self, desc=None, nsub=None, wild=0):
        r = self.r
        for _ in range(50):
            try:
                return self.message1(desc or self.template(), nsub, wild)
            except TooBig:
                desc = None

    def message1(self, desc, nsub, wild):
        r = self.r
        self.n = 0
        self.style = r.choice(["mix", "mix", "missing", "edge"])
        self.cd = r.random() < .4
        self.odd = r.choice([0, 0, 0, 0, .1])
        self.exp = 1
        nsub = nsub or r.choice([1, 1, 2, 3, 4])
        self.out = b""
        for s in range(nsub):
            if s:
                self.out += r.choice([b"", b" ", b"\r\r\n"]) + b"+" + r.choice([b"\r\r\n", b"\r\r\n", b" ", b"", b"\n\n"])
            self.run(desc)
        cat = r.choice([0, 1, 2, 7, 31, 255, r.randrange(256)])
        sub = r.choice([0, 1, 20, 254, r.randrange(256)])
        h = b"T00%02d%02d" % (r.choice([0, 1, 1, 2, 99]), r.choice([0, 3, 3, 14, 99]))
        if wild and r.random() < .3:
            h = r.choice([b"T000103", b"T010103", b"T99", b"T00010", b"T0001031", b"t000103", b"T00x103", b"T000103 T000103"])
        a = b"A%03d" % cat + (b"%03d" % sub if r.random() < .5 else b"")
        if wild and r.random() < .3:
            a = r.choice([b"A", b"A1", b"A12", b"A1234", b"A256", b"A001256", b"A999999", b"A00100", b"A0010010", b"B001", b"A-01", b"A 01"])
        sep = r.choice([b" ", b"  ", b"\r\r\n", b"\n"])
        dd = b"".join(sep + name(c).encode() for c in desc)
        m = b"CREX++" + r.choice([b"\r\r\n", b"\r\r\n", b" ", b""]) + h + sep + a + dd
        if self.cd:
            m += r.choice([b" E", b" E", b"E", b" E "])
        m += b"++" + r.choice([b"\r\r\n", b"\r\r\n", b"", b" "]) + self.out + r.choice([b"", b" ", b"\r\n"]) + b"++" + r.choice([b"\r\r\n", b"", b" "])
        if r.random() < .12:
            m += b"SUPP" + r.choice([b"", b" INFO", b" A+B", b"\r\n2 LINES\r\n", b"+"]) + b"++" + r.choice([b"\r\r\n", b""])
        m += b"7777"
        if r.random() < .7:
            m += b"\r\r\n"
        return m


def mutate(r, m):
    m = bytearray(m)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        if not m:
            break
        p = r.randrange(len(m))
        # mostly not in the fixed part
        if r.random() < .7 and len(m) > 24:
            p = r.randrange(24, len(m))
        k = r.random()
        if k < .35:
            m[p] = r.choice(b"0123456789/-+ \n\0A9E")
        elif k < .5:
            m[p] = r.randrange(256)
        elif k < .7:
            del m[p:p + r.choice([1, 1, 2, 5])]
        elif k < .85:
            m[p:p] = r.choice([b" ", b"-", b"+", b"++", b"/", b"0", b"E", b"7777", b"\0", b"SUPP", b"\r\r\n", b"9"])
        elif k < .93:
            del m[p:]
        else:
            q = r.randrange(len(m))
            m[p:p] = m[q:q + r.choice([1, 6, 10])]
    return bytes(m)


def items(ctx, tab, n, mut=0.0, wild=0.0):
    r = ctx.rng
    g = Gen(r, tab)
    out = []
    for _ in range(n):
        m = g.message(wild=r.random() < wild)
        if r.random() < mut:
            m = mutate(r, m)
        out.append((m, "small"))
    return out


def wild_items(ctx, tab, n):
    """descriptor lists of any kind"""
    r = ctx.rng
    g = Gen(r, tab)
    out = []
    for _ in range(n):
        desc = []
        for _ in range(r.choice([0, 1, 2, 3, 5])):
            k = r.random()
            desc.append(g.elem() if k < .4 else r.choice([int(c) for c in tab["D"]]) if k < .5 else r.randrange(65536) if k < .7
                        else (1 << 14) | (r.choice([0, 1, 1, 2, 5]) << 8) | r.choice([0, 0, 1, 2, 3]) if k < .9
                        else code(r.choice(["C01129", "C01000", "C02130", "C03012", "C04008", "C05003", "C06010", "C07002", "C08004", "C22000", "C23000", "C23255", "C37000", "C24000"])))
        m = g.message(desc, wild=r.random() < .2) or g.message()
        out.append((mutate(r, m) if r.random() < .4 else m, "small"))
    return out


def mutate_bulletin(r, b, tab):
    b = copy.deepcopy(b)
    if r.random() < .3:
        b["cd"] = 1 - b["cd"]
    if r.random() < .15:
        b["h"] = dict(mt=r.choice([0, 0, 0, 5]), ed=r.choice([1, 2, 99, 100, 255]), mtv=r.choice([3, 99, 100]), cat=r.choice([0, 99, 100, 255]),
                      sub=r.choice([0, 5, 254, 255]), lsub=r.choice([0, 3, 255]))
    for s in b["outs"]:
        for v in s:
            if X(v["c"]) == 31 and F(v["c"]) == 0:
                continue
            k = r.random()
            if k < .12:
                v.update(set=0, v=[0, 0], tx=[])
            elif k < .5:
                i = tab["B"].get(str(v["c"]))
                if i is None:
                    continue
                if v["y"] == "s":
                    n = r.randrange(i["len"] + 1)
                    t = [r.choice(b"ab /. +") if r.random() < .5 else r.choice(b"abcd") for _ in range(n)]
                    v.update(set=1, tx=r.choice([t, t, t, t, [47] * i["len"], [32] + t[:max(0, i["len"] - 1)], []]))
                else:
                    top = 10 ** min(i["len"], 10) - 1
                    n = r.choice([0, -1, top - 1, -top, r.randint(-top, top - 1), r.randint(0, top - 1)])
                    v.update(set=1, v=wide(max(-2 ** 31, min(2 ** 31 - 1, n))))
        if r.random() < .03 and s:
            s.pop()
    if r.random() < .02:
        b["outs"] = []
    return b


def explicit(r, b, tab):
    """list delayed replication factors in the descriptors, as BUFR does"""
    b = copy.deepcopy(b)
    desc = b["desc"]
    if any(F(c) == 3 for c in desc) or any(F(c) == 0 and X(c) == 31 for c in desc):
        return None
    fac = code(r.choice(["B31001", "B31012"]))
    out, grow = [], []
    # factors inside groups make the groups longer
    def walk(ops):
        res = []
        ops = list(ops)
        while ops:
            c = ops.pop(0)
            if F(c) == 1:
                body, ops = ops[:X(c)], ops[X(c):]
                body = walk(body)
                if len(body) > 63:
                    raise TooBig()
                res += [(1 << 14) | (len(body) << 8) | Y(c)] + ([fac] if Y(c) == 0 else []) + body
            else:
                res.append(c)
        return res
    try:
        b["desc"] = walk(desc)
    except TooBig:
        return None
    e = tab["B"][str(fac)]
    for s in b["outs"]:
        for v in s:
            if v["c"] == code("B31012"):
                v.update(c=fac, sc=e["sc"])
    return b


def roundtrips(lane, decoded, mutated, tab, label):
    ctx, r = lane.ctx, lane.ctx.rng
    bs = []
    for c in decoded:
        if c["obs"]["st"] != "ok" or sum(len(s) for s in c["obs"]["outs"]) > 300:
            continue
        o = c["obs"]
        b = dict(h=o["h"], cd=o["cd"], desc=o["desc"], outs=o["outs"], tab=c["tab"])
        bs.append(b)
        for _ in range(mutated):
            bs.append(mutate_bulletin(r, b, tab))
        if mutated and r.random() < .5:
            e = explicit(r, b, tab)
            if e:
                bs.append(e)
    enc = lane.encode(bs)
    good = [c for c in enc if c["obs"]["st"] == "ok"]
    dec = lane.decode([(bytes(c["obs"]["d"]), c["tab"]) for c in good])
    rts = [dict(id=lane.ids(), op="rt", h=c["h"], cd=c["cd"], desc=c["desc"], outs=c["outs"], tab=c["tab"], obs=d["obs"],
                _cmd=c["_cmd"], _size=c["_size"]) for c, d in zip(good, dec)]
    ctx.note(encoded=len(good), refused_by_the_encoder=len(enc) - len(good), round_trips=len(rts))
    lane.judge(enc + dec + rts, label)


def real_lane(ctx):
    td = os.path.join(build.REPO, "tables")
    msgs = []
    for p in sorted(glob.glob(os.path.join(build.REPO, "testdata/crex/*.crex"))):
        d = open(p, "rb").read()
        i = d.find(b"CREX++")
        if i >= 0:
            msgs.append(d[i:])
    tabs, out = {}, []
    for m, h in zip(msgs, drv.run(["chdr %s" % m.hex() for m in msgs], drv.environ(td))):
        if h["st"] != "ok":
            continue
        key = os.path.basename(h["bt"])
        try:
            tabs[key] = dict(B=tables.read_crex_b(h["bt"]), D=tables.read_d(h["dt"]))
        except (ValueError, IndexError, KeyError, OSError):
            continue
        out.append((m, key))
    return Lane(ctx, td, tabs), out


def every(ctx, sizes, limit, rt):
    """the data of the exhaustive model, decoded by the library"""
    r = ctx.rng
    for n, chars in sizes:
        td, tab, ls, msgs = p_model.explore_crex(ctx, n, chars)
        good, bad = [m for m in msgs if m[2] != "err"], [m for m in msgs if m[2] == "err"]
        r.shuffle(bad)
        ctx.note(small_lists=len(ls), small_messages=len(msgs))
        msgs = good + ([] if rt else bad[:limit])
        lane = Lane(ctx, td, {"tiny": tab})
        while msgs and not ctx.violations:
            part, msgs = msgs[:20000], msgs[20000:]
            its = []
            for w, t, st in part:
                head = "CREX++\r\r\nT000114 A000 " + " ".join(name(c) for c in w["desc"]) + (" E" if w["cd"] else "") + "++\r\r\n"
                its.append((head.encode() + t, "tiny"))
            cases = lane.decode(its)
            tally(ctx, cases)
            if rt:
                roundtrips(lane, cases, 0, tab, "encode small messages")
            else:
                lane.judge(cases, "small messages")


def c08(ctx):
    every(ctx, ctx.n([(1, 3)], [(1, 5), (2, 3)]), ctx.n(1500, 100000), False)
    td, tab = small(ctx)
    lane = Lane(ctx, td, {"small": tab})
    for k in batches(ctx, ctx.n(3500, 60000)):
        its = items(ctx, tab, k, mut=.12, wild=.05)
        cases = lane.decode(its)
        tally(ctx, cases)
        heads = lane.decode(its[::5], "hdr")
        lane.judge(cases + heads, "decode")
        if ctx.violations:
            return
    rl, its = real_lane(ctx)
    cases = rl.decode(its)
    ctx.note(sample_messages=len(cases))
    rl.judge(cases, "sample messages")


def c09(ctx):
    every(ctx, ctx.n([(1, 3)], [(1, 5), (2, 3)]), 0, True)
    td, tab = small(ctx)
    lane = Lane(ctx, td, {"small": tab})
    for k in batches(ctx, ctx.n(900, 24000)):
        cases = lane.decode(items(ctx, tab, k))
        tally(ctx, cases)
        roundtrips(lane, cases, 2, tab, "encode")
        if ctx.violations:
            return
    rl, its = real_lane(ctx)
    cases = rl.decode(its)
    roundtrips(rl, cases, 0, tab, "encode sample messages")


def c10(ctx):
    td, tab = small(ctx)
    lane = Lane(ctx, td, {"small": tab})
    r = ctx.rng
    for k in batches(ctx, ctx.n(3500, 60000)):
        cases = lane.decode(items(ctx, tab, k - k // 4, mut=.8, wild=.3) + wild_items(ctx, tab, k // 4))
        tally(ctx, cases)
        lane.judge(cases, "damaged messages")
        if ctx.violations:
            return
    its = []
    for m, t in items(ctx, tab, ctx.n(20, 150)):
        if len(m) < 250:
            its += [(m[:i], t) for i in range(len(m) + 1)]
    for _ in range(ctx.n(300, 3000)):
        b = bytes(r.choice(b"CREX+T0A1B /-7E\n") if r.random() < .9 else r.randrange(256) for _ in range(r.randrange(50)))
        its.append((r.choice([b"", b"CREX++", b"CREX++ T000103 A001 ", b"CREX++ T000103 A001 B01001 ++"]) + b, "small"))
    cases = lane.decode(its)
    tally(ctx, cases)
    heads = lane.decode(its[::3], "hdr")
    lane.judge(cases + heads, "truncations")
