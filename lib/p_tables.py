"""C16..C18: table files, choosing tables, altered descriptors"""
import glob, json, os, re, shutil
import build, drv, tables
from tables import code, wide

ENV = {"TABLES": ""}


def unw(w):
    return w[0] * 65536 + w[1]


def split(data):
    """lines with their ends"""
    return [list(l) for l in data.splitlines(keepends=True)] if b"\r" not in data else [list(x) for x in re.findall(rb"[^\n]*\n|[^\n]+", data)]


# ---------------------------------------------------------------- loading
class Loads:
    def __init__(self, ctx):
        self.ctx, self.next = ctx, 0
        self.dir = os.path.join(ctx.work, "files")
        os.makedirs(self.dir, exist_ok=True)
        self.env = drv.environ()

    def case(self, kind, data, path=None, every=False):
        self.next += 1
        if path is None:
            path = os.path.join(self.dir, "%s%d.txt" % ("D" if kind == "d" else "B", self.next))
            with open(path, "wb") as f:
                f.write(data)
        cmd = ("dload b " if kind == "d" else "bload %s " % kind) + path
        if not every:
            # the codes in the file, those next to them and some others
            cs = set()
            for l in data.split(b"\n"):
                m = re.match(rb"..(\d{5})", l)
                if m:
                    c = int(m[1][:2]) * 256 + int(m[1][2:])
                    cs.update((c + d + f * 16384) & 65535 for d in (-1, 0, 1) for f in range(4))
            cmd += " " + " ".join(map(str, sorted(cs) or [0]))
        if kind == "d" and self.ctx.rng.random() < .5:
            cmd = cmd.replace("dload b", "dload c")
        return dict(id=self.next, k=kind, lines=split(data), _cmd=cmd, _data=data.decode("latin-1"), _size=len(data) + 100)

    def merge(self, c, o):
        c = dict(c, st=o["st"])
        for f in ("q", "ct", "it"):
            if f in o:
                c[f] = o[f]
        return c

    def observe(self, c):
        p = c["_cmd"].split()[2]
        if not os.path.exists(p):
            with open(p, "wb") as f:
                f.write(c["_data"].encode("latin-1"))
        return self.merge(c, drv.run([c["_cmd"]], self.env)[0])

    def judge(self, cs, label):
        obs = drv.run([c["_cmd"] for c in cs], self.env)
        cs = [self.merge(c, o) for c, o in zip(cs, obs)]
        self.ctx.note(files_loaded=sum(c["st"] == "ok" for c in cs), files_refused=sum(c["st"] == "err" for c in cs),
                      lines=sum(len(c["lines"]) for c in cs))
        for k in range(0, len(cs), 1500):
            self.ctx.judge("TablesTrace", cs[k:k + 1500], ENV, self.observe, label)
            if self.ctx.violations:
                return


UNITS = ["NUMERIC", "CODE TABLE 20003", "CODETABLE 1", "CODE TABLE", "FLAG TABLE", "FLAGTABLE2", "FLAG TABLE 02002", "CCITTIA5", "CCITTIA5 ", "CCITTIA",
         "K", "M/S", "DEGREE TRUE", "PA", "%", "KG/M**2", "LOG (1/M**2) AND A LOT M", "CHARACTER", "code table", " CCITTIA5", "CODE  TABLE"]
CUNITS = ["NUMERIC", "CODE TABLE 20003", "CODE TABLE", "FLAGTABLE", "CHARACTER", "CHARACTER  ", "CHARACTERS", "C", "M/S", "DEGREE", "CCITTIA5"]


def some_b(r):
    """lines of a B table, in order"""
    n = r.choice([0, 1, 2, 3, 5, 8, 20])
    cs = sorted(set(r.choice([r.randrange(64) * 256 + r.randrange(256), 31 * 256 + r.randrange(256), 0, 63 * 256 + 255, 256 + r.randrange(8)]) for _ in range(n)))
    out = []
    for c in cs:
        unit = r.choice(UNITS)
        bits = r.choice([1, 2, 3, 4, 7, 8, 9, 10, 12, 13, 16, 17, 20, 23, 24, 26, 27, 28, 29, 30, 31, 32, 40, 64, 0])
        if "CCITT" in unit and r.random() < .9:
            bits = r.choice([8, 16, 72, 256, 800, 12, 0])
        scale = r.choice([0, 0, 0, 1, 2, 5, -1, -3, 9, -9, 16, -16])
        ref = r.choice([0, 0, -1, 1, -1024, -9000000, 5, -2147483648, 2147483647, -1073741824, 1000000])
        if "CCITT" not in unit and bits < 27 and abs(ref) > 2 ** 30:
            ref //= 4
        d = "".join(r.choice("ABC xyz.,-()/%") for _ in range(r.choice([0, 1, 10, 62, 63, 64])))
        if r.random() < .7:
            cu = r.choice(CUNITS)
            l = tables.bline(c, d, unit, scale, ref, bits, cu, r.choice([0, 0, 1, -1, 3, -2]), r.choice([1, 2, 3, 4, 5, 8, 9, 10, 12, 1, 64]))
        else:
            l = tables.bline(c, d, unit, scale, ref, bits)
        if r.random() < .15:
            # blanks between the minus sign and the digits
            # (both within the field)
            a, z = r.choice([(98, 102), (102, 115), (102, 115)])
            m = re.search(r"( +)-(?=\d)", l[a:z])
            if m:
                n = r.randrange(1, len(m[1]) + 1)
                l = l[:a + m.start()] + " " * (len(m[1]) - n) + "-" + " " * n + l[a + m.end():]
        if r.random() < .2:
            l += " " * r.randrange(1, 12)
        out.append(l)
    return out


def spoil(r, ls, b):
    """something wrong with the lines (perhaps)"""
    ls = list(ls)
    if not ls:
        return [r.choice(["", " ", "x", "B01001", " " * 160])]
    i = r.randrange(len(ls))
    k = r.randrange(10)
    if k == 0:
        ls[i] = ls[i][:r.randrange(len(ls[i]) + 1)]
    elif k == 1:
        j = r.randrange(len(ls))
        ls[i], ls[j] = ls[j], ls[i]
    elif k == 2:
        ls.insert(i, ls[r.randrange(len(ls))])
    elif k == 3:
        p = r.randrange(0, 8)
        ls[i] = ls[i][:p] + r.choice(" xB-0\t") + ls[i][p + 1:]
    elif k == 4:
        ls.insert(i, r.choice(["", " ", "# comment", " " * 130, "!" * 150]))
    elif k == 5:
        ls.pop(i)
    elif k == 6 and not b:
        p = r.choice([8, 9])
        ls[i] = ls[i][:p] + r.choice(" 0123x") + ls[i][p + 1:]
    elif k == 7 and not b:
        p = r.randrange(10, 18)
        ls[i] = ls[i][:p] + r.choice(" xBD3012") + ls[i][p + 1:]
    elif k == 8 and b and len(ls[i]) > 119:
        ls[i] = ls[i][:r.randrange(112, 124)]
    elif k == 9 and b:
        ls[i] = ls[i][:r.randrange(150, 160)]
    return ls


def some_d(r):
    cs = sorted(set(0xC000 + r.choice([r.randrange(64) * 256 + r.randrange(256), 256 + r.randrange(6), 0, 63 * 256 + 255]) for _ in range(r.choice([1, 1, 2, 3, 6, 12]))))
    out = []
    for c in cs:
        n = r.choice([1, 1, 2, 3, 5, 12, 99] if r.random() < .1 else [1, 1, 2, 3, 5])
        ls = tables.dlines(c, [r.randrange(65536) for _ in range(n)])
        for k in range(len(ls)):
            l = ls[k]
            if r.random() < .3:
                # letters for the kind of descriptor
                p = 1 if k == 0 and r.random() < .5 else (11 if k else None)
                if p is not None and l[p] in "0123":
                    l = l[:p] + "BRCD"[int(l[p])] + l[p + 1:]
            if r.random() < .2:
                l += " " + r.choice(["(text)", "3", "D01001", "x"])
            ls[k] = l
        out.append(ls)
    if r.random() < .2:
        r.shuffle(out)
    if r.random() < .2:
        out.insert(r.randrange(len(out) + 1), r.choice(out))
    return [l for ls in out for l in ls]


def representable(l):
    """whether the numbers in the line fit an int"""
    for k in (98, 102, 115, 143, 149):
        m = re.match(r"\s*(-?)\s*(\d+)", l[k:])
        if m and not -2 ** 31 <= int(m[1] + m[2]) < 2 ** 31:
            return False
    return True


def join(r, ls):
    eol = r.choice(["\n", "\n", "\n", "\r\n"])
    s = eol.join(ls) + (eol if ls and r.random() < .95 else "")
    return s.encode("latin-1")


def real_files():
    return sorted(glob.glob(os.path.join(build.REPO, "tables", "*.txt")))


def c18(ctx):
    r, L = ctx.rng, Loads(ctx)
    cs = []
    for _ in range(ctx.n(1200, 20000)):
        k = r.choice("bbccd")
        if k == "d":
            ls = some_d(r)
        else:
            ls = some_b(r)
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            ls = spoil(r, ls, k != "d")
        ls = [l[:190] for l in ls]
        if k != "d" and any(not representable(l) for l in ls):
            continue
        if k == "d" and any(re.match(r"\d{3}", l[p:]) and int(l[p:p + 3]) > 255 for l in ls for p in (4, 14)):
            # codes that do not exist
            continue
        cs.append(L.case(k, join(r, ls)))
    L.judge(cs, "made up files")
    # the installed tables
    cs = []
    fs = real_files()
    bs = [f for f in fs if os.path.basename(f)[0] == "B"]
    ds = [f for f in fs if os.path.basename(f)[0] == "D"]
    if not ctx.thorough:
        bs, ds = r.sample(bs, 5), r.sample(ds, 8)
    for f in bs:
        d = open(f, "rb").read()
        cs += [L.case("b", d, f), L.case("c", d, f)]
    for f in ds:
        d = open(f, "rb").read()
        cs.append(L.case("d", d, f))
    ctx.note(installed_tables=len(bs) + len(ds))
    for k in range(0, len(cs), 16):
        L.judge(cs[k:k + 16], "installed tables")


# ---------------------------------------------------------------- descriptors
def c16(ctx):
    r = ctx.rng
    td = os.path.join(ctx.work, "tables")
    tables.write_small(td)
    real = r.sample(["14000", "25000", "31000", "33000"], 1 if not ctx.thorough else 3)
    tabs, lanes = [], []
    files = [("b", os.path.join(td, "B0000000000000014000.txt"), True), ("c", os.path.join(td, "B0000000000000014000.txt"), True)]
    for v in real:
        files.append(("b", os.path.join(build.REPO, "tables", "B00000000000000%s.txt" % v), False))
    env = drv.environ()
    L = Loads(ctx)
    for kind, path, small in files:
        data = open(path, "rb").read()
        o = drv.run(["bload %s %s" % (kind, path)], env)[0]
        if small:
            # the starting point is itself judged
            L.judge([L.case(kind, data, path)], "the table")
            if ctx.violations:
                return
        B = {str(i["c"]): {f: i[f] for f in ("c", "y", "ds", "un", "sc", "rf", "bl", "len")} for i in o["q"]}
        if not small:
            keep = set(r.sample(sorted(B), 60))
            # iteration is judged on the small tables only
            B = {c: e for c, e in B.items()}
        tabs.append(dict(B=B, D={}))
        lanes.append((kind, path, small, len(tabs)))
    tp = ctx.tabs(tabs)

    def request(B, codes, past):
        if past and r.random() < .25:
            return r.choice(past)
        c = r.choice(codes)
        if r.random() < .03:
            c = r.randrange(65536)
        e = B.get(str(c)) or B[str(codes[0])]
        if r.random() < .2:
            return ("q", c)
        sc, bl, rf = e["sc"], e["bl"], unw(e["rf"])
        if e["y"] == "s":
            bl = r.choice([bl, 8, 0, 1, 7, 12, 64, 800, 2400, 65528]) if r.random() < .8 else bl
            if r.random() < .1:
                sc = r.choice([1, -1, 30])
            if r.random() < .1:
                rf = r.choice([1, -5])
        else:
            if r.random() < .6:
                bl = r.choice([bl + 1, bl - 1, 1, 2, 3, 4, 6, 7, 9, 10, 13, 14, 16, 17, 20, 23, 24, 26, 27, 29, 30, 31, 32, 33, 0, 64])
            if r.random() < .5:
                sc = r.choice([0, 1, -1, sc + 1, sc - 1, 2, 5, 9, 12, 15, 16, 17, -15, -16, -17, 20, -20, 127, -128])
            if r.random() < .4:
                rf = r.choice([0, 1, -1, rf * 2, rf + 1, -1024, 1000000, -1000000, 2 ** 30, -2 ** 30, 2 ** 31 - 1, -2 ** 31])
            bl = max(0, bl)
            rf = max(-2 ** 31, min(2 ** 31 - 1, rf))
        return ("a", c, sc, bl, rf)

    def spec(q):
        return dict(op="q", c=q[1]) if q[0] == "q" else dict(op="a", c=q[1], sc=q[2], bl=q[3], rf=wide(q[4]))

    def redo(c):
        o = drv.run([c["_cmd"]], env)[0]
        return dict(c, st=o["st"], **{f: o[f] for f in ("obs", "end", "it", "cut") if f in o})

    nid = 100000
    for kind, path, small, tab in lanes:
        B = tabs[tab - 1]["B"]
        codes = sorted(int(c) for c in B)
        cs = []
        for _ in range(ctx.n(170, 3000) if small else ctx.n(16, 100)):
            fav = r.sample(codes, r.choice([1, 2, 5]))
            past = []
            for _ in range(r.choice([3, 10, 25, 40]) if small else 60):
                past.append(request(B, fav if r.random() < .85 else codes, past))
            nid += 1
            cs.append(dict(id=nid, k="alt", tab=tab, ops=[spec(q) for q in past], _size=len(past) + len(B),
                           _cmd="alt %s %s " % (kind, path) + " ".join(" ".join(map(str, q)) for q in past)))
        obs = drv.run([c["_cmd"] for c in cs], env)
        out = []
        for c, o in zip(cs, obs):
            out.append(dict(c, st=o["st"], **{f: o[f] for f in ("obs", "end", "it", "cut") if f in o}))
            ctx.note(descriptors_given=sum(x["st"] == "ok" for x in o.get("obs", [])), requests_refused=sum(x["st"] != "ok" for x in o.get("obs", [])))
        ctx.judge("TablesTrace", out, {"TABLES": tp}, redo, "histories")
        if ctx.violations:
            return


# ---------------------------------------------------------------- choosing
class Installed:
    """directories with made up tables"""

    def __init__(self, ctx):
        self.ctx, self.n = ctx, 0
        self.root = os.path.join(ctx.work, "inst")
        os.makedirs(self.root, exist_ok=True)
        self.b = os.path.join(self.root, "b")
        self.d = os.path.join(self.root, "d")
        tables.write_small(self.root, "x.txt", tables.SMALL_B[:4], tables.SMALL_D[:1])
        os.rename(os.path.join(self.root, "Bx.txt"), self.b)
        os.rename(os.path.join(self.root, "Dx.txt"), self.d)

    def make(self, names, order):
        self.n += 1
        d = os.path.join(self.root, "%d" % self.n)
        os.makedirs(d)
        names = list(names)
        order.shuffle(names)
        for n in names:
            os.symlink(self.d if n[0] == "D" else self.b, os.path.join(d, n))
            if n[0] != "D" and "D" + n[1:] not in names:
                os.symlink(self.d, os.path.join(d, "D" + n[1:]))
        return d


def bname(r, mtv, ce, sc, lv):
    if sc < 1000 and ce < 1000 and mtv < 100 and lv < 100 and r.random() < .4:
        return "B00000%03d%03d%02d%02d.txt" % (sc, ce, mtv, lv)
    return "B00000%04d%04d%03d%03d.txt" % (sc, ce, mtv, lv)


def fields(name):
    """what the name of a file says"""
    m = re.fullmatch(r"B00(\d{3})(\d{4})(\d{4})(\d{3})(\d{3})\.txt", name)
    if m:
        _, sc, ce, mtv, lv = map(int, m.groups())
        return dict(k="b", ed=0, mt=0, mtv=mtv, ce=ce, sc=sc, lv=lv, bv=0)
    m = re.fullmatch(r"B00000(\d{3})(\d{3})(\d{2})(\d{2})\.txt", name)
    if m:
        sc, ce, mtv, lv = map(int, m.groups())
        return dict(k="b", ed=0, mt=0, mtv=mtv, ce=ce, sc=sc, lv=lv, bv=0)
    m = re.fullmatch(r"B(\d{2})(\d{2})(\d{2})\.txt", name)
    if m:
        mt, ed, mtv = map(int, m.groups())
        return dict(k="c", ed=ed, mt=mt, mtv=mtv, ce=0, sc=0, lv=0, bv=0)
    return dict(k="o", ed=0, mt=0, mtv=0, ce=0, sc=0, lv=0, bv=0)


def every(ctx, build_case):
    """all small sets of tables, and everything that can be wanted of them"""
    names = ["B00000%04d%04d%03d%03d.txt" % (sc, ce, mtv, lv) for mtv in (13, 14) for ce in (0, 98, 200) for sc in (0, 1) for lv in (0, 1, 3)]
    names += ["B000%d%02d.txt" % (ed, mtv) for ed, mtv in ((2, 2), (2, 3), (1, 3))]
    inst = [dict(fields(n), dir=k, _n=n) for k in (0, 1) for n in (names if k == 0 else names[9:12] + names[18:22] + names[-2:])]
    wanted = [dict(k="b", ed=0, mt=0, mtv=mtv, ce=ce, sc=sc, lv=lv, bv=0) for mtv in (13, 14, 15) for ce in (0, 98, 7) for sc in (0, 1) for lv in (0, 1, 2, 3)]
    wanted += [dict(k="c", ed=ed, mt=0, mtv=mtv, ce=98, sc=0, lv=lv, bv=bv) for ed in (1, 2) for mtv in (2, 3) for lv in (0, 2) for bv in (0, 13, 14)]
    p = os.path.join(ctx.work, "ops.json")
    json.dump(dict(all=[{a: b for a, b in t.items() if a != "_n"} for t in inst], wanted=wanted, max=ctx.n(2, 3)), open(p, "w"))
    out = ctx.model("TablesMC", "TablesMC.cfg", env=dict(OPS=p))
    sets = [[int(x) - 1 for x in l.split(",")] for l in re.findall(r'<<"INST", <<([^>]*)>>>>', out)]
    ctx.note(small_sets_of_tables=len(sets))
    sets.sort()
    ctx.rng.shuffle(sets)
    cs = []
    text = dict(b="b %(mt)d %(mtv)d %(ce)d %(sc)d %(lv)d", c="c %(ed)d %(mt)d %(mtv)d %(ce)d %(sc)d %(lv)d %(bv)d")
    for k, l in enumerate(sets[:ctx.n(400, 6000)]):
        dirs = [sorted(inst[i]["_n"] for i in l if inst[i]["dir"] == d) for d in (0, 1)]
        ws = ctx.rng.sample(wanted, len(wanted) // 2)
        ws += ctx.rng.sample(ws, len(ws))
        cs.append(build_case(200000 + k, dirs, [text[w["k"]] % w for w in ws], [dict(op=w["k"], w=w) for w in ws]))
    return cs


def c17(ctx, py=False):
    """py: through the Python bindings, where what is wanted has default values"""
    r = ctx.rng
    run = drv.run_py if py else drv.run
    I = Installed(ctx)
    env = drv.environ()
    MTV = [0, 1, 12, 13, 14, 15, 20, 99, 100, 254, 255]
    CE = [0, 0, 98, 254, 200, 255, 7, 9999]
    SC = [0, 0, 1, 98, 255]
    LV = [0, 0, 1, 2, 3, 101]

    def name(mtvs, ces, scs, lvs):
        k = r.random()
        if k < .75:
            return bname(r, r.choice(mtvs), r.choice(ces), r.choice(scs), r.choice(lvs))
        if k < .92:
            return "B%02d%02d%02d.txt" % (r.choice([0, 0, 0, 1]), r.choice([1, 2, 2, 3]), r.choice([1, 2, 3, 3, 4, 99]))
        return r.choice(["dballe.txt", "test.txt", "B1.txt", "Bxx.txt", "B0000000000000014.txt", "D0000000000000014000.txt", "README.txt", "my.table.txt", "my.txt", "a.b.c.txt", "x.txt"])

    OMIT = dict(mt=0, ce=0, sc=0, lv=0, ed=2)

    def pyask(w):
        """some of it not given, or not possible"""
        b = w["k"] == "b"
        keys = ["mt", "mtv", "ce", "sc", "lv"] if b else ["ed", "mt", "mtv", "ce", "sc", "lv", "bv"]
        given = {f: str(w[f]) for f in keys}
        for f in keys:
            if f in OMIT and r.random() < .4:
                w[f], given[f] = OMIT[f], "-"
        if not b:
            k = r.random()
            if k < .3:
                # a table of CREX, that corresponds to any of BUFR
                w["bv"], given["bv"] = 0, "-"
            elif k < .6:
                # a table of BUFR, whatever the version of CREX
                w["mtv"], given["mtv"] = 255, "-"
        text = lambda: w["k"] + " " + " ".join(given[f] for f in keys)
        if r.random() < .1:
            f = r.choice([f for f in keys if given[f] != "-"] or keys)
            top = 65536 if f in ("ce", "sc") else 256
            given[f] = str(int(w[f]) + top * r.choice([1, 1, 2, 255, -2]))
            return dict(op="name", name="/"), text()
        if r.random() < .02:
            given["mtv"] = given["bv"] = "-"
            return dict(op="name", name="/"), text()
        return dict(op=w["k"], w=w), text()

    def ask(mtvs, ces, scs, lvs, names):
        q, t = ask0(mtvs, ces, scs, lvs, names)
        if py and "w" in q:
            return pyask(q["w"])
        return q, t

    def ask0(mtvs, ces, scs, lvs, names):
        k = r.random()
        if k < .6:
            w = dict(k="b", ed=0, mt=0 if r.random() < .95 else r.choice([1, 10, 255]), mtv=r.choice(mtvs), ce=r.choice(ces), sc=r.choice(scs), lv=r.choice(lvs), bv=0)
            return dict(op="b", w=w), "b %(mt)d %(mtv)d %(ce)d %(sc)d %(lv)d" % w
        if k < .92:
            w = dict(k="c", ed=r.choice([1, 2, 2, 3]), mt=r.choice([0, 0, 0, 1]), mtv=r.choice([0, 1, 2, 3, 4, 100]), ce=r.choice(ces), sc=r.choice(scs),
                     lv=r.choice(lvs), bv=r.choice([0, 0] + mtvs))
            return dict(op="c", w=w), "c %(ed)d %(mt)d %(mtv)d %(ce)d %(sc)d %(lv)d %(bv)d" % w
        n = (r.choice(names) if names and r.random() < .8 else r.choice(["B", "dballe", "B0000000000000014000", "D0000000000000014000", "x.y"]))
        n = n.rsplit(".", 1)[0] or "B"
        return dict(op="name", name=n), r.choice("nm") + " " + n

    def value(lines, o, maps):
        if o.get("st") == "err":
            return 0
        if o.get("st") != "ok":
            return -1
        if o.get("get", o["path"]) != o["path"]:
            return -1
        if o["path"] == "/":
            return 0
        i = maps.get(o["path"], -1)
        if "dpath" in o:
            d, f = os.path.split(o["path"])
            if o["dpath"] != os.path.join(d, "D" + f[1:]):
                return -1
        return i

    def with_obs(c, o):
        obs = o.get("obs", [])
        n = sum(q["op"] != "begin" for q in c["ops"])
        if len(obs) != n:
            obs = (obs + [dict(st="crash")] * n)[:n]
        obs = iter(obs)
        return dict(c, st=o["st"], obs=[0 if q["op"] == "begin" else value(None, next(obs), c["_maps"]) for q in c["ops"]])

    def observe(c):
        return with_obs(c, run([c["_cmd"]], env)[0])

    def build_case(nid, dirs, ops_text, ops):
        """dirs: list of name lists, for EXTRA_TABLES, TABLES, and those added by operations"""
        inst, maps, procs = [], {}, []
        for k, names in enumerate(dirs):
            for n in sorted(names or []) if names != "same" else []:
                if n[0] == "D":
                    continue
                f = fields(n)
                if f["k"] == "o" and n[0] == "B":
                    continue
                inst.append(dict(f, dir=k, name=n.rsplit(".", 1)[0]))
        half = len(ops) // 2
        parts = [(0, half), (half, len(ops))]
        for a, b in parts:
            ds = []
            for k, names in enumerate(dirs):
                if names is None:
                    ds.append("-")
                    continue
                if names == "same":
                    ds.append(ds[-1].rstrip("/"))
                    continue
                if names == [] and r.random() < .5:
                    ds.append(os.path.join(I.root, "missing"))
                    continue
                d = I.make(names, r)
                for i, e in enumerate(inst):
                    if e["dir"] == k:
                        maps[os.path.join(d, e["name"] + ".txt")] = i + 1
                ds.append(d + r.choice(["", "/", "//"]))
            txt = [("a " + ds[o["dir"]].rstrip("/") + r.choice(["", "/", "//"])) if o["op"] == "add" else t % ds[o["dir"]].rstrip("/") if o["op"] == "load" else t for o, t in zip(ops[a:b], ops_text[a:b])]
            procs.append("%s %s %d %s" % (ds[0], ds[1], b - a, " ".join(txt)))
        ops = ops[:half] + [dict(op="begin")] + ops[half:]
        return dict(id=nid, k="find", inst=inst, ops=ops, _maps=maps, _size=len(ops) * (1 + len(inst)), _cmd=("pyfind 2 " if py else "find 2 ") + " ".join(procs))

    cs = [] if py else every(ctx, build_case)
    for nid in range(1, ctx.n(150, 2000) if py else ctx.n(420, 5000)):
        mtvs, ces, scs, lvs = r.sample(MTV, r.choice([1, 2, 3, 5])), r.sample(CE, r.choice([2, 3, 5])), r.sample(SC, r.choice([1, 2, 4])), r.sample(LV, r.choice([1, 3, 5]))
        dirs = []
        for k in range(2):
            if r.random() < .1:
                dirs.append(None)
            else:
                dirs.append(sorted(set(name(mtvs, ces, scs, lvs) for _ in range(r.choice([0, 1, 2, 3, 6, 10])))))
        if dirs[0] and r.random() < .05:
            dirs[1] = "same"
        near = sorted(set(m + d for m in mtvs for d in (-1, 0, 1) if 0 <= m + d <= 255)) if r.random() < .7 else MTV
        names = [n for d in dirs if d != "same" for n in d or []]
        qs = [ask(near, ces + [r.choice([0, 77, 65535])], scs + [33], lvs + [r.choice(LV)], names) for _ in range(r.choice([4, 10, 20]))]
        qs += r.sample(qs, len(qs) // 2)
        r.shuffle(qs)
        qs2 = r.sample(qs, len(qs))
        if py:
            for d in (0, 1):
                for x in dirs[d] or []:
                    if fields(x)["k"] != "o" and dirs[d] != "same" and r.random() < .2:
                        # from either kind of table, by position or by name
                        o = (dict(op="load", dir=d, name=x.rsplit(".", 1)[0]), r.choice("lLkK") + " %s/" + x)
                        qs.append(o)
                        qs2.append(o)
        elif r.random() < .35:
            # directories added while running
            more = r.choice([1, 1, 2, 3])
            for _ in range(more):
                dirs.append(sorted(set(name(mtvs, ces, scs, lvs) for _ in range(r.choice([0, 1, 3, 6])))))
            extra = [(dict(op="add", dir=d), None) for d in range(2, 2 + more) for _ in range(r.choice([1, 1, 2]))]
            have = [d for d in (0, 1) if dirs[d] not in (None, [], "same")]
            if have and r.random() < .3:
                extra.append((dict(op="add", dir=r.choice(have)), None))

            def mixed(a):
                a, x = list(a), list(extra)
                r.shuffle(x)
                for e in x:
                    a.insert(r.randrange(len(a) + 1), e)
                return a
            qs, qs2 = mixed(qs), mixed(qs2)
            ctx.note(directories_added=2 * len(extra))
        qs = qs + qs2
        cs.append(build_case(nid, dirs, [t for _, t in qs], [q for q, _ in qs]))
    # the installed tables
    real = sorted(os.path.basename(f) for f in real_files() if os.path.basename(f)[0] == "B")
    for nid in range(100000, 100000 + ctx.n(3, 20)):
        qs = [ask(list(range(0, 40)), [0, 98, 85, 254, 255, 200, 80], [0, 1, 255], [0, 1, 2, 3, 101, 102], real) for _ in range(60)]
        qs += r.sample(qs, 30)
        cs.append(build_case(nid, [None, real], [t for _, t in qs], [q for q, _ in qs]))
    res = []
    obs = run([c["_cmd"] for c in cs], env)
    for c, o in zip(cs, obs):
        res.append(with_obs(c, o))
        ctx.note(tables_chosen=sum(x > 0 for x in res[-1]["obs"]), none_acceptable=sum(x == 0 for x in res[-1]["obs"]))
    ctx.judge("TablesTrace", res, ENV, observe, "choices")
