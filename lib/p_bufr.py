"""C01..C07: BUFR decoding and encoding"""
import copy, glob, json, os
import build, drv, tables, p_model, bufrgen as bg
from tables import code, wide


def small(ctx):
    """the small table set: directory and what the specification needs to know of it"""
    d = os.path.join(ctx.work, "tables")
    tables.write_small(d)
    n = "0000000000000014000.txt"
    return d, dict(B=tables.read_bufr_b(os.path.join(d, "B" + n)), D=tables.read_d(os.path.join(d, "D" + n)), mtv=14)


DROP = ("bt", "dt", "err", "rc", "stage")


def clean(o):
    return {k: v for k, v in o.items() if k not in DROP}


class Lane:
    """Messages decoded with one set of tables"""

    def __init__(self, ctx, tabdir, tabs):
        self.ctx, self.tabdir, self.tabs = ctx, tabdir, tabs
        self.env = drv.environ(tabdir)
        self.tlcenv = {"TABLES": ctx.tabs(tabs)}
        self.next = 0

    def ids(self):
        self.next += 1
        return self.next

    def run(self, cmds):
        return drv.run(cmds, self.env)

    def decode(self, items):
        """items: (message, tab, undef); returns the cases"""
        cmds = ["dec %d %s" % (u, m.hex() or "-") for m, t, u in items]
        obs = self.run(cmds)
        return [dict(id=self.ids(), op="dec", d=list(m), tab=t, undef=int(u), obs=clean(o), _cmd=c, _size=len(m) + 60, _obs=o)
                for (m, t, u), c, o in zip(items, cmds, obs)]

    def headers(self, items):
        cmds = ["hdr %s" % (m.hex() or "-") for m, t in items]
        obs = self.run(cmds)
        return [dict(id=self.ids(), op="hdr", d=list(m), tab=t, obs=clean(o), _cmd=c, _size=20)
                for (m, t), c, o in zip(items, cmds, obs)]

    def encode(self, bulletins):
        """bulletins: dicts ed, h, opt, desc, outs, tab; returns encode cases and the bytes obtained"""
        cmds = [enc_cmd(b) for b in bulletins]
        obs = self.run(cmds)
        cases = []
        for b, c, o in zip(bulletins, cmds, obs):
            if o.get("stage") == "build" and o["st"] in ("err",):
                continue
            outs = o.get("outs", b["outs"])
            ob = dict(st=o["st"], d=o.get("d", []))
            cases.append(dict(id=self.ids(), op="enc", ed=b["ed"], h=b["h"], opt=b["opt"], desc=b["desc"], outs=outs,
                              tab=b["tab"], obs=ob, _cmd=c, _b=b,
                              _size=100 + 3 * sum(len(x) for x in outs) + len(ob["d"])))
        return cases

    def redo(self, case):
        c = dict(case)
        if case["op"] == "rt":
            e = self.run([case["_enc"]])[0]
            o = self.run(["dec %d %s" % (case.get("_undef", 0), bytes(e.get("d", [])).hex() or "-")])[0] if e["st"] == "ok" else e
            c["obs"] = clean(o)
            return c
        o = self.run([case["_cmd"]])[0]
        if case["op"] == "enc":
            c["obs"] = dict(st=o["st"], d=o.get("d", []))
        else:
            c["obs"] = clean(o)
        return c

    def judge(self, cases, label=None):
        for c in cases:
            c.pop("_obs", None)
            c.pop("_b", None)
        return self.ctx.judge("BufrTrace", cases, self.tlcenv, self.redo, label)


def var_cmd(v):
    c = v["c"]
    f, x = c >> 14, (c >> 8) & 63
    rf = v["rf"][0] * 65536 + v["rf"][1]
    if v["y"] == "b":
        kind = "u"
    elif f == 2:
        kind = "c" if x == 5 else "m"
    else:
        kind = "q"
    if not v["set"]:
        val = "n"
    elif v["y"] in "id":
        val = "i%d" % (v["v"][0] * 65536 + v["v"][1])
    else:
        val = ("y" if v["y"] == "b" else "x") + bytes(v["tx"]).hex()
    return "%s %d %d %d %d %s %d" % (kind, c, v["sc"], v["bl"], rf, val, len(v["at"])) + "".join(" " + var_cmd(a) for a in v["at"])


def enc_cmd(b):
    h = b["h"]
    t = ["enc", b["ed"]] + [h[k] for k in ("mt", "ce", "sc", "upd", "cat", "sub", "lsub", "mtv", "mtl", "yr", "mo", "dy", "hh", "mi", "ss")]
    t += [bytes(b["opt"]).hex() or "-", len(b["desc"])] + b["desc"] + [len(b["outs"])]
    for s in b["outs"]:
        t.append(len(s))
        t += [var_cmd(v) for v in s]
    return " ".join(str(x) for x in t)


def bulletin_of(case):
    """the bulletin that a successful decoding gave, to encode it"""
    o = case["_obs"] if "_obs" in case else case["obs"]
    return dict(ed=o["ed"], h=o["h"], opt=o["opt"], desc=o["desc"], outs=o["outs"], tab=case["tab"])


# ------------------------------------------------------------ generation

def gen(ctx, tab, n, kind, comp, tname="small", wildh=0.0, mut=0.0, undef=.2):
    r = ctx.rng
    T = bg.Templates(r, tab)
    out = []
    while len(out) < n:
        k = kind(r) if callable(kind) else kind
        cp = comp if isinstance(comp, bool) else r.random() < comp
        T.comp = cp
        desc = getattr(T, k)()
        nsub = r.choice([1, 1, 2, 3]) if not cp else r.choice([1, 2, 2, 3, 5])
        ed = r.choice([2, 3, 4, 4])
        m = bg.compose(r, tab, desc, nsub, cp, ed, bg.header(r, ed, r.random() < wildh))
        if m is None:
            continue
        if r.random() < mut:
            m = bg.mutate(r, m)
        out.append((m, tname, r.random() < undef))
    return out


def tally(ctx, cases):
    ok = sum(1 for c in cases if c["obs"]["st"] == "ok")
    ctx.note(accepted_by_the_code=ok, refused_by_the_code=len(cases) - ok)


def batches(ctx, total, size=3000):
    while total > 0:
        yield min(total, size)
        total -= size


def mutate_bulletin(r, b, tab):
    """Change values, states and attributes of a bulletin, keeping its structure"""
    b = copy.deepcopy(b)
    # fewer or more bits for associated fields and reference values than the values need
    for i, c in enumerate(b["desc"]):
        if c >> 8 in (0x83, 0x84) and 0 < c & 255 < 255 and r.random() < .5:
            b["desc"][i] = (c & 0xff00) | r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 16, 20, 24, 32])
    for s in b["outs"]:
        for v in s:
            k = r.random()
            f, x = v["c"] >> 14, (v["c"] >> 8) & 63
            if x == 31 and f == 0:
                continue
            if f == 2:
                if x == 5:
                    if k < .3:
                        v["tx"] = [r.choice(b"abc XYZ.") for _ in range(r.randrange(v["bl"] // 8 + 1))]
                elif k < .2:
                    j = r.randrange(len(v["tx"])) if v["tx"] else 0
                    if v["tx"]:
                        v["tx"][j] = 43 + 45 - v["tx"][j] if v["tx"][j] in (43, 45) else 43
                continue
            if k < .15:
                v.update(set=0, v=[0, 0], tx=[])
            elif k < .5:
                setval(r, v, tab)
            if r.random() < .2:
                v["at"] = []
            for q in r.sample(sorted(c for c in tab["B"] if 33 << 8 <= int(c) < 34 << 8), r.choice([0, 0, 0, 1, 2])):
                e = tab["B"][q]
                a = dict(c=e["c"], y=e["y"], sc=e["sc"], bl=e["bl"], rf=e["rf"], set=1, v=[0, 0], tx=[], at=[])
                setval(r, a, tab)
                v["at"] = sorted([z for z in v["at"] if z["c"] != a["c"]] + [a], key=lambda z: z["c"])
    return b


def setval(r, v, tab):
    if v["y"] == "s":
        n = r.randrange(v["bl"] // 8 + 1)
        v.update(set=1, tx=[r.choice(b"abc XYZ.~\x80\xff") if r.random() < .2 else r.choice(b"abcd") for _ in range(n)])
    elif v["y"] == "b":
        nb = (v["bl"] + 7) // 8
        t = [r.randrange(256) for _ in range(nb)]
        if v["bl"] % 8:
            t[-1] &= (1 << (v["bl"] % 8)) - 1
        v.update(set=1, tx=t)
    else:
        rf = v["rf"][0] * 65536 + v["rf"][1]
        top = (1 << v["bl"]) - 1
        k = r.choice([0, top - 1, top - 2, top >> 1, r.randrange(top + 1), r.randrange(top + 1), r.randrange(min(top, 50) + 1)])
        n = max(0, k) + rf
        v.update(set=1, v=wide(max(-2 ** 31, min(2 ** 31 - 1, n))))


def roundtrips(lane, decoded, mutated, tab, label):
    """encode what was decoded (and mutations of it), judge the bytes; decode again, compare"""
    ctx = lane.ctx
    r = ctx.rng
    src = [c for c in decoded if c["obs"]["st"] == "ok" and sum(len(s) for s in c["obs"]["outs"]) < 400]
    bs, mark = [], []
    for c in src:
        b = bulletin_of(c)
        bs.append(b)
        mark.append(("same", c["undef"]))
        for _ in range(mutated):
            bs.append(mutate_bulletin(r, b, tab))
            mark.append(("mutated", c["undef"]))
    for b, m in zip(bs, mark):
        b["mark"] = m
    enc = lane.encode(bs)
    good = [c for c in enc if c["obs"]["st"] == "ok"]
    dec = lane.decode([(bytes(c["obs"]["d"]), c["tab"], c["_b"]["mark"][1]) for c in good])
    rts = []
    for c, d in zip(good, dec):
        if c["_b"]["mark"][0] == "same":
            rts.append(dict(id=lane.ids(), op="rt", ed=c["ed"], h=c["h"], opt=c["opt"], desc=c["desc"], outs=c["outs"], tab=c["tab"],
                            d=d["d"], obs=d["obs"], _cmd=c["_cmd"], _enc=c["_cmd"], _undef=c["_b"]["mark"][1], _size=40))
    ctx.note(encoded=len(good), refused_by_the_encoder=len(enc) - len(good), round_trips=len(rts))
    lane.judge(enc + dec + rts, label)


# ------------------------------------------------------------ real messages

_CACHE = {}


def real_tab(bt, dt):
    k = (bt, dt)
    if k not in _CACHE:
        try:
            _CACHE[k] = dict(B=tables.read_bufr_b(bt), D=tables.read_d(dt), mtv=255)
        except (ValueError, IndexError, KeyError, OSError):
            _CACHE[k] = None
    return _CACHE[k]


def real_messages(maxlen):
    out = []
    for p in sorted(glob.glob(os.path.join(build.REPO, "testdata/bufr/*.bufr"))):
        d = open(p, "rb").read()
        i = d.find(b"BUFR")
        if i < 0 or len(d) < i + 8:
            continue
        n = int.from_bytes(d[i + 4:i + 7], "big")
        if n <= maxlen:
            out.append((os.path.basename(p), d[i:i + n]))
    return out


def real_lane(ctx, maxlen=6000, want=None):
    """sample messages of the repository with the tables it ships"""
    td = os.path.join(build.REPO, "tables")
    msgs = real_messages(maxlen)
    hdr = drv.run(["hdr %s" % m.hex() for n, m in msgs], drv.environ(td))
    tabs, items = {}, []
    for (n, m), h in zip(msgs, hdr):
        if h["st"] != "ok":
            continue
        t = real_tab(h["bt"], h["dt"])
        if t is None:
            continue
        if want and not want(h):
            continue
        key = os.path.basename(h["bt"])
        # only what the specification will look at: keeps the input small
        tabs[key] = t
        items.append((m, key, False))
    return Lane(ctx, td, tabs), items


# ------------------------------------------------------------ the checks

def decode_check(ctx, n, kind, comp, rt=False, mut=0.0, wildh=0.0, real=None, nmut=1, rtn=None):
    td, tab = small(ctx)
    lane = Lane(ctx, td, {"small": tab})
    for k in batches(ctx, n):
        cases = lane.decode(gen(ctx, tab, k, kind, comp, mut=mut, wildh=wildh))
        tally(ctx, cases)
        sub = cases if rtn is None else cases[:rtn]
        keep = [dict(c) for c in sub] if rt else []
        lane.judge(cases, "decode")
        if rt:
            roundtrips(lane, keep, nmut, tab, "encode")
        if ctx.violations:
            return
    if real:
        rl, items = real_lane(ctx, 60000 if ctx.thorough else 6000, real)
        cases = rl.decode(items)
        ctx.note(sample_messages=len(cases))
        keep = [dict(c) for c in cases] if rt else []
        rl.judge(cases, "sample messages")
        if rt:
            for t in rl.tabs.values():
                pass
            roundtrips(rl, keep, 0, tab, "encode sample messages")


def every(ctx, kinds, n, bits, shapes, limit, rt=False):
    """the messages of the exhaustive model, decoded by the library"""
    td, tab, ls, msgs = p_model.explore(ctx, kinds, n, bits, shapes)
    r = ctx.rng
    byd = {}
    for w, b, st in msgs:
        x = sum(v << (len(b) + 7) // 8 * 8 - 1 - k for k, v in enumerate(b)).to_bytes((len(b) + 7) // 8, "big")
        byd.setdefault(id(w), {})[x] = w
    # every list of descriptors, and as many of its messages as there is time for
    rows = [[(w, x) for x, w in d.items()] for d in byd.values()]
    for x in rows:
        r.shuffle(x)
    r.shuffle(rows)
    items = [x[k] for k in range(max(len(x) for x in rows)) for x in rows if k < len(x)]
    ctx.note(small_lists=len(ls), small_messages=len(items), small_messages_decoded=min(limit, len(items)))
    lane = Lane(ctx, td, {"tiny": tab})
    items = items[:limit]
    while items and not ctx.violations:
        part, items = items[:20000], items[20000:]
        cases = lane.decode([(bg.message(r, 4, w["desc"], w["nsub"], w["comp"] == 1, x), "tiny", False) for w, x in part])
        tally(ctx, cases)
        keep = [dict(c) for c in cases] if rt else []
        lane.judge(cases, "small messages")
        if rt and not ctx.violations:
            roundtrips(lane, keep, 0, tab, "encode small messages")


def c01(ctx):
    every(ctx, [p_model.plain], 2, 5, [(1, 0, 0)] + ctx.n([], [(2, 0, 2)]), ctx.n(3000, 10 ** 6))
    decode_check(ctx, ctx.n(4000, 60000), lambda r: r.choice(["plain"] * 8 + ["wild"]), False, wildh=.05, real=lambda h: not h["comp"])


def c02(ctx):
    every(ctx, [p_model.plain], 2, ctx.n(4, 5), ctx.n([(1, 0, 0)], [(1, 0, 1), (2, 0, 3)]), ctx.n(1000, 10 ** 6), rt=True)
    decode_check(ctx, ctx.n(2500, 30000), lambda r: r.choice(["plain", "plain", "plain", "mapped", "fields"]), False, rt=True, nmut=2,
                 wildh=.1, real=lambda h: not h["comp"])


def c03(ctx):
    every(ctx, [p_model.maps], 3, ctx.n(5, 7), [(1, 0, 0)] + ctx.n([], [(2, 0, 2)]), ctx.n(2500, 10 ** 6), rt=ctx.thorough)
    decode_check(ctx, ctx.n(3500, 50000), "mapped", .35, rt=True, rtn=1500, real=lambda h: any((c >> 14) == 2 and (c >> 8) & 63 in (22, 23, 24, 32) for c in h["desc"]))


def c04(ctx):
    every(ctx, [p_model.fields], 3, ctx.n(6, 8), [(1, 0, 0)] + ctx.n([], [(2, 0, 3)]), ctx.n(2500, 10 ** 6), rt=ctx.thorough)
    decode_check(ctx, ctx.n(3500, 50000), "fields", .35, rt=True, rtn=1500, real=lambda h: any((c >> 8) == 0x84 for c in h["desc"]))


def c05(ctx):
    every(ctx, [p_model.plain] + ctx.n([], [p_model.fields, p_model.maps]), ctx.n(1, 2), 5, [(2, 1, 9)] + ctx.n([], [(1, 1, 6)]), ctx.n(2000, 10 ** 6), rt=ctx.thorough)
    decode_check(ctx, ctx.n(4000, 60000), lambda r: r.choice(["plain", "plain", "plain", "mapped", "fields"]), True, rt=True, nmut=0, rtn=1000,
                 real=lambda h: h["comp"])


def c06(ctx):
    td, tab = small(ctx)
    lane = Lane(ctx, td, {"small": tab})
    r = ctx.rng
    kinds = lambda r: r.choice(["plain", "mapped", "fields", "wild", "wild"])
    for k in batches(ctx, ctx.n(3500, 60000)):
        cases = lane.decode(gen(ctx, tab, k, kinds, .4, mut=.75, wildh=.1))
        tally(ctx, cases)
        lane.judge(cases, "damaged messages")
        if ctx.violations:
            return
    # every truncation of some messages
    items = []
    for m, t, u in gen(ctx, tab, ctx.n(25, 200), kinds, .4):
        if len(m) < 200:
            items += [(m[:i], t, u) for i in range(len(m) + 1)]
    # random bytes behind a valid envelope
    for _ in range(ctx.n(300, 3000)):
        T = bg.Templates(r, tab)
        desc = T.wild()
        data = bytes(r.choice([0, 255, r.randrange(256)]) for _ in range(r.randrange(120)))
        ed = r.choice([2, 3, 4])
        items.append((bg.message(r, ed, desc, r.choice([0, 1, 2, 3, 300]), r.random() < .5, data), "small", False))
    for _ in range(ctx.n(200, 2000)):
        n = r.randrange(60)
        b = bytes(r.choice([0, 255, 66, 85, 70, 82, 55, r.randrange(256)]) for _ in range(n))
        items.append((b"BUFR" * r.choice([0, 1]) + b, "small", False))
    cases = lane.decode(items)
    tally(ctx, cases)
    lane.judge(cases, "truncations")
    heads = lane.headers([(m, t) for m, t, u in items[::3]])
    lane.judge(heads, "truncated headers")


def large(ctx, lane, tab):
    """messages with sections, and numbers of descriptors and subsets, beyond what one or two bytes can count"""
    r = ctx.rng
    E = lambda x: code(x)
    ms = []

    def add(desc, nsub=1, opt=b"", ed=None, bits=None):
        ed = ed or r.choice([2, 3, 4])
        # plain bits, whatever they are, as many as needed
        h = bg.header(r, ed)
        n = bits
        data = bytes(r.randrange(255) for _ in range((n + 7) // 8))
        ms.append(bg.message(r, ed, [E(x) for x in desc], nsub, False, data, h, opt))
    for n in [124, 127, 128, 251, 255, 256, 257, 300, 600] + [32763, 32764, 32765, 33000]:
        add(["B01001"] * n, bits=7 * n)
    slow = ms[-4:]
    for n in [250, 251, 252, 253, 255, 256, 1000, 65530, 65531, 65532, 65535, 65536, 65537, 70000]:
        add(["B01001"], opt=bytes(r.randrange(256) for _ in range(n)), bits=7)
    for n in [254, 255, 256, 257, 511, 512, 513, 600]:
        add(["B01001", "B01021"], nsub=n, bits=15 * n)
    # long data: text of 300 bytes
    for n in [217, 218, 219, 230]:
        add(["R01%03d" % n, "B01022"], bits=2400 * n)
    # around the sizes where the length of the whole message takes another byte
    for n in [255, 256, 65535, 65536, 65538] + ctx.n([], [65534, 65537, 131072]):
        size = n - 8 - 22 - 10 - 4 - 4
        add(["B01001"], opt=bytes(r.randrange(256) for _ in range(size - 4 - 2)), ed=4, bits=7)
    items = [(m, "small", False) for m in ms]
    heads = lane.headers([(m, t) for m, t, u in items])
    if not ctx.thorough:
        # following that many descriptors takes long
        items = [i for i in items if i[0] not in slow]
    cases = lane.decode(items)
    tally(ctx, cases)
    enc = lane.encode([bulletin_of(c) for c in cases if c["obs"]["st"] == "ok"])
    ctx.note(large_messages=len(ms), large_messages_encoded=len(enc))
    good = [c for c in enc if c["obs"]["st"] == "ok"]
    dec = lane.decode([(bytes(c["obs"]["d"]), "small", False) for c in good])
    rts = [dict(id=lane.ids(), op="rt", ed=c["ed"], h=c["h"], opt=c["opt"], desc=c["desc"], outs=c["outs"], tab=c["tab"],
                d=d["d"], obs=d["obs"], _cmd=c["_cmd"], _enc=c["_cmd"], _size=40) for c, d in zip(good, dec)]
    for c in cases + enc:
        c["big"] = 1
    lane.judge(cases + heads + enc + rts, "large messages")


def c07(ctx):
    td, tab = small(ctx)
    lane = Lane(ctx, td, {"small": tab})
    r = ctx.rng
    large(ctx, lane, tab)
    if ctx.violations:
        return
    for k in batches(ctx, ctx.n(3000, 30000)):
        items = []
        T = bg.Templates(r, tab)
        while len(items) < k:
            ed = r.choice([2, 3, 4])
            desc = [T.elem() for _ in range(r.choice([1, 1, 2, 3, 5]))]
            opt = b"" if r.random() < .4 else bytes(r.randrange(256) for _ in range(r.choice([1, 2, 3, 4, 7, 30, 255, 256])))
            m = bg.compose(r, tab, desc, r.choice([1, 1, 2, 256]) if k < 200 else 1, r.random() < .2, ed, bg.header(r, ed, True), opt)
            if m is None:
                continue
            if r.random() < .15:
                m = bytearray(m)
                p = r.randrange(4, min(len(m), 60))
                m[p] = r.choice([0, 1, 2, 3, 4, 5, 8, 255, r.randrange(256)])
                m = bytes(m)
            items.append((m, "small", False))
        cases = lane.decode(items)
        tally(ctx, cases)
        heads = lane.headers([(m, t) for m, t, u in items])
        keep = [dict(c) for c in cases]
        lane.judge(cases + heads, "headers")
        # encode with arbitrary header fields in all editions
        bs = []
        for c in keep[::2]:
            if c["obs"]["st"] != "ok":
                continue
            b = bulletin_of(c)
            if r.random() < .5:
                b = copy.deepcopy(b)
                b["ed"] = r.choice([2, 3, 4, 4, 3, 2, 1, 5])
                b["h"] = bg.header(r, b["ed"], True)
                if b["ed"] != 4 and r.random() < .9:
                    b["h"].update(ce=b["h"]["ce"] % 256, sc=b["h"]["sc"] % 256)
            bs.append(b)
        enc = lane.encode(bs)
        good = [c for c in enc if c["obs"]["st"] == "ok"]
        ctx.note(encoded=len(good))
        dec = lane.decode([(bytes(c["obs"]["d"]), "small", False) for c in good])
        rts = [dict(id=lane.ids(), op="rt", ed=c["ed"], h=c["h"], opt=c["opt"], desc=c["desc"], outs=c["outs"], tab=c["tab"],
                    d=d["d"], obs=d["obs"], _cmd=c["_cmd"], _enc=c["_cmd"], _size=40) for c, d in zip(good, dec)]
        lane.judge(enc + rts, "encoded headers")
        if ctx.violations:
            return
