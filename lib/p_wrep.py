"""C27: the wrep program"""
import concurrent.futures as cf, json, os, re, shutil, subprocess
import bufrgen, build, drv, p_bufr, p_crex, p_stream
from tables import name as code_name

LONG = dict(c="crex", d="dump", t="trace", s="structure", D="dds", i="info", v="verbose", U="unparsable", T="tables", F="features", L="list-tables", h="help")
ACTIONS = "dtsDUTF"
NAMES = ["a", "bb", "some.bufr", "with space", "longer-file-name.crex", "dir/x"]


class Lane:
    def __init__(self, ctx, td):
        self.ctx, self.env, self.next = ctx, drv.environ(td), 0
        self.exe = build.wrep()
        self.good = {}

    # ------------------------------------------------ running
    def spawn(self, argv, files):
        """argv: texts; files: (name, data or None)"""
        d = os.path.join(self.ctx.work, "wrep-%d" % self.next)
        self.next += 1
        os.makedirs(os.path.join(d, "dir"))
        for n, data in files:
            if data is not None:
                open(os.path.join(d, n), "wb").write(data)
        return d, [self.exe] + argv

    def execute(self, job):
        d, argv = job
        try:
            p = subprocess.run(argv, cwd=d, env=self.env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
            rc, out, err = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired:
            rc, out, err = -14, b"", b""
        shutil.rmtree(d, ignore_errors=True)
        return rc, out, err

    def settings(self, toks):
        """as the generator needs it, to know what to ask the library"""
        act, crex = "d", False
        for t in toks:
            if t["t"] == "flag":
                if t["f"] == "c":
                    crex = True
                elif t["f"] != "v":
                    act = t["f"]
            elif t["t"] == "print":
                act = "p"
        return act, "rc" if crex else "rb"

    def observe(self, runs):
        """runs: dict(toks, argv, files)"""
        cmds = []
        for x in runs:
            act, kind = self.settings(x["toks"])
            for n, d in x["files"]:
                cmds.append("wfile %s %s %s %s" % (kind, act, n.encode().hex(), (d or b"").hex() or "-"))
        jobs = [self.spawn(x["argv"], x["files"]) for x in runs]
        with cf.ThreadPoolExecutor(8) as ex:
            results = list(ex.map(self.execute, jobs))
        obs = iter(drv.run(cmds, self.env))
        cases = []
        for x, (rc, out, err) in zip(runs, results):
            files = []
            ok = True
            for n, d in x["files"]:
                o = next(obs)
                ok = ok and o["st"] == "ok"
                files.append(dict(name=list(n.encode()), d=list(d or b""), there=int(d is not None), ms=o.get("ms", [])))
            errs = []
            if ok:
                for l in err.split(b"\n"):
                    for i, (n, d) in enumerate(x["files"]):
                        if l.startswith(n.encode() + b":"):
                            m = re.match(rb"(\d+):", l[len(n) + 1:])
                            errs.append([i + 1, int(m.group(1)) if m else -1])
                            break
            st = "ok" if rc in (0, 1, 2) and ok else "timeout" if rc == -14 else "crash"
            self.ctx.ids = getattr(self.ctx, "ids", 0) + 1
            if self.settings(x["toks"])[0] in "hiL":
                # what help and lists say is not prescribed
                out = out[:1]
            if len(out) > 40000:
                self.ctx.note(runs_too_long_to_judge=1)
                continue
            cases.append(dict(id=self.ctx.ids, args=x["toks"], files=files, exit=rc, out=list(out), errs=errs, st=st,
                              _cmd=json.dumps(dict(argv=x["argv"], files=[[n, d.hex() if d is not None else None] for n, d in x["files"]], toks=x["toks"])),
                              _err=err.decode("latin-1")[-1500:], _size=sum(len(d or b"") for n, d in x["files"]) + 3 * len(out) + 20))
        return cases

    def redo(self, case):
        j = json.loads(case["_cmd"])
        c = self.observe([dict(toks=j["toks"], argv=j["argv"], files=[(n, bytes.fromhex(d) if d is not None else None) for n, d in j["files"]])])[0]
        c["id"] = case["id"]
        return c

    def judge(self, runs, label):
        for k in range(0, len(runs), 2000):
            cases = self.observe(runs[k:k + 2000])
            self.ctx.note(runs=len(cases), messages=sum(len(f["ms"]) for c in cases for f in c["files"]), messages_reported=sum(len(c["errs"]) for c in cases),
                          usage_errors=sum(c["exit"] == 1 for c in cases), bytes_written=sum(len(c["out"]) for c in cases))
            self.ctx.judge("WrepTrace", cases, {}, self.redo, label)
            if self.ctx.violations:
                return


# ------------------------------------------------------------ command lines

def spell(r, toks, names):
    """One of the ways of writing the tokens"""
    argv = []
    for t in toks:
        if t["t"] == "file":
            argv.append(names[t["i"] - 1])
        elif t["t"] == "print":
            v = b",".join(bytes(i) for i in t["items"]).decode()
            argv += r.choice([["--print=" + v], ["--print", v], ["-p", v], ["-p" + v]] if v else [["--print="], ["--print", ""], ["-p", ""]])
        elif t["t"] == "wrong":
            argv.append("-p" if t is toks[-1] and r.random() < .5 else r.choice(["-x", "--nothing", "-Z", "--dump=1", "-?"]))
        elif r.random() < .5:
            argv.append("--" + LONG[t["f"]])
        elif argv and re.fullmatch(r"-[cdtsDUTFvi]+", argv[-1]) and r.random() < .5:
            argv[-1] += t["f"]
        else:
            argv.append("-" + t["f"])
    return argv


def some_items(r, codes, wrong=False):
    items = [code_name(r.choice(codes)).encode() for _ in range(r.choice([0, 1, 1, 2, 3, 5]))]
    if r.random() < .2:
        items = [b"%d" % b"BRCD".index(i[:1]) + i[1:] for i in items]
    if wrong:
        items.insert(r.randrange(len(items) + 1), r.choice([b"B0100", b"X01001", b"B01x01", b"b01001", b"B64001", b"B", b"junkjunk", b"B0-001", b"401001"]))
    return [list(i) for i in items]


def command(r, codes, nfiles):
    toks = [dict(t="file", i=i + 1) for i in range(nfiles)]
    k = r.random()
    fl = lambda f: toks.insert(r.randrange(len(toks) + 1), dict(t="flag", f=f))
    if k < .3:
        toks.insert(r.randrange(len(toks) + 1), dict(t="print", items=some_items(r, codes, r.random() < .15)))
        if r.random() < .2:
            toks.insert(r.randrange(len(toks) + 1), dict(t="print", items=some_items(r, codes)))
    elif k < .85:
        fl(r.choice(ACTIONS))
    elif k < .89:
        fl(r.choice("hiL"))
    if r.random() < .1:
        fl(r.choice(ACTIONS))
    if r.random() < .08:
        fl("v")
    if r.random() < .06:
        toks.insert(r.randrange(len(toks) + 1), dict(t="wrong"))
    return toks


def reorder(toks, argv=None):
    """options are seen before files"""
    return [t for t in toks if t["t"] != "file"] + [t for t in toks if t["t"] == "file"]


def some_file(r, kind, pool):
    if r.random() < .04:
        return None
    d = b""
    for _ in range(r.choice([0, 1, 2, 2, 3, 4])):
        k = r.random()
        if k < .3:
            d += p_stream.junk(r)
        elif k < .36:
            d += (p_stream.some_bufr if kind == "rb" else p_stream.some_crex)(r)
        elif k < .4:
            d += r.choice(pool["rc" if kind == "rb" else "rb"])
        else:
            m = r.choice(pool[kind])
            if r.random() < .25:
                m = bytearray(m)
                i = r.randrange(8 if kind == "rb" else 6, len(m))
                m[i] ^= r.choice([1, 255, 16])
                m = bytes(m)
            d += m
    if r.random() < .1 and d:
        d = d[:r.randrange(len(d))]
    return d


def random_runs(ctx, pool, codes, n):
    r = ctx.rng
    runs = []
    for _ in range(n):
        kind = r.choice(["rb", "rb", "rc"])
        nf = r.choice([0, 1, 1, 1, 2, 2, 3])
        names = r.sample(NAMES, nf)
        toks = command(r, codes[kind], nf)
        if kind == "rc":
            toks.insert(r.randrange(len(toks) + 1), dict(t="flag", f="c"))
        files = [(x, some_file(r, kind, pool)) for x in names]
        argv = spell(r, toks, names)
        if nf and r.random() < .05 and not any(t["t"] != "file" for t in toks[-nf:]):
            argv.insert(len(argv) - nf, "--")
        runs.append(dict(toks=reorder(toks), argv=argv, files=files))
    return runs


def every(ctx, lane, pool, codes, n):
    """every file of the exhaustive model, given to the program"""
    r = ctx.rng
    for kind in ("rb", "rc"):
        short = sorted(lane.good[kind], key=len)[:6]
        good = r.sample(short, 2)
        bad = [b"BUFR\0\0\x0c\4abcd", bytes(good[0][:-1]) + b"8"] if kind == "rb" else [b"CREX++a++\r\r\n7777", b"CREX++T000103 A001 B99999++x++\r\n7777"]
        noise = [b"x", b"BUF" if kind == "rb" else b"CREX+"]
        cut = [good[1][:-3]]
        pieces = [dict(what=w, d=list(d)) for w, ds in (("good", good), ("bad", bad), ("noise", noise), ("cut", cut)) for d in ds]
        p = os.path.join(ctx.work, "pieces.json")
        json.dump(dict(kind=kind, n=n, pieces=pieces), open(p, "w"))
        out = ctx.model("WrepMC", "WrepMC.cfg", env=dict(PIECES=p, EXPORT="1"))
        ws = [[int(x) for x in w.split(",")] if w.strip() else [] for w in re.findall(r'<<"FILE", <<([^>]*)>>>>', out)]
        ctx.note(small_files=len(ws))
        runs = []
        acts = list(ACTIONS) + ["p"]
        for w in ws:
            data = b"".join(bytes(pieces[i - 1]["d"]) for i in w)
            for act in (acts if len(w) < 2 else r.sample(acts, 1) + ["U"] if not ctx.thorough else acts):
                toks = [dict(t="print", items=some_items(r, codes[kind]))] if act == "p" else [dict(t="flag", f=act)]
                if kind == "rc":
                    toks.append(dict(t="flag", f="c"))
                toks.append(dict(t="file", i=1))
                runs.append(dict(toks=toks, argv=spell(r, toks, ["f"]), files=[("f", data)]))
        lane.judge(runs, "small files")


def c27(ctx):
    td, tab = p_bufr.small(ctx)
    bufr = [m for m, t, u in p_bufr.gen(ctx, tab, 200, lambda r: r.choice(["plain", "plain", "fields", "mapped"]), .3, wildh=.5) if len(m) < 160]
    bufr += [bufrgen.message(ctx.rng, ed, [], nsub, False, b"", bufrgen.header(ctx.rng, ed, True)) for ed in (3, 4) for nsub in (0, 1, 2)]
    ctd, ctab = p_crex.small(ctx)
    crex = [m for m, t in p_crex.items(ctx, ctab, 250) if len(m) < 200]
    lane = Lane(ctx, td)
    # messages that say something, and few of those that do not
    pool = {}
    for kind, ms in (("rb", bufr), ("rc", crex)):
        obs = drv.run(["wfile %s d 61 %s" % (kind, m.hex()) for m in ms], lane.env)
        good = [m for m, o in zip(ms, obs) if len(o.get("ms", [])) == 1 and not o["ms"][0]["bad"] and len(o["ms"][0]["tx"]) < 3000]
        pool[kind] = good + [m for m in ms if m not in good][:len(good) // 10]
        lane.good[kind] = good
    # mostly codes of variables that are there
    codes = {}
    for kind, t in (("rb", tab), ("rc", ctab)):
        codes[kind] = [int(c) for c in t["B"]]
        seen = [v["c"] for o in drv.run(["wfile %s p 61 %s" % (kind, m.hex()) for m in pool[kind]], lane.env) for x in o.get("ms", []) for s in x["subs"] for v in s]
        codes[kind] += [c for c in sorted(set(seen)) for _ in range(1 + 3 * len(codes[kind]) // (1 + len(set(seen))))]
    every(ctx, lane, pool, codes, ctx.n(2, 3))
    # messages at large offsets
    runs = []
    for kind in ("rb", "rc"):
        for act in "FTdU":
            m, x = ctx.rng.choice(lane.good[kind]), ctx.rng.choice(pool[kind])
            d = x + bytes(ctx.rng.choice([32767, 65536, 70001])) + m + (b"BUFR\0\0\x0c\4abcd" if kind == "rb" else b"CREX++a++\r\r\n7777")
            toks = [dict(t="flag", f=act)] + ([dict(t="flag", f="c")] if kind == "rc" else []) + [dict(t="file", i=1)]
            runs.append(dict(toks=toks, argv=spell(ctx.rng, toks, ["f"]), files=[("f", d)]))
    lane.judge(runs, "large files")
    lane.judge(random_runs(ctx, pool, codes, ctx.n(700, 12000)), "command lines and files")
