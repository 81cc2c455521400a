"""C22: validating bulletins"""
import copy
import drv, tables, p_bufr, p_crex
from p_bufr import Lane, small, gen, enc_cmd, bulletin_of, setval, batches, mutate_bulletin, tally, real_lane
from tables import wide


def some_var(r, tab, like=None):
    e = tab["B"][r.choice(sorted(tab["B"]))]
    v = dict(c=e["c"], y=e["y"], sc=e["sc"], bl=e["bl"], rf=e["rf"], set=1, v=[0, 0], tx=[], at=[])
    if r.random() < .3 or (v["y"] in "id" and not 0 < v["bl"] <= 32):
        v["set"] = 0
    else:
        setval(r, v, tab)
    return v


def misfit(r, b, tab):
    """A bulletin with one variable that does not belong where it is"""
    b = copy.deepcopy(b)
    s = r.choice(b["outs"])
    if not s:
        return b
    k = r.randrange(len(s))
    v = s[k]
    what = r.choice(["drop", "last", "swap", "recode", "copy", "extra", "count", "mark", "unset", "reference", "move", "value"])
    if what == "drop":
        del s[k]
    elif what == "last":
        s.pop()
    elif what == "swap":
        j = r.randrange(len(s))
        s[k], s[j] = s[j], s[k]
    elif what == "recode":
        s[k] = some_var(r, tab)
    elif what == "copy":
        s.insert(k, copy.deepcopy(v))
    elif what == "extra":
        s.append(some_var(r, tab))
    elif what == "move":
        s.insert(r.randrange(len(s)), s.pop(k))
    elif what == "count":
        cs = [z for z in s if z["c"] >> 8 == 31 and z["set"] and z["y"] in "id"]
        if cs:
            z = r.choice(cs)
            z["v"] = wide(max(0, z["v"][0] * 65536 + z["v"][1] + r.choice([-1, 1, 2])))
    elif what == "mark":
        ms = [z for z in s if z["c"] >> 14 == 2 and (z["c"] >> 8) & 63 != 5]
        if ms:
            z = r.choice(ms)
            if r.random() < .5 and len(z["tx"]) > 1:
                z["tx"].pop()
            else:
                z["tx"].append(43)
            z["bl"] = 8 * len(z["tx"])
    elif what == "unset":
        v.update(set=0, v=[0, 0], tx=[])
    elif what == "reference":
        if v["y"] in "id" and v["c"] >> 14 == 0:
            v["rf"] = wide(r.choice([0, 1, -1, -1000, 70000]))
            if 0 < v["bl"] <= 32 and v["set"]:
                setval(r, v, tab)
    elif what == "value":
        if v["y"] in "id" and v["set"]:
            v["v"] = wide(r.choice([0, -1, 2 ** 31 - 1, (1 << min(v["bl"], 31)) - 1, 1 << min(v["bl"], 30)]))
    return b


class Checked(Lane):
    def validate(self, bulletins):
        cmds = ["val" + enc_cmd(b)[3:] for b in bulletins]
        cases = []
        for b, c, o in zip(bulletins, cmds, self.run(cmds)):
            if o.get("stage") == "build" and o["st"] == "err":
                continue
            outs = o.get("outs", b["outs"])
            cases.append(dict(id=self.ids(), op="val", desc=b["desc"], outs=outs, tab=b["tab"], obs=self.seen(o), _cmd=c,
                              _size=100 + 3 * sum(len(x) for x in outs)))
        return cases

    def seen(self, o):
        return dict(st=o["st"], at=o.get("at", 0), enc=o.get("enc", ""))

    def redo(self, case):
        if case["op"] != "val":
            return Lane.redo(self, case)
        c = dict(case)
        c["obs"] = self.seen(self.run([case["_cmd"]])[0])
        return c


def c22(ctx):
    td, tab = small(ctx)
    r = ctx.rng
    lane = Checked(ctx, td, {"small": tab})
    kinds = lambda r: r.choice(["plain", "plain", "mapped", "fields", "wild"])
    for k in batches(ctx, ctx.n(2600, 30000)):
        dec = [c for c in lane.decode(gen(ctx, tab, k, kinds, .25))
               if c["obs"]["st"] == "ok" and sum(len(s) for s in c["obs"]["outs"]) < 400]
        bs = []
        for c in dec:
            b = bulletin_of(c)
            bs.append(b)
            bs += [misfit(r, b, tab) for _ in range(3)]
            bs.append(mutate_bulletin(r, b, tab))
        cases = lane.validate(bs)
        ctx.note(decoded=len(dec))
        tally(ctx, cases)
        lane.judge(cases, "validate")
        if ctx.violations:
            return
    rl, items = real_lane(ctx, 60000 if ctx.thorough else 4000)
    rl = Checked(ctx, rl.tabdir, rl.tabs)
    dec = [c for c in rl.decode(items) if c["obs"]["st"] == "ok" and sum(len(s) for s in c["obs"]["outs"]) < (6000 if ctx.thorough else 1500)]
    bs = []
    for c in dec:
        b = bulletin_of(c)
        bs.append(b)
        bs += [misfit(r, b, rl.tabs[c["tab"]]) for _ in range(2)]
    cases = rl.validate(bs)
    ctx.note(sample_messages=len(dec))
    rl.judge(cases, "validate sample messages")
    # CREX bulletins
    td, tab = p_crex.small(ctx)
    cl = p_crex.Lane(ctx, td, {"small": tab})
    cases = cl.decode(p_crex.items(ctx, tab, ctx.n(1500, 20000)), op="val")
    tally(ctx, cases)
    cl.judge(cases, "validate CREX")
