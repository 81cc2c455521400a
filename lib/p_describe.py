"""C30: what is said of lists of descriptors"""
import drv, bufrgen as bg
from p_bufr import small, batches


class Lane:
    def __init__(self, ctx, td, tab):
        self.ctx, self.env, self.next = ctx, drv.environ(td), 0
        self.tlcenv = {"TABLES": ctx.tabs({"small": tab})}

    def merge(self, c, o):
        return dict(c, st=o["st"], obs={k: dict(st=o[k]["st"], l=o[k]["l"]) for k in ("feat", "list")} if o["st"] == "ok" else {})

    def redo(self, c):
        return self.merge(c, drv.run([c["_cmd"]], self.env)[0])

    def judge(self, items, label):
        """items: (descriptors, message or None)"""
        r = self.ctx.rng
        ms = [m for d, m in items if m is not None]
        got = iter(drv.run(["dec 0 %s" % m.hex() for m in ms], self.env))
        cs = []
        for d, m in items:
            self.next += 1
            ind = r.choice([0, 2, 5])
            cs.append(dict(id=self.next, desc=d, ind=ind, tab="small", dec=next(got)["st"] if m is not None else "no",
                           _cmd="describe %d %s" % (ind, " ".join(map(str, d))), _size=30 * len(d)))
        cs = [self.merge(c, o) for c, o in zip(cs, drv.run([c["_cmd"] for c in cs], self.env))]
        self.ctx.note(decodable=sum(c["dec"] == "ok" for c in cs), described=sum(c["st"] == "ok" and c["obs"]["feat"]["st"] == "ok" for c in cs))
        self.ctx.judge("DescribeTrace", cs, self.tlcenv, self.redo, label)


def c30(ctx):
    td, tab = small(ctx)
    lane = Lane(ctx, td, tab)
    r = ctx.rng
    for n in batches(ctx, ctx.n(3000, 40000)):
        T = bg.Templates(r, tab)
        items = []
        while len(items) < n:
            T.comp = r.random() < .2
            d = getattr(T, r.choice(["plain", "mapped", "fields", "wild"]))()
            m = bg.compose(r, tab, d, 1, T.comp, 4, bg.header(r, 4, False))
            if m is not None:
                items.append((list(d), m))
        lane.judge(items, "lists of descriptors")
        if ctx.violations:
            return
    # every operator, alone and before an element, in a replication and at the end of one
    items = []
    for c in range(0x8000, 0xc000):
        x, y = (c >> 8) & 63, c & 255
        if x in (1, 2, 3, 4, 5, 6, 7, 8, 22, 23, 24, 25, 32, 35, 36, 37, 41, 63) and (y in (0, 1, 2, 8, 16, 32, 33, 127, 128, 129, 254, 255) or ctx.thorough):
            items += [([c], None), ([c, 0x0102], None), ([0x4202, c, 0x0102, 0x1f01], None), ([0x4100, 0x1f01, c], None), ([c, 0x1f15, 0x0102, 0x0c65], None)]
    lane.judge(items, "operators")
