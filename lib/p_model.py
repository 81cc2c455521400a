"""Small messages, all of them: the specification explored exhaustively, and the library on the same messages"""
import itertools, json, os, re
import tables
from tables import code

C = code
# widths as small as they can be
TINY_B = [("B01001", "NUMERIC", 0, 0, 2), ("B12001", "K", 1, -1, 2), ("B02001", "CODE TABLE 1", 0, 0, 1),
          ("B31000", "NUMERIC", 0, 0, 1), ("B31001", "NUMERIC", 0, 0, 2), ("B31012", "NUMERIC", 0, 0, 2),
          ("B31021", "CODE TABLE 1", 0, 0, 2), ("B31031", "FLAG TABLE 2", 0, 0, 1),
          ("B33002", "CODE TABLE 1", 0, 0, 2), ("B33003", "CODE TABLE 1", 0, 0, 2), ("B33007", "%", 0, 0, 2)]
TINY_D = [("D01001", ["B01001", "B12001"]), ("D01002", ["R01000", "B31000", "B02001"])]
EL = ["B01001", "B12001", "B02001"]
OPS = ["C01129", "C01000", "C02129", "C02000", "C07001", "C07000", "C06003"]
REF = ["C03003", "C03255", "C03000"]
FIELD = ["C04001", "C04002", "C04000", "B31021"]
MAP = ["C22000", "C23000", "C23255", "C36000", "C37000", "C37255", "B33007", "B33002", "B31031"]
REP = ["R01000", "R02000", "R01002", "B31000", "B31001"]
SEQ = ["D01001", "D01002", "D01003"]


def lists(alphabet, n, prefix=(), suffix=()):
    for k in range(n + 1):
        for w in itertools.product(alphabet, repeat=k):
            yield list(prefix) + list(w) + list(suffix)


def plain(n):
    a = EL + OPS + REF + REP + SEQ
    yield from lists(a, n)
    yield from lists(a, n - 1, ["C03003", "B12001", "C03255"])
    yield from lists(EL + REP + SEQ, n, ["R02000", "B31000"])
    yield from lists(EL + OPS, n, ["C02129", "C01129"], ["B12001"])


def fields(n):
    a = EL + FIELD + ["C01129", "C06003", "R01002"]
    yield from lists(a, n - 1)
    for c in ("C04001", "C04002"):
        yield from lists(a, n - 1, [c, "B31021"])


def maps(n):
    a = MAP + ["B01001", "R01000", "R01002", "B31000"]
    yield from lists(a, n - 1, ["B01001"])
    for r in (["R01001"], ["R01002"], ["R01000", "B31001"]):
        if n > 1:
            for o in ("C22000", "C23000"):
                for x in ([], ["B33007"], ["B33007", "B33007"]):
                    # one map after the other, and then one of them again
                    for y in ([], ["C37255"]):
                        yield ["B01001", "B02001", "C22000", "R01001", "B31031"] + x + y + [o] + r + ["B31031"] + y + ["C22000", "C37000", "B33007"]
        for o in ("C22000", "C23000"):
            yield from lists(["B33007", "B33002", "C23255", "C22000", "C37000", "B01001"], n - 1, ["B01001", "B02001", o] + r + ["B31031"])
            yield from lists(["B33007", "C23255"], n - 1, ["B01001", "B02001", o, "C36000"] + r + ["B31031"], ["C22000", "C37000", "B33002"])


def stray(w):
    """replication factors that are no such thing: when compressed, they can be missing"""
    return any(x in ("B31000", "B31001", "B31012") and not (k and w[k - 1][0] == "R" and w[k - 1][3:] == "000") for k, x in enumerate(w))


def explore(ctx, kinds, n, bits, shapes, timeout=800):
    """kinds: families of descriptor lists; shapes: (number of subsets, compressed, more bits)"""
    d = os.path.join(ctx.work, "tiny")
    tables.write_small(d, b=[x + (None, 0, 0) for x in TINY_B], dd=TINY_D)
    f = "0000000000000014000.txt"
    tab = dict(B=tables.read_bufr_b(os.path.join(d, "B" + f)), D=tables.read_d(os.path.join(d, "D" + f)), mtv=14)
    seen, ls = set(), []
    for kind in kinds:
        for w in kind(n):
            for nsub, comp, more in shapes:
                key = (tuple(w), nsub, comp)
                if w and key not in seen and not (comp and stray(w)):
                    seen.add(key)
                    ls.append(dict(desc=[C(x) for x in w], nsub=nsub, comp=comp, max=bits + more))
    lf, tf = os.path.join(ctx.work, "lists.json"), os.path.join(ctx.work, "tiny.json")
    json.dump(ls, open(lf, "w"))
    json.dump(tab, open(tf, "w"))
    out = ctx.model("BufrMC", "BufrMC.cfg", env=dict(LISTS=lf, TABLES=tf, EXPORT="1"), timeout=timeout)
    return d, tab, ls, [(ls[int(a) - 1], [int(x) for x in b.split(",")] if b.strip() else [], st)
                        for a, b, st in re.findall(r'<<"MSG", (\d+), <<([^>]*)>>, "(\w+)">>', out)]


# ------------------------------------------------------------ CREX

# codes with a length of one or two characters
CREX_B = [("B01001", "NUMERIC", 0, 0, 4, "NUMERIC", 0, 1), ("B01011", "CCITTIA5", 0, 0, 16, "CHARACTER", 0, 2),
          ("B12001", "K", 1, 0, 12, "C", 1, 2), ("B02001", "CODE TABLE 1", 0, 0, 2, "CODE TABLE", 0, 1),
          ("B31001", "NUMERIC", 0, 0, 8, "NUMERIC", 0, 4), ("B31012", "NUMERIC", 0, 0, 16, "NUMERIC", 0, 4)]
CREX_D = [("D01001", ["B01001", "B02001"]), ("D01002", ["R01000", "B31001", "B02001"])]
CREX_EL = ["B01001", "B01011", "B12001", "B02001"]


def crex(n):
    yield from lists(CREX_EL + ["R01002", "R01000", "R02000", "B31001", "D01001", "D01002", "D01003"], n)
    yield from lists(["B01001", "B02001"], n, ["R01000", "B31001"])
    yield from lists(["B01001", "B01011", "R01002"], n, ["R02001"])


def explore_crex(ctx, n, chars, timeout=800):
    d = os.path.join(ctx.work, "tiny")
    tables.write_small(d, b=CREX_B, dd=CREX_D)
    f = "0000000000000014000.txt"
    tab = dict(B=tables.read_crex_b(os.path.join(d, "B" + f)), D=tables.read_d(os.path.join(d, "D" + f)))
    ls = []
    for w in sorted(set(map(tuple, crex(n)))):
        for cd in (0, 1):
            if w:
                # factors are four characters, check digits one
                more = 4 * any(x in ("R01000", "R02000", "D01002") for x in w)
                ls.append(dict(desc=[C(x) for x in w], cd=cd, max=chars + more + cd * 2))
    lf, tf = os.path.join(ctx.work, "lists.json"), os.path.join(ctx.work, "tiny.json")
    json.dump(ls, open(lf, "w"))
    json.dump(tab, open(tf, "w"))
    out = ctx.model("CrexMC", "CrexMC.cfg", env=dict(LISTS=lf, TABLES=tf, EXPORT="1"), timeout=timeout)
    return d, tab, ls, [(ls[int(a) - 1], bytes(int(x) for x in b.split(",")), st)
                        for a, b, st in re.findall(r'<<"MSG", (\d+), <<([^>]*)>>, "(\w+)">>', out)]
