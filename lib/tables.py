"""Small table sets for the checks, and reading table files for the specification."""
import os, shutil, math


def wide(v):
    return [v >> 16, v & 0xffff]


def code(s):
    """'B01002' or '001002' to the 16 bit descriptor"""
    f = {"B": 0, "R": 1, "C": 2, "D": 3}.get(s[0])
    if f is None:
        f = int(s[0])
    return (f << 14) | (int(s[1:3]) << 8) | int(s[3:6])


def name(c):
    return "%s%02d%03d" % ("BRCD"[c >> 14], (c >> 8) & 63, c & 255)


def bline(c, desc, unit, scale, ref, bits, cunit=None, cscale=0, clen=0):
    l = " 0%02d%03d %-64s %-24s%4d%13d%4d" % ((c >> 8) & 63, c & 255, desc[:64], unit[:24], scale, ref, bits)
    if cunit is not None:
        l += " %-24s%3d%10d" % (cunit[:24], cscale, clen)
    return l


def dlines(c, codes):
    out = []
    for k, x in enumerate(codes):
        cc = "%d%02d%03d" % (x >> 14, (x >> 8) & 63, x & 255)
        if k == 0:
            out.append(" 3%02d%03d %2d %s" % ((c >> 8) & 63, c & 255, len(codes), cc))
        else:
            out.append(" " * 11 + cc)
    return [l.ljust(18) for l in out]


STR, CODE, FLAG, NUM = "CCITTIA5", "CODE TABLE 1", "FLAG TABLE 2", "NUMERIC"

# (code, unit, scale, ref, bits, crex unit, crex scale, crex len)
SMALL_B = [
    ("B01001", NUM, 0, 0, 7, "NUMERIC", 0, 2),
    ("B01002", NUM, 0, 0, 10, "NUMERIC", 0, 3),
    ("B01011", STR, 0, 0, 72, "CHARACTER", 0, 9),
    ("B01019", STR, 0, 0, 256, "CHARACTER", 0, 32),
    ("B01021", STR, 0, 0, 8, "CHARACTER", 0, 1),
    ("B01022", STR, 0, 0, 2400, "CHARACTER", 0, 300),
    ("B02001", CODE, 0, 0, 2, "CODE TABLE", 0, 1),
    ("B02002", FLAG, 0, 0, 4, "FLAG TABLE", 0, 2),
    ("B02003", FLAG, 0, 0, 31, "FLAG TABLE", 0, 11),
    ("B02004", CODE, 0, 0, 12, "CODE TABLE", 0, 4),
    ("B04001", "A", 0, 0, 12, "A", 0, 4),
    ("B04024", "H", 0, -2048, 12, "H", 0, 4),
    ("B05001", "DEGREE", 5, -9000000, 25, "DEGREE", 5, 7),
    ("B05002", "DEGREE", 2, -9000, 15, "DEGREE", 2, 4),
    ("B07001", "M", 0, -400, 15, "M", 0, 5),
    ("B07032", "M", 2, 0, 16, "M", 2, 5),
    ("B08001", FLAG, 0, 0, 7, "FLAG TABLE", 0, 3),
    ("B10004", "PA", -1, 0, 14, "PA", -1, 5),
    ("B10051", "PA", -1, 0, 14, "PA", -1, 5),
    ("B11001", "DEGREE TRUE", 0, 0, 9, "DEGREE TRUE", 0, 3),
    ("B11011", "M/S", 1, -4096, 13, "M/S", 1, 4),
    ("B12001", "K", 1, 0, 12, "C", 1, 3),
    ("B12101", "K", 2, 0, 16, "C", 2, 4),
    ("B13011", "KG/M**2", 1, -1, 14, "KG/M**2", 1, 5),
    ("B14001", "J/M**2", -3, -65536, 17, "J/M**2", -3, 6),
    ("B15001", "1/M", 9, -1000, 20, "1/M", 9, 6),
    ("B20001", "M", -1, 0, 13, "M", -1, 4),
    ("B20010", "%", 0, 0, 1, "%", 0, 1),
    ("B21001", "DB", 0, -64, 8, "DB", 0, 3),
    ("B22001", NUM, 0, 0, 29, "NUMERIC", 0, 9),
    ("B22002", NUM, 0, 0, 30, "NUMERIC", 0, 10),
    ("B22003", NUM, 0, 0, 32, "NUMERIC", 0, 10),
    ("B22004", NUM, 0, -1000000000, 31, "NUMERIC", 0, 10),
    ("B22005", NUM, 1, 5, 3, "NUMERIC", 1, 2),
    ("B22006", NUM, 0, 0, 24, "NUMERIC", 0, 8),
    ("B31000", NUM, 0, 0, 1, None, 0, 0),
    ("B31001", NUM, 0, 0, 8, "NUMERIC", 0, 3),
    ("B31002", NUM, 0, 0, 16, None, 0, 0),
    ("B31011", NUM, 0, 0, 8, None, 0, 0),
    ("B31012", NUM, 0, 0, 16, "NUMERIC", 0, 4),
    ("B31021", CODE, 0, 0, 6, "CODE TABLE", 0, 2),
    ("B31031", FLAG, 0, 0, 1, "FLAG TABLE", 0, 1),
    ("B33002", CODE, 0, 0, 2, "CODE TABLE", 0, 1),
    ("B33003", CODE, 0, 0, 3, "CODE TABLE", 0, 1),
    ("B33007", "%", 0, 0, 7, "%", 0, 3),
    ("B33040", "%", 0, 0, 7, "%", 0, 3),
    ("B33041", CODE, 0, 0, 2, "CODE TABLE", 0, 1),
    ("B33050", CODE, 0, 0, 4, "CODE TABLE", 0, 2),
    ("B33201", "%", 0, -5, 7, "%", 0, 3),
]

SMALL_D = [
    ("D01001", ["B01001", "B01002"]),
    ("D01011", ["B04001", "D01001"]),
    ("D01021", ["B05001", "B05002"]),
    ("D02001", ["B10004", "R02002", "B12001", "B11001"]),
    ("D02002", ["R01000", "B31001", "B12101"]),
    ("D02003", ["C01129", "B12001", "C01000", "B12001"]),
    ("D02004", ["C02130", "B11011"]),
    ("D03001", ["D01011", "D02001", "D02002"]),
    ("D03002", ["C08002", "B01019", "C08000", "B01011"]),
    ("D63255", ["B22001"]),
]


def write_small(d, fname="0000000000000014000.txt", b=SMALL_B, dd=SMALL_D):
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "B" + fname), "w") as f:
        for k, (c, u, sc, rf, bl, cu, csc, cl) in enumerate(sorted(b)):
            f.write(bline(code(c), "ELEMENT " + c, u, sc, rf, bl, cu, csc, cl) + "\n")
    with open(os.path.join(d, "D" + fname), "w") as f:
        for c, cs in sorted(dd):
            for l in dlines(code(c), [code(x) for x in cs]):
                f.write(l + "\n")


def _num(s):
    """leading number, blanks allowed after a minus sign"""
    s = s.lstrip()
    neg = s.startswith("-")
    if neg:
        s = s[1:].lstrip()
    n = 0
    for ch in s:
        if not ch.isdigit():
            break
        n = n * 10 + int(ch)
    return -n if neg else n


def _kind(u, text):
    if u == text:
        return "s"
    return "c" if u.startswith(("CODE TABLE", "CODETABLE", "FLAG TABLE", "FLAGTABLE")) else "n"


def _unit(u):
    """units of code and flag tables, without the number of the table"""
    if u.startswith(("CODE TABLE", "CODETABLE")):
        return "CODE TABLE"
    if u.startswith(("FLAG TABLE", "FLAGTABLE")):
        return "FLAG TABLE"
    return u[:23]


def read_bufr_b(path):
    out = {}
    for l in open(path, encoding="latin-1"):
        l = l.rstrip("\n")
        c = (int(l[2:4]) << 8) | int(l[4:7])
        u = l[73:97].rstrip()
        sc, rf, bl = _num(l[98:]), _num(l[102:]), _num(l[115:])
        k = _kind(u, STR)
        if k == "s":
            y, ln = "s", bl // 8
        else:
            y = "d" if sc else "i"
            ln = 1 if bl == 1 else math.ceil(bl * math.log10(2.0))
        out[str(c)] = dict(c=c, y=y, sc=sc, rf=wide(rf), bl=bl, len=ln, u=k, un=_unit(u))
    return out


def read_crex_b(path):
    out = {}
    for l in open(path, encoding="latin-1"):
        n = len(l)
        l = l.rstrip("\n")
        c = (int(l[2:4]) << 8) | int(l[4:7])
        if n < 157:
            continue
        u = l[119:143].rstrip()
        sc, ln = _num(l[143:]), _num(l[149:])
        k = _kind(u, "CHARACTER")
        y = "s" if k == "s" else ("d" if sc else "i")
        out[str(c)] = dict(c=c, y=y, sc=sc, rf=[0, 0], bl=0, len=ln, u=k, un=_unit(u))
    return out


def read_d(path):
    out, cur, dup = {}, None, []
    for l in open(path, encoding="latin-1"):
        if len(l) > 1 and l[1] in "D3":
            # sequences that are listed more than once are the same each time
            cur = []
            old = out.setdefault(str(code("D" + l[2:7])), cur)
            if old is not cur:
                dup.append((old, cur))
            rest = l[7:].split()
            cur.append(code(rest[1]))
        else:
            cur.append(code(l[11:17]))
    if any(a != b for a, b in dup):
        raise ValueError("conflicting sequences in " + path)
    return out
