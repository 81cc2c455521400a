"""Composes BUFR messages for the checks. Nothing here is an oracle: the bytes
made here are judged by the specification."""
import random
from tables import code, name

F = lambda c: c >> 14
X = lambda c: (c >> 8) & 63
Y = lambda c: c & 255


class BitWriter:
    def __init__(self):
        self.v = []

    def put(self, val, n):
        val &= (1 << n) - 1 if n else 0
        for k in range(n - 1, -1, -1):
            self.v.append((val >> k) & 1)

    def bytes(self):
        b = self.v + [0] * (-len(self.v) % 8)
        return bytes(int("".join(map(str, b[i:i + 8])), 2) for i in range(0, len(b), 8))


class TooBig(Exception):
    pass


class Composer:
    """Walks the descriptors writing random values of the right width"""

    def __init__(self, rng, tab, desc, nsub, comp, style=None):
        self.r, self.tab, self.nsub, self.comp = rng, tab, nsub, comp
        self.w = BitWriter()
        self.style = style or rng.choice(["mix", "mix", "low", "missing", "edge"])
        self.n = 0
        subs = 1 if comp else nsub
        for _ in range(subs):
            self.reset()
            self.ops(list(desc), 0)

    def reset(self):
        self.W = self.S = self.R = self.L = self.ref = 0
        self.ov = {}
        self.af = self.afcode = 0
        self.pend = False
        self.cur = []
        self.elems = []      # widths of element variables so far
        self.lastmap = []

    def limits(self, c, n):
        """raw values that the library is expected to accept, roughly"""
        e = self.tab["B"].get(str(c))
        top = (1 << n) - 1
        if e is None or e["u"] == "s" or n <= 0 or n > 32:
            return 0, max(top - 1, 0)
        rf = e["rf"][0] * 65536 + e["rf"][1]
        if c in self.ov:
            rf = self.ov[c]
        elif e["u"] == "n" and 0 < self.R < 10:
            rf *= 10 ** self.R
        if c == getattr(self, "afcode", 0) and c and n == self.af:
            return 0, max(0, min(top - 1, (1 << e["bl"]) - 2))
        ln = e["len"] if n == e["bl"] else n * 30103 // 100000 + 1
        lo, hi = (rf, top - 1 + rf) if ln >= 10 else (max(rf, 1 - 10 ** ln), min(top - 1 + rf, 10 ** ln - 2))
        if ln >= 10:
            lo, hi = max(lo, -2 ** 31), min(hi, 2 ** 31 - 1)
        lo, hi = lo - rf, hi - rf
        return (lo, hi) if lo <= hi else (0, max(top - 1, 0))

    def raw(self, n, c=0):
        v = self.raw0(n, c)
        if c and n > 0 and v != (1 << n) - 1 and self.r.random() < .97:
            lo, hi = self.limits(c, n)
            if v < lo or v > hi:
                v = self.r.choice([lo, hi, self.r.randint(lo, hi)])
        return v

    def raw0(self, n, c=0):
        r = self.r
        if n <= 0:
            return 0
        top = (1 << n) - 1
        st = self.style
        k = r.random()
        if st == "missing":
            return top if k < .6 else r.randrange(top + 1)
        if st == "low":
            return min(top, r.randrange(8))
        if st == "edge":
            return r.choice([0, 1, top, max(0, top - 1), max(0, top - 2), top >> 1])
        if k < .12:
            return top
        if k < .2:
            return r.choice([0, max(0, top - 1), 1 & top, max(0, top - 2)])
        return r.randrange(top + 1)

    def tick(self):
        self.n += 1
        if self.n > 1500 or len(self.w.v) > 40000:
            raise TooBig()

    def text(self, nbytes):
        r = self.r
        k = r.random()
        if k < .1:
            return bytes([255] * nbytes)
        if k < .15:
            return bytes(r.choice([0, 255]) for _ in range(nbytes))
        n = r.randrange(nbytes + 1)
        body = bytes(r.choice(b"AZaz09 .\t") if r.random() < .97 else r.randrange(256) for _ in range(n))
        if k < .2:
            return bytes(nbytes)
        pad = b"\0" if k < .25 else b" "
        return body + pad * (nbytes - n)

    def put_num(self, n, c=0, nomiss=False, hint=None):
        r = self.r
        if not self.comp:
            v = self.raw(n, c) if hint is None else hint
            self.w.put(v, n)
            return v
        if hint is not None:
            self.w.put(hint, n)
            self.w.put(0, 6)
            return hint
        base = self.raw(n, c)
        k = r.random()
        top = (1 << n) - 1
        if n > 1 and r.random() < .025:
            # sums at the edge of the field
            base = r.choice([top - 1, top - 2, max(0, top - r.randrange(1, 300)), top // 2 + 1])
            nb = min(r.choice([n, n - 1, max(2, (top - base).bit_length() + 1)]), 32)
            self.w.put(base, n)
            self.w.put(nb, 6)
            for _ in range(self.nsub):
                self.w.put(max(0, min(top - base + r.choice([-1, 0, 1, 2, -2]), (1 << nb) - 1 - (r.random() < .7))), nb)
            return base
        if base == (1 << n) - 1 or k < .35:
            nb = 0 if r.random() < .98 else r.randrange(64)
        else:
            nb = min(r.choice([1, 2, 3, 5, n, max(1, n - 1)]), 34)
            if k < .98:
                # usually keep the sums within the field
                lo, hi = self.limits(c, n)
                base = r.randint(lo, max(lo, hi - (1 << min(nb, n - 1 if n > 1 else 1)) + 1))
                self.hi = hi
        self.w.put(base, n)
        self.w.put(nb, 6)
        hi = self.limits(c, n)[1]
        if nb:
            for _ in range(self.nsub):
                d = r.randrange(1 << nb)
                if r.random() < .15:
                    d = (1 << nb) - 1
                elif base + d > hi and r.random() < .97:
                    d = r.choice([0, max(0, min(hi - base, (1 << nb) - 2))])
                self.w.put(d, nb)
        return base

    def put_text(self, nbytes):
        if not self.comp:
            for b in self.text(nbytes):
                self.w.put(b, 8)
            return
        if self.r.random() < .5:
            for b in self.text(nbytes):
                self.w.put(b, 8)
            self.w.put(0, 6)
        else:
            for _ in range(nbytes):
                self.w.put(self.r.choice([0, 255, 32]), 8)
            nb = min(63, nbytes if self.r.random() < .8 else self.r.randrange(1, nbytes + 2))
            self.w.put(nb, 6)
            for _ in range(self.nsub):
                for b in self.text(nb):
                    self.w.put(b, 8)

    def width(self, c):
        e = self.tab["B"].get(str(c))
        if e is None:
            return None, "n"
        bl = e["bl"]
        if e["u"] == "s":
            return (8 * self.L if self.L else bl), "s"
        if e["u"] == "n":
            bl += self.W
            if self.R:
                bl += (10 * self.R + 2) // 3
        return max(0, min(bl, 64)), "n"

    def element(self, c, force=None, field=True):
        self.tick()
        w, k = self.width(c) if force is None else force
        if w is None:
            return
        if self.af and field:
            self.put_num(self.af, self.afcode)
        if k == "s":
            self.put_text(w // 8)
        elif k == "b":
            self.put_bin(w)
        else:
            self.put_num(w, c)
        self.elems.append((c, w, k))

    def put_bin(self, w):
        ones = self.r.random() < .2
        for _ in range(w):
            self.w.put(1 if ones else self.r.randrange(2), 1)

    def count(self):
        k = self.r.random()
        return 0 if k < .12 else self.r.choice([1, 1, 2, 2, 3, 5]) if k < .97 else self.r.randrange(20)

    def bitmap(self, n):
        bits = [self.r.choice([0, 0, 1]) for _ in range(n)]
        if self.r.random() < .12:
            bits = [1] * n
        for b in bits:
            self.w.put(b, 1)
            if self.comp:
                self.w.put(0, 6)
        refs = [e for e, b in zip(self.elems[-n:] if n else [], bits) if b == 0]
        self.cur = list(refs)
        self.lastmap = list(refs)
        self.pend = False

    def ops(self, ops, depth):
        if depth > 12:
            raise TooBig()
        while ops:
            c = ops.pop(0)
            f, x, y = F(c), X(c), Y(c)
            if f == 0:
                if self.ref:
                    mag = self.r.randrange(1 << (self.ref - 1)) if self.ref > 1 else 0
                    if self.r.random() < .5:
                        mag = min(mag, 50)
                    neg = self.r.randrange(2)
                    self.w.put(neg, 1)
                    self.w.put(mag, self.ref - 1)
                    self.ov[c] = -mag if neg else mag
                elif x == 33 and self.cur:
                    self.cur.pop(0)
                    w, k = self.width(c)
                    if w is not None:
                        self.tick()
                        self.put_text(w // 8) if k == "s" else self.put_num(w, c)
                else:
                    self.element(c)
            elif f == 1:
                delayed = y == 0
                n = y
                dc = code("B31012")
                if delayed:
                    if ops and F(ops[0]) == 0 and X(ops[0]) == 31:
                        dc = ops.pop(0)
                    e = self.tab["B"].get(str(dc))
                    if e is None:
                        return
                    n = self.count()
                    if self.pend:
                        n = self.maplen()
                    n = min(n, (1 << e["bl"]) - 1)
                    if self.r.random() < .01:
                        n = (1 << e["bl"]) - 1
                    self.put_num(e["bl"], dc, hint=n)
                body = ops[:x]
                del ops[:x]
                if self.pend:
                    self.bitmap(n)
                    continue
                for _ in range(n):
                    self.ops(list(body), depth + 1)
                    self.tick()
            elif f == 3:
                self.ops(list(self.tab["D"].get(str(c), [])), depth + 1)
            else:
                if x == 1:
                    self.W = y - 128 if y else 0
                elif x == 3:
                    if y == 0:
                        self.ov = {}
                    self.ref = 0 if y in (0, 255) else y
                elif x == 4:
                    if y == 0:
                        self.af = 0
                    else:
                        if ops and ops[0] == code("B31021"):
                            ops.pop(0)
                        sig = self.r.choice([1, 2, 6, 7, 8, 21, 1, 2, 6, 7, 8, 21, 5, 63, 62, 9, 0 if self.r.random() < .3 else 1])
                        self.put_num(6, 0, hint=sig)
                        self.af = min(y, 40)
                        self.afcode = {1: code("B33002"), 8: code("B33002"), 2: code("B33003"), 6: code("B33050"),
                                       7: code("B33040"), 21: code("B33041")}.get(sig, 0)
                elif x == 5:
                    for b in self.text(y):
                        self.w.put(b, 8)
                elif x == 6:
                    if ops:
                        dc = ops.pop(0)
                        w, k = self.width(dc)
                        self.element(dc, (y, k if w == y else "b"), field=False)
                elif x == 7:
                    self.R = y
                elif x == 8:
                    self.L = y
                elif x == 22:
                    self.pend = True
                elif x == 23:
                    if y == 0:
                        self.pend = True
                    elif self.cur:
                        cc, w, k = self.cur.pop(0)
                        self.tick()
                        self.put_text(w // 8) if k == "s" else self.put_bin(w) if k == "b" and not self.comp else self.put_num(w, cc)
                elif x == 37:
                    if y == 0:
                        self.cur = list(self.lastmap)
                        self.pend = False

    def maplen(self):
        n = len(self.elems)
        return n if self.r.random() < .6 else self.r.randrange(0, n + 1)


def message(rng, ed, desc, nsub, comp, data, h=None, opt=b""):
    """Wraps section 4 data into a message"""
    h = h or header(rng, ed)
    flags = 0x80 if opt else 0
    if ed == 4:
        s1 = bytes([0, 0, 22, h["mt"]]) + h["ce"].to_bytes(2, "big") + h["sc"].to_bytes(2, "big") + bytes(
            [h["upd"], flags, h["cat"], h["sub"], h["lsub"], h["mtv"], h["mtl"]]) + h["yr"].to_bytes(2, "big") + bytes(
            [h["mo"], h["dy"], h["hh"], h["mi"], h["ss"]])
    else:
        s1 = bytes([0, 0, 18, h["mt"], h["sc"] & 255, h["ce"] & 255, h["upd"], flags, h["cat"], h["lsub"],
                    h["mtv"], h["mtl"], h["yr"] % 100, h["mo"], h["dy"], h["hh"], h["mi"], 0])
    s2 = b""
    if opt:
        s2 = (4 + len(opt)).to_bytes(3, "big") + b"\0" + opt
    d = b"".join(c.to_bytes(2, "big") for c in desc)
    s3 = (7 + len(d)).to_bytes(3, "big") + b"\0" + nsub.to_bytes(2, "big") + bytes([0x80 | (0x40 if comp else 0)]) + d
    if rng.random() < .7:
        s3 = (len(s3) + 1).to_bytes(3, "big") + s3[3:] + b"\0"
    if len(data) % 2:
        data += b"\0"
    s4 = (4 + len(data)).to_bytes(3, "big") + b"\0" + data
    body = s1 + s2 + s3 + s4 + b"7777"
    return b"BUFR" + (8 + len(body)).to_bytes(3, "big") + bytes([ed]) + body


def header(rng, ed, wild=False):
    """Header fields; when wild, anything that still selects the same tables"""
    h = dict(mt=0, ce=0, sc=0, upd=0, cat=0, sub=0, lsub=0, mtv=14, mtl=0,
             yr=2010, mo=11, dy=30, hh=12, mi=34, ss=56 if ed == 4 else 0)
    if wild:
        b = lambda: rng.choice([0, 1, 127, 128, 254, 255, rng.randrange(256)])
        wd = (lambda: rng.choice([0, 1, 255, 256, 65534, 65535, rng.randrange(65536)])) if ed == 4 else b
        h.update(ce=wd(), sc=wd(), upd=b(), cat=b(), sub=b() if ed == 4 else 255, lsub=b(), mtl=b(),
                 mtv=rng.choice([14, 14, 13, 1, 0, rng.randrange(15)]),
                 yr=rng.choice([1951, 1999, 2000, 2001, 2010, 2049, 2050]) if ed != 4 else wd(),
                 mo=b(), dy=b(), hh=b(), mi=b(), ss=b() if ed == 4 else 0)
        if rng.random() < .05:
            h["mt"] = b()
        if rng.random() < .05:
            h["mtv"] = b()
    return h


# ---------------------------------------------------------------- templates

def elements(tab, kind=None):
    out = []
    for k, e in tab["B"].items():
        if X(e["c"]) == 31 or X(e["c"]) == 33:
            continue
        if kind is None or e["u"] == kind:
            out.append(e["c"])
    return sorted(out)


class Templates:
    def __init__(self, rng, tab):
        self.r, self.tab = rng, tab
        self.all = elements(tab)
        self.num = elements(tab, "n")
        self.cod = elements(tab, "c")
        self.txt = elements(tab, "s")
        self.seqs = sorted(int(k) for k in tab["D"])
        self.q = sorted(e["c"] for e in tab["B"].values() if X(e["c"]) == 33)

    def elem(self):
        r = self.r
        k = r.random()
        if k < .6 and self.num:
            return r.choice(self.num)
        if k < .8 and self.cod:
            return r.choice(self.cod)
        return r.choice(self.txt) if self.txt and k < .92 else r.choice(self.all)

    def group(self, depth, n=None):
        out = []
        for _ in range(n if n is not None else self.r.choice([1, 1, 2, 3, 4])):
            out += self.item(depth)
        return out

    def item(self, depth=0):
        r = self.r
        k = r.random()
        if depth > 3 or k < .45:
            return [self.elem()]
        if k < .55 and self.seqs:
            return [r.choice(self.seqs)]
        if k < .62:
            body = self.group(depth + 1)[:63]
            return [(1 << 14) | (len(body) << 8) | r.choice([1, 2, 3])] + body
        if k < .75:
            body = self.group(depth + 1)[:63]
            rep = (1 << 14) | (len(body) << 8)
            fac = r.choice([["B31001"], ["B31001"], ["B31002"], ["B31000"], ["B31011"], ["B31012"], []])
            return [rep] + [code(x) for x in fac] + body
        return self.operator(depth)

    def operator(self, depth):
        r = self.r
        op = lambda x, y: code("C%02d%03d" % (x, y))
        k = r.randrange(9)
        inner = self.group(depth + 1)
        cancel = r.random() < .85
        if k == 0:
            return [op(1, r.choice([127, 129, 130, 132, 120, 136]))] + inner + ([op(1, 0)] if cancel else [])
        if k == 1:
            return [op(2, r.choice([127, 129, 130, 126, 131]))] + inner + ([op(2, 0)] if cancel else [])
        if k == 2:
            y = r.choice([4, 8, 9, 16, 17, 24, 31, 32])
            n = r.choice([1, 1, 2])
            es = [r.choice(self.num) for _ in range(n)]
            return [op(3, y)] + es + [op(3, 255)] + inner + es + ([op(3, 0)] if cancel else [])
        if k == 3:
            return [op(4, r.choice([1, 2, 6, 7, 8, 9, 16, 31, 32])), code("B31021")] + inner + ([op(4, 0)] if r.random() < .95 else [])
        if k == 4:
            return [op(5, r.choice([1, 2, 5, 17]))]
        if k == 5:
            c = r.choice([self.elem(), self.elem(), code("B63%03d" % r.randrange(1, 255))])
            if r.random() < .3:
                # the same descriptor with several widths
                c, y = code("B63%03d" % r.randrange(1, 255)), r.choice([1, 2, 5, 8, 9, 16, 24, 33, 64])
                return [x for d in r.sample([0, 1, 8, 16, 32, 64, 64, 128, 0], r.choice([2, 3])) for x in (op(6, y + d), c)]
            e = self.tab["B"].get(str(c))
            y = e["bl"] if e and r.random() < .4 else r.choice([0, 1, 5, 8, 9, 16, 24, 33, 64, 71, 255])
            return [op(6, y & 255), c]
        if k == 6:
            return [op(7, r.choice([1, 1, 2, 3]))] + inner + ([op(7, 0)] if cancel else [])
        if k == 7:
            return [op(8, r.choice([1, 2, 5, 32]))] + inner + [self.elem()] + ([op(8, 0)] if cancel else [])
        return [op(r.choice([1, 2, 3, 7, 8]), 0)] + inner

    def plain(self):
        return self.group(0, self.r.choice([1, 2, 3, 4, 6, 8]))[:120]

    def mapped(self):
        """elements followed by quality information or substituted values"""
        r = self.r
        op = lambda x, y: code("C%02d%03d" % (x, y))
        flat = lambda n: [self.elem() if r.random() < .85 else op(5, r.choice([1, 2])) for _ in range(n)]
        body = flat(r.choice([1, 2, 3, 5, 7]))
        if r.random() < .3:
            body = body + self.group(1, 1)
        out = list(body)
        rounds = r.choice([1, 1, 2, 2, 3, 4])
        again = r.choice([.15, .5])
        for rnd in range(rounds):
            sub = r.random() < .4
            o = 23 if sub else 22
            n = r.choice([len(body), len(body), max(1, len(body) - 1), 1])
            if r.random() < again and rnd:
                # reuse
                out += [op(o, 0), op(37, 0)] if r.random() < .5 else [op(37, 0)]
            else:
                out += [op(o, 0)]
                if r.random() < .3:
                    out += [op(36, 0)]
                if r.random() < .5:
                    out += [code("R01%03d" % n), code("B31031")]
                else:
                    out += [code("R01000")] + ([code(r.choice(["B31001", "B31002"]))] if r.random() < .9 else []) + [code("B31031")]
            if not sub and r.random() < .4:
                out += [code("B01001"), code("B01002")] if r.random() < .5 else []
            q = op(23, 255) if sub else r.choice(self.q)
            k = r.random()
            if k < .4:
                out += [code("R01%03d" % n), q]
            elif k < .6:
                out += [code("R01000"), code("B31001"), q]
            else:
                out += [q] * r.randrange(0, n + 2)
            if r.random() < .2:
                out += [op(37, 255)]
            if r.random() < .3:
                out += [self.elem()]
        return out

    def fields(self):
        r = self.r
        op = lambda x, y: code("C%02d%03d" % (x, y))
        out = []
        for _ in range(r.choice([1, 1, 2, 3])):
            out += self.group(1, r.choice([0, 1]))
            out += [op(4, r.choice([1, 2, 4, 6, 7, 8, 9, 12, 16, 31, 32])), code("B31021")]
            out += self.group(1, r.choice([1, 2, 3]))
            if r.random() < .92:
                out += [op(4, 0)]
            out += self.group(1, r.choice([0, 1, 2]))
        return out

    def wild(self):
        """any descriptors at all"""
        r = self.r
        out = []
        for _ in range(r.choice([1, 2, 4, 8, 12])):
            k = r.random()
            if k < .4:
                out += self.item(0)
            elif k < .5:
                out.append(r.randrange(65536))
            elif k < .7:
                out.append(code("C%02d%03d" % (r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 22, 23, 24, 32, 35, 36, 37, 40]),
                                               r.choice([0, 1, 8, 16, 33, 120, 128, 255, r.randrange(256)]))))
            elif k < .8:
                out.append((1 << 14) | (r.randrange(4) << 8) | r.choice([0, 0, 1, 2, 3, 50]))
            elif k < .9:
                out.append(code(r.choice(["B31000", "B31001", "B31002", "B31011", "B31012", "B31021", "B31031"])))
            else:
                out.append(r.choice(self.q + self.seqs))
        return out


def compose(rng, tab, desc, nsub, comp, ed=None, h=None, opt=None):
    ed = ed or rng.choice([2, 3, 4, 4])
    try:
        c = Composer(rng, tab, desc, nsub, comp)
    except TooBig:
        return None
    data = c.w.bytes()
    if len(data) > 3000:
        return None
    if opt is None:
        opt = b"" if rng.random() < .8 else bytes(rng.randrange(256) for _ in range(rng.choice([1, 2, 5, 8])))
    return message(rng, ed, desc, nsub, comp, data, h or header(rng, ed), opt)


def mutate(rng, m):
    """damage a message"""
    m = bytearray(m)
    k = rng.random()
    if k < .25:
        del m[rng.randrange(len(m)):]
    elif k < .45:
        for _ in range(rng.choice([1, 1, 2, 5])):
            if m:
                m[rng.randrange(len(m))] = rng.randrange(256)
    elif k < .55:
        m[rng.randrange(len(m))] ^= 1 << rng.randrange(8)
    elif k < .65:
        p = rng.randrange(len(m))
        del m[p:p + rng.choice([1, 2, 4])]
    elif k < .72:
        p = rng.randrange(len(m))
        m[p:p] = bytes(rng.randrange(256) for _ in range(rng.choice([1, 2])))
    elif k < .9:
        # one of the lengths or the counters
        ed = m[7]
        p = rng.choice([4, 5, 6, 7, 8, 9, 10, 15, 17])
        l1 = 22 if ed == 4 else 18
        q = 8 + l1
        if rng.random() < .6:
            p = q + rng.choice([0, 1, 2, 3, 4, 5, 6])
            if rng.random() < .5 and q + 3 <= len(m):
                l3 = (m[q] << 16) | (m[q + 1] << 8) | m[q + 2]
                p = q + l3 + rng.choice([0, 1, 2, 2, 2])
        if p < len(m):
            m[p] = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 255, (m[p] + 1) & 255, (m[p] - 1) & 255, (m[p] - 2) & 255, m[p] ^ 128])
    else:
        m[-4:] = rng.choice([b"", b"777", b"7776", b"7777X", b"77777777"])
    return bytes(m)
