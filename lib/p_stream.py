"""C11: reading messages from a stream"""
import itertools, json, os, re
import drv
import p_bufr, p_crex, bufrgen as bg


class Lane:
    def __init__(self, ctx):
        self.ctx, self.env, self.next = ctx, drv.environ(), 0

    def observe(self, h):
        o = drv.run([h["_cmd"]], self.env)[0]
        return self.merge(h, o)

    def merge(self, h, o):
        c = dict(h)
        c["st"] = o["st"]
        c["ops"] = []
        for (op, d), r in zip(h["_ops"], o.get("res", [])):
            e = dict(op=op, st=r["st"])
            if d is not None:
                e["d"] = list(d)
            if "m" in r:
                e.update(m=r["m"], off=r["off"])
            c["ops"].append(e)
        return c

    def cases(self, histories):
        """histories: (how, [(op, data or None)])"""
        hs = []
        for how, ops in histories:
            self.next += 1
            cmd = "stream %d " % how + " ".join(op if d is None else "%s %s" % (op, bytes(d).hex() or "-") for op, d in ops)
            hs.append(dict(id=self.next, _ops=ops, _cmd=cmd, _size=sum(len(d or b"") for _, d in ops) + 20))
        return [self.merge(h, o) for h, o in zip(hs, drv.run([h["_cmd"] for h in hs], self.env))]

    def judge(self, histories, label):
        for k in range(0, len(histories), 6000):
            cs = self.cases(histories[k:k + 6000])
            reads = [e for c in cs for e in c["ops"] if e["op"] in ("rb", "rc")]
            self.ctx.note(messages_read=sum(e["st"] == "ok" for e in reads), ends_reported=sum(e["st"] == "end" for e in reads),
                          errors_reported=sum(e["st"] == "err" for e in reads))
            self.ctx.judge("StreamTrace", cs, {}, self.observe, label)
            if self.ctx.violations:
                return


def junk(r):
    k = r.random()
    if k < .25:
        return b""
    if k < .7:
        # looks like the start of a message
        return b"".join(r.choice([b"B", b"BU", b"BUF", b"C", b"CR", b"CRE", b"CREX", b"CREX+", b"BUFF", b"CREX-", b"7777", b"++", b"+", b"\r\r\n",
                                  b"UFR", b"REX++", b"BUBUF", b"CRCREX+", b" "]) for _ in range(r.randrange(1, 6)))
    return bytes(r.choice(b"BUFRCEX+7\r\n\0\xff") if r.random() < .7 else r.randrange(256) for _ in range(r.randrange(1, 40)))


def some_bufr(r):
    n = r.choice([12, 12, 13, 14, 20, 60])
    if r.random() < .05:
        n = r.choice([255, 256, 257, 300, 700])
    body = b"".join(r.choice([b"B", b"BUFR", b"7777", b"\0", b"CREX++", b"x", b"\xff"]) for _ in range(n))[:n - 8]
    return b"BUFR" + n.to_bytes(3, "big") + bytes([r.choice([2, 3, 4, 0, 255])]) + body


def some_crex(r):
    body = b"".join(r.choice([b"+", b"++", b"+++", b"\r", b"\n", b"7", b"77", b"7777", b"777", b"a", b"\r\r\n", b"CREX++", b"C", b" ", b"++\r\n777", b"++7777", b"++\r"])
                    for _ in range(r.randrange(9)))
    return b"CREX++" + body + b"++" + r.choice([b"\r\r\n", b"\n", b"\r", b"\r\n", b"\n\n\r\r"]) + b"7777"


def history(r, real):
    ops = []
    for _ in range(r.choice([1, 2, 2, 3, 4])):
        k = r.random()
        ops.append(("raw", junk(r)))
        if k < .4:
            m = r.choice(real["b"]) if real["b"] and r.random() < .3 else some_bufr(r)
            ops.append((r.choice(["raw", "wb"]), m))
        elif k < .8:
            m = r.choice(real["c"]) if real["c"] and r.random() < .3 else some_crex(r)
            ops.append((r.choice(["raw", "wc"]), m))
    ops.append(("raw", junk(r)))
    if r.random() < .3:
        # cut short
        i = max((k for k, (o, d) in enumerate(ops) if d), default=None)
        if i is not None:
            ops = ops[:i] + [("raw", ops[i][1][:r.randrange(len(ops[i][1]) + 1)])]
    ops = [o for o in ops if o[0] == "raw" or o[1]]
    kind = r.choice(["rb", "rc", "mix"])
    ops += [(r.choice(["rb", "rc"]) if kind == "mix" else kind, None) for _ in range(r.choice([3, 5, 8]))]
    return (r.randrange(4), ops)


def long_histories(r):
    """messages around the sizes at which lengths and buffers wrap"""
    h = []
    for n in [4095, 4096, 8193, 32767, 32768, 65535, 65536, 65536 + 12, 70000, 131072 + 300]:
        body = bytes(r.randrange(256) for _ in range(64)) * ((n - 8) // 64 + 1)
        m = b"BUFR" + n.to_bytes(3, "big") + b"\4" + body[:n - 8]
        h.append((r.randrange(4), [("raw", junk(r)), (r.choice(["raw", "wb"]), m), ("raw", junk(r) + some_bufr(r)), ("rb", None), ("rb", None), ("rb", None)]))
        h.append((0, [("raw", m[:-1]), ("rb", None)]))
    for n in [255, 256, 4090, 4096, 8200, 20000]:
        m = b"CREX++" + (b"a1+ 7/" * (n // 6 + 1))[:n] + b"++\r\r\n7777"
        h.append((r.randrange(4), [("raw", junk(r)), (r.choice(["raw", "wc"]), m), ("raw", junk(r) + some_crex(r)), ("rc", None), ("rc", None), ("rc", None)]))
        h.append((0, [("raw", b"." * n + some_bufr(r) + b"BU" * n + some_bufr(r)), ("rb", None), ("rb", None), ("rb", None)]))
        h.append((0, [("raw", b"." * n + some_crex(r) + b"CR" * n + some_crex(r)), ("rc", None), ("rc", None), ("rc", None)]))
    return h


def every(ctx, lane, n):
    """every stream of the exhaustive model, read by the library"""
    for kind, msgs, noise, cut in (
            ("rb", [b"BUFR\0\0\x0c\4abcd", b"BUFR\0\0\x0e\3BUFR77", b"BUFR\0\0\x0d\2\0\0\0\0\0"], [b"x", b"B", b"BU", b"BUF", b"7777", b"BUFB", b"\0"],
             [b"BUFR", b"BUFR\0\0\x0c", b"BUFR\0\0\x0d\4abcd", b"BUFR\0\0\x0e\4abcdB"]),
            ("rc", [b"CREX++a++\r\r\n7777", b"CREX++++\n7777", b"CREX++CREX++7777+++\r7777"], [b"x", b"C", b"CRE", b"CREX+", b"7777", b"CREX ", b"\r\n"],
             [b"CREX++", b"CREX++a++7777", b"CREX++++\r\n777", b"CREX++a+\n7777+"])):
        pieces = [dict(what=w, d=list(d)) for w, ds in (("msg", msgs), ("noise", noise), ("cut", cut)) for d in ds]
        p = os.path.join(ctx.work, "pieces.json")
        json.dump(dict(kind=kind, n=n, pieces=pieces), open(p, "w"))
        out = ctx.model("StreamMC", "StreamMC.cfg", env=dict(PIECES=p, EXPORT="1"))
        ws = [[int(x) for x in w.split(",")] if w.strip() else [] for w in re.findall(r'<<"STREAM", <<([^>]*)>>>>', out)]
        ctx.note(small_streams=len(ws))
        lane.judge([(ctx.rng.randrange(4), [("raw", b"".join(bytes(pieces[i - 1]["d"]) for i in w))] + [(kind, None)] * (len(w) + 1)) for w in ws], "small streams")


def c11(ctx):
    r = ctx.rng
    lane = Lane(ctx)
    every(ctx, lane, ctx.n(3, 4))
    td, tab = p_bufr.small(ctx)
    real = dict(b=[m for m, t, u in p_bufr.gen(ctx, tab, 30, "plain", .3) if len(m) < 400], c=[])
    td, ctab = p_crex.small(ctx)
    real["c"] = [m for m, t in p_crex.items(ctx, ctab, 30) if len(m) < 400]
    lane.judge([history(r, real) for _ in range(ctx.n(5000, 90000))], "histories")
    lane.judge(long_histories(r), "long messages")
    # everything short made of pieces of signatures before a message
    h = []
    for n in range(0, 7 if ctx.thorough else 5):
        for t in itertools.product(b"BUFR", repeat=n):
            h.append((0, [("raw", bytes(t) + b"BUFR\0\0\x0c\x03abcd"), ("rb", None), ("rb", None)]))
    for n in range(0, 6 if ctx.thorough else 4):
        for t in itertools.product(b"CREX+", repeat=n):
            h.append((0, [("raw", bytes(t) + b"CREX++x++\n7777CREX++"), ("rc", None), ("rc", None)]))
    # everything short made of pieces of the terminator
    for n in range(0, 7 if ctx.thorough else 5):
        for t in itertools.product(b"+\r7x", repeat=n):
            h.append((0, [("raw", b"CREX++" + bytes(t) + b"++\r7777BUFR"), ("rc", None), ("rb", None)]))
    ctx.note(short_prefixes_enumerated=len(h))
    lane.judge(h, "signatures and terminators")
    # every truncation
    h = []
    for m in [some_bufr(r) for _ in range(ctx.n(8, 60))] + real["b"][:ctx.n(4, 20)]:
        h += [(r.randrange(4), [("raw", some_bufr(r) + m[:i]), ("rb", None), ("rb", None), ("rb", None)]) for i in range(len(m) + 1)]
    for m in [some_crex(r) for _ in range(ctx.n(12, 60))] + real["c"][:ctx.n(4, 20)]:
        h += [(r.randrange(4), [("raw", some_crex(r) + m[:i]), ("rc", None), ("rc", None), ("rc", None)]) for i in range(len(m) + 1)]
    lane.judge(h, "truncations")
