"""Conformance driver for the Python bindings: same protocol as the C++ driver"""
import json
import os
import sys

sys.path.insert(0, sys.argv[1])
import _wreport as wreport

NAME = "B0000000000000014000"
TYPES = dict(integer="i", decimal="d", string="s", binary="b")


def wide(v):
    return [v >> 16, v & 65535]


def uncode(t):
    return "BRCD".index(t[0]) << 14 | int(t[1:3]) << 8 | int(t[3:])


def text(c):
    return "%s%02d%03d" % ("BRCD"[c >> 14], c >> 8 & 63, c & 255)


def unhex(t):
    return b"" if t == "-" else bytes.fromhex(t)


def tx(s):
    return list(s if isinstance(s, bytes) else s.encode("utf-8", "surrogateescape"))


def info(i):
    return dict(c=uncode(i.code), y=TYPES[i.type], sc=i.scale, bl=i.bit_len, rf=wide(i.bit_ref), len=i.len, un=i.unit)


def show(v):
    if v is None:
        return {"c": -1}
    d = info(v.info)
    if v.code != v.info.code:
        d["c"] = -2
    num = d["y"] in "id"
    d.update(set=1 if v.isset else 0, v=[0, 0], tx=[], at=[show(a) for a in v.get_attrs()])
    if v.isset:
        if num:
            d["v"] = wide(v.enqi())
        else:
            d["tx"] = tx(v.enqc())
    return d


def typed(r, x, missing=None):
    if x is missing:
        r["b"] = 9
    elif isinstance(x, bool):
        r["b"] = 8
    elif isinstance(x, int):
        r.update(b=1, n=wide(x))
    elif isinstance(x, float):
        r.update(b=2, dbl="%.15g" % x)
    elif isinstance(x, str):
        r.update(b=3, tx=tx(x))
    elif isinstance(x, bytes):
        r.update(b=4, tx=tx(x))
    else:
        r["b"] = 7


class Foreign:
    pass


def abuse(n, table, v):
    """requests that make no sense"""
    i = v.info
    W = wreport
    return [lambda: W.Var(), lambda: W.Var(3), lambda: W.Var(None), lambda: W.Var(i, []), lambda: W.Var(i, {}), lambda: W.Var(i, Foreign()),
            lambda: W.Var(i, 1, 2), lambda: W.Var(i, valore=1), lambda: W.Var("B01001"), lambda: v.enqa(5), lambda: v.enqa(), lambda: v.enqa("B0100"),
            lambda: v.enqa(""), lambda: v.enqa("Z01001"), lambda: v.seta(3), lambda: v.seta(), lambda: v.seta(None), lambda: v.seta(i), lambda: v.unseta(5),
            lambda: v.unseta("B"), lambda: W.Varinfo(), lambda: W.Vartable(), lambda: table[3], lambda: table[None], lambda: table["B0"], lambda: table[""],
            lambda: table["Bxxyyy"], lambda: table["B63255"], lambda: 3 in table, lambda: None in table, lambda: "" in table, lambda: v.format(3), lambda: v.get(1, 2),
            lambda: W.convert_units("K", "C"), lambda: W.convert_units(1, 2, 3), lambda: W.convert_units("K", "C", "x"), lambda: W.convert_units("K", "XX", 1.0),
            lambda: W.Vartable.get_bufr(), lambda: W.Vartable.get_bufr("nonexistent"), lambda: W.Vartable.get_crex(), lambda: W.Vartable.load_bufr("/nonexistent"),
            lambda: W.Vartable.load_crex(3), lambda: v < v, lambda: v.enqi(1), lambda: setattr(v, "code", 3), lambda: setattr(v, "info", i), lambda: i.nothing,
            lambda: W.Vartable.get_bufr(master_table_version_number="x"), lambda: W.Vartable.get_bufr(master_table_number=200, master_table_version_number=14),
            lambda: v.get_attrs(1), lambda: W.Var.enqi(3), lambda: W.Var.__init__(v), lambda: table["B01001\0x"] and Foreign()()][n]()


ABUSES = 53


def var(a):
    bt = wreport.Vartable.get_bufr(NAME)
    ct = wreport.Vartable.get_crex(NAME)
    slots = [None] * 4
    obs = []
    while a:
        op, x, y = a.pop(0), int(a.pop(0)) - 1, int(a.pop(0))
        v, w = slots[x], slots[y - 1] if y else None
        r = dict(st="ok", err="", n=[0, 0], dbl="0", tx=[], b=0, hk=0, va={"c": -1})
        table = None
        if op.startswith("new") or op in ("has", "ask"):
            kind, code = a.pop(0), text(int(a.pop(0)))
            table = bt if kind == "q" else ct
        arg = a.pop(0) if op in ("newi", "newbig", "newd", "newc", "news", "copyi", "copyd", "copys", "unseta", "enqa", "format", "bad") else None
        if op in ("newi", "newbig", "copyi"):
            given = int(arg)
        elif op in ("newd", "copyd"):
            given = float(arg)
        elif op == "newc":
            given = unhex(arg)
        elif op in ("news", "copys", "format"):
            given = unhex(arg).decode()
        elif op in ("unseta", "enqa"):
            given = text(int(arg))
        else:
            given = Foreign()
        # what the bindings are handed stays owned by the caller
        kept = [o for o in (v, None if w is v else w, table, given) if o is not None]
        before = [sys.getrefcount(o) for o in kept]
        try:
            if op == "new":
                slots[x] = wreport.Var(table[code])
            elif op in ("newi", "newbig"):
                slots[x] = wreport.Var(table[code], given)
            elif op == "newd":
                slots[x] = wreport.Var(varinfo=table[code], value=given)
            elif op == "newc":
                slots[x] = wreport.Var(table[code], given)
            elif op == "news":
                slots[x] = wreport.Var(table[code], given)
            elif op == "has":
                r["b"] = 1 if code in table else 0
            elif op == "ask":
                r["va"] = info(table[code])
            elif op == "copy":
                slots[x] = wreport.Var(w)
            elif op == "copyd":
                slots[x] = wreport.Var(varinfo=w, value=given)
            elif op in ("copyi", "copys"):
                slots[x] = wreport.Var(w, given)
            elif op == "drop":
                slots[x] = None
            elif op == "seta":
                v.seta(w)
            elif op == "unseta":
                v.unseta(given)
            elif op == "enqa":
                f = v.enqa(given)
                r["va"], r["b"] = show(f), 0 if f is None else 1
                f = None
            elif op == "setaa":
                raise SystemExit(3)
            elif op == "enqi":
                r["n"] = wide(v.enqi())
            elif op == "enqd":
                r["dbl"] = "%.15g" % v.enqd()
            elif op == "enqc":
                r["tx"] = tx(v.enqc())
            elif op == "enqt":
                typed(r, v.enq())
            elif op == "gett":
                typed(r, v.get(given), given)
            elif op == "isset":
                r["b"] = 1 if v.isset is True else 0 if v.isset is False else 2
            elif op == "format":
                r["tx"] = tx(v.format(given))
            elif op == "str":
                r["tx"] = tx(str(v))
            elif op == "repr":
                r["tx"] = tx(repr(v))
            elif op == "eq":
                b = v == w
                r["b"] = 1 if b is True else 0 if b is False else 2
                if (v != w) is b or (w == v) is not b:
                    r["b"] = 3
            elif op == "eqx":
                r["b"] = 1 if v == 3 or v == "x" or v == None or not v != 3 else 0
            elif op == "bad":
                abuse(int(arg), bt, v)
            else:
                sys.stderr.write("driver: bad op %s\n" % op)
                sys.exit(3)
        except OverflowError as e:
            r.update(st="err", err="domain")
        except Exception as e:
            r.update(st="err", err="other" if not isinstance(e, SystemError) else "system")
        e = None
        after = [sys.getrefcount(o) for o in kept]
        rc = sum(abs(n - o) for n, o in zip(after, before))
        if v is not None and slots[x] is not v:
            rc -= 1  # given back by its slot
        v = w = given = kept = o = None
        obs.append(dict(r=r, rc=rc, s=[show(s) for s in slots]))
    return dict(st="ok", obs=obs)


def conv(a):
    obs = []
    while a:
        f, t, v = unhex(a.pop(0)).decode("latin-1"), unhex(a.pop(0)).decode("latin-1"), float(a.pop(0))
        try:
            obs.append(dict(st="ok", r="%.17g" % wreport.convert_units(f, t, v)))
        except SystemError:
            obs.append(dict(st="system"))
        except Exception:
            obs.append(dict(st="err"))
    return dict(st="ok", obs=obs)


BUFR = dict(mt="master_table_number", mtv="master_table_version_number", ce="originating_centre", sc="originating_subcentre", lv="master_table_version_number_local")
CREX = dict(BUFR, ed="edition_number", bv="master_table_version_number_bufr")


def find1(a):
    op = a.pop(0)
    T = wreport.Vartable
    if op in "bc":
        keys = ["mt", "mtv", "ce", "sc", "lv"] if op == "b" else ["ed", "mt", "mtv", "ce", "sc", "lv", "bv"]
        kw = {(BUFR if op == "b" else CREX)[k]: int(x) for k, x in zip(keys, [a.pop(0) for _ in keys]) if x != "-"}
        f = lambda: T.get_bufr(**kw) if op == "b" else T.get_crex(**kw)
    else:
        x = a.pop(0)
        f = dict(n=lambda: T.get_bufr(x), m=lambda: T.get_crex(basename=x), l=lambda: T.load_bufr(x), L=lambda: T.load_bufr(pathname=x),
                 k=lambda: T.load_crex(x), K=lambda: T.load_crex(pathname=x))[op]
    try:
        t = f()
        if repr(t) != "Vartable('%s')" % t:
            return dict(st="repr")
        return dict(st="ok", path=os.fspath(t.pathname), get=str(t))
    except SystemError:
        return dict(st="system")
    except Exception:
        return dict(st="err")


def find(a):
    """the same as in the driver for C++: every process has its own tables"""
    obs = []
    for _ in range(int(a.pop(0))):
        dirs, n = [a.pop(0), a.pop(0)], int(a.pop(0))
        rd, wr = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if not pid:
            os.close(rd)
            for name, d in zip(("WREPORT_EXTRA_TABLES", "WREPORT_TABLES"), dirs):
                os.environ.pop(name, None)
                if d != "-":
                    os.environ[name] = d
            with os.fdopen(wr, "w") as f:
                json.dump([find1(a) for _ in range(n)], f)
            os._exit(0)
        os.close(wr)
        with os.fdopen(rd) as f:
            t = f.read()
        os.waitpid(pid, 0)
        obs += json.loads(t) if t else []
        for _ in range(n):
            k = dict(b=5, c=7).get(a.pop(0), 1)
            del a[:k]
    return dict(st="ok", obs=obs)


for line in sys.stdin:
    i, name, *args = line.split()
    sys.stdout.write("S %s\n" % i)
    sys.stdout.flush()
    res = dict(pyvar=var, conv=conv, pyfind=find)[name](args)
    sys.stdout.write("R %s %s\n" % (i, json.dumps(res)))
    sys.stdout.flush()
# without the interpreter's own teardown
os._exit(0)
