#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] | --replay FILE"""
import argparse, importlib, json, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.dont_write_bytecode = True
import build, tlc, drv
from ctx import Ctx

MODULES = {
    "C01": "p_bufr", "C02": "p_bufr", "C03": "p_bufr", "C04": "p_bufr", "C05": "p_bufr", "C06": "p_bufr", "C07": "p_bufr",
    "C08": "p_crex", "C09": "p_crex", "C10": "p_crex",
    "C11": "p_stream",
    "C21": "p_options", "C22": "p_inspect", "C23": "p_history", "C24": "p_history",
    "C25": "p_varcode", "C26": "p_python", "C27": "p_wrep", "C28": "p_var", "C29": "p_subset", "C30": "p_describe",
    "C19": "p_conv", "C20": "p_conv",
    "C16": "p_tables", "C17": "p_tables", "C18": "p_tables",
    "C12": "p_var", "C13": "p_var", "C14": "p_var", "C15": "p_var",
}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    try:
        if a.setup:
            build.driver()
            return 0
        if a.replay:
            return replay(a.replay)
        ctx = Ctx(a.prop, a.tier, a.seed)
        mod = importlib.import_module(MODULES[a.prop])
        getattr(mod, a.prop.lower())(ctx)
        return ctx.finish()
    except (build.BuildError, tlc.TlcError, drv.DriverError) as e:
        print("ERROR %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


def replay(path):
    """Judges a recorded run again, and shows what the specification prescribes"""
    r = json.load(open(path))
    if "case" not in r:
        print(json.dumps(r, indent=1))
        return 1
    case = r["case"]
    env = dict(r["env"], EXPLAIN="1")
    if "_tabs" in case:
        p = os.path.join(build.BUILD, "replay-tabs.json")
        json.dump(case["_tabs"], open(p, "w"))
        env["TABLES"] = p
    print("command:", case.get("_cmd", "")[:3000])
    print("observed:", json.dumps(case.get("obs"))[:3000])
    d = tlc.work()
    import shutil
    for f in os.listdir(tlc.SPEC):
        shutil.copy(os.path.join(tlc.SPEC, f), d)
    p = os.path.join(d, "c.ndjson")
    open(p, "w").write(json.dumps({a: b for a, b in case.items() if not a.startswith("_")}) + "\n")
    rc, out = tlc._java(["-config", r["spec"] + ".cfg", "-metadir", os.path.join(d, "m"), r["spec"] + ".tla"],
                        dict(os.environ, CASES=p, **env), d)
    shutil.rmtree(d, ignore_errors=True)
    import re, tlaval
    m = re.search(r'<<\s*"PRESCRIBED"', out)
    if m:
        v = tlaval.read(out, m.start())[1]
        print("prescribed:", json.dumps(v)[:8000] if len(sys.argv) < 4 else json.dumps(v))
        if isinstance(v, dict) and "outs" in v and "outs" in case.get("obs", {}):
            print("prescribed and observed differ:", tlaval.diff(v["outs"], case["obs"]["outs"])[:10])
    else:
        print(out[-3000:])
    return 1 if "REJECT" in out else 0


if __name__ == "__main__":
    sys.exit(main())
