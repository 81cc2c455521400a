"""Runs TLC: recorded runs against trace specifications, and model checking."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, tempfile
import build

SPEC = os.path.join(build.VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"


def classpath():
    # the wrapper on PATH knows where the community modules are
    try:
        txt = open(shutil.which("tlc")).read()
    except (TypeError, OSError, UnicodeDecodeError):
        return JAR
    m = re.search(r"-cp\s+\"?([^\"\s]+)\"?", txt)
    return m.group(1) if m else JAR


class TlcError(Exception):
    pass


def _java(args, env, cwd, heap="3g", timeout=840, workers=1):
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss512m", "-cp", classpath(), "tlc2.TLC",
           "-workers", str(workers), "-noGenerateSpecTE"] + args
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=timeout, errors="replace")
    return r.returncode, r.stdout


def stats(out):
    m = None
    for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", out):
        pass
    if not m:
        return 0, 0
    return int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))


def work():
    d = os.path.join(build.BUILD, "tlc")
    os.makedirs(d, exist_ok=True)
    return tempfile.mkdtemp(prefix="run-", dir=d)


def outside(out):
    """whether TLC stopped because what was recorded is nothing that the specification has a meaning for"""
    return ("Attempted to" in out or "java.lang.RuntimeException" in out) and not re.search(r"OutOfMemory|StackOverflow|history applies", out)


def culprit(spec, cases, extra_env, timeout, budget=24):
    """the recorded run that has no meaning, which therefore is none of those prescribed: it is looked for by halves"""
    d = work()
    try:
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(SPEC, f), d)

        def fails(cs, k):
            p = os.path.join(d, "cases.ndjson")
            with open(p, "w") as f:
                for c in cs:
                    f.write(json.dumps({a: b for a, b in c.items() if not a.startswith("_")}) + "\n")
            rc, out = _java(["-config", spec + ".cfg", "-metadir", os.path.join(d, "m%d" % k), spec + ".tla"], dict(os.environ, CASES=p, **(extra_env or {})), d, timeout=timeout)
            return rc != 0 and outside(out)
        k = 0
        # the first ones left are the likely ones
        n = 16
        while cases:
            head = cases[:n]
            k += 1
            if fails(head, k):
                break
            cases, n = cases[n:], n * 4
            if k > budget:
                return None
        else:
            return None
        while len(head) > 1:
            h = head[:len(head) // 2]
            k += 1
            head = h if fails(h, k) else head[len(head) // 2:]
            if k > budget:
                return None
        return head[0]["id"] if fails(head, k + 1) else None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check_traces(spec, cases, extra_env=None, jobs=8, timeout=840):
    """Judges the cases (dicts with a unique integer id) with trace specification `spec`.
    Returns (set of rejected ids, generated, distinct)"""
    if not cases:
        return set(), set(), 0, 0
    d = work()
    try:
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(SPEC, f), d)
        # balance by size
        order = sorted(cases, key=lambda c: -c.get("_size", 1))
        jobs = max(1, min(jobs, (len(cases) + 9) // 10))
        parts = [[] for _ in range(jobs)]
        load = [0] * jobs
        for c in order:
            k = load.index(min(load))
            parts[k].append(c)
            load[k] += c.get("_size", 1)

        def one(k):
            p = os.path.join(d, "cases%d.ndjson" % k)
            with open(p, "w") as f:
                for c in parts[k]:
                    f.write(json.dumps({a: b for a, b in c.items() if not a.startswith("_")}) + "\n")
            env = dict(os.environ, CASES=p, **(extra_env or {}))
            rc, out = _java(["-config", spec + ".cfg", "-metadir", os.path.join(d, "m%d" % k), spec + ".tla"], env, d, timeout=timeout)
            return k, rc, out
        rejected, skipped, gen, dist = set(), set(), 0, 0
        with cf.ThreadPoolExecutor(jobs) as ex:
            for k, rc, out in ex.map(one, range(jobs)):
                acc = set(int(x) for x in re.findall(r'<<"ACCEPT", (\d+)>>', out))
                rej = set(int(x) for x in re.findall(r'<<"REJECT", (\d+)>>', out))
                want = set(c["id"] for c in parts[k])
                skip = set(int(x) for x in re.findall(r'<<"SKIP", (\d+)>>', out))
                skipped |= skip
                if rc != 0 and not acc & rej and outside(out):
                    left = [c for c in parts[k] if c["id"] not in acc | rej | skip]
                    bad = culprit(spec, left, extra_env, timeout)
                    if bad is not None:
                        rejected |= rej | {bad}
                        continue
                if rc != 0 or acc | rej | skip != want or acc & rej:
                    miss = sorted(want - acc - rej - skip)[:5]
                    i = out.find("Error")
                    raise TlcError("TLC %s rc=%d, unjudged cases %s\n%s" % (spec, rc, miss, out[max(0, i):max(0, i) + 4000]))
                rejected |= rej
                g, s = stats(out)
                gen += g
                dist += s
        return rejected, skipped, gen, dist
    finally:
        shutil.rmtree(d, ignore_errors=True)


def model_check(spec, cfg, workers=8, timeout=840, heap="8g", args=(), env=None):
    """Exhaustive model checking; returns (ok, generated, distinct, output)"""
    d = work()
    try:
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(SPEC, f), d)
        rc, out = _java(["-config", cfg, "-metadir", os.path.join(d, "m")] + list(args) + [spec + ".tla"],
                        dict(os.environ, **(env or {})), d, heap=heap, timeout=timeout, workers=workers)
        g, s = stats(out)
        return rc == 0, g, s, out
    finally:
        shutil.rmtree(d, ignore_errors=True)
