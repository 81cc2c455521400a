"""Runs commands through the conformance driver."""
import json, os, subprocess, concurrent.futures as cf
import build

ENV_ASAN = "detect_leaks=0:abort_on_error=0:exitcode=99:max_allocation_size_mb=3000:allocator_may_return_null=0:detect_stack_use_after_return=1"


class DriverError(Exception):
    pass


def _run_one(exe, lines, env, timeout):
    """lines: [(id, text)]; returns {id: obs}; restarts after crashes"""
    out = {}
    todo = list(lines)
    while todo:
        p = subprocess.Popen(exe if isinstance(exe, list) else [exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             env=env, text=True, encoding="latin-1")
        data = "".join("%s %s\n" % (i, t) for i, t in todo)
        try:
            so, se = p.communicate(data, timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            so, se = p.communicate()
        started = None
        for l in so.split("\n"):
            if l.startswith("S "):
                started = l[2:]
            elif l.startswith("R "):
                i, j = l[2:].split(" ", 1)
                out[i] = json.loads(j)
                started = None
        if p.returncode == 3:
            raise DriverError(se[-2000:])
        if started is not None:
            kind = "timeout" if p.returncode in (-14, -9) else "crash"
            out[started] = {"st": kind, "err": (se[-3000:] if kind == "crash" else "no answer"), "rc": p.returncode}
        elif p.returncode != 0 and len(out) < len(lines):
            raise DriverError("driver ended with %d: %s" % (p.returncode, se[-2000:]))
        todo = [(i, t) for i, t in todo if i not in out]
        if started is None and todo:
            raise DriverError("driver gave no answer for %s: %s" % (todo[0][0], se[-2000:]))
    return out


def environ(tables=None, extra=None, **kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith("WREPORT")}
    e["ASAN_OPTIONS"] = ENV_ASAN
    e["TZ"] = "UTC"
    e["LC_ALL"] = "C"
    if tables:
        e["WREPORT_TABLES"] = tables
    if extra:
        e["WREPORT_EXTRA_TABLES"] = extra
    e.update({k: str(v) for k, v in kw.items()})
    return e


def run(cmds, env, jobs=8, timeout=600):
    """cmds: list of command texts; returns the observations in order"""
    return _spread(build.driver(), cmds, env, jobs, timeout)


def run_py(cmds, env, jobs=8, timeout=600):
    """through the Python bindings"""
    d = build.python_module()
    env = dict(env)
    env["LD_PRELOAD"] = " ".join(subprocess.run(["gcc", "-print-file-name=" + x], stdout=subprocess.PIPE, text=True).stdout.strip() for x in ("libasan.so", "libubsan.so"))
    env["PYTHONMALLOC"] = "malloc"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    return _spread([build.PYTHON, "-S", os.path.join(build.VERIF, "harness", "pydriver.py"), d], cmds, env, jobs, timeout)


def _spread(exe, cmds, env, jobs, timeout):
    items = [(str(i), c) for i, c in enumerate(cmds)]
    jobs = max(1, min(jobs, (len(items) + 19) // 20))
    chunks = [items[k::jobs] for k in range(jobs)]
    res = {}
    with cf.ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(lambda c: _run_one(exe, c, env, timeout), chunks):
            res.update(r)
    return [res[str(i)] for i in range(len(cmds))]
