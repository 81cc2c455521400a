"""Builds the library from /repo's working tree and the conformance driver."""
import fcntl, hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")


# the interpreter that has headers
PYTHON = "/usr/bin/python3"


class BuildError(Exception):
    pass


def _files(dirs, root):
    for d in dirs:
        p = os.path.join(root, d)
        if os.path.isfile(p):
            yield p
            continue
        for base, ds, fs in os.walk(p):
            ds[:] = sorted(x for x in ds if x not in ("_build", ".git", "__pycache__"))
            for f in sorted(fs):
                yield os.path.join(base, f)


def tree_hash(dirs, root, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in _files(dirs, root):
        h.update(os.path.relpath(p, root).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


LIB_SRC = ["wreport", "meson.build", "python", "src", "libwreport.pc.in", "doc/meson.build", "tables/meson.build"]

ASAN = ["--buildtype=plain", "-Db_sanitize=address", "-Db_lundef=false",
        "-Dcpp_args=-O1 -g1 -w -fno-omit-frame-pointer -fsanitize=bounds -fno-sanitize-recover=bounds"]
PLAIN = ["--buildtype=plain", "-Dcpp_args=-O1 -w"]


def _prune(prefix, keep):
    for n in os.listdir(BUILD):
        if n.startswith(prefix + "-") and n != keep:
            shutil.rmtree(os.path.join(BUILD, n), ignore_errors=True)


def _clean_pycache():
    pass


def library(kind="asan"):
    """Returns the build directory holding wreport/libwreport.a for this tree"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock-" + kind), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        name = "%s-%s" % (kind, tree_hash(LIB_SRC, REPO, kind))
        d = os.path.join(BUILD, name)
        if os.path.exists(os.path.join(d, ".done")):
            return d
        _prune(kind, name)
        shutil.rmtree(d, ignore_errors=True)
        opts = ASAN if kind == "asan" else PLAIN
        run(["meson", "setup", d, REPO, "--wrap-mode=nodownload", "-Dwerror=false"] + opts)
        targets = ["wreport/libwreport.a"]
        if kind == "plain":
            targets = []
            out = run(["ninja", "-C", d, "-t", "targets", "all"])
            targets = [l.split(":")[0] for l in out.splitlines()
                       if l.startswith("python/_wreport") and l.split(":")[0].endswith(".so")]
            targets.append("wreport/libwreport.a")
        run(["ninja", "-C", d] + targets)
        open(os.path.join(d, ".done"), "w").close()
        return d


def driver():
    """Builds the driver against the current library, returns its path"""
    lib = library("asan")
    with open(os.path.join(BUILD, ".lock-driver"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        src = os.path.join(VERIF, "harness")
        h = tree_hash(["harness"], VERIF, os.path.basename(lib))
        name = "driver-" + h
        d = os.path.join(BUILD, name)
        exe = os.path.join(d, "driver")
        if os.path.exists(exe):
            return exe
        _prune("driver", name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        flags = ["-std=c++17", "-O1", "-g1", "-w", "-fsanitize=address", "-fno-omit-frame-pointer",
                 "-I" + REPO, "-I" + lib, "-DHAVE_CONFIG_H"]
        flags += ["-I/usr/include/lua5.3"] if _needs_lua(lib) else []
        procs = []
        objs = []
        for f in sorted(os.listdir(src)):
            if not f.endswith(".cc"):
                continue
            o = os.path.join(d, f[:-3] + ".o")
            objs.append(o)
            procs.append((f, subprocess.Popen(["g++"] + flags + ["-c", os.path.join(src, f), "-o", o],
                                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for f, p in procs:
            out, _ = p.communicate()
            if p.returncode != 0:
                raise BuildError("compiling %s\n%s" % (f, out[-6000:]))
        libs = ["-llua5.3"] if _needs_lua(lib) else []
        tmp = exe + ".tmp"
        run(["g++", "-fsanitize=address", "-fsanitize=bounds", "-o", tmp] + objs +
            [os.path.join(lib, "wreport/libwreport.a")] + libs + ["-lpthread"])
        os.rename(tmp, exe)
        return exe


def wrep():
    """Builds the program, instrumented, returns its path"""
    d = library("asan")
    with open(os.path.join(BUILD, ".lock-asan"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        run(["ninja", "-C", d, "src/wrep"])
    return os.path.join(d, "src", "wrep")


def python_module():
    """Builds the Python module, instrumented, returns the directory it is in"""
    lib = library("asan")
    with open(os.path.join(BUILD, ".lock-py"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        name = "py-" + tree_hash(["python"], REPO, os.path.basename(lib))
        d = os.path.join(BUILD, name)
        so = os.path.join(d, "_wreport.so")
        if os.path.exists(so):
            return d
        _prune("py", name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        inc = run([PYTHON, "-c", "import sysconfig; print(sysconfig.get_paths()['include'])"]).strip()
        src = os.path.join(REPO, "python")
        objs, procs = [], []
        for f in sorted(_files(["python"], REPO)):
            if not f.endswith(".cc"):
                continue
            o = os.path.join(d, os.path.relpath(f, src).replace("/", "-")[:-3] + ".o")
            objs.append(o)
            procs.append((f, subprocess.Popen(["g++", "-std=c++17", "-O1", "-g1", "-w", "-fPIC", "-fsanitize=address", "-fno-omit-frame-pointer",
                                               "-I" + inc, "-I" + src, "-I" + REPO, "-I" + lib, "-DHAVE_CONFIG_H", "-c", f, "-o", o],
                                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for f, p in procs:
            out, _ = p.communicate()
            if p.returncode != 0:
                raise BuildError("compiling %s\n%s" % (f, out[-6000:]))
        libs = ["-llua5.3"] if _needs_lua(lib) else []
        run(["g++", "-shared", "-fsanitize=address", "-fsanitize=bounds", "-o", so + ".tmp"] + objs +
            [os.path.join(lib, "wreport/libwreport.a")] + libs + ["-lpthread"])
        os.rename(so + ".tmp", so)
        return d


def _needs_lua(lib):
    return _lua_flags(lib) is not None


def _lua_flags(lib):
    try:
        out = run(["nm", "-u", os.path.join(lib, "wreport/libwreport.a")])
    except BuildError:
        return None
    return True if "lua_" in out else None


if __name__ == "__main__":
    print(driver())
