"""Builds from /repo's current working tree into /verif/.build (cache keyed by content)."""
import glob, hashlib, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
LLVM = "/opt/llvm"
ENV = dict(os.environ, LC_ALL="C.UTF-8", PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")

class BuildError(Exception):
    pass

def run(cmd, timeout=600, env=None, cwd=None):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env or ENV, cwd=cwd)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode("utf8", "replace")[-6000:]))
    return r.stdout

def repo_files():
    out = []
    for top in ("src", "include", "tool", "cmake", "scripts", "data", "samples"):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds[:] = sorted(x for x in ds if not x.startswith("."))
            for f in sorted(fs):
                if not f.endswith((".pyc", ".refl")):
                    out.append(os.path.join(d, f))
    out.append(os.path.join(REPO, "CMakeLists.txt"))
    return out

_th = None
def tree_hash():
    global _th
    if _th is None:
        h = hashlib.sha256()
        for f in repo_files():
            h.update(f.encode() + b"\0")
            with open(f, "rb") as i:
                b = i.read()
            h.update(str(len(b)).encode() + b"\0" + b)
        _th = h.hexdigest()
    return _th

def key(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(repr(p).encode() + b"\0")
    return h.hexdigest()[:24]

def fread(p):
    with open(p, "rb") as f:
        return f.read()

def _prune(cache, keep=24):
    try:
        ds = sorted((os.path.join(cache, d) for d in os.listdir(cache)), key=os.path.getmtime)
        for d in ds[:-keep]:
            if time.time() - os.path.getmtime(d) > 3600:
                shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass

def cached(name, k, make):
    """directory .build/cache/name-k, made once by make(tmpdir)"""
    cache = os.path.join(BUILD, "cache")
    os.makedirs(cache, exist_ok=True)
    d = os.path.join(cache, "%s-%s" % (name, k))
    if os.path.isdir(d):
        return d
    _prune(cache)
    t = tempfile.mkdtemp(prefix="tmp-%s-" % name, dir=cache)
    try:
        make(t)
        try:
            os.rename(t, d)
        except OSError:
            if not os.path.isdir(d):
                raise
    finally:
        shutil.rmtree(t, ignore_errors=True)
    return d

SAN = ["-fsanitize=address,bounds", "-fno-sanitize-recover=all"]
SAN_DEC = ["-fsanitize=address,bounds,shift-exponent,integer-divide-by-zero,null,unreachable", "-fno-sanitize-recover=all"]
COMMON = ["-std=gnu++17", "-g", "-O1", "-fno-omit-frame-pointer", "-DNDEBUG", "-include", "cstdint", "-Wno-everything",
          "-I", REPO + "/include", "-I", REPO + "/src"]

def lib_sources():
    s = []
    for e in ("*.cc", "*.c", "*.cpp"):
        s += glob.glob(os.path.join(REPO, "src", e))
    out = []
    for f in sorted(s):
        if os.path.basename(f) == "reflect.cc":
            continue
        t = fread(f)
        if b"clang/" in t and (b"#include \"clang/" in t or b"#include <clang/" in t):
            continue
        out.append(f)
    return out

def sanlib(san=SAN, extra=()):
    """the library, sanitized: list of object files"""
    flags = COMMON + list(san) + list(extra)
    srcs = lib_sources()
    def make(t):
        def one(s):
            run(["clang++"] + (["-x", "c++"] if s.endswith(".c") else []) + flags + ["-c", s, "-o", os.path.join(t, os.path.basename(s) + ".o")])
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(one, srcs))
    d = cached("lib", key(tree_hash(), flags, srcs), make)
    return sorted(glob.glob(d + "/*.o"))

def toolobj(tool, san=SAN, extra=()):
    """a command line tool as an object with main and exit renamed, to be called in-process"""
    src = os.path.join(REPO, "tool", tool + ".cc")
    flags = COMMON + list(san) + list(extra)
    def make(t):
        o = os.path.join(t, "tool.o")
        run(["clang++"] + flags + ["-c", src, "-o", o])
        run(["objcopy", "--redefine-sym", "main=tool_main", "--redefine-sym", "exit=tool_exit", o])
    return os.path.join(cached("tool", key(tree_hash(), flags, src), make), "tool.o")

def tsan_works():
    """whether programs with ThreadSanitizer run in this environment at all"""
    with tempfile.TemporaryDirectory() as t:
        src = os.path.join(t, "t.cc")
        with open(src, "w") as f:
            f.write("#include <thread>\nint main() { std::thread t([]{}); t.join(); return 0; }\n")
        try:
            run(["clang++", "-fsanitize=thread", src, "-o", os.path.join(t, "t")])
            return subprocess.run([os.path.join(t, "t")], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60).returncode == 0
        except (BuildError, subprocess.SubprocessError):
            return False

def harness(name, san=SAN, extra=(), libs=(), tool=None):
    src = os.path.join(VERIF, "harness", name + ".cc")
    hdrs = sorted(glob.glob(os.path.join(VERIF, "harness", "*.h")))
    csrc = sorted(glob.glob(os.path.join(VERIF, "harness", name + "_*.c")))
    flags = COMMON + list(san) + list(extra) + ["-I", os.path.join(VERIF, "harness")]
    def make(t):
        with ThreadPoolExecutor(3) as ex:
            a = ex.submit(sanlib, san, extra)
            w = ex.submit(toolobj, tool, san, extra) if tool else None
            b = ex.submit(run, ["clang++"] + flags + ["-c", src, "-o", os.path.join(t, "h.o")])
            objs = a.result()
            b.result()
            if w:
                objs = objs + [w.result()]
        for i, f in enumerate(csrc):
            o = os.path.join(t, "c%d.o" % i)
            run(["clang"] + ["-std=gnu11" if x.startswith("-std=") else x for x in flags if x not in ("-include", "cstdint")] + ["-c", f, "-o", o])
            objs = objs + [o]
        run(["clang++"] + list(san) + list(extra) + [os.path.join(t, "h.o")] + objs + ["-o", os.path.join(t, "h")] + list(libs))
        os.unlink(os.path.join(t, "h.o"))
    d = cached(name, key(tree_hash(), flags, fread(src), [fread(h) for h in hdrs + csrc], libs, tool), make)
    return os.path.join(d, "h")

def project(targets=("crefl", "crefltool", "asn1tool"), cflags="", tag="plain", cc="/usr/bin/gcc", cxx="/usr/bin/g++"):
    """the project's own build (same configuration as the tests use) in a private directory; returns the directory"""
    def make(t):
        b = os.path.join(t, "b")
        env = dict(ENV, CC=cc, CXX=cxx, HOME="/root")
        run(["cmake", "-S", REPO, "-B", b, "-G", "Ninja", "-Wno-dev", "-DCMAKE_BUILD_TYPE=RelWithDebInfo",
             "-DLLVM_CONFIG=/opt/llvm/bin/llvm-config", "-DCMAKE_C_FLAGS=-Wno-error " + cflags,
             "-DCMAKE_CXX_FLAGS=-Wno-error -include cstdint " + cflags], env=env)
        run(["ninja", "-C", b] + list(targets), env=env, timeout=900)
        for f in targets:
            n = f if f != "crefl" else "libcrefl.so"
            shutil.copy2(os.path.join(b, n), os.path.join(t, n))
        shutil.rmtree(b)
    return cached("proj-" + tag, key(tree_hash(), targets, cflags, cc, cxx), make)
