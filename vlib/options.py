"""C10: what the plug-in prints while it compiles is what the tool prints of the file, and neither printing nor debugging changes the file."""
import base64, hashlib, json, os, pickle, random, shutil, subprocess, tempfile
from concurrent.futures import ProcessPoolExecutor
from . import build, cgen, cxx, plug

def plugin(env, path, args, extra):
    cmd = [build.LLVM + "/bin/clang", "-c", "-w", *extra, "-Xclang", "-load", "-Xclang", env.so, "-Xclang", "-plugin", "-Xclang", "crefl"]
    for a in args:
        cmd += ["-Xclang", "-plugin-arg-crefl", "-Xclang", a]
    p = subprocess.run(cmd + [path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, env=dict(build.ENV, LD_LIBRARY_PATH=build.LLVM + "/lib"), timeout=60, cwd=os.path.dirname(path))
    return p.returncode, p.stdout

def unit(seed, n):
    """file name, text, options"""
    if n % 3 == 0:
        c = cxx.gen("opt%s" % seed, n)
        return c.file, cxx.render(c.items), [c.std] if c.std else []
    return random.Random("options-%s-%s" % (seed, n)).choice(["u.h", "u.c", "a b.c"]), cgen.render(plug.gen("C10", "opt%s" % seed, n)[0]), []

def examine(env, tool, u, top):
    d = tempfile.mkdtemp(dir=top)
    try:
        path = os.path.join(d, u[0])
        with open(path, "w") as f:
            f.write(u[1])
        if subprocess.run([build.LLVM + "/bin/clang", "-fsyntax-only", "-w", *u[2], path], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
            return None
        res = []
        for k, args in enumerate((["-o", "f0"], ["-o", "f1", "-dump"], ["-dump", "-debug", "-o", "f2"], ["-dump"])):
            st, out = plugin(env, path, args, u[2])
            if st:
                return "with the options %s the compiler ends with %d" % (" ".join(args), st)
            o = os.path.join(d, "f%d" % k)
            data = None
            if os.path.exists(o):
                with open(o, "rb") as f:
                    data = f.read()
            res.append((data, out))
        p = subprocess.run([tool, "--dump", os.path.join(d, "f0")], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60, env=build.ENV)
        if p.returncode:
            return "the tool cannot print the file"
        if res[0][0] is None or res[1][0] != res[0][0] or res[2][0] != res[0][0]:
            return "printing or debugging changes the file"
        if res[3][0] is not None:
            return "a file although none was asked for"
        if res[0][1]:
            return "something is printed although that was not asked for"
        for k in (1, 2, 3):
            if k != 2 and res[k][1] != p.stdout:
                a, b = res[k][1].decode("latin1").splitlines(), p.stdout.decode("latin1").splitlines()
                m = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                return "line %d: the plug-in prints %s, the tool %s" % (m, a[m:m + 1], b[m:m + 1])
        return ""
    finally:
        shutil.rmtree(d, ignore_errors=True)

def worker(a):
    env, tool, seed, lo, hi, top = a
    out = []
    for n in range(lo, hi):
        u = unit(seed, n)
        out.append((n, hashlib.sha256(repr(u).encode()).hexdigest()[:16], examine(env, tool, u, top), u[1][:300] if n % 41 == 0 else None))
    return out

def run(rep, part, opt):
    if "only" in opt:
        return
    env = plug.Env(rep.tmp)
    tool = build.project() + "/crefltool"
    top = tempfile.mkdtemp(dir=rep.tmp)
    if "replay" in opt:
        if not opt["replay"].endswith(".json"):
            return
        with open(opt["replay"]) as f:
            j = json.load(f)
        bad = examine(env, tool, (j["file"], j["text"], j["options"]), top)
        print("complaint:", bad)
        if bad:
            rep.violation("options", bad, opt["replay"])
        return
    total = int((part["thorough"] if rep.thorough() else part["quick"]) * float(opt.get("scale", 1)))
    seen, samples, n_, invalid, fails = set(), [], 0, 0, []
    with ProcessPoolExecutor(8) as ex:
        for out in ex.map(worker, [(env, tool, rep.seed, a, min(total, a + 5), top) for a in range(0, total, 5)]):
            for n, h, bad, text in out:
                if bad is None:
                    invalid += 1
                    continue
                n_ += 1
                seen.add(h)
                if text:
                    samples.append(text)
                if bad:
                    fails.append((n, bad))
            if len(fails) > 2:
                ex.shutdown(cancel_futures=True)
                break
    for k, (n, bad) in enumerate(fails[:2]):
        u = unit(rep.seed, n)
        if not examine(env, tool, u, top):
            continue
        # fewer lines
        lines = u[1].splitlines(True)
        i = 0
        while i < len(lines):
            q = (u[0], "".join(lines[:i] + lines[i + 1:]), u[2])
            if examine(env, tool, q, top):
                lines = lines[:i] + lines[i + 1:]
                u = q
            else:
                i += 1
        path = os.path.join(rep.rdir, "C10-options-%d.json" % k)
        with open(path, "w") as f:
            json.dump(dict(file=u[0], text=u[1], options=u[2], complaint=bad), f, indent=1)
        rep.violation("options", "unit %d: %s" % (n, bad), path)
    rep.add("options of the plug-in", n_, len(seen), {"units that a compiler rejects (discarded)": invalid}, samples[:6])
