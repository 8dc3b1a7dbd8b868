"""C11: file faults. Real tool processes and library calls under every fault of an enumerated space; a run that ends with 0 must have
produced exactly what the fault-free run produces."""
import base64, itertools, json, os, random, re, shutil, signal, stat, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from . import build, refl

NOBODY = 65534
DUMPS = ["--dump", "--dump-fqn", "--dump-sum", "--dump-all", "--dump-ext", "--dump-ext-fqn", "--dump-ext-sum", "--dump-ext-all", "--stats"]
FAILED = "ends with 0 although %s"

class Ctx:
    def __init__(self, rep):
        p = build.project()
        lib = build.harness("c11lib", san=[])
        self.top = tempfile.mkdtemp(prefix="vp-c11-", dir="/tmp")
        os.chmod(self.top, 0o755)
        self.exe = {}
        for n, f in (("crefltool", p + "/crefltool"), ("asn1tool", p + "/asn1tool"), ("lib", lib)):
            self.exe[n] = os.path.join(self.top, n)
            shutil.copy2(f, self.exe[n])
            os.chmod(self.exe[n], 0o755)
        self.so = p + "/libcrefl.so"
        self.first, self.base = map(int, subprocess.run([lib, "info"], stdout=subprocess.PIPE, check=True).stdout.split())
        self.notes = set()
        self.cache = {}
        self.n = itertools.count()
        self.can_setuid = subprocess.run(["setpriv", "--reuid", str(NOBODY), "--regid", str(NOBODY), "--clear-groups", "true"], stderr=subprocess.DEVNULL).returncode == 0
        t = os.path.join(self.top, "probe")
        self.can_strace = subprocess.run(["strace", "-o", "/dev/null", "-e", "inject=openat:error=EACCES:when=300", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0

    def close(self):
        shutil.rmtree(self.top, ignore_errors=True)

    def clang(self):
        return [build.LLVM + "/bin/clang", "-c", "-w", "-Xclang", "-load", "-Xclang", self.so, "-Xclang", "-plugin", "-Xclang", "crefl"]

# ---- inputs

def image(ctx, rng, ndecl, namelen=8):
    """a valid image with one source of ndecl structs"""
    nodes = [[refl.T["source"], 0, "s%d.h" % rng.randrange(1000), 0, 0, 0, 0]]
    prev = None
    for i in range(ndecl):
        nodes.append([refl.T["struct"], 0, "t%d_%s" % (i, "x" * rng.randrange(namelen)), 0, 0, 0, 0])
        me = len(nodes) - 1
        if prev is None:
            nodes[0][4] = ctx.first + me
        else:
            nodes[prev][3] = ctx.first + me
        prev = me
        last = None
        for k in range(rng.randrange(1, 4)):
            nodes.append([refl.T["field"], 0, "f%d" % k, 0, rng.choice([5, 6, 9, 10, 11, 12]), 0, 0])
            if last is None:
                nodes[me][4] = ctx.first + len(nodes) - 1
            else:
                nodes[last][3] = ctx.first + len(nodes) - 1
            last = len(nodes) - 1
    return refl.write(nodes, ctx.first, ctx.base)

def der(rng, depth=0, room=60):
    if depth < 5 and rng.random() < (0.9 if depth == 0 else 0.4):
        body = b"".join(der(rng, depth + 1, room) for _ in range(rng.randrange(1, 5)))
        tag = 0x30
    else:
        tag = rng.choice([0x02, 0x04, 0x0c, 0x13])
        body = bytes(rng.randrange(32, 126) for _ in range(rng.randrange(1, room)))
    n = len(body)
    ln = bytes([n]) if n < 128 else bytes([0x81, n]) if n < 256 else bytes([0x82, n >> 8, n & 255]) if n < 65536 else bytes([0x83, n >> 16, n >> 8 & 255, n & 255])
    return bytes([tag]) + ln + body

# ---- one run

def run_case(ctx, c):
    """c: dict(tool, cmd, inputs=[bytes], fault={...}); returns (status, output, triggered)"""
    f = c["fault"]
    k = f.get("kind", "none")
    d = os.path.join(ctx.top, "w%d" % next(ctx.n))
    os.mkdir(d, 0o755)
    try:
        # the same paths are used with and without a fault: the run happens in w/
        w = os.path.join(d, "w")
        os.mkdir(w, 0o755)
        nobody = False
        ins = []
        stdin = subprocess.DEVNULL
        feed = None
        for i, b in enumerate(c["inputs"]):
            n = os.path.join("i%d.in" % i if c["tool"] not in ("plugin", "wrapper") else "i%d.h" % i)
            p = os.path.join(w, n)
            if k.startswith("in:") and f["at"] == i:
                kk = k[3:]
                if kk == "missing":
                    b = None
                elif kk == "dir":
                    os.mkdir(p); b = None
                elif kk == "procdir":
                    n = "/proc/self/fdinfo"; b = None
                elif kk == "notdir":
                    n = n + "/x"
                elif kk == "loop":
                    os.symlink(n, p); b = None
                elif kk == "fifo":
                    feed = b; n = "/dev/stdin"; b = None
                elif kk == "trunc":
                    b = b[:f["n"]]
                elif kk == "bytes":
                    b = base64.b64decode(f["b"])
                elif kk == "unreadable":
                    nobody = True
            if b is not None:
                with open(p, "wb") as o:
                    o.write(b)
                os.chmod(p, 0o644)
                if k == "in:unreadable" and f["at"] == i:
                    os.chmod(p, 0o600)
            ins.append(n)
        out = "out.o"
        op = os.path.join(w, out)
        to_file = c["tool"] == "plugin" and c["cmd"] == "" or c["tool"] == "wrapper" or c["cmd"] in ("--merge", "--emit", "write")
        limit = []
        sofile = os.path.join(d, "so")
        so = None
        if k == "out:nodir":
            out = "no/such/out.o"
        elif k == "out:isdir":
            os.mkdir(op)
        elif k == "out:unwritable":
            nobody = True
            with open(op, "wb"):
                pass
            os.chmod(op, 0o444)
        elif k == "out:denied":
            nobody = True
        elif k == "out:full":
            if to_file:
                out = "/dev/full"
            else:
                so = "/dev/full"
        elif k == "out:limit":
            limit = ["prlimit", "--fsize=%d:%d" % (f["n"], f["n"])]
        elif k == "out:closed":
            so = "closed"
        if c["tool"] == "plugin":
            cmd = ctx.clang()
            for a in f["args"] if k == "usage" else ["-o", out] if c["cmd"] == "" else [c["cmd"]]:
                cmd += ["-Xclang", "-plugin-arg-crefl", "-Xclang", a]
            cmd.append(ins[0])
        elif c["tool"] == "wrapper":
            cmd = [build.REPO + "/scripts/creflcc.py", "-p", os.path.dirname(ctx.so), "-o", out] + c["cmd"].split() + ins
        elif k == "usage":
            cmd = [ctx.exe[c["tool"]]] + [ins[0] if a == "IN" else a for a in f["args"]]
        elif c["tool"] == "lib":
            cmd = [ctx.exe["lib"], c["cmd"], out if c["cmd"] == "write" else ins[0]]
        elif c["cmd"] == "--merge" or c["cmd"] == "--emit":
            cmd = [ctx.exe[c["tool"]], c["cmd"], out] + ins
        else:
            cmd = [ctx.exe[c["tool"]], c["cmd"]] + ins
        tr = os.path.join(d, "tr")
        if nobody:
            cmd = ["setpriv", "--reuid", str(NOBODY), "--regid", str(NOBODY), "--clear-groups"] + cmd
        cmd = limit + cmd
        if k in ("sys", "record"):
            paths = []
            for p in [os.path.join(w, n) for n in ins] + ins + ([op, out] if to_file else [sofile]):
                paths += ["-P", p]
            st = ["strace", "-f", "-y", "-o", tr] + paths
            if k == "sys":
                st += ["-e", "inject=%s:%s:when=%d" % (f["call"], f["how"], f["when"])]
            cmd = st + cmd
        env = dict(build.ENV, LD_LIBRARY_PATH=build.LLVM + "/lib", TMPDIR=d)
        if feed is not None:
            r, wfd = os.pipe()
            stdin = r
            if len(feed) > 60000:
                feed = feed[:60000]
            os.write(wfd, feed)
            os.close(wfd)
        if c["tool"] == "lib" and c["cmd"] == "write":
            stdin = open(os.path.join(w, ins[0]), "rb")
        if so == "closed":
            cmd = ["sh", "-c", 'exec "$0" "$@" >&-'] + cmd
        with open(so if so and so != "closed" else sofile, "wb") as o:
            p = subprocess.run(cmd, cwd=w, stdin=stdin, stdout=o, stderr=subprocess.DEVNULL, env=env, timeout=120, restore_signals=False)
        if feed is not None:
            os.close(r)
        data = b""
        if to_file:
            if os.path.isfile(op) and out == "out.o":
                with open(op, "rb") as i:
                    data = i.read()
        elif so is None:
            with open(sofile, "rb") as i:
                data = i.read()
        calls = []
        hit = False
        if os.path.exists(tr):
            with open(tr, errors="replace") as i:
                t = i.read()
            hit = "(INJECTED)" in t
            n = {}
            for l in t.splitlines():
                m = re.match(r"\d+\s+(\w+)\((.*)", l)
                if m and m.group(1) not in ("execve", "exit_group", "chdir"):
                    n[m.group(1)] = n.get(m.group(1), 0) + 1
                    a = m.group(2)
                    isout = to_file and (os.path.join(w, out) in l or '"%s"' % out in a)
                    calls.append((m.group(1), n[m.group(1)], a, isout))
        return p.returncode, data, hit, calls
    finally:
        shutil.rmtree(d, ignore_errors=True)

def reference(ctx, c):
    key = (c["tool"], c["cmd"], tuple(c["inputs"]))
    r = ctx.cache.get(key)
    if r is None:
        r = run_case(ctx, dict(c, fault={}))
        ctx.cache[key] = r
    return r

def judge(ctx, c):
    """None, or what is wrong"""
    ref = reference(ctx, c)
    if ref[0] != 0 or not ref[1]:
        return "the fault-free run ends with %d and %d octets of output" % (ref[0], len(ref[1]))
    st, data, hit, _ = run_case(ctx, c)
    c["hit"] = hit
    f = c["fault"]
    if st < 0 or st > 127:
        return "ended by signal %d" % (-st if st < 0 else st - 128)
    if st == 0:
        if f.get("must"):
            return "ends with 0 although " + f["must"]
        if data != ref[1]:
            return "ends with 0 but its output has %d octets (%s the fault-free run's %d)" % (len(data), "differing from" if len(data) == len(ref[1]) else "not", len(ref[1]))
        if f["kind"] == "sys" and hit and f.get("close"):
            return "ends with 0 although closing the output failed"
    return None

# ---- the space

def commands(imgs):
    for d in DUMPS:
        yield "crefltool", d, [imgs[0]]
    yield "crefltool", "--emit", [imgs[0]]
    yield "crefltool", "--merge", [imgs[0]]
    yield "crefltool", "--merge", imgs[:3]
    yield "lib", "read", [imgs[0]]
    yield "lib", "write", [imgs[0]]

def input_faults(ctx, rng, tool, n, b, i, every):
    """faults of input i (octets b); for a directory, pipe and the like anything but a false success is fine"""
    db = tool != "asn1tool"
    yield dict(kind="in:missing", at=i, must="input %d does not exist" % i)
    yield dict(kind="in:dir", at=i, must="input %d is a directory" % i)
    yield dict(kind="in:procdir", at=i, must="input %d is a directory (of size 0)" % i)
    yield dict(kind="in:notdir", at=i, must="the path of input %d leads through a file" % i)
    yield dict(kind="in:loop", at=i, must="input %d is a symbolic link to itself" % i)
    if not (tool == "lib" and n == "write"):
        yield dict(kind="in:fifo", at=i)
    if ctx.can_setuid:
        yield dict(kind="in:unreadable", at=i, must="input %d must not be read" % i)
    cuts = range(0 if db else 1, len(b)) if every else sorted({0 if db else 1, 1, 7, 8, 12, 19, 20, 21, len(b) - 1, len(b) // 2} | {rng.randrange(1, len(b)) for _ in range(6)})
    for k in cuts:
        if k < len(b):
            yield dict(kind="in:trunc", at=i, n=k, must="input %d is cut after %d of %d octets" % (i, k, len(b)))
    if db:
        for g in (b"x" * 20, b"\0" * 64, b"crefl001" + b[8:], b"#include <stdio.h>\n" * 20, bytes(rng.randrange(256) for _ in range(200)), b[8:], b[:8] + b"\xff" * 8 + b[16:], b"\x7fELF" + b):
            yield dict(kind="in:bytes", at=i, b=base64.b64encode(g).decode(), must="input %d is not a database" % i)

def cases(ctx, rng, deep):
    small = [image(ctx, rng, 1), image(ctx, rng, 1), image(ctx, rng, 2)]
    mid = [image(ctx, rng, 8, 30), image(ctx, rng, 5, 30), image(ctx, rng, 3, 30)]
    big = [image(ctx, rng, 900, 60), image(ctx, rng, 60, 60), image(ctx, rng, 400, 40)]
    ders = [b"\x30\x03\x02\x01\x05"] + sorted((der(rng) for _ in range(6)), key=len)
    cmds = [("s",) + c for c in commands(small)] + [("m",) + c for c in commands(mid)] + [("b",) + c for c in commands(big)]
    cmds += [("s" if len(x) < 300 else "m", "asn1tool", "--dump", [x]) for x in ders]
    # inputs
    for z, tool, cmd, ins in cmds:
        if tool == "lib" and cmd == "write":
            continue
        for i, b in enumerate(ins):
            every = z == "s" and (deep or cmd in ("--dump", "--stats", "--merge", "read") ) or (z == "m" and deep)
            for f in input_faults(ctx, rng, tool, cmd, b, i, every):
                yield dict(tool=tool, cmd=cmd, inputs=ins, fault=f)
    # outputs
    for z, tool, cmd, ins in cmds:
        if cmd == "read":
            continue
        c = dict(tool=tool, cmd=cmd, inputs=ins)
        if cmd in ("--emit", "--merge", "write"):
            yield dict(c, fault=dict(kind="out:nodir", must="the output's directory does not exist"))
            yield dict(c, fault=dict(kind="out:isdir", must="the output is a directory"))
            if ctx.can_setuid:
                yield dict(c, fault=dict(kind="out:unwritable", must="the output is write protected"))
                yield dict(c, fault=dict(kind="out:denied", must="the output's directory is write protected"))
        else:
            yield dict(c, fault=dict(kind="out:closed", must="standard output is closed"))
        yield dict(c, fault=dict(kind="out:full", must="there is no space for the output"))
        ref = reference(ctx, c)
        n = len(ref[1])
        if z == "s" and n < 6000 and (deep or cmd in ("--emit", "--merge", "write", "--dump", "--stats")):
            lim = range(0, n, 1 if n < 900 or deep else 3)
        else:
            lim = sorted({0, 1, 511, 512, 4095, 4096, 4097, 8192, n // 2, n - 1, n - 2, n - n % 4096, (n - n % 4096) - 1} | {rng.randrange(n) for _ in range(40 if deep else 8)})
        for k in lim:
            if 0 <= k < n:
                yield dict(c, fault=dict(kind="out:limit", n=k, must="the output is cut after %d of %d octets" % (k, n)))
        yield dict(c, fault=dict(kind="out:limit", n=n))
    # system calls
    if ctx.can_strace:
        def rec(x):
            z, tool, cmd, ins = x
            return x, run_case(ctx, dict(tool=tool, cmd=cmd, inputs=ins, fault=dict(kind="record")))[3]
        with ThreadPoolExecutor(8) as ex:
            recs = list(ex.map(rec, cmds))
        for (z, tool, cmd, ins), calls in recs:
            many = {}
            for name, when, args, isout in calls:
                many[name] = many.get(name, 0) + 1
                if many[name] > (200 if deep else 12):
                    continue
                if name in ("open", "openat"):
                    hows = ["error=EACCES", "error=EMFILE", "error=EIO"]
                elif name in ("read", "pread64", "readv"):
                    hows = ["error=EIO", "error=EISDIR", "retval=0"]
                elif name in ("write", "pwrite64", "writev"):
                    hows = ["error=ENOSPC", "error=EIO", "error=EDQUOT"]
                elif name in ("close", "fsync", "fdatasync", "ftruncate"):
                    hows = ["error=EIO", "error=ENOSPC"]
                elif name in ("fstat", "newfstatat", "statx", "lseek", "mmap", "stat"):
                    hows = ["error=EIO"]
                else:
                    continue
                for h in hows:
                    f = dict(kind="sys", call=name, how=h, when=when)
                    if isout and name == "close":
                        f["close"] = 1
                    yield dict(tool=tool, cmd=cmd, inputs=ins, fault=f)
    # wrong command lines
    for args in ([], ["IN"], ["--dump"], ["--no-such-command", "IN"], ["--emit", "out.o"], ["-o", "out.o", "IN"], ["--merge"]):
        yield dict(tool="crefltool", cmd="--dump", inputs=[small[0]], fault=dict(kind="usage", args=args, must="the command line is %s" % args))
    for args in (["-o"], ["-wrong"], ["-o", "out.o", "-wrong"], ["-dump", "-o"], ["-wrong", "-o", "out.o"], ["out.o"]):
        yield dict(tool="plugin", cmd="", inputs=[b"struct s { int a; };\n"], fault=dict(kind="usage", args=args, must="the options of the plug-in are %s" % args))
    # the plug-in
    hs = [b"struct s { int a; };\n", b"".join(b"struct t%d { long a_%s; };\n" % (i, b"y" * rng.randrange(40)) for i in range(200))]
    for h in hs:
        c = dict(tool="plugin", cmd="-dump", inputs=[h])
        n = len(reference(ctx, c)[1])
        yield dict(c, fault=dict(kind="out:full", must="there is no space for the output"))
        yield dict(c, fault=dict(kind="in:missing", at=0, must="the header does not exist"))
        for k in sorted({0, 1, 20, n // 2, n - 1} | {rng.randrange(n) for _ in range(20 if deep else 3)}):
            yield dict(c, fault=dict(kind="out:limit", n=k, must="the output is cut after %d of %d octets" % (k, n)))
        c = dict(tool="plugin", cmd="", inputs=[h])
        for f in (dict(kind="out:nodir", must="the output's directory does not exist"), dict(kind="out:isdir", must="the output is a directory"),
                  dict(kind="out:full", must="there is no space for the output"), dict(kind="in:missing", at=0, must="the header does not exist")):
            yield dict(c, fault=f)
        errors = b"".join(b"unknown_t v%d;\n" % i for i in range(rng.choice([19, 20, 21, 40])))      # the plug-in does not report these
        for t in (b'#include "nothere.h"\n' + h, h + b'#include "nothere.h"\n', errors + h + b'#include "nothere.h"\n', errors * 3 + b'#include "nothere.h"\n' + h, b"#include <vp/not/there>\n", h + b'#include "/"\n'):
            yield dict(c, fault=dict(kind="in:bytes", at=0, b=base64.b64encode(t).decode(), must="an included file cannot be read"))
        if ctx.can_setuid:
            yield dict(c, fault=dict(kind="out:denied", must="the output's directory is write protected"))
        n = len(reference(ctx, c)[1])
        for k in sorted({0, 1, 20, n // 2, n - 1} | {rng.randrange(n) for _ in range(20 if deep else 3)}):
            yield dict(c, fault=dict(kind="out:limit", n=k, must="the output is cut after %d of %d octets" % (k, n)))
        if ctx.can_strace:
            for name, when, args, isout in run_case(ctx, dict(c, fault=dict(kind="record")))[3]:
                if isout and name in ("write", "writev", "close", "openat"):
                    f = dict(kind="sys", call=name, how="error=ENOSPC" if name != "openat" else "error=EACCES", when=when)
                    if name == "close":
                        f["close"] = 1
                    yield dict(c, fault=f)

    # the wrapper script
    for cmd, ins in (("", hs[:1]), ("--cpp", hs[:1]), ("", [hs[0], b"struct second { int a; } x;\n", b"enum third { one };\n"]), ("-M out.d", hs[:1])):
        c = dict(tool="wrapper", cmd=cmd, inputs=ins)
        for f in (dict(kind="out:nodir", must="the output's directory does not exist"), dict(kind="out:isdir", must="the output is a directory"),
                  dict(kind="out:full", must="there is no space for the output")):
            yield dict(c, fault=f)
        for i in range(len(ins)):
            yield dict(c, fault=dict(kind="in:missing", at=i, must="header %d does not exist" % i))
            yield dict(c, fault=dict(kind="in:bytes", at=i, b=base64.b64encode(b"#include <vp/not/there>\n").decode(), must="an included file cannot be read"))
        n = len(reference(ctx, c)[1])
        for k in sorted({0, 1, 20, n // 2, n - 1} | {rng.randrange(n) for _ in range(20 if deep else 2)}):
            yield dict(c, fault=dict(kind="out:limit", n=k, must="the output is cut after %d of %d octets" % (k, n)))

def describe(c):
    f = c["fault"]
    what = f.get("must") or "%s %s" % (f["kind"], {k: v for k, v in f.items() if k not in ("kind", "must")})
    return "%s %s, inputs of %s octets: %s" % (c["tool"], c["cmd"], [len(x) for x in c["inputs"]], what)

def save(rep, c, msg, k):
    p = os.path.join(rep.rdir, "C11-%d.json" % k)
    with open(p, "w") as f:
        json.dump(dict(c, inputs=[base64.b64encode(x).decode() for x in c["inputs"]], message=msg), f)
    return p

def run(rep, part, opt):
    ctx = Ctx(rep)
    try:
        if "replay" in opt:
            with open(opt["replay"]) as f:
                c = json.load(f)
            c["inputs"] = [base64.b64decode(x) for x in c["inputs"]]
            m = judge(ctx, c)
            print(describe(c), "->", m or "as it should be")
            if m:
                rep.violation("replay", m, opt["replay"])
            return
        rng = random.Random("C11-%d" % rep.seed)
        sub, labels, samples, seen = {}, {}, [], set()
        todo = []
        for _ in range(3 if rep.thorough() else 1):
            todo += list(cases(ctx, rng, rep.thorough()))
        todo.sort(key=lambda c: (sum(map(len, c["inputs"])), c["fault"].get("n", 0)))
        def one(c):
            for attempt in (0, 1):
                try:
                    return judge(ctx, c)
                except (OSError, subprocess.TimeoutExpired) as e:
                    r = "did not end: %s" % e
            return r
        with ThreadPoolExecutor(12) as ex:
            res = list(ex.map(one, todo))
        kinds = {}
        for c, m in zip(todo, res):
            f = c["fault"]
            k = f["kind"] if f["kind"] != "sys" else "sys:" + f["call"]
            if f["kind"] == "sys" and not c.get("hit"):
                labels["fault not reached"] = labels.get("fault not reached", 0) + 1
            s = sub.setdefault("inputs" if k.startswith("in:") else "outputs" if k.startswith("out:") else "system calls", [0, set()])
            s[0] += 1
            if f["kind"] != "sys" or c.get("hit"):
                s[1].add(json.dumps([c["tool"], c["cmd"], [hash(x) for x in c["inputs"]], f], sort_keys=True))
            labels[k] = labels.get(k, 0) + 1
            labels[c["tool"] + " " + c["cmd"]] = labels.get(c["tool"] + " " + c["cmd"], 0) + 1
            if kinds.setdefault(k, 0) < 1:
                kinds[k] += 1
                samples.append(describe(c))
            if m:
                g = (c["tool"], c["cmd"] if c["tool"] != "crefltool" or c["cmd"] not in DUMPS else "dump", f["kind"])
                if g not in seen and len(seen) < 12:
                    if one(c):          # confirmed
                        seen.add(g)
                        rep.violation("faults", describe(c) + ": " + m, save(rep, c, m, len(seen)))
        for n, (e, d) in sub.items():
            rep.add(n, e, len(d))
        rep.add("all", 0, 0, labels, samples)
        del rep.sub["all"]
        if not ctx.can_strace:
            rep.notes.append("strace cannot be used here: no faults at single system calls")
        if not ctx.can_setuid:
            rep.notes.append("cannot change user here: no permission faults")
    finally:
        ctx.close()
