"""C30: reflection as a part of a build.

Scratch CMake projects of one or two executables (generated programs as of embed.py, whose sources lie in several directories and include headers
of several include directories) use the project's macro (cmake/crefl_macro.cmake), with the plug-in and the tool of this tree in their build
directory.  After the first build and after each of a few edits (a header, a source, a source more or less or in another place) followed by a
build, the executable has to read its own objects through the reflection it is linked with."""
import base64, copy, hashlib, json, os, pickle, random, shutil, tempfile, time
from concurrent.futures import ProcessPoolExecutor
from . import build, embed

class Case:
    """generator, programs and, for each step, a list of programs"""

def gen(seed, n):
    r = random.Random("cmake-%s-%s" % (seed, n))
    c = Case()
    c.seed, c.n = seed, n
    c.make = r.randrange(4) == 0
    c.cc = r.choice(["gcc", build.LLVM + "/bin/clang"])
    c.targets = ["prog", r.choice(["other-prog", "t.2", "second_target"])][:r.choice([1, 1, 2])]
    ps = []
    for t, name in enumerate(c.targets):
        p = embed.gen("cmake-%s-%d" % (seed, t), n)
        while p.plain:
            p = embed.gen("cmake-%s-%d-%d" % (seed, t, r.randrange(1 << 30)), n)
        sp = "" if c.make else r.choice(["", "", " "])
        p.split = True
        p.incdir = "gen%d" % t
        inc = [r.choice(["inc%d_%d", "lib%d/include/%d", "i%d" + sp + "n/%d"]) % (t, k) for k in range(r.randint(1, 3))]
        p.includes = inc
        p.decoys = r.choice(["", "a%dz" % t, "zz%d" % t])
        if p.decoys:
            p.includes = inc + [p.decoys]
        p.dirs = {h[0]: r.choice(inc) for h in p.headers}
        srcdirs = [r.choice(["", "src%d/" % t, "src%d/deep/er/" % t, "s%d" % t + sp + "c/"]) for _ in range(2)]
        p.sources = [(r.choice(srcdirs) + r.choice(["p%d_%d.c", "%d" + sp + "x%d.c", "f-%d.%d.c"]) % (t, k), i, h) for k, (_, i, h) in enumerate(p.sources)]
        if len(p.sources) > 1 and r.randrange(3) == 0:      # the same name in another directory
            k = r.randrange(1, len(p.sources))
            p.sources[k] = ("other%d/" % t + os.path.basename(p.sources[0][0]),) + p.sources[k][1:]
        p.order = list(range(len(p.sources)))
        p.archive = name + ".refl"
        ps.append(p)
    c.steps = [ps]
    for k in range(r.choice([0, 1, 2, 3])):
        ps = copy.deepcopy(ps)
        edit(ps[r.randrange(len(ps))], r, k)
        c.steps.append(ps)
    return c

def edit(p, r, k):
    w = r.randrange(10)
    p.edit = "none"
    if w == 0 and len(p.sources) > 1:
        g = p.sources.pop(r.randrange(len(p.sources)))
        p.edit = "source removed: " + g[0]
    elif w == 1:
        r.shuffle(p.sources)
        p.edit = "sources in another order"
    elif w == 2:
        g = embed.Gen(r)
        g.n = 1000 * (k + 1)
        incs = [h[0] for h in p.headers if r.randrange(2)]
        g.visible = embed.visible(p, incs)
        p.sources.insert(r.randrange(len(p.sources) + 1), ("new%d_%d.c" % (k, r.randrange(1000)), g.items(r.choice([1, 2])), incs))
        p.edit = "source added"
    else:
        where = p.headers if p.headers and w < 8 else p.sources
        f, its, incs = r.choice(where)
        c = [i[1] for i in its if i[0] in ("rec", "enum")]
        if c:
            o = r.choice(c)
            if isinstance(o, embed.Enum):
                o.consts.insert(r.randrange(len(o.consts) + 1), ("KK%d" % k, o.consts[0][1]))
            elif len(o.members) > 1 and r.randrange(3) == 0 and sum(1 for m in o.members if m[0]) > 1:
                m = r.randrange(len(o.members))
                if not (sum(1 for x in o.members if x[0]) == 1 and o.members[m][0]):
                    del o.members[m]
            else:
                o.members.insert(r.randrange(len(o.members) + 1), ("added%d" % k, ("int",) + r.choice(embed.INTS), None))
            p.edit = "declaration changed in " + f
        elif where is p.sources:
            its.append(("var", "addedvar%d" % k, ("int",) + r.choice(embed.INTS)))
            p.edit = "variable added to " + f
    p.order = list(range(len(p.sources)))

def q(s):
    return '"%s"' % s if " " in s else s

def project_text(c, ps, tools):
    s = "cmake_minimum_required(VERSION 3.12)\nproject(scratch C CXX)\ninclude(%s/cmake/crefl_macro.cmake)\n" % build.REPO
    s += "add_custom_target(crefl)\nadd_custom_target(crefltool)\n"
    for name, p in zip(c.targets, ps):
        s += "add_executable(%s %s)\n" % (name, " ".join(q(x[0]) for x in p.sources))
        s += "target_include_directories(%s PRIVATE %s)\n" % (name, " ".join(q(x) for x in p.includes + [p.incdir, embed.EMBED]))
        s += "crefl_target_reflect(%s %s_refl)\n" % (name, name)
        s += "target_link_libraries(%s %s/walk.o %s_refl %s/libc.a)\n" % (name, tools.lib, name, tools.lib)
        s += "set_target_properties(%s PROPERTIES LINKER_LANGUAGE CXX)\n" % name
    return s

def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path):
        with open(path) as f:
            if f.read() == text:
                return
    with open(path, "w") as f:
        f.write(text)

def examine(tools, c, top):
    """complaints, values, step; None if the program is not valid"""
    d = tempfile.mkdtemp(dir=top)
    try:
        b = os.path.join(d, "build" if c.n % 2 else "the build" if not c.make else "b")
        os.makedirs(b)
        os.symlink(build.REPO + "/scripts", os.path.join(d, "scripts"))
        for f in ("libcrefl.so", "crefltool"):
            shutil.copy2(os.path.join(tools.dir, f), b)
        total = 0
        for step, ps in enumerate(c.steps):
            for p in ps:
                for x in p.includes:
                    os.makedirs(os.path.join(d, x), exist_ok=True)
                for f, s in embed.render(p).items():
                    put(os.path.join(d, f), s)
            put(os.path.join(d, "CMakeLists.txt"), project_text(c, ps, tools))
            what = "first build" if not step else "build after step %d (%s)" % (step, ", ".join(getattr(p, "edit", "none") for p in ps))
            if not step:
                rc, o = embed.call(["cmake", "-S", d, "-B", b, "-Wno-dev", "-G", "Unix Makefiles" if c.make else "Ninja", "-DCMAKE_C_COMPILER=" + c.cc, "-DCMAKE_CXX_COMPILER=g++",
                                    "-DCMAKE_C_FLAGS=-std=gnu11 -w -fno-strict-aliasing"], d)
                if rc:
                    return ["configuring the project ends with %d: %s" % (rc, o[-300:])], total, None
            rc, o = embed.call(["cmake", "--build", b, "-j2"], d)
            if rc:
                # is it the program?
                for p in ps:
                    for f in p.sources:
                        r2, o2 = embed.call([c.cc, "-std=gnu11", "-w", "-fsyntax-only"] + ["-I" + x for x in p.includes + [p.incdir, embed.EMBED]] + [f[0]], d)
                        if r2:
                            return None, total, o2
                return ["%s ends with %d: %s" % (what, rc, o[-400:])], total, None
            for name, p in zip(c.targets, ps):
                for f in ("true.txt", "seen.txt"):
                    if os.path.exists(os.path.join(d, f)):
                        os.unlink(os.path.join(d, f))
                rc, o = embed.call([os.path.join(b, name), "true.txt", "seen.txt"], d)
                bad, k = embed.compare(p, d, rc, o)
                total += k
                if bad:
                    return ["%s, %s: %s" % (what, name, bad[0])], total, None
        return [], total, None
    finally:
        shutil.rmtree(d, ignore_errors=True)

def shrink(c, failing):
    end = time.time() + 90
    changed = True
    while changed and time.time() < end:
        changed = False
        for k in range(len(c.steps)):
            if len(c.steps) > 1 and time.time() < end:
                q = copy.deepcopy(c)
                del q.steps[k]
                if failing(q):
                    c, changed = q, True
                    break
        if changed:
            continue
        for t in range(len(c.targets)):
            if len(c.targets) > 1 and time.time() < end:
                q = copy.deepcopy(c)
                del q.targets[t]
                for ps in q.steps:
                    del ps[t]
                if failing(q):
                    c, changed = q, True
                    break
        if changed:
            continue
        for t in range(len(c.targets)):                    # sources of the whole history
            for f in [x[0] for x in c.steps[0][t].sources]:
                q = copy.deepcopy(c)
                for ps in q.steps:
                    ps[t].sources = [x for x in ps[t].sources if x[0] != f]
                    ps[t].order = list(range(len(ps[t].sources)))
                if all(ps[t].sources for ps in q.steps) and time.time() < end and failing(q):
                    c, changed = q, True
                    break
    return c

def text(c, tools):
    return "\n".join("=== step %d\n%s\n%s" % (k, project_text(c, ps, tools), "\n".join("--- %s\n%s" % x for p in ps for x in embed.render(p).items()
                     if ".run.h" not in x[0])) for k, ps in enumerate(c.steps))

def worker(a):
    tools, seed, lo, hi, top = a
    out = []
    for n in range(lo, hi):
        c = gen(seed, n)
        bad, k, why = examine(tools, c, top)
        t = text(c, tools)
        out.append((n, hashlib.sha256(t.encode()).hexdigest()[:16], bad, k, len(c.steps), len(c.targets), c.make, [getattr(p, "edit", "") for ps in c.steps[1:] for p in ps], why, t[:400] if n % 7 == 0 else None))
        if bad:
            break
    return out

def run(rep, part, opt):
    tools = embed.Tools()
    top = tempfile.mkdtemp(dir=rep.tmp)
    if "replay" in opt:
        with open(opt["replay"]) as f:
            c = pickle.loads(base64.b64decode(json.load(f)["case"]))
        print(text(c, tools))
        bad, k, why = examine(tools, c, top)
        print("complaints:", bad, why or "")
        if bad:
            rep.violation("replay", bad[0], opt["replay"])
        return
    total = int((part["thorough"] if rep.thorough() else part["quick"]) * float(opt.get("scale", 1)))
    jobs = [(tools, rep.seed, a, min(total, a + 2), top) for a in range(0, total, 2)]
    seen, samples, evals, fails, invalid, labels = set(), [], 0, [], [], {}
    stop = time.time() + (100000 if rep.thorough() else 400)
    with ProcessPoolExecutor(8) as ex:
        for out in ex.map(worker, jobs):
            for n, h, bad, k, steps, targets, make, edits, why, t in out:
                evals += 1
                if bad is None:
                    invalid.append((n, why))
                    continue
                if k >= 3:
                    seen.add(h)
                for l, v in (("values compared", k), ("builds", steps), ("builds after an edit", steps - 1), ("projects of two targets", targets > 1), ("projects built with make", make),
                             ("edits of a header", sum(1 for e in edits if e.endswith(".h"))), ("edits of the list of sources", sum(1 for e in edits if e.startswith("source")))):
                    labels[l] = labels.get(l, 0) + int(v)
                if t:
                    samples.append(t)
                if bad:
                    fails.append(n)
            if len(fails) >= 3 or time.time() > stop:
                ex.shutdown(cancel_futures=True)
                break
    for k, n in enumerate(fails[:3]):
        c = gen(rep.seed, n)
        if not examine(tools, c, top)[0]:
            rep.notes.append("project %d failed once only" % n)
            continue
        c = shrink(c, lambda x: bool(examine(tools, x, top)[0]))
        bad = examine(tools, c, top)[0] or ["?"]
        path = os.path.join(rep.rdir, "C30-%d.json" % k)
        with open(path, "w") as f:
            json.dump(dict(text=text(c, tools), complaints=bad[:5], case=base64.b64encode(pickle.dumps(c)).decode()), f, indent=1)
        rep.violation("projects", "project %d: %s" % (n, bad[0]), path)
    if invalid:
        rep.notes.append("%d projects are not valid, such as %d: %s" % (len(invalid), invalid[0][0], (invalid[0][1] or "")[:200]))
    rep.add("projects", evals, len(seen), labels, samples[:12])
