"""C29: declarations that mean the same in C and in C++ are recorded alike in both modes.

Generated headers in the common subset (types, variables declared extern, function prototypes and inline functions) go through the wrapper script
twice: as C, and with --cpp as C++, where runs of declarations are additionally put into linkage blocks (extern "C" { }, nested, empty, or with
extern "C" on a single declaration).  The two databases have to describe the same declarations in the same order; only linkage may differ, and
what stands in an extern "C" block has to be marked so.  In C++ mode records may also have static members, methods and nested types, all called
vp_.., which change neither the other members nor their sizes and offsets."""
import base64, copy, hashlib, json, os, pickle, random, shutil, tempfile, time
from concurrent.futures import ProcessPoolExecutor
import re
from . import build, embed, layout, plug, refl

LINK = plug.P["extern_c"]

class Case:
    """items: as in embed, and ('fn', name, result type, [(name, type)], inline); blocks: for each item the linkage blocks opened / closed around it"""

def gen(seed, n):
    r = random.Random("cpp-%s-%s" % (seed, n))
    g = embed.Gen(r)
    c = Case()
    c.items = []
    c.file = r.choice(["u.h", "a b.h", "x.hpp", "y.c"])
    for _ in range(r.choice([1, 2, 3, 5, 8])):
        if r.randrange(3) == 0:
            t = scalar(g, r)
            c.items.append(("fn", g.fresh("f"), t, [(g.fresh("p") if r.randrange(6) else "", scalar(g, r)) for _ in range(r.randrange(4))], r.randrange(3) == 0))
        else:
            c.items += [i + (1,) if i[0] == "var" and not embed.has_const(i[2]) and r.randrange(3) == 0 else i for i in g.items(1)]      # (.., 1): static
    c.wrap = []                     # (first, last, kind): nested or disjoint ranges of items
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        a = r.randrange(len(c.items) + 1)
        b = r.randint(a, len(c.items))
        if all(x <= a and b <= y or b <= x or y <= a or a <= x and y <= b for x, y, _ in c.wrap):
            c.wrap.append((a, b, r.choice(["C", "C", "C", "C++"])))
    c.wrap.sort(key=lambda w: (w[0], -w[1]))
    c.extras = 0
    if r.randrange(2):
        def inside(t):
            while t[0] in ("q", "td", "arr", "ptr"):
                if t[0] in ("td", "ptr"):
                    return
                t = t[2]
            if t[0] == "rec":
                more(t[1])
        done = set()
        def more(o):
            if id(o) in done:
                return
            done.add(id(o))
            for m in o.members:
                inside(m[1])
            if o.name and r.randrange(2):
                o.extra = {}
                for _ in range(r.choice([1, 1, 2, 4])):
                    c.extras += 1
                    k = r.randrange(len(o.members) + 1)
                    n = c.extras
                    o.extra[k] = o.extra.get(k, "") + "\1" + r.choice([
                        "static int vp_%d;", "static %s *vp_%%d;" % o.name, "static %s vp_%%d;" % o.name, "static %s vp_%%d[3];" % o.name, "static const long vp_%d = 3;", "static inline long vp_%d = 1;", "inline static char vp_%d[3] = { 1 };", "static constexpr long vp_%d = 1, vp_%d_b[] = { 1, 2 };", "static thread_local long vp_%d;", "static thread_local inline char vp_%d = 1;", "void vp_%d() const;", "int vp_%d(int a, long b) { return a; }",
                        "static int vp_%d(void);", "typedef int vp_%d;", "enum vp_%d { vp_%d_a, vp_%d_b };", "enum class vp_%d : long { };", "struct vp_%d { int a; static long b; };", "struct vp_%d;", "friend struct vp_%d;", "using vp_%d = int;",
                        "public:", "static_assert(true, \"\");", "static char vp_%d, vp_%d_b[5];", "union vp_%d { char a; static double b; };", "%s &operator=(const %s &) = default;" % (o.name, o.name)]).replace("%d", str(n)) + " \2"
        for i in c.items:
            if i[0] == "rec":
                more(i[1])
    return c

def scalar(g, r):
    t = g.scalar(False)
    if t[0] == "rec" or r.randrange(4) == 0:
        t = ("ptr", "char", "byte")
    if r.randrange(6) == 0:
        recs = [o for k, o in g.visible if k == "rec" and o.name]
        if recs:
            t = ("rec", r.choice(recs))
    return t

def item(i):
    if i[0] == "fn":
        ps = ", ".join(embed.declare(t, n) for n, t in i[3]) or "void"
        # a result of an array type does not occur
        d = "%s%s" % ("static inline " if i[4] else "", embed.declare(i[2], "%s(%s)" % (i[1], ps)))
        return d + (" { for (;;); }\n" if i[4] else ";\n")
    if i[0] == "var":
        return "%s %s;\n" % ("static" if i[3:] else "extern", embed.declare(i[2], i[1]))
    return embed.item_text(i)

def render(c, cpp):
    out = []
    open_ = []
    for k in range(len(c.items) + 1):
        while open_ and open_[-1][1] <= k and open_[-1][0] < k:
            out.append("}\n")
            open_.pop()
        if cpp:
            for w in c.wrap:
                if w[0] == k:
                    out.append('extern "%s" {\n' % w[2])
                    if w[1] <= k:
                        out.append("}\n")
                    else:
                        open_.append(w)
        if k < len(c.items):
            out.append(item(c.items[k]))
    t = "".join(out)
    t = re.sub("\1(.*?)\2", r"\1" if cpp else "", t, flags=re.S)
    return t.replace("_Bool", "bool") if cpp else t

def in_c(c, k):
    """language linkage of item k in C++: that of the innermost block"""
    l = "C++"
    for a, b, kind in c.wrap:
        if a <= k < b:
            l = kind
    return l == "C"

def tree(db, i, depth=0, seen=()):
    """content of a declaration without its siblings; types that have names are leaves"""
    if i in plug.BIN or i == 0:
        return i
    x = db.n.get(i)
    if x is None:
        return "nothing"
    t = refl.TAGS[x.tag]
    if depth > 60 or i in seen:
        return "circle"
    s = seen + (i,)
    named = depth > 0 and t in ("struct", "union", "enum", "typedef") and x.name
    if named and not db.decl_at(i, seen):
        return (t, x.name)
    attrs = [tree(db, a.id, depth + 1, s) for a in db.chain(x.attr)]
    if t in plug.CONTAINERS:
        kids = [tree(db, k.id, depth + 1 if t != "source" else 0, s) for k in db.kids(x) if not extra(k)]
    else:
        kids = tree(db, x.link, depth + 1, s)
    return (t, x.name, x.props & ~(LINK | plug.P["static"] | plug.P["global"]) if t in ("function", "field") else x.props, x.qty, kids, attrs)

def extra(x):
    return x.name.startswith(("vp_", "operator="))

def sizes(db, ans):
    """of the records that have names, and of their members' places"""
    w, o, x = ans
    out = {}
    for n in db.n.values():
        if refl.TAGS[n.tag] in ("struct", "union") and n.name and not extra(n) and n.link:
            out[n.name] = (w.get(n.id), [(db.n[i].name if i else "", k) for i, k in o.get(n.id, [])])
    return out, x

class Db(plug.Db):
    def decl_at(self, i, seen):
        """the declaration stands among the members of the one that contains it"""
        p = self.n.get(seen[-1]) if seen else None
        return p is not None and refl.TAGS[p.tag] in plug.CONTAINERS and any(k.id == i for k in self.kids(p))

def differ(a, b, path=""):
    if type(a) is tuple and type(b) is tuple and len(a) == len(b):
        p = path + " / " + " ".join(str(x) for x in a[:2]) if a and isinstance(a[0], str) else path
        for x, y in zip(a, b):
            d = differ(x, y, p)
            if d:
                return d
        return None
    if type(a) is list and type(b) is list:
        for x, y in zip(a, b):
            d = differ(x, y, path)
            if d:
                return d
        return None if len(a) == len(b) else "%s: %d members in C, %d in C++" % (path, len(a), len(b))
    return None if a == b else "%s: %s in C, %s in C++" % (path, plug.cut(str(a)), plug.cut(str(b)))

def reflect(env, script, d, cpp, file):
    out = os.path.join(d, "out.refl")
    if os.path.exists(out):
        os.unlink(out)
    rc, o = embed.call([script, "-p", os.path.dirname(env.so), "-I", "."] + (["--cpp"] if cpp else []) + ["-o", "out.refl", file], d)
    return rc, embed.read(out), o

def examine(env, script, c, top, probe):
    d = tempfile.mkdtemp(dir=top)
    try:
        with open(os.path.join(d, "valid.cc"), "w") as f:
            f.write(render(c, True))
        with open(os.path.join(d, "valid.c"), "w") as f:
            f.write(render(c, False))
        for name, x in (("valid.cc", "c++"), ("valid.c", "c")):
            rc, o = embed.call([build.LLVM + "/bin/clang", "-fsyntax-only", "-w", "-x", x, name], d)
            if rc:
                return None, o
        dbs, answers = [], []
        for cpp in (False, True):
            # as C the wrapper leaves the language to the name of the file
            file = c.file if cpp or c.file[-1] != "p" else "x.h"
            with open(os.path.join(d, file), "w") as f:
                f.write(render(c, cpp))
            rc, data, o = reflect(env, script, d, cpp, file)
            if rc:
                return ["the wrapper ends with %d%s: %s" % (rc, " in C++ mode" if cpp else "", o[-200:])], None
            try:
                dbs.append(Db(data, env.base))
                ans, o = probe.ask(os.path.join(d, "out.refl"))
                if ans is None:
                    return ["%s: %s" % ("C++" if cpp else "C", o)], None
                answers.append(sizes(dbs[-1], ans))
            except (refl.Bad, ValueError) as e:
                return ["the database is not well-formed: %s" % e], None
        trees = []
        for db in dbs:
            r = db.n.get(db.root)
            if r is None or refl.TAGS[r.tag] != "source":
                return ["the root is not a source"], None
            trees.append([tree(db, k.id) for k in db.kids(r)])
        e = differ(*trees, "source")
        if e:
            return [e], None
        for m, x in answers:
            if x:
                return ["library: " + x[0]], None
        for k, v in answers[0][0].items():
            if answers[1][0].get(k) != v:
                return ["size and offsets of %s: %s in C, %s in C++" % (k, v, answers[1][0].get(k))], None
        for db, cpp in zip(dbs, (False, True)):
            flags = {x.name: x.props for x in db.kids(db.n[db.root]) if refl.TAGS[x.tag] in ("function", "field")}
            for k, i in enumerate(c.items):
                if i[0] in ("fn", "var"):
                    # what has internal linkage has no language linkage
                    static = i[0] == "fn" and i[4] or i[0] == "var" and bool(i[3:])
                    want = not static and (not cpp or in_c(c, k))
                    if bool(flags.get(i[1], 0) & LINK) != want:
                        return ["%s is %smarked extern \"C\" in %s" % (i[1], "not " if want else "", "C++" if cpp else "C")], None
        return [], None
    except refl.Bad as e:
        return [str(e)], None
    finally:
        shutil.rmtree(d, ignore_errors=True)

def cut(c, k):
    q = copy.deepcopy(c)
    del q.items[k]
    q.wrap = [(a - (a > k), b - (b > k), t) for a, b, t in q.wrap]
    return q

def shrink(c, failing):
    changed = True
    end = time.time() + 60
    while changed and time.time() < end:
        changed = False
        for k in range(len(c.wrap) - 1, -1, -1):
            q = copy.deepcopy(c)
            del q.wrap[k]
            if failing(q):
                c, changed = q, True
        for k in range(len(c.items) - 1, -1, -1):
            q = cut(c, k)
            if failing(q):
                c, changed = q, True
        for k, i in enumerate(c.items):
            if i[0] == "rec":
                for m in range(len(i[1].members) - 1, -1, -1):
                    q = copy.deepcopy(c)
                    del q.items[k][1].members[m]
                    if q.items[k][1].members and failing(q):
                        c, changed = q, True
    return c

def worker(a):
    env, script, seed, lo, hi, top, binary = a
    out = []
    probe = layout.Probe(binary)
    for n in range(lo, hi):
        c = gen(seed, n)
        bad, why = examine(env, script, c, top, probe)
        t = render(c, True)
        out.append((n, hashlib.sha256(t.encode()).hexdigest()[:16], len(c.items), len(c.wrap), c.extras, bad, why, t[:400] if n % 97 == 0 else None))
        if bad:
            break
    probe.close()
    return out

def run(rep, part, opt):
    env = plug.Env(rep.tmp)
    script = build.REPO + "/scripts/creflcc.py"
    top = tempfile.mkdtemp(dir=rep.tmp)
    binary = build.harness("c04probe")
    probe = layout.Probe(binary)
    if "replay" in opt:
        with open(opt["replay"]) as f:
            j = json.load(f)
        c = pickle.loads(base64.b64decode(j["case"]))
        bad, why = examine(env, script, c, top, probe)
        print(render(c, True))
        print("complaints:", bad, why or "")
        if bad:
            rep.violation("replay", bad[0], opt["replay"])
        return
    total = int((part["thorough"] if rep.thorough() else part["quick"]) * float(opt.get("scale", 1)))
    jobs = [(env, script, rep.seed, a, min(total, a + 10), top, binary) for a in range(0, total, 10)]
    seen, samples, evals, fails, invalid, labels = set(), [], 0, [], [], {}
    stop = time.time() + (100000 if rep.thorough() else 400)
    with ProcessPoolExecutor(8) as ex:
        for out in ex.map(worker, jobs):
            for n, h, k, w, x, bad, why, text in out:
                evals += 1
                if bad is None:
                    invalid.append((n, why))
                    continue
                seen.add(h)
                labels["items"] = labels.get("items", 0) + k
                labels["linkage blocks"] = labels.get("linkage blocks", 0) + w
                labels["members of C++ classes"] = labels.get("members of C++ classes", 0) + x
                if text:
                    samples.append(text)
                if bad:
                    fails.append(n)
            if len(fails) >= 3 or time.time() > stop:
                ex.shutdown(cancel_futures=True)
                break
    for k, n in enumerate(fails[:3]):
        c = gen(rep.seed, n)
        if not examine(env, script, c, top, probe)[0]:
            rep.notes.append("case %d failed once only" % n)
            continue
        c = shrink(c, lambda q: bool(examine(env, script, q, top, probe)[0]))
        bad = examine(env, script, c, top, probe)[0] or ["?"]
        path = os.path.join(rep.rdir, "C29-%d.json" % k)
        with open(path, "w") as f:
            json.dump(dict(c=render(c, False), cpp=render(c, True), complaints=bad, case=base64.b64encode(pickle.dumps(c)).decode()), f, indent=1)
        rep.violation("headers", "header %d: %s" % (n, bad[0]), path)
    labels["headers that a compiler rejects (discarded)"] = len(invalid)
    if invalid:
        rep.notes.append("rejected, such as %d: %s" % (invalid[0][0], (invalid[0][1] or "")[:200]))
    probe.close()
    rep.add("headers", evals, len(seen), labels, samples[:12])
