"""C08 / C09: generated C translation units through the compiler plug-in, the database read back with vlib/refl.py and compared with
the generator's own account of what the unit declares (vlib/cgen.py)."""
import base64, difflib, glob, hashlib, json, os, pickle, random, shutil, subprocess, tempfile, time
from concurrent.futures import ProcessPoolExecutor
from . import build, cgen, refl

P = dict(bitfield=1 << 9, const=1 << 10, volatile=1 << 11, restrict=1 << 12, static=1 << 13, extern_c=1 << 14, inline=1 << 15, noreturn=1 << 16,
         **{"global": 1 << 18, "out": 1 << 23, "vla": 1 << 24})
CVR = ("const", "volatile", "restrict")
BIN = {v: k for k, v in cgen.INTRINSIC.items()}

class Env:
    def __init__(self, top):
        self.so = build.project() + "/libcrefl.so"
        self.base = names_base()
        self.top = top

def names_base():
    # names of the built-in declarations come first in the table of every database; the first name of a file follows them
    return 1 + sum(len(n) + 1 for n in cgen.INTRINSIC)

def reflect(so, path, out, extra=(), env={}, cwd=None):
    """status, octets"""
    if os.path.exists(out):
        os.unlink(out)
    cmd = [build.LLVM + "/bin/clang", "-c", "-w", *extra]
    for a in ("-load", so, "-plugin", "crefl", "-plugin-arg-crefl", "-o", "-plugin-arg-crefl", out):
        cmd += ["-Xclang", a]
    try:
        p = subprocess.run(cmd + [path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(build.ENV, LD_LIBRARY_PATH=build.LLVM + "/lib", **env), timeout=60, cwd=cwd or os.path.dirname(out))
    except subprocess.TimeoutExpired:
        return -1, b"", "no end within a minute"
    data = b""
    if os.path.exists(out):
        with open(out, "rb") as f:
            data = f.read()
    return p.returncode, data, p.stdout.decode("utf8", "replace")

def valid_c(path, extra=()):
    return subprocess.run([build.LLVM + "/bin/clang", "-fsyntax-only", "-w", "-x", "c", *extra, path], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0

class Db:
    def __init__(self, data, base):
        self.n, self.root = refl.read(data, base)
    def chain(self, i):
        out, seen = [], set()
        while i:
            if i in seen or i not in self.n:
                raise refl.Bad("list of declarations runs in circles or leaves the database at %d" % i)
            seen.add(i)
            out.append(self.n[i])
            i = self.n[i].next
        return out
    def kids(self, x):
        return self.chain(x.link)

CONTAINERS = ("source", "struct", "union", "enum", "function")

def quoted(s):
    return '"%s"' % s if len(s) < 50 else '"%s..." (%d characters)' % (s[:40], len(s))

def cut(s):
    return s if len(s) < 160 else s[:150] + "..."

class Compare:
    """collects the differences; names: C08, types: C09"""
    def __init__(self, db, walk, srcname):
        self.db = db
        self.walk = walk
        self.c08 = []
        self.c09 = []
        self.node = {}        # id(Exp) -> node
        self.nodes_of = {}    # id(obj) -> ids of all its declarations
        r = db.n.get(db.root)
        if r is None or r.tag != refl.T["source"]:
            self.c08.append("the root is not a source")
            return
        if r.name != srcname:
            self.c08.append("the source is called %s, not %s" % (quoted(r.name), quoted(srcname)))
        if r.next:
            self.c08.append("the source has a sibling")
        self.pairs = []
        self.listing("the unit", db.kids(r), walk.children)
        want = {}
        def count(es):
            for e in es:
                want[e.tag] = want.get(e.tag, 0) + 1
                count(e.children)
        count(walk.children)
        have = {}
        for x in db.n.values():
            t = refl.TAGS[x.tag] if x.tag < len(refl.TAGS) else "?"
            have[t] = have.get(t, 0) + 1
        for t in ("struct", "union", "enum", "constant", "typedef", "function", "param", "field", "set", "archive", "alias"):
            if have.get(t, 0) != want.get(t, 0) and not self.c08:
                self.c08.append("the database has %d declarations of kind %s, the unit declares %d" % (have.get(t, 0), t, want.get(t, 0)))
        if have.get("source", 0) != 1:
            self.c08.append("%d sources" % have.get("source", 0))
        for e, x in self.pairs:
            self.types(e, x)
    def key(self, x):
        return (refl.TAGS[x.tag] if x.tag < len(refl.TAGS) else "?", x.name)
    def listing(self, where, nodes, exps):
        a = [self.key(x) for x in nodes]
        b = [(e.tag, e.name) for e in exps]
        if a != b:
            i = 0
            while i < len(a) and i < len(b) and a[i] == b[i]:
                i += 1
            got = "%s %s" % (a[i][0], quoted(a[i][1])) if i < len(a) else "the end"
            exp = "%s %s" % (b[i][0], quoted(b[i][1])) if i < len(b) else "the end"
            self.c08.append("%s: declaration %d of %d is %s, expected %s" % (where, i, len(b), got, exp))
            pairs = []
            for k, i1, i2, j1, j2 in difflib.SequenceMatcher(None, a, b, False).get_opcodes():
                if k == "equal":
                    pairs += zip(exps[j1:j2], nodes[i1:i2])
        else:
            pairs = list(zip(exps, nodes))
        for e, x in pairs:
            self.pairs.append((e, x))
            self.node[id(e)] = x
            if e.obj is not None and e.tag in ("struct", "union", "enum"):
                self.nodes_of.setdefault(id(e.obj), set()).add(x.id)
            self.one(where + " / " + e.tag + " " + (quoted(e.name) if e.name else "(unnamed)"), e, x)
    def one(self, where, e, x):
        if e.tag == "constant" and x.qty != e.qty:
            self.c08.append("%s: value %d, expected %d" % (where, x.qty, e.qty))
        for p in ("static", "extern_c", "inline", "noreturn", "global", "out"):
            if bool(x.props & P[p]) != (p in e.props):
                self.c08.append("%s: property %s is %s" % (where, p, "set" if x.props & P[p] else "missing"))
        got = []
        for a in self.db.chain(x.attr):
            if a.tag != refl.T["attribute"]:
                got.append(("?",))
                continue
            v = self.db.n.get(a.link)
            got.append((a.name,) if v is None else (a.name, v.qty if a.name == "aligned" else v.name))
        want = [(a[0], a[1] * 8) if a[0] == "aligned" else tuple(a) for a in e.attrs]
        if got != want:
            self.c08.append("%s: attributes %s, expected %s" % (where, cut(str(got)), cut(str(want))))
        if e.tag in CONTAINERS:
            self.listing(where, self.db.kids(x), e.children)
        if e.tag == "enum" and e.children and x.qty != e.qty:
            self.c09.append("%s: width %d, expected %d" % (where, x.qty, e.qty))
        if e.tag == "field":
            if bool(x.props & P["bitfield"]) != ("bitfield" in e.props):
                self.c09.append("%s: %s a bit-field" % (where, "is" if x.props & P["bitfield"] else "is not"))
            elif x.qty != e.qty:
                self.c09.append("%s: bit-field width %d, expected %d" % (where, x.qty, e.qty))
    def types(self, e, x):
        if e.type is None:
            return
        d = self.match(e.type, x.link, 0)
        if d:
            self.c09.append("%s %s: recorded as %s, declared as %s: %s" % (e.tag, quoted(e.name), cut(self.show(x.link)), cut(cgen.show(e.type)), d))
    def show(self, i, depth=0):
        if i in BIN:
            return BIN[i]
        x = self.db.n.get(i)
        if x is None or depth > 40:
            return "nothing (%d)" % i
        t = refl.TAGS[x.tag] if x.tag < len(refl.TAGS) else "?"
        ps = [p for p in ("const", "restrict", "static", "vla", "volatile") if x.props & P[p]]
        if t == "pointer":
            return "*" + self.show(x.link, depth + 1)
        if t == "array":
            return "[%s]" % ",".join([str(x.qty)] + ps) + self.show(x.link, depth + 1)
        if t == "qualifier":
            return " ".join(ps) + " " + self.show(x.link, depth + 1)
        return "%s %s" % (t, x.name or "(unnamed)")
    def match(self, s, i, depth):
        k = s[0]
        x = self.db.n.get(i)
        t = refl.TAGS[x.tag] if x is not None and x.tag < len(refl.TAGS) else None
        at = "" if not depth else " at level %d" % depth
        if k == "i":
            return None if i == cgen.INTRINSIC[s[1]] else "not %s%s" % (s[1], at)
        if k == "f":
            return None if i == 1 or t == "function" else "not a function%s" % at
        if k == "t":
            o = s[1]
            d = self.walk.defs.get(id(o))
            if d is None:
                return None if i == 1 or i in self.nodes_of.get(id(o), ()) else "does not lead to the declared type%s" % at
            if id(d) not in self.node:
                return None               # the declaration itself is not there: C08
            return None if self.node[id(d)].id == i else "does not lead to the declaration of %s %s%s" % (o.tagword, o.name or "(unnamed)", at)
        if x is None:
            return "nothing there%s" % at
        if k == "p":
            if t != "pointer":
                return "not a pointer%s" % at
            if x.qty != 64:
                return "pointer of %d bits%s" % (x.qty, at)
            return self.match(s[1], x.link, depth + 1)
        if k == "q":
            if t != "qualifier" or frozenset(p for p in CVR if x.props & P[p]) != s[1]:
                return "qualifiers differ%s" % at
            return self.match(s[2], x.link, depth + 1)
        if k == "a":
            if t != "array":
                return "not an array%s" % at
            if x.qty != s[1]:
                return "array of %d, not %d%s" % (x.qty, s[1], at)
            if frozenset(p for p in ("static", "vla") if x.props & P[p]) != s[2]:
                return "kind of array differs%s" % at
            return self.match(s[3], x.link, depth + 1)

def examine(pid, so, base, items, d, name="u.h", again=False):
    """list of complaints of this property; None if the unit is not a valid one"""
    w = cgen.expect(items)
    path = os.path.join(d, name)
    with open(path, "w") as f:
        f.write(cgen.render(items))
    st, data, msg = reflect(so, path, os.path.join(d, "u.refl"))
    bad = []
    if st != 0:
        bad = ["the compiler ends with %d: %s" % (st, cut(msg))]
    else:
        try:
            c = Compare(Db(data, base), w, name)
            bad = c.c08 if pid == "C08" else c.c09
        except (refl.Bad, ValueError) as e:
            bad = ["the database is not well-formed: %s" % e] if pid == "C08" else []
    if again and not bad and pid == "C08":
        d2 = os.path.join(d, "another directory")
        os.makedirs(d2, exist_ok=True)
        p2 = os.path.join(d2, name)
        shutil.copy(path, p2)
        if reflect(so, p2, os.path.join(d2, "o"))[1] != data:
            bad = ["a second run gives another database"]
    if bad and not valid_c(path):
        return None
    return bad

def gen(pid, seed, n):
    r = random.Random("%s-%s-%s" % ("unit", seed, n))
    g = cgen.Gen(r)
    return g.unit(r.choice([1, 2, 3, 5, 8, 12, 20, 30])), r

def worker(a):
    pid, so, base, seed, lo, hi, top = a
    d = tempfile.mkdtemp(dir=top)
    out = []
    try:
        for n in range(lo, hi):
            items, r = gen(pid, seed, n)
            w = cgen.expect(items)
            h = hashlib.sha256(cgen.render(items).encode()).hexdigest()[:16]
            tags = {}
            def count(es):
                for e in es:
                    tags[e.tag] = tags.get(e.tag, 0) + 1
                    if e.attrs:
                        tags["with attributes"] = tags.get("with attributes", 0) + 1
                    if e.type is not None and pid == "C09":
                        s, k = e.type, 0
                        while s[0] in ("p", "a", "q"):
                            s, k = s[-1], k + 1
                        k = "type depth %s" % (k if k < 4 else "4 and more")
                        tags[k] = tags.get(k, 0) + 1
                    count(e.children)
            count(w.children)
            bad = examine(pid, so, base, items, d, r.choice(["u.h", "unit.h", "x.c", "a b.h"]), r.randrange(8) == 0)
            out.append((n, h, len(items), tags, bad, cgen.render(items)[:300] if n % 97 == 0 else None))
            if bad:
                break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out

def save(rep, k, items, bad):
    p = os.path.join(rep.rdir, "%s-%d.json" % (rep.pid, k))
    with open(p, "w") as f:
        json.dump(dict(unit=cgen.render(items), complaints=bad[:10], items=base64.b64encode(pickle.dumps(items)).decode()), f, indent=1)
    return p

def headers(rep, env, d):
    """C08: real headers: no crash, a well-formed database, the same every time"""
    names = ["stdio.h", "stdlib.h", "string.h", "stdint.h", "math.h", "time.h", "signal.h", "errno.h", "unistd.h", "pthread.h", "sys/socket.h", "netinet/in.h", "netdb.h", "termios.h", "locale.h", "wchar.h",
             "setjmp.h", "complex.h", "sys/stat.h", "sys/mman.h", "dirent.h", "regex.h", "semaphore.h", "ucontext.h", "linux/io_uring.h", "linux/perf_event.h", "linux/bpf.h", "elf.h", "link.h", "sys/ptrace.h"]
    names = [n for n in names if glob.glob("/usr/include/" + n) or glob.glob("/usr/include/x86_64-linux-gnu/" + n)]
    r = random.Random("headers-%d" % rep.seed)
    sets = [[n] for n in names] + [r.sample(names, min(len(names), 6)) for _ in range(30 if rep.thorough() else 4)]
    done = 0
    for s in sets:
        path = os.path.join(d, "h.h")
        with open(path, "w") as f:
            f.write("".join("#include <%s>\n" % n for n in s))
        if not valid_c(path):
            continue
        a = reflect(env.so, path, os.path.join(d, "a"))
        b = reflect(env.so, path, os.path.join(d, "b"))
        done += 1
        msg = None
        if a[0]:
            msg = "the compiler ends with %d: %s" % (a[0], cut(a[2]))
        elif a[1] != b[1]:
            msg = "a second run gives another database"
        else:
            try:
                db = Db(a[1], env.base)
                if not db.kids(db.n[db.root]):
                    msg = "no declarations"
                for x in db.n.values():
                    for v in (x.next, x.link, x.attr):
                        if v and v not in db.n and v not in BIN:
                            msg = "declaration %d refers to %d" % (x.id, v)
            except (refl.Bad, ValueError) as e:
                msg = "the database is not well-formed: %s" % e
        if msg:
            p = os.path.join(rep.rdir, "C08-headers.json")
            with open(p, "w") as f:
                json.dump(dict(headers=s), f)
            rep.violation("headers", "#include <%s>: %s" % (">, <".join(s), msg), p)
            break
    rep.add("system headers", done, done)

def run(rep, part, opt):
    env = Env(rep.tmp)
    pid = rep.pid
    d = tempfile.mkdtemp(dir=rep.tmp)
    if "replay" in opt:
        with open(opt["replay"]) as f:
            j = json.load(f)
        if "headers" in j:
            rep.seed = 1
            headers(rep, env, d)
            return
        items = pickle.loads(base64.b64decode(j["items"]))
        bad = examine(pid, env.so, env.base, items, d, again=True)
        print(cgen.render(items))
        print("complaints:", bad)
        if bad:
            rep.violation("replay", bad[0], opt["replay"])
        return
    total = part["thorough"] if rep.thorough() else part["quick"]
    total = int(total * float(opt.get("scale", 1)))
    step = 25
    jobs = [(pid, env.so, env.base, rep.seed, a, min(total, a + step), rep.tmp) for a in range(0, total, step)]
    labels, seen, samples, evals, fails, invalid = {}, set(), [], 0, [], 0
    stop = time.time() + (100000 if rep.thorough() else 500)
    with ProcessPoolExecutor(8) as ex:
        for out in ex.map(worker, jobs):
            for n, h, k, tags, bad, text in out:
                evals += 1
                if bad is None:
                    invalid += 1
                    continue
                if sum(tags.get(t, 0) for t in ("struct", "union", "enum", "field", "typedef", "function")) >= 2:
                    seen.add(h)
                for t, v in tags.items():
                    labels[t] = labels.get(t, 0) + v
                if text:
                    samples.append(text)
                if bad:
                    fails.append(n)
            if len(fails) >= 4 or time.time() > stop:
                ex.shutdown(cancel_futures=True)
                break
    groups = set()
    for k, n in enumerate(fails[:4]):
        items, r = gen(pid, rep.seed, n)
        end = time.time() + 40
        def failing(it):
            if time.time() > end:
                return False              # reported as far as it has been reduced
            try:
                return bool(examine(pid, env.so, env.base, it, d, again=True))
            except cgen.Invalid:
                return False
        if not failing(items):
            rep.notes.append("unit %d failed once only" % n)
            continue
        items = cgen.shrink(items, failing)
        bad = examine(pid, env.so, env.base, items, d, again=True) or ["?"]
        rep.violation("units", "unit %d: %s" % (n, bad[0]), save(rep, k, items, bad))
        print("    " + cut(cgen.render(items)).replace("\n", "\n    "))
    labels["units the compiler rejects (discarded)"] = invalid
    rep.add("units", evals, len(seen), labels, samples[:12])
    if pid == "C08":
        headers(rep, env, d)
