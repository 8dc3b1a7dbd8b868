"""C04: what the library says about sizes and offsets, against the C compiler's own layout.

Generated C units go through the plug-in; the library's answers for every declaration of the resulting database, and for a second database
written by this module (typedefs, aliases and sets kept as nodes, declarations stored in random order), are compared with the object file that
gcc makes of the unit plus tables of sizeof / offsetof expressions and one initialised variable per bit-field."""
import base64, copy, hashlib, json, os, pickle, random, shutil, struct, subprocess, tempfile, threading, time
from concurrent.futures import ProcessPoolExecutor
from . import build, cgen, plug, refl

LIMIT = 1 << 16         # bit-fields are looked at in structures of up to this many octets

# ---- the compiler's account

def symbols(path):
    """symbol -> octets from its address to the end of its section (ELF64 object file)"""
    with open(path, "rb") as f:
        d = f.read()
    shoff, = struct.unpack_from("<Q", d, 0x28)
    n, = struct.unpack_from("<H", d, 0x3c)
    sec = [struct.unpack_from("<IIQQQQIIQQ", d, shoff + 64 * i) for i in range(n)]
    out = {}
    for s in sec:
        if s[1] != 2:
            continue
        names = sec[s[6]]
        for k in range(s[5] // 24):
            nm, info, other, shndx, value, size = struct.unpack_from("<IBBHQQ", d, s[4] + 24 * k)
            if 0 < shndx < n:
                e = names[4] + nm
                t = sec[shndx]
                b = d[t[4] + value:t[4] + value + size] if t[1] != 8 else b"\0" * min(size, LIMIT)
                out[d[e:d.index(b"\0", e)].decode()] = b
    return out

def flexible(t):
    return t[0] == "arr" and t[1][0] == "inc"

def bytes_bound(s):
    if s[0] == "a":
        return max(1, s[1]) * bytes_bound(s[3])
    if s[0] == "q":
        return bytes_bound(s[2])
    if s[0] == "t":
        o = s[1]
        if isinstance(o, cgen.Enum):
            return 8
        return 32 + sum(bytes_bound(("t", m.rec)) if isinstance(m, cgen.Anon) else 16 + bytes_bound(cgen.sem(m.type)) for m in o.members if not isinstance(m, cgen.Inner))
    return 32

class Targets:
    """what can be asked of the compiler: sizes [(label, kind, object, expression)], offsets and bit positions of named members"""
    def __init__(self, walk, items):
        self.sizes, self.offsets, self.bits = [], [], []
        self.done = set()
        for e in walk.children:
            self.exp(e)
        for i in items:
            if isinstance(i, cgen.Vars):
                for d in i.decls:
                    if d.type[0] == "fn" or flexible(d.type):
                        self.strip(d.type, "*(%s *)0" % d.name if i.typedef else d.name) if d.type[0] != "fn" else None
                        continue
                    s = cgen.sem(d.type)
                    b = s[2] if s[0] == "q" else s
                    if b == ("i", "void") or b[0] == "f" or not self.complete(s, walk):
                        continue
                    if not (s[0] == "a" and not s[1] and flexible(self.undef(d.type))):
                        self.sizes.append(("%s %s" % ("typedef" if i.typedef else "variable", d.name), "typedef" if i.typedef else "link", d, d.name))
                    self.strip(d.type, "*(%s *)0" % d.name if i.typedef else d.name)
    def undef(self, t):
        while t[0] == "td" or t[0] == "q":
            t = t[1].type if t[0] == "td" else t[2]
        return t
    def complete(self, s, walk):
        while s[0] in ("a", "q"):
            s = s[-1]
        return s[0] != "t" or id(s[1]) in walk.defined
    def exp(self, e):
        """everything with a tag has a name of its own"""
        if e.tag in ("struct", "union", "enum") and e.name and e.children:
            if e.tag == "enum":
                self.sizes.append(("enum " + e.name, "self", e.obj, "enum " + e.name))
            else:
                self.record(e.obj, "%s %s" % (e.tag, e.name))
        for c in e.children:
            self.exp(c)
    def strip(self, t, x):
        """the unnamed type defined inside a declarator, as seen through a value x of the declared type"""
        while t[0] in ("ptr", "arr", "q"):
            if t[0] == "q":
                t = t[2]
                continue
            x, t = "*(%s)" % x, t[-1]
        if t[0] == "inline" and t[1].name is None:
            if isinstance(t[1], cgen.Enum):
                self.sizes.append(("unnamed enum of " + x, "self", t[1], "__typeof__(%s)" % x))
            else:
                self.record(t[1], "__typeof__(%s)" % x)
    def record(self, o, T):
        if id(o) in self.done or o.members is None:
            return
        self.done.add(id(o))
        self.sizes.append((T, "self", o, T))
        self.members(o, T, (o,), [])
    def members(self, o, T, outer, path):
        for m in o.members:
            if isinstance(m, cgen.Anon):
                self.members(m.rec, T, outer + (m.rec,), path + [m])
            elif isinstance(m, cgen.Inner) or m.name is None:
                continue
            elif m.bits is not None:
                if m.bits and bytes_bound(("t", outer[0])) <= LIMIT:
                    self.bits.append((T, outer, path, m))
            else:
                self.offsets.append((T, outer, path, m))
                if not flexible(m.type) and not self.flex_td(m.type):
                    self.sizes.append(("member %s of %s" % (m.name, T), "link", m, "((%s *)0)->%s" % (T, m.name)))
                self.strip(m.type, "((%s *)0)->%s" % (T, m.name))
    def flex_td(self, t):
        return flexible(self.undef(t))

def storageless(i):
    """objects need no room in the compiler's account of their types"""
    if not isinstance(i, cgen.Vars) or i.typedef:
        return i
    j = copy.copy(i)
    j.spec = "extern _Thread_local" if "_Thread_local" in i.spec else "extern"
    j.decls = [copy.copy(d) for d in i.decls]
    for d in j.decls:
        d.init = None
    return j

def truth(items, tg, d):
    """sizes, offsets, bit images according to gcc; None: not a valid unit"""
    out = [cgen.render([storageless(i) for i in items])]
    out.append("const unsigned long long vp_sizes[] = { %s 1 };" % "".join("sizeof(%s), " % x for _, _, _, x in tg.sizes))
    out.append("const unsigned long long vp_offsets[] = { %s 1 };" % "".join("__builtin_offsetof(%s, %s), " % (T, m.name) for T, _, _, m in tg.offsets))
    for k, (T, _, _, m) in enumerate(tg.bits):
        out.append("%s vp_bit%d = { .%s = -1 };" % (T, k, m.name))
    c, o = os.path.join(d, "t.c"), os.path.join(d, "t.o")
    with open(c, "w") as f:
        f.write("\n".join(out) + "\n")
    p = subprocess.run(["/usr/bin/gcc", "-std=gnu11", "-w", "-O0", "-c", c, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=build.ENV)
    if p.returncode:
        return None, p.stdout.decode("utf8", "replace")[:1500]
    s = symbols(o)
    tab = lambda n, k: struct.unpack("<%dQ" % k, s[n][:8 * k])
    return (tab("vp_sizes", len(tg.sizes)), tab("vp_offsets", len(tg.offsets)), [s["vp_bit%d" % k] for k in range(len(tg.bits))]), ""

# ---- the second database

class Hand:
    """the unit's types as a database written by hand: ids of objects in .ids, of the types of declarations in .links"""
    def __init__(self, walk, items, r, base):
        self.r, self.walk = r, walk
        self.nodes = []               # [tag, props, name, next, link, attr, qty] with node indices as references ("n", index) or fixed ids
        self.memo = {}
        self.ids, self.links = {}, {}
        top = []
        for e in walk.children:
            if e.tag in ("struct", "union", "enum") and e.children:
                top.append(self.tag(e.obj))
        for i in items:
            if isinstance(i, cgen.Vars):
                for d in i.decls:
                    if i.typedef:
                        top.append(self.typedef(d))
                    else:
                        top.append(self.field(d, d.type))
        src = self.node("source", "unit", qty=0)
        self.chain(src, [x for x in dict.fromkeys(top)])
        order = list(range(len(self.nodes)))
        order.remove(src[1])
        r.shuffle(order)
        order.insert(0, src[1])        # the root comes first in a file
        pos = {x: refl.FIRST + i for i, x in enumerate(order)}
        ref = lambda v: pos[v[1]] if isinstance(v, tuple) else v
        for m in (self.ids, self.links):
            for k in m:
                m[k] = ref(m[k])
        self.data = refl.write([(refl.T[n[0]], n[1], n[2], ref(n[3]), ref(n[4]), ref(n[5]), n[6]) for n in (self.nodes[x] for x in order)], ref(src), base)
    def node(self, tag, name="", props=0, link=0, qty=0):
        self.nodes.append([tag, props, name, 0, link, 0, qty])
        return ("n", len(self.nodes) - 1)
    def chain(self, parent, kids):
        at = None
        for k in kids:
            if at is None:
                self.nodes[parent[1]][4] = k
            else:
                self.nodes[at[1]][3] = k
            at = k
    def tag(self, o):
        if id(o) in self.memo:
            return self.memo[id(o)]
        if isinstance(o, cgen.Enum):
            if o.consts is None or id(o) not in self.walk.defined:
                return 1
            n = self.node("set" if self.r.randrange(3) == 0 else "enum", o.name or "", qty=cgen.enum_rep(o)[1])
            self.memo[id(o)] = self.ids[id(o)] = n
            self.chain(n, [self.node("constant", c.name, link=3, qty=c.value & (1 << 64) - 1) for c in o.consts])
            return n
        if o.members is None or id(o) not in self.walk.defined:
            return 1
        n = self.node(o.kind, o.name or "")
        self.memo[id(o)] = self.ids[id(o)] = n
        kids = []
        for m in o.members:
            if isinstance(m, cgen.Anon):
                t = self.tag(m.rec)
                f = self.node("field", "", link=t)
                self.ids[id(m)], self.links[id(m)] = f, t
                kids += [t, f]
            elif isinstance(m, cgen.Inner):
                kids.append(self.tag(m.obj))
            else:
                b = cgen.bare(m.type)
                if b[0] == "inline":
                    kids.append(self.tag(b[1]))
                kids.append(self.field(m, m.type))
        self.chain(n, kids)
        return n
    def field(self, d, t):
        bits = getattr(d, "bits", None)
        l = self.type(t)
        n = self.node("field", d.name or "", plug.P["bitfield"] if bits is not None else 0, l, bits or 0)
        self.ids[id(d)], self.links[id(d)] = n, l
        return n
    def typedef(self, d):
        if id(d) not in self.memo:
            l = self.type(d.type)
            n = self.node("typedef", d.name, link=l)
            self.memo[id(d)] = self.ids[id(d)] = n
            self.links[id(d)] = l
        return self.memo[id(d)]
    def type(self, t):
        n = self.type1(t)
        while isinstance(n, tuple) and self.r.randrange(12) == 0:
            n = self.node(self.r.choice(["alias", "qualifier", "typedef"]), "w", plug.P["const"], n)
        return n
    def type1(self, t):
        k = t[0]
        if k == "base":
            return cgen.INTRINSIC[t[2]]
        if k in ("void", "fn"):
            return 1
        if k == "td":
            return self.typedef(t[1])
        if k in ("tag", "inline"):
            return self.tag(t[1])
        if k == "q":
            return self.node("qualifier", "q", sum(plug.P[x] for x in set(t[1])), self.type(t[2]))
        if k == "ptr":
            # a pointer's own node is made before what it points to, which may be the record that is being built
            n = self.node("pointer", "*", qty=64)
            self.nodes[n[1]][4] = self.type(t[2])
            return self.node("qualifier", "q", sum(plug.P[x] for x in set(t[1])), n) if t[1] else n
        if k == "arr":
            return self.node("array", "[]", link=self.type1(t[3]) if t[3][0] == "arr" else self.type(t[3]), qty=t[1][1] if t[1][0] in ("n", "static") else 0)
        raise ValueError(k)

# ---- comparison

class Probe:
    def __init__(self, binary):
        self.binary = binary
        self.start()
    def start(self):
        self.p = subprocess.Popen([self.binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
    def ask(self, path):
        if self.p.poll() is not None:                 # it died of the one before
            self.close()
            self.start()
        try:
            self.p.stdin.write(path.encode() + b"\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        timer = threading.Timer(60, self.p.kill)      # a hang ends like a crash
        timer.start()
        try:
            return self.answer()
        finally:
            timer.cancel()
    def answer(self):
        w, o, x = {}, {}, []
        while True:
            l = self.p.stdout.readline()
            if not l.endswith(b"\n"):              # the end, or a line cut off by it
                e = self.p.stderr.read().decode("utf8", "replace")
                self.p.wait()
                return None, "the library ends with %s: %s" % (self.p.returncode, " ".join(y for y in e.splitlines() if "ERROR" in y or "SUMMARY" in y)[:300])
            a = l.split()
            if a[0] == b"END":
                return (w, o, x), ""
            if a[0] == b"W":
                w[int(a[1])] = int(a[2])
            elif a[0] == b"O":
                v = [int(y) for y in a[2:]]
                o[int(a[1])] = list(zip(v[::2], v[1::2]))
            else:
                x.append(l.decode()[2:].strip())
    def close(self):
        try:
            self.p.stdin.close()
        except BrokenPipeError:
            pass
        self.p.kill()
        self.p.wait()
        self.p.stdout.close()
        self.p.stderr.close()

def compare(tg, tr, ans, rid, lid, selfid, what):
    """rid / lid / selfid: object -> identifier of its node / of its type / of the record definition; None where it is not recorded"""
    w, o, x = ans
    out = [what + ": " + y for y in x[:3]]
    sizes, offsets, images = tr
    n = 0
    for (label, kind, obj, _), size in zip(tg.sizes, sizes):
        i = selfid(obj) if kind == "self" else lid(obj) if kind == "link" else rid(obj)
        if i is None:
            continue
        n += 1
        if w.get(i) != size * 8:
            out.append("%s: width of %s is %s, sizeof is %d bits" % (what, label, w.get(i), size * 8))
        if kind == "self" and isinstance(obj, cgen.Rec) and obj.kind == "struct" and o.get(i) and o[i][-1] != (0 if False else o[i][-1][0], size * 8):
            out.append("%s: the offsets of %s close with %d, sizeof is %d bits" % (what, label, o[i][-1][1], size * 8))
    def offset(outer, path, m):
        """sum over the anonymous members that lead to m"""
        at = 0
        for rec, f in zip(outer, path + [m]):
            i, fi = selfid(rec), rid(f)
            if i is None or fi is None:
                return None
            if rec.kind == "union":
                continue
            hit = [b for a, b in o.get(i, []) if a == fi]
            if len(hit) != 1:
                return "missing"
            at += hit[0]
        return at
    for (T, outer, path, m), off in zip(tg.offsets, offsets):
        v = offset(outer, path, m)
        if v is None:
            continue
        n += 1
        if v != off * 8:
            out.append("%s: offset of %s in %s is %s, the compiler's is %d bits" % (what, m.name, T, v, off * 8))
    for (T, outer, path, m), img in zip(tg.bits, images):
        v = offset(outer, path, m)
        if v is None:
            continue
        n += 1
        b = int.from_bytes(img, "little")
        first = (b & -b).bit_length() - 1
        if v != first:
            out.append("%s: bit-field %s of %s starts at %s, the compiler's at %d" % (what, m.name, T, v, first))
    # the recorded order of the fields
    for k, v in o.items():
        if any(v[j][1] > v[j + 1][1] for j in range(len(v) - 1)):
            out.append("%s: the offsets of structure %d go backwards" % (what, k))
    return out, n

def examine(env, items, d, r, probe):
    """complaints, number of comparisons; None: not a valid unit"""
    walk = cgen.expect(items)
    path = os.path.join(d, "u.h")
    with open(path, "w") as f:
        f.write(cgen.render(items))
    tg = Targets(walk, items)
    tr, msg = truth(items, tg, d)
    if tr is None:
        p = subprocess.run(["/usr/bin/gcc", "-std=gnu11", "-w", "-fsyntax-only", "-x", "c", path], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=build.ENV)
        if p.returncode == 0:
            raise RuntimeError("the probe does not compile:\n%s\n%s" % (cgen.render(items), msg))
        return None, 0
    if any(x >= 1 << 61 for x in tr[0]):
        return None, 0                # the library counts bits
    out, n = [], 0
    f1 = os.path.join(d, "u.refl")
    st, data, msg = plug.reflect(env.so, path, f1)
    if st == 0:
        try:
            db = plug.Db(data, env.base)
            c = plug.Compare(db, walk, "u.h")
        except (refl.Bad, ValueError):
            c = None                  # C08
        if c is not None:
            ans, msg = probe.ask(f1)
            if ans is None:
                # arrays that gcc allows may be too large for the other compiler
                return ["plug-in's database: " + msg] if plug.valid_c(path) else [], n
            fields = {id(e.obj): x for e, x in c.pairs if e.obj is not None and e.tag in ("field", "typedef")}
            rid = lambda o: fields[id(o)].id if id(o) in fields else None
            lid = lambda o: fields[id(o)].link if id(o) in fields else None
            def selfid(o):
                e = walk.defs.get(id(o))
                x = c.node.get(id(e))
                return x.id if x is not None else None
            a, b = compare(tg, tr, ans, rid, lid, selfid, "plug-in's database")
            out += a if not a or plug.valid_c(path) else []
            n += b
    h = Hand(walk, items, r, env.base)
    f2 = os.path.join(d, "h.refl")
    with open(f2, "wb") as f:
        f.write(h.data)
    ans, msg = probe.ask(f2)
    if ans is None:
        return out + ["hand-made database: " + msg], n
    a, b = compare(tg, tr, ans, lambda o: h.ids.get(id(o)), lambda o: h.links.get(id(o)), lambda o: h.ids.get(id(o)), "hand-made database")
    return out + a, n + b

def gen(seed, n):
    r = random.Random("layout-%s-%s" % (seed, n))
    return cgen.Gen(r, layout=True).unit(r.choice([1, 2, 3, 5, 8, 12, 20])), r

def stats(items, walk):
    t = {}
    def up(k):
        t[k] = t.get(k, 0) + 1
    def rec(o, depth):
        up(o.kind)
        if depth > 1:
            up("anonymous member records")
        for m in o.members:
            if isinstance(m, cgen.Anon):
                rec(m.rec, depth + 1)
            elif isinstance(m, cgen.Field):
                s = cgen.sem(m.type)
                up("bit-fields" if m.bits else "zero width bit-fields" if m.bits is not None else {"a": "array members", "p": "pointer members", "t": "record and enum members", "q": "qualified members"}.get(s[0], "plain members"))
    for e in walk.defs.values():
        if isinstance(e.obj, cgen.Rec):
            rec(e.obj, 1)
        else:
            up("enum")
    return t

def worker(a):
    env, binary, seed, lo, hi, top = a
    d = tempfile.mkdtemp(dir=top)
    probe = Probe(binary)
    out = []
    try:
        for n in range(lo, hi):
            items, r = gen(seed, n)
            h = hashlib.sha256(cgen.render(items).encode()).hexdigest()[:16]
            bad, k = examine(env, items, d, r, probe)
            out.append((n, h, k, bad, stats(items, cgen.expect(items)), cgen.render(items)[:300] if n % 97 == 0 else None))
            if bad:
                break
    finally:
        probe.close()
        shutil.rmtree(d, ignore_errors=True)
    return out

def run(rep, part, opt):
    env = plug.Env(rep.tmp)
    binary = build.harness("c04probe")
    d = tempfile.mkdtemp(dir=rep.tmp)
    if "replay" in opt:
        with open(opt["replay"]) as f:
            j = json.load(f)
        items = pickle.loads(base64.b64decode(j["items"]))
        probe = Probe(binary)
        print(cgen.render(items))
        for k in range(6):
            bad, n = examine(env, items, d, random.Random(j["salt"] + k), probe)
            if bad:
                print("complaints:", bad[:10])
                rep.violation("replay", bad[0], opt["replay"])
                break
        probe.close()
        return
    total = int((part["thorough"] if rep.thorough() else part["quick"]) * float(opt.get("scale", 1)))
    step = 25
    jobs = [(env, binary, rep.seed, a, min(total, a + step), rep.tmp) for a in range(0, total, step)]
    labels, seen, samples, evals, fails, invalid, compared = {}, set(), [], 0, [], 0, 0
    stop = time.time() + (100000 if rep.thorough() else 500)
    with ProcessPoolExecutor(8) as ex:
        for out in ex.map(worker, jobs):
            for n, h, k, bad, st, text in out:
                evals += 1
                if bad is None:
                    invalid += 1
                    continue
                compared += k
                if k >= 3:
                    seen.add(h)
                for t, v in st.items():
                    labels[t] = labels.get(t, 0) + v
                if text:
                    samples.append(text)
                if bad:
                    fails.append(n)
            if len(fails) >= 4 or time.time() > stop:
                ex.shutdown(cancel_futures=True)
                break
    for k, n in enumerate(fails[:4]):
        items, r = gen(rep.seed, n)
        end = time.time() + 40
        def failing(it):
            if time.time() > end:
                return False
            p = Probe(binary)
            try:
                return any(examine(env, it, d, random.Random(s), p)[0] for s in range(3))
            except (cgen.Invalid, RuntimeError):
                return False
            finally:
                p.close()
        p = Probe(binary)
        first, _ = examine(env, items, d, r, p)
        p.close()
        if failing(items):
            items = cgen.shrink(items, failing)
        bad = first
        for s in range(3):
            p = Probe(binary)
            b, _ = examine(env, items, d, random.Random(s), p)
            p.close()
            if b:
                bad = b
                break
        path = os.path.join(rep.rdir, "C04-%d.json" % k)
        with open(path, "w") as f:
            json.dump(dict(unit=cgen.render(items), salt=0, complaints=(bad or ["?"])[:10], items=base64.b64encode(pickle.dumps(items)).decode()), f, indent=1)
        rep.violation("units", "unit %d: %s" % (n, (bad or ["failed once only"])[0]), path)
        print("    " + plug.cut(cgen.render(items)).replace("\n", "\n    "))
    labels["units a compiler rejects (discarded)"] = invalid
    labels["sizes, offsets and bit positions compared"] = compared
    rep.add("units", evals, len(seen), labels, samples[:12])
