"""C27: whole C programs of several sources that carry their own reflection.

Generated programs are reflected source by source with the project's wrapper script (scripts/creflcc.py), merged and emitted with its tool,
and linked with the emitted source and the library.  The running program then prints every member of its objects twice: through plain C
expressions (generated code) and by walking the embedded database with the library's functions (harness/embed/walk.c).  A part of the programs
is printed with the printer of samples/example3_printer instead, against text made with printf.  The commands that the wrapper shows in a dry run
are executed too and have to give the same octets."""
import base64, hashlib, json, os, pickle, random, shlex, shutil, subprocess, tempfile, time
from concurrent.futures import ProcessPoolExecutor
from . import build, refl

EMBED = os.path.join(build.VERIF, "harness", "embed")
INTS = [("char", 8, 1, "byte"), ("signed char", 8, 1, "byte"), ("unsigned char", 8, 0, "ubyte"), ("short", 16, 1, "short"), ("unsigned short", 16, 0, "ushort"), ("int", 32, 1, "int"),
        ("unsigned", 32, 0, "uint"), ("long", 64, 1, "long"), ("unsigned long", 64, 0, "ulong"), ("long long", 64, 1, "long"), ("unsigned long long", 64, 0, "ulong")]
WIDE = [("__int128", 16), ("unsigned __int128", 16)]
FLOATS = [("float", [(0, 4)], "float"), ("double", [(0, 8)], "double"), ("long double", [(0, 10)], "quad"), ("float _Complex", [(0, 8)], "cfloat"),
          ("double _Complex", [(0, 16)], "cdouble"), ("long double _Complex", [(0, 10), (16, 10)], "cquad")]

# types: ("int", spelling, bits, signed, name) ("wide", spelling, octets) ("flt", spelling, parts, name) ("bool",) ("ptr", target spelling, target name)
#        ("enum", enum) ("rec", rec) ("arr", n, type) ("q", words, type) ("td", name, type)
class Enum:
    def __init__(self, name, consts):
        self.name, self.consts = name, consts
    signed = property(lambda s: any(v < 0 for _, v in s.consts))
    wide = property(lambda s: any(not -2**31 <= v < (2**31 if s.signed else 2**32) for _, v in s.consts))

class Rec:
    def __init__(self, kind, name, members):
        self.kind, self.name, self.members = kind, name, members     # members: (name or None, type, bits or None)

def declare(t, inner):
    """declaration of `inner` with type t"""
    k = t[0]
    if k == "arr":
        return declare(t[2], "%s[%d]" % (inner, t[1]))
    if k == "q":
        return declare_leaf(t[1] + " ", t[2], inner)
    return declare_leaf("", t, inner)

def declare_leaf(pre, t, inner):
    k = t[0]
    if k == "arr":                                   # qualified arrays: the qualifier is on the element
        return declare_leaf(pre, t[2], "%s[%d]" % (inner, t[1]))
    if k == "q":
        return declare_leaf(pre + t[1] + " ", t[2], inner)
    if k == "ptr":
        return "%s *%s%s" % (t[1], pre, inner)
    s = {"int": lambda: t[1], "wide": lambda: t[1], "flt": lambda: t[1], "bool": lambda: "_Bool", "enum": lambda: "enum " + t[1].name, "td": lambda: t[1],
         "rec": lambda: "%s %s" % (t[1].kind, t[1].name) if t[1].name and not getattr(t[1], "inline", 0) else body(t[1])}[k]()
    return "%s%s%s" % (pre, s, " " + inner if inner else "")

def body(r):
    extra = getattr(r, "extra", {})                # C29: what C++ may declare before a member
    return "%s%s { %s%s}" % (r.kind, " " + r.name if r.name else "", "".join(extra.get(k, "") + member(m) for k, m in enumerate(r.members)), extra.get(len(r.members), ""))

def member(m):
    name, t, bits = m
    return declare(t, name or "") + (" : %d; " % bits if bits is not None else "; ")

def bare(t):
    while t[0] in ("q", "td"):
        t = t[2]
    return t

def has_const(t):
    """objects of the type may be in memory that cannot be written"""
    while t[0] in ("q", "td", "arr"):
        if t[0] == "q" and "const" in t[1]:
            return True
        t = t[2]
    return t[0] == "rec" and any(has_const(m[1]) for m in t[1].members)

def has_bool(t):
    t = bare(t)
    if t[0] == "arr":
        return has_bool(t[2])
    if t[0] == "rec":
        return any(has_bool(m[1]) for m in t[1].members)
    return t[0] == "bool"

def include(i):
    return "#include <%s>\n" % i if sum(map(ord, i)) % 2 else '#include "%s"\n' % i

class Gen:
    def __init__(self, r, plain=False):
        self.r, self.plain, self.n = r, plain, 0
        self.visible = []            # (kind, object): what later items may use
    def fresh(self, p):
        self.n += 1
        return p + str(self.n) + self.r.choice(["", "", "_t", "Q", "_long_name_%d" % self.n * self.r.choice([1, 1, 5])])
    def scalar(self, union):
        r = self.r
        w = r.randrange(20)
        if w < 11:
            return ("int",) + r.choice(INTS)
        if w < 14:
            return ("flt",) + r.choice(FLOATS[:2] if self.plain else FLOATS)
        if w < 16:
            recs = [o for k, o in self.visible if k == "rec" and o.name]
            if recs and r.randrange(3) == 0:
                o = r.choice(recs)
                return ("ptr", "%s %s" % (o.kind, o.name), o.name)
            i = r.choice(INTS)
            return ("ptr",) + r.choice([(i[0], i[3]), ("void", "void"), ("double", "double")])
        if self.plain or w == 16:
            return ("int",) + r.choice(INTS)
        if w == 17:
            return ("bool",) if not union else ("int",) + r.choice(INTS)
        if w == 18:
            return ("wide",) + r.choice(WIDE)
        es = [o for k, o in self.visible if k == "enum"]
        return ("enum", r.choice(es)) if es else ("int",) + r.choice(INTS)
    def type(self, depth, union=False, room=64):
        r = self.r
        w = r.randrange(12)
        if w < 6 or room < 2:
            t = self.scalar(union)
        elif w < 8:
            n = r.choice([1, 2, 3, 4, 7])
            t = ("arr", min(n, room), self.type(depth, union, room // n))
            if t[2][0] == "rec" and getattr(t[2][1], "inline", 0) and not self.plain and False:
                pass
        elif w < 10:
            c = [o for k, o in self.visible if k == "rec" and not (union and has_bool(("rec", o))) and size(o) <= room]
            t = ("rec", r.choice(c)) if c else self.scalar(union)
        elif w < 11 and depth and not self.plain:
            o = self.rec(depth - 1, self.fresh("n") if r.randrange(2) else None, union, room // 2)
            o.inline = 1
            t = ("rec", o)
        else:
            c = [o for k, o in self.visible if k == "td" and not (union and has_bool(o[2]))]
            t = r.choice(c) if c and not self.plain else self.scalar(union)
        if not self.plain and r.randrange(8) == 0:
            t = ("q", r.choice(["const", "volatile", "const volatile"]), t)
        return t
    def rec(self, depth, name, union=False, room=64):
        r = self.r
        kind = "union" if r.randrange(5) == 0 else "struct"
        union = union or kind == "union"
        ms = []
        for _ in range(r.choice([1, 1, 2, 3, 4, 6, 9])):
            w = r.randrange(10)
            if w == 0 and depth and not self.plain:
                o = self.rec(depth - 1, None, union, room // 3)
                o.inline = 1
                ms.append((None, ("rec", o), None))
            elif w < 4 and not self.plain:
                for _ in range(r.choice([1, 2, 5])):
                    t = r.choice([("int",) + r.choice(INTS), ("bool",), ("enum", None), ("td",)])
                    if t[0] == "enum":
                        es = [o for k, o in self.visible if k == "enum"]
                        t = ("enum", r.choice(es)) if es else ("int",) + r.choice(INTS)
                    elif t[0] == "td":
                        c = [o for k, o in self.visible if k == "td" and bare(o[2])[0] == "int"]
                        t = r.choice(c) if c else ("int",) + r.choice(INTS)
                    if t[0] == "bool" and union:
                        t = ("int",) + r.choice(INTS)
                    b = bare(t)
                    top = {"int": lambda: b[2], "bool": lambda: 1, "enum": lambda: 64 if b[1].wide else 32}[b[0]]()
                    k = r.randrange(12)
                    if k == 0:
                        ms.append((None, t, 0))
                    elif k == 1:
                        ms.append((None, t, r.randint(1, top)))
                    else:
                        ms.append((self.fresh("b"), t, r.randint(1, top)))
            else:
                ms.append((self.fresh("m"), self.type(depth, union, room // 2), None))
        if not any(m[0] for m in ms):
            ms.append((self.fresh("m"), ("int",) + r.choice(INTS), None))
        return Rec(kind, name, ms)
    def item(self):
        """('rec', rec) ('enum', enum) ('td', (..)) ('var', name, type)"""
        r = self.r
        w = r.randrange(10)
        if w < 5 or self.plain and w < 8:
            o = self.rec(3, self.fresh("R"))
            return ("rec", o)
        if w < 6 and not self.plain:
            base = r.choice([0, 0, -5, 100, 2**31 - 1, 2**33, -2**40, 2**63 - 3, -2**31])
            return ("enum", Enum(self.fresh("E"), [(self.fresh("K"), min(base + i * r.choice([1, 1, 3]), 2**63 - 1)) for i in range(r.randint(1, 4))]))
        if w < 8 and not self.plain:
            t = self.type(0)
            while t[0] == "q":
                t = t[2]
            return ("td", ("td", self.fresh("T"), t))
        return ("var", self.fresh("v"), self.type(0 if self.plain else 1))
    def items(self, n):
        out = []
        for _ in range(n):
            i = self.item()
            if i[0] == "rec" and size(i[1]) > 300:
                continue
            if i[0] != "var":
                self.visible.append((i[0], i[1]))
            out.append(i)
        return out

def size(o):
    """number of values, roughly"""
    def one(t):
        t = bare(t)
        if t[0] == "arr":
            return t[1] * one(t[2])
        return size(t[1]) if t[0] == "rec" else 1
    return sum(one(m[1]) for m in o.members)

class Program:
    """headers: [(file, items, included headers)], sources: [(file, items, included headers)]; plain: to be printed with the sample's printer"""

def gen(seed, n):
    r = random.Random("embed-%s-%s" % (seed, n))
    p = Program()
    p.seed, p.n = seed, n
    p.plain = r.randrange(5) == 0
    p.incdir = r.choice(["inc", "include dir", "a/b"])
    g = Gen(r, p.plain)
    p.headers = []
    for k in range(0 if p.plain else r.choice([0, 1, 1, 2, 3])):
        incs = [h[0] for h in p.headers if r.randrange(2)]
        g.visible = visible(p, incs)
        its = [i for i in g.items(r.choice([1, 2, 4])) if i[0] != "var"]
        # the last names are those of headers of the C library, too
        p.headers.append((r.choice(["h%d.h" % k, "head_%d.h" % k, "head_%d.h" % k, ["search.h", "fnmatch.h", "wordexp.h"][k]]), its, incs))
    p.sources = []
    many = not p.plain and r.randrange(16) == 0
    for k in range(1 if p.plain else r.randint(11, 13) if many else r.choice([1, 2, 2, 3, 4])):
        incs = [h[0] for h in p.headers if r.randrange(4)]
        g.visible = visible(p, incs)
        p.sources.append((r.choice(["s%d.c", "s %d.c", "part-%d.x.c"]) % k, g.items(r.choice([1, 2] if many else [1, 2, 3, 5])), incs))
    p.decoys = r.choice(["", "", "a shadow", "zz"]) if p.headers else ""       # a later include directory with other headers of the same names
    p.archive = r.choice(["all.refl", "the program.refl", "out/p.refl"])
    p.cc = r.choice([["gcc"], ["gcc", "-O2"], [build.LLVM + "/bin/clang"], [build.LLVM + "/bin/clang", "-O1"]])
    p.dry = r.randrange(4) == 0
    p.one = many or r.randrange(3) == 0          # one call of the wrapper for all sources
    p.order = list(range(len(p.sources)))
    r.shuffle(p.order)
    return p

def closure(p, incs):
    seen = []
    def add(f):
        for h in p.headers:
            if h[0] == f:
                for g in h[2]:
                    add(g)
                if h not in seen:
                    seen.append(h)
    for f in incs:
        add(f)
    return seen

def visible(p, incs):
    return [(i[0], i[1]) for h in closure(p, incs) for i in h[1]]

def item_text(i):
    if i[0] == "rec":
        return body(i[1]) + ";\n"
    if i[0] == "enum":
        return "enum %s { %s };\n" % (i[1].name, ", ".join("%s = %s" % (c, literal(v)) for c, v in i[1].consts))
    if i[0] == "td":
        return "typedef %s;\n" % declare(i[1][2], i[1][1])
    return "%s;\n" % declare(i[2], i[1])

def literal(v):
    return "(-%dLL - 1)" % (-v - 1) if v < 0 else "%dLL" % v if v >= 2**31 else str(v)

def values(t, expr, path, out, const):
    """C statements that print every value of the object"""
    b = bare(t)
    if b[0] == "arr":
        for i in range(b[1]):
            values(b[2], "%s[%d]" % (expr, i), "%s[%d]" % (path, i), out, const)
    elif b[0] == "rec":
        for name, mt, bits in b[1].members:
            if bits is not None:
                if name:
                    number(bare(mt), "%s.%s" % (expr, name), "%s.%s" % (path, name), out)
            else:
                values(mt, "%s.%s" % (expr, name) if name else expr, "%s.%s" % (path, name) if name else path, out, const)
    elif b[0] == "flt":
        for o, n in b[2]:
            out.append("vp_hex(\"%s\", (const char*)&%s + %d, %d);" % (path, expr, o, n))
    elif b[0] == "wide":
        out.append("vp_hex(\"%s\", (const void*)&%s, %d);" % (path, expr, b[2]))
    elif b[0] == "ptr":
        out.append("vp_u(\"%s\", (unsigned long long)(uintptr_t)%s);" % (path, expr))
    else:
        number(b, expr, path, out)

def number(b, expr, path, out):
    s = b[3] if b[0] == "int" else b[1].signed if b[0] == "enum" else 0
    out.append("vp_%s(\"%s\", (%slong long)%s);" % ("su"[not s], path, "" if s else "unsigned ", expr))

def bools(t, expr, out, r):
    """statements that give every boolean of the object a value (through a pointer without qualifiers)"""
    b = bare(t)
    if b[0] == "arr":
        for i in range(b[1]):
            bools(b[2], "%s[%d]" % (expr, i), out, r)
    elif b[0] == "rec":
        for name, mt, bits in b[1].members:
            if bits is None:
                bools(mt, "%s.%s" % (expr, name) if name else expr, out, r)
    elif b[0] == "bool":
        out.append("*(_Bool*)&%s = %d;" % (expr, r.randrange(2)))

def text_of(t, expr, top=True):
    """printf arguments that give the sample printer's text: [(format, argument or None)]"""
    b = bare(t)
    if b[0] == "int":
        f = {8: "hh", 16: "h", 32: "", 64: "ll"}[b[2]] + ("d" if b[3] else "u")
        return [("%" + f, "(%slong long)%s" % ("" if b[3] else "unsigned ", expr) if b[2] == 64 else expr)]
    if b[0] == "flt":
        return [("%f", expr)]
    if b[0] == "ptr":
        return [("(*%s) 0x%%016llx" % b[2], "(unsigned long long)(uintptr_t)%s" % expr)]
    if b[0] == "arr":
        out = [("[ ", None)]
        flat = [expr]
        while b[0] == "arr":
            flat = ["%s[%d]" % (e, i) for e in flat for i in range(b[1])]
            b = bare(b[2])
        for i, e in enumerate(flat):
            out += ([(", ", None)] if i else []) + text_of(b, e)
        return out + [(" ]", None)]
    out = [("%s { " % b[1].name, None)]
    for name, mt, bits in b[1].members:
        out += [("%s : " % name, None)] + text_of(mt, "%s.%s" % (expr, name)) + [("; ", None)]
    return out + [("}", None)]

def render(p):
    """file -> text"""
    r = random.Random("fill-%s-%s" % (p.seed, p.n))
    out = {}
    for f, its, incs in p.headers:
        out[getattr(p, "dirs", {}).get(f, p.incdir) + "/" + f] = "#pragma once\n" + "".join(include(i) for i in incs) + "".join(map(item_text, its))
    for f, its, incs in p.headers:
        if getattr(p, "decoys", ""):
            out[p.decoys + "/" + f] = "#pragma once\n#error shadowed\n" + "".join(map(item_text, its[1:]))
    calls = []
    p.expected = []
    for k, (f, its, incs) in enumerate(p.sources):
        own = [(i, "") for h in closure(p, incs) for i in h[1]] + [(i, "") for i in its]
        s = '#include "walk.h"\n' + ('#include "printer.h"\n' if p.plain else "") + "".join(include(i) for i in incs) + "".join(map(item_text, its))
        b = []
        for i, _ in own:
            if i[0] == "rec":
                kind, name, t, decl = i[1].kind, i[1].name, ("rec", i[1]), None
            elif i[0] == "var":
                kind, name, t = "field", i[1], i[2]
            elif i[0] == "td":
                kind, name, t = "typedef", i[1][1], i[1]
            else:
                continue
            v = name if kind == "field" else "(*o)"
            b.append("{")
            if kind != "field":
                b.append("%s *o = vp_new(sizeof *o);" % (name if kind == "typedef" else "%s %s" % (kind, name)))
            if kind != "field" or not has_const(t):
                b.append("vp_fill((void*)&%s, sizeof %s, %d);" % (v, v, r.randrange(1 << 30)))
                bools(t, v, b, r)
            if p.plain:
                if kind == "struct":
                    parts = text_of(t, "(*o)")
                    b.append("printf(\"%s\\n\"%s);" % ("".join(x for x, _ in parts), "".join(", " + a for _, a in parts if a)))
                    b.append("crefl_print(crefl_type(crefl_db_internal(), struct %s), o);" % name)
            values(t, v, name, b, False)
            b.append("vp_walk(%d, \"%s\", \"%s\", (const void*)&%s, sizeof %s);" % (p.order.index(k), kind, name, v, v))
            b.append("}")
        if getattr(p, "split", False):              # what prints and walks is in a header of its own
            run = f.replace("/", "_").replace(" ", "_") + ".run.h"
            out[f] = s + '#include "%s"\n' % run
            s, f = "", p.incdir + "/" + run
        s += "void run_%d(void)\n{\n%s\n}\n" % (k, "\n".join(b))
        if k == 0:
            s += "".join("void run_%d(void);\n" % j for j in range(len(p.sources)))
            s += "void vp_program(void)\n{\n"
            s += "vp_t(\"archive %s\");\n" % os.path.basename(p.archive)
            s += "".join("vp_t(\"source %s\");\n" % os.path.basename(p.sources[j][0]) for j in p.order)
            s += "".join("run_%d();\n" % j for j in range(len(p.sources))) + "}\n"
        out[f] = s
    return out

class Tools:
    def __init__(self):
        self.dir = build.project(("crefl", "crefltool"), tag="embed")
        def make(t):
            objs = []
            for s in build.lib_sources():
                o = os.path.join(t, os.path.basename(s) + ".o")
                build.run(["g++", "-std=gnu++17", "-w", "-O1", "-include", "cstdint", "-I", build.REPO + "/include", "-x", "c++", "-c", s, "-o", o])
                objs.append(o)
            build.run(["ar", "rcs", os.path.join(t, "libc.a")] + objs)
            pr = build.REPO + "/samples/example3_printer"
            for n, s in (("walk.o", EMBED + "/walk.c"), ("printer.o", pr + "/printer.c")):
                build.run(["gcc", "-std=gnu11", "-w", "-O1", "-g", "-I", build.REPO + "/include", "-I", EMBED, "-c", s, "-o", os.path.join(t, n)])
        self.lib = build.cached("embed", build.key(build.tree_hash(), [build.fread(EMBED + "/" + f) for f in ("walk.c", "walk.h")]), make)
        self.printer = build.REPO + "/samples/example3_printer"
        self.script = build.REPO + "/scripts/creflcc.py"

def call(cmd, d, env=None, shell=False):
    try:
        q = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(build.ENV, **(env or {})), timeout=120, shell=shell)
    except subprocess.TimeoutExpired:
        return -1, "no end within two minutes"
    return q.returncode, q.stdout.decode("utf8", "replace")

def read(path):
    if not os.path.exists(path):
        return b""
    with open(path, "rb") as f:
        return f.read()

def examine(tools, p, top):
    """complaints, number of values; None if the program is not valid"""
    d = tempfile.mkdtemp(dir=top)
    try:
        files = render(p)
        for f, s in files.items():
            os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
            with open(os.path.join(d, f), "w") as h:
                h.write(s)
        os.makedirs(os.path.join(d, "out"), exist_ok=True)
        incs = [p.incdir] + ([p.decoys] if p.decoys else []) + [EMBED] + ([tools.printer, build.REPO + "/include"] if p.plain else [])
        I = ["-I" + i for i in incs]
        objs = []
        for f, _, _ in p.sources:
            rc, o = call(p.cc + ["-std=gnu11", "-w", "-fno-strict-aliasing"] + I + ["-c", f, "-o", f + ".o"], d)
            if rc:
                return None, 0, o
            objs.append(f + ".o")
        metas = []
        files = [p.sources[j][0] for j in p.order]
        for fs, out in [(files, p.archive)] if p.one and len(files) > 1 else [([f], f + ".refl") for f in files]:
            cmd = [tools.script, "-p", tools.dir] + [x for i in incs for x in ("-I", i)] + ["-o", out] + fs
            rc, o = call(cmd, d)
            if rc:
                return ["the wrapper ends with %d for %s: %s" % (rc, " ".join(fs), o[-300:])], 0, None
            if p.dry:
                first = read(os.path.join(d, out))
                os.unlink(os.path.join(d, out))
                rc, o = call(cmd[:1] + ["-n"] + cmd[1:], d)
                if rc or os.path.exists(os.path.join(d, out)):
                    return ["the wrapper's dry run ends with %d%s" % (rc, " and writes its output" if not rc else "")], 0, None
                rc, o2 = call("set -e\n" + o, d, shell=True, env={"LD_LIBRARY_PATH": build.LLVM + "/lib"})
                if rc or read(os.path.join(d, out)) != first:
                    return ["the command that the wrapper shows (%s) %s" % (" ".join(o.split())[-150:], "ends with %d: %s" % (rc, o2[-200:]) if rc else "gives another database than the wrapper itself")], 0, None
            metas.append(out)
        if metas != [p.archive]:
            rc, o = call([tools.dir + "/crefltool", "--merge", p.archive] + metas, d)
            if rc:
                return ["merging ends with %d: %s" % (rc, o[-300:])], 0, None
        rc, o = call([tools.dir + "/crefltool", "--emit", "meta.c", p.archive], d)
        if rc:
            return ["emitting ends with %d: %s" % (rc, o[-300:])], 0, None
        rc, o = call(p.cc + ["-w", "-c", "meta.c", "-o", "meta.o"], d)
        if rc:
            return ["the emitted source does not compile: %s" % o[-300:]], 0, None
        rc, o = call(["g++"] + objs + ["meta.o", tools.lib + "/walk.o"] + ([tools.lib + "/printer.o"] if p.plain else []) + [tools.lib + "/libc.a", "-o", "prog"], d)
        if rc:
            return ["the program does not link: %s" % o[-300:]], 0, None
        rc, o = call(["./prog", "true.txt", "seen.txt"], d)
        bad, k = compare(p, d, rc, o)
        return bad, k, None
    finally:
        shutil.rmtree(d, ignore_errors=True)

def compare(p, d, rc, o):
    """what the program saw against what it is: complaints, number of values"""
    a = read(os.path.join(d, "true.txt")).decode().splitlines()
    b = read(os.path.join(d, "seen.txt")).decode("utf8", "replace").splitlines()
    bad = []
    if rc:
        bad.append("the program ends with %d: %s" % (rc, o[-300:]))
    if sorted(a) != sorted(b) or a != b:
        for x, y in zip(a + ["(nothing)"] * (len(b) - len(a)), b + ["(nothing)"] * (len(a) - len(b))):
            if x != y:
                bad.append("the program has '%s', the reflection shows '%s'" % (x[:150], y[:150]))
                break
    if p.plain and not bad:
        ls = o.splitlines()
        for x, y in zip(ls[0::2], ls[1::2]):
            if x != y:
                k = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
                bad.append("the printer prints '...%s', not '...%s'" % (y[max(0, k - 40):k + 60], x[max(0, k - 40):k + 60]))
                break
        if len(ls) % 2:
            bad.append("the printer prints %d lines for %d objects" % (len(ls) - len(ls) // 2, len(ls) // 2))
    return bad, len(a)

def shrink(p, failing):
    """leaves out sources, headers' and sources' items and members while the complaint stays"""
    import copy
    end = time.time() + 60
    def attempt(q):
        return time.time() < end and failing(q)
    changed = True
    while changed and time.time() < end:
        changed = False
        for part in ("sources", "headers"):
            k = 0
            while k < len(getattr(p, part)):
                l = getattr(p, part)
                q = copy.deepcopy(p)
                if part == "sources" and len(l) > 1:
                    del q.sources[k]
                    q.order = [j - (j > k) for j in q.order if j != k]
                elif part == "headers":
                    f = l[k][0]
                    del q.headers[k]
                    q.headers = [(a, b, [i for i in c if i != f]) for a, b, c in q.headers]
                    q.sources = [(a, b, [i for i in c if i != f]) for a, b, c in q.sources]
                else:
                    break
                if attempt(q):
                    p, changed = q, True
                else:
                    k += 1
            for k in range(len(getattr(p, part))):
                i = 0
                while i < len(getattr(p, part)[k][1]):
                    q = copy.deepcopy(p)
                    del getattr(q, part)[k][1][i]
                    if attempt(q):
                        p, changed = q, True
                        continue
                    it = getattr(p, part)[k][1][i]
                    if it[0] == "rec":
                        m = 0
                        while m < len(getattr(p, part)[k][1][i][1].members) and len(getattr(p, part)[k][1][i][1].members) > 1:
                            q = copy.deepcopy(p)
                            del getattr(q, part)[k][1][i][1].members[m]
                            if attempt(q):
                                p, changed = q, True
                            else:
                                m += 1
                    i += 1
    return p

def worker(a):
    tools, seed, lo, hi, top = a
    out = []
    for n in range(lo, hi):
        p = gen(seed, n)
        bad, k, why = examine(tools, p, top)
        t = "\n".join("--- %s\n%s" % x for x in render(p).items())
        out.append((n, hashlib.sha256(t.encode()).hexdigest()[:16], bad, k, len(p.sources), len(p.headers), p.plain, p.dry, p.one and len(p.sources) > 1, why, t[:400] if n % 37 == 0 else None))
        if bad:
            break
    return out

def run(rep, part, opt):
    tools = Tools()
    top = tempfile.mkdtemp(dir=rep.tmp)
    if "replay" in opt:
        with open(opt["replay"]) as f:
            j = json.load(f)
        p = pickle.loads(base64.b64decode(j["program"]))
        bad, k, why = examine(tools, p, top)
        print("\n".join("--- %s\n%s" % x for x in render(p).items()))
        print("complaints:", bad, why or "")
        if bad:
            rep.violation("replay", bad[0], opt["replay"])
        return
    total = int((part["thorough"] if rep.thorough() else part["quick"]) * float(opt.get("scale", 1)))
    jobs = [(tools, rep.seed, a, min(total, a + 5), top) for a in range(0, total, 5)]
    seen, samples, evals, fails, invalid, labels = set(), [], 0, [], [], {}
    stop = time.time() + (100000 if rep.thorough() else 400)
    with ProcessPoolExecutor(8) as ex:
        for out in ex.map(worker, jobs):
            for n, h, bad, k, ns, nh, plain, dry, one, why, text in out:
                evals += 1
                if bad is None:
                    invalid.append((n, why))
                    continue
                if k >= 3:
                    seen.add(h)
                for t, v in (("values compared", k), ("sources", ns), ("headers", nh), ("programs printed with the sample's printer", plain), ("dry runs executed", dry and ns), ("programs reflected with one call", one), ("programs of several sources", ns > 1)):
                    labels[t] = labels.get(t, 0) + int(v)
                if text:
                    samples.append(text)
                if bad:
                    fails.append(n)
            if len(fails) >= 3 or time.time() > stop:
                ex.shutdown(cancel_futures=True)
                break
    for k, n in enumerate(fails[:3]):
        p = gen(rep.seed, n)
        if not examine(tools, p, top)[0]:
            rep.notes.append("program %d failed once only" % n)
            continue
        p = shrink(p, lambda q: bool(examine(tools, q, top)[0]))
        bad = examine(tools, p, top)[0] or ["?"]
        path = os.path.join(rep.rdir, "C27-%d.json" % k)
        with open(path, "w") as f:
            json.dump(dict(files=render(p), complaints=bad[:5], program=base64.b64encode(pickle.dumps(p)).decode()), f, indent=1)
        rep.violation("programs", "program %d: %s" % (n, bad[0]), path)
    if invalid:
        rep.notes.append("%d programs are not valid, such as %d: %s" % (len(invalid), invalid[0][0], (invalid[0][1] or "")[:200]))
    rep.add("programs", evals, len(seen), labels, samples[:12])
