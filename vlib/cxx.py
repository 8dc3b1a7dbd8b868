"""C31: C++ translation units through the plug-in.

Generated units use what C++ adds to C: namespaces (nested, inline, without a name, opened again), classes with access specifiers, bases, methods,
constructors, operators, static members, nested types and friends, scoped enums, linkage blocks, templates of every kind with partial and full
specializations, aliases, references, deduced types, lambdas, pointers to members.  The generator keeps its own account of what each scope declares, in
order; the database has to say the same.  Headers of the C++ library and of installed packages are reflected as well: the plug-in has to end
normally with a well-formed database, the same one every time."""
import base64, glob, hashlib, json, os, pickle, random, re, shutil, subprocess, tempfile, time
from concurrent.futures import ProcessPoolExecutor
from . import build, cgen, plug, refl

P = plug.P
STDS = ["", "", "-std=c++11", "-std=c++14", "-std=c++17", "-std=c++20", "-std=gnu++17"]
INTS = [("int", "int", 32, 1), ("unsigned", "uint", 32, 0), ("char", "byte", 8, 1), ("signed char", "byte", 8, 1), ("unsigned char", "ubyte", 8, 0), ("short", "short", 16, 1),
        ("unsigned short", "ushort", 16, 0), ("long", "long", 64, 1), ("unsigned long", "ulong", 64, 0), ("long long", "long", 64, 1), ("unsigned long long", "ulong", 64, 0)]
SCALARS = [(a, b) for a, b, _, _ in INTS] + [("bool", "bool"), ("float", "float"), ("double", "double"), ("long double", "quad"), ("char16_t", "ushort"), ("char32_t", "uint"), ("wchar_t", "int")]

# types: ("i", spelling, name) ("p", t) ("q", words, t) ("a", n, t) ("c", node) ("any", text before, text after) ("alias", spelling, t)

class Node:
    """one declaration: tag, name, kids, type, props that are set, props that are not; text before and after the kids; nodes without a tag only hold text"""
    def __init__(self, tag, name="", **kw):
        self.tag, self.name = tag, name
        self.kids, self.type, self.yes, self.no, self.value, self.bits, self.optional, self.path, self.abstract, self.complete, self.target, self.attrs = [], None, 0, 0, None, None, False, "", False, True, None, None
        self.pre = self.post = ""
        self.__dict__.update(kw)

def declare(t, inner):
    k = t[0]
    if k == "i":
        return "%s %s" % (t[1], inner)
    if k == "p":
        return declare(t[1], "(*%s)" % inner if t[1][0] == "a" else "*" + inner)
    if k == "q":
        if t[2][0] == "p":
            return declare(t[2][1], "(*%s %s)" % (t[1], inner) if t[2][1][0] == "a" else "* %s %s" % (t[1], inner))
        return "%s %s" % (t[1], declare(t[2], inner))
    if k == "a":
        return declare(t[2], "%s[%d]" % (inner, t[1]))
    if k == "c":
        return "%s %s" % (t[1].path, inner)
    if k == "any":
        return t[1] + inner + t[2]
    return "%s %s" % (t[1], inner)

def bare(t):
    while t[0] in ("q", "alias") or t[0] == "c" and t[1].tag == "typedef":
        t = t[1].type if t[0] == "c" else t[2]
    return t

class Gen:
    def __init__(self, r):
        self.r, self.n = r, 0
        self.types = []              # classes, enums and typedefs that later text may use
        self.vars = []               # (path, type)
        self.templates = []          # (path, kind)
        self.aliases = []            # (path, type)
        self.later = []              # text that has to stand outside of classes
        self.labels = {}
    def count(self, what):
        self.labels[what] = self.labels.get(what, 0) + 1
    def fresh(self, p):
        self.n += 1
        return p + str(self.n) + self.r.choice(["", "", "_t", "Q"])
    def type(self, depth=0, value=True, refs=True):
        r = self.r
        w = r.randrange(20)
        if depth < 3:
            if w < 3:
                return ("p", self.type(depth + 1, False, False))
            if w < 5:
                t = self.type(depth + 1, value, False)
                if t[0] in ("i", "p", "c", "alias"):
                    return ("q", r.choice(["const", "volatile", "const volatile"]), t)
                return t
            if w < 6 and value:
                t = self.type(depth + 1, True, False)
                return ("a", r.choice([1, 2, 3, 7, 300]), t) if t[0] != "any" else t
            if w < 8 and refs and depth == 0:
                self.count("references and the like")
                return self.neutral()
        if w < 12:
            o = [x for x in self.types if not value or x.complete and not x.abstract]
            if o:
                return ("c", r.choice(o))
        if w < 13 and self.aliases:
            o = r.choice(self.aliases)
            return ("alias", o[0], o[1])
        if w < 14 and self.vars:
            o = r.choice(self.vars)
            return ("alias", "decltype(%s)" % o[0], o[1])
        return ("i",) + r.choice(SCALARS)
    def neutral(self):
        r = self.r
        t = self.type(1, False, False)
        w = r.randrange(5)
        if w < 2:
            return ("any", declare(t, "").rstrip() + " &", "") if t[0] in ("i", "c", "alias") else ("any", "int &&", "")
        if w == 2:
            return ("any", "int (*", ")(char, %s)" % declare(("i",) + r.choice(SCALARS), ""))
        cl = [x for x in self.types if x.tag == "struct"]
        if w == 3 and cl:
            return ("any", "int %s::*" % r.choice(cl).path, "")
        tm = [x for x, k in self.templates if k == "class"]
        if tm:
            self.count("uses of a template")
            return ("any", "%s<%s> *" % (r.choice(tm), r.choice(["int", "char", "const void *", "long"])), "")
        return ("any", "double (&", ")[4]")
    ATTRS = [("[[deprecated]]", "deprecated", None, "fvecp"), ("[[deprecated(\"why\")]]", "deprecated", None, "fvecp"), ("[[gnu::pure]]", "pure", None, "f"), ("[[maybe_unused]]", "unused", None, "fvp"), ("[[gnu::unused]]", "unused", None, "fv"),
             ("[[nodiscard]]", "warn_unused_result", None, "rec"), ("alignas(16)", "aligned", 128, "vc"), ("alignas(32)", "aligned", 256, "c"), ("[[clang::annotate(\"note of it\")]]", "annotate", "note of it", "fvecp")]
    def attr(self, what, n):
        """text of attributes for a declaration; notes them in the node"""
        r = self.r
        n.attrs = []
        if r.randrange(7):
            return ""
        self.count("attributes")
        out = []
        for _ in range(r.choice([1, 1, 2])):
            t, name, v, where = r.choice([a for a in self.ATTRS if set(what) & set(a[3])])
            if not any(name == a for a, _ in n.attrs):
                out.append(t)
                n.attrs.append((name, v))
        return " ".join(out) + " "
    # scopes: path ("" or "::a::b"), where: "ns" or "class"
    def scope(self, path, depth, n, c=False, anon=False):
        out = []
        for _ in range(n):
            out += self.item(path, depth, c, anon)
        return out
    def item(self, path, depth, c, anon):
        r = self.r
        w = r.randrange(30)
        if w < 5 and depth < 4:
            name = self.fresh("n")
            k = r.randrange(6)
            self.count("namespaces")
            if k == 0:
                h, p, a = "namespace {\n", path, True
            elif k == 1:
                h, p, a = "inline namespace %s {\n" % name, r.choice([path, path + "::" + name]), anon
            else:
                h, p, a = "namespace %s {\n" % name, path + "::" + name, anon
            out = [Node(None, pre=h)] + self.scope(p, depth + 1, r.choice([0, 1, 2, 3]), c, a) + [Node(None, pre="}\n")]
            if k > 1 and r.randrange(3) == 0:                # opened again
                out += self.item(path, 9, c, anon) + [Node(None, pre=h)] + self.scope(p, depth + 1, r.choice([1, 2]), c, a) + [Node(None, pre="}\n")]
            if k > 1 and r.randrange(5) == 0:
                out.append(Node(None, pre=r.choice(["using namespace %s;\n", "namespace %s_alias = %%s;\n" % name]) % p))
            return out
        if w < 6 and depth < 4:
            self.count("linkage blocks")
            k = r.choice(["C", "C", "C++"])
            return [Node(None, pre='extern "%s" {\n' % k)] + self.scope(path, depth + 1, r.choice([0, 1, 2]), k == "C", anon) + [Node(None, pre="}\n")]
        if w < 14:
            return self.record(path, 0, c)
        if w < 16:
            return self.enum(path)
        if w < 18:
            return self.typedef(path)
        if w < 21:
            return self.var(path, c, anon)
        if w < 24:
            return self.fn(path, c, anon)
        if w < 28 and not c:
            return self.template(path)
        return self.other(path, c)
    def enum(self, path, visible=True):
        r = self.r
        name = self.fresh("E") if r.randrange(6) else ""
        base = r.choice(INTS) if r.randrange(2) else None
        scoped = name and r.randrange(2)
        bits, signed = (base[2], base[3]) if base else (32, 1)
        lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
        n = Node("enum", name, path=path + "::" + name)
        self.count("scoped enums" if scoped else "plain enums")
        out = []
        key = "enum %s" % (r.choice(["class ", "struct "]) if scoped else "")
        tail = name + (" : " + base[0] if base else "")
        head = key + tail
        n.bits = bits
        if name and (base or scoped) and r.randrange(3) == 0:
            out.append(Node("enum", name, pre=head + ";\n", target=n, bits=bits))
        head = key + self.attr("e", n) + tail
        v = None
        body = []
        for _ in range(r.choice([0, 1, 2, 4])):
            if v is None or v + 1 > hi or r.randrange(2):
                v = r.choice([r.randint(lo, hi), lo, hi, 0, 1])
                k = Node("constant", self.fresh("K"), value=v)
                t = str(v) if v > -(1 << 63) else "-9223372036854775807LL - 1"
                body.append("%s = %s%s" % (k.name, t, "ULL" if v >= 1 << 63 else ""))
            else:
                v += 1
                k = Node("constant", self.fresh("K"), value=v)
                body.append(k.name)
            if r.randrange(10) == 0:
                body[-1] = (k.name + " [[deprecated]]" + body[-1][len(k.name):])
                k.attrs = [("deprecated", None)]
            else:
                k.attrs = []
            n.kids.append(k)
        for k in n.kids:
            k.type = ("i", "", base[1] if base else "int" if scoped or any(x.value < 0 for x in n.kids) else "uint")
        n.pre = head + " { " + ", ".join(body) + " };\n"
        if name and visible:
            self.types.append(n)
        return out + [n]
    def typedef(self, path, visible=True):
        r = self.r
        t = self.type()
        n = Node("typedef", self.fresh("T"), type=t)
        n.path = path + "::" + n.name
        n.pre = self.attr("p", n) + "typedef %s;\n" % declare(t, n.name)
        # a reference is no type for members of arrays and the like
        if visible and t[0] not in ("any", "a"):
            if bare(t)[0] != "c" or not bare(t)[1].tag == "struct":
                self.types.append(n)
        return [n]
    def alias(self, path, visible=True):
        t = self.type(refs=False)
        name = self.fresh("U")
        self.count("using aliases")
        if visible and t[0] != "a" and bare(t)[0] != "c":
            self.aliases.append((path + "::" + name, t))
        return [Node(None, pre="using %s = %s;\n" % (name, declare(t, "")))]
    def var(self, path, c, anon):
        r = self.r
        w = r.randrange(10)
        name = self.fresh("v")
        yes = P["static"]
        if w < 2:
            self.count("deduced types")
            k = r.randrange(8)
            if k == 0:
                return [Node("field", name, yes=yes, type=("any", "", ""), pre="%s %s = [](%s) { struct L { int in; } l; enum { LE }; static int ls; return l; };\n" % (
                    r.choice(["auto", "static auto", "const auto"]), name, r.choice(["", "int z", "int, char"])))]
            if k == 1:
                return [Node("field", name, yes=yes, type=("any", "", ""), pre="auto && %s = 3;\n" % name)]
            sp, nm = r.choice([("3", "int"), ("3u", "uint"), ("4L", "long"), ("1.5", "double"), ("'c'", "byte"), ("2.5f", "float"), ("true", "bool"), ("sizeof(int)", "ulong")])
            t = ("i", "auto", nm)
            q = r.choice(["", "", "const", "volatile"])
            if q:
                t = ("q", q, t)
            self.vars.append((path + "::" + name, t)) if not anon else None
            return [Node("field", name, yes=yes, type=t, pre="%s%s = %s;\n" % (r.choice(["", "static "]), declare(t, name), sp))]
        t = self.type()
        if t[0] == "any" or r.randrange(2):
            if r.randrange(5) == 0:
                name2 = self.fresh("v")
                if t[0] in ("i", "c", "alias"):
                    return [Node("field", name, yes=yes, type=t, pre="extern %s, *%s;\n" % (declare(t, name), name2)), Node("field", name2, yes=yes, type=("p", t))]
            ns = [Node("field", name, yes=yes, type=t)]
            ns[0].pre = self.attr("v", ns[0]) + "extern %s;\n" % declare(t, name)
            if t[0] != "any":
                self.vars.append((path + "::" + name, t))
            return ns
        if t[0] in ("i", "p"):
            thread = r.randrange(6) == 0
            words = r.choice(["", "static "]) + ("thread_local " if thread else "")
            if c and not thread and r.randrange(2):
                words = "static "
            return [Node("field", name, yes=0 if thread else yes, type=t, pre="%s%s%s;\n" % (words, declare(t, name), r.choice(["", " = {}", "{}"])))]
        return [Node("field", name, yes=yes, type=t, pre="extern %s;\n" % declare(t, name))]
    def params(self):
        r = self.r
        ps = []
        for _ in range(r.choice([0, 0, 1, 1, 2, 4])):
            ps.append(Node("param", self.fresh("p") if r.randrange(4) else "", type=self.type(1, True, True)))
        text = []
        dflt = False
        for p in ps:
            d = declare(p.type, p.name)
            if (dflt or r.randrange(8) == 0) and p.type[0] in ("i", "p"):
                d += " = {}"
                dflt = True
            elif dflt:
                d += " = (throw 1)" if False else ""
                for k in range(len(text)):
                    text[k] = text[k].replace(" = {}", "")
                dflt = False
            text.append(d)
        self.ellipsis = r.randrange(10) == 0
        return ps, ", ".join(text + (["..."] if self.ellipsis else []))
    BODY = [" {}\n", " { for (;;); }\n", " { struct L { int in; } l; (void) l; for (;;); }\n", " { static int s; enum { LE }; typedef int LT; for (;;); }\n", " { auto z = [](int k) { return k; }; for (;;); }\n",
            " { try { throw 1; } catch (int e) { } for (;;); }\n", " { for (int i = 0;;) { extern int ext; int fn(int); (void) i; } }\n"]
    def fn(self, path, c, anon):
        r = self.r
        name = self.fresh("f")
        ps, text = self.params()
        t = self.type(1, True, True) if r.randrange(3) else None
        while t and bare(t)[0] == "a":
            t = bare(t)[2]
        static, inline = r.randrange(5) == 0, r.randrange(5) == 0
        body = static or inline or r.randrange(3) == 0
        noret = r.randrange(12) == 0
        if t is None or noret:
            t = ("i", "void", "void")
        cx = r.randrange(8)
        oper = None
        if not c and r.randrange(8) == 0:
            en = [x for x in self.types if x.tag in ("enum", "struct")]
            if en:
                o = r.choice(["+", "-", "*", "==", "<", "<<", "||", "!=", "%", ","])
                name = "operator" + o
                ps = [Node("param", "", type=("any", "", "")), Node("param", self.fresh("p"), type=("i", "int", "int"))]
                text = "%s &, int %s" % (r.choice(en).path, ps[1].name)
                self.count("operators")
        yes = (P["static"] if static else 0) | (P["inline"] if inline else 0) | (P["noreturn"] if noret else 0)
        no = (P["static"] | P["inline"] | P["noreturn"]) & ~yes
        if c and not name.startswith("operator"):
            # a function that other units cannot name has no language linkage
            if not static and not anon:
                yes |= P["extern_c"]
            elif static:
                no |= P["extern_c"]
        else:
            no |= P["extern_c"]
        if static:
            no |= P["global"]
        elif not anon:
            yes |= P["global"]
        sig = "%s(%s)" % (name, text)
        trail = cx == 0 and t[0] != "any"
        text = "%s%s%s%s%s" % ("[[noreturn]] " if noret else "", "static " if static else "", "inline " if inline else "",
                               "auto %s -> %s" % (sig, declare(t, "")) if trail else declare(t, sig), " noexcept" if cx == 1 and not trail and t[0] not in ("any", "a", "p", "q") else "")
        n = Node("function", name, type=t, kids=ps, yes=yes, no=no)
        n.pre = self.attr("f" if t[1:2] == ("void",) else "fr", n) + text + (r.choice(self.BODY[1:]) if body else ";\n")
        out = [n]
        if not body and not static and r.randrange(6) == 0 and "= {}" not in text:
            out.append(Node("function", name, type=t, kids=ps, yes=yes, no=no & ~P["extern_c"], pre=text + ";\n"))
        return out
    # ---- classes
    def record(self, path, depth, c=False, visible=True):
        r = self.r
        key = r.choice(["struct", "struct", "class", "class", "union"])
        name = self.fresh("S")
        n = Node("union" if key == "union" else "struct", name, path=path + "::" + name)
        n.key = key
        self.count({"struct": "structs", "class": "classes", "union": "unions"}[key])
        out = []
        fwd = Node(n.tag, name, pre="%s %s;\n" % (r.choice(["struct", "class"]) if key != "union" else "union", name), target=n)
        if r.randrange(5) == 0:
            out.append(fwd)
        n.complete = False
        mark = len(self.types)
        if visible:
            self.types.append(n)
        bases = [x for x in self.types if x.tag == "struct" and x.complete and not getattr(x, "final", 0)] if key != "union" else []
        name = self.attr("c", n) + name
        head = "%s %s" % (key, name)
        if bases and r.randrange(3) == 0:
            b = []
            for _ in range(r.choice([1, 1, 2])):
                x = r.choice(bases)
                if x not in b:
                    b.append(x)
            self.count("bases")
            head += " : " + ", ".join(r.choice(["public ", "virtual public ", "private ", "protected ", ""]) + x.path for x in b)
            n.abstract = any(x.abstract for x in b)
        elif key != "union" and r.randrange(12) == 0:
            head = "%s %s final" % (key, name)
            n.final = True
        n.pre = head + " {\n"
        access = key != "class"
        for _ in range(r.choice([0, 1, 2, 3, 5, 8])):
            if r.randrange(4) == 0:
                w = r.choice(["public", "public", "private", "protected"])
                n.kids.append(Node(None, pre=w + ":\n"))
                access = w == "public"
            n.kids += self.member(n, key, depth, access and visible)
        n.post = "}"
        if not visible:
            del self.types[mark:]
        n.complete = True
        # declarators behind the definition
        after = []
        if depth == 0 and not c and r.randrange(5) == 0 and not n.abstract and key != "union":
            v = self.fresh("v")
            n.post += " *%s, %s[2]" % (v, v + "a") if False else " *%s" % v
            after.append(Node("field", v, yes=P["static"], type=("p", ("c", n))))
        n.post += ";\n"
        out.append(n)
        out += after
        if depth == 0:
            out += self.later
            self.later = []
        return out
    def member(self, n, key, depth, visible):
        r = self.r
        w = r.randrange(40)
        union = key == "union"
        if w < 12:
            t = self.type()
            if union and (t[0] not in ("i", "p") or t[0] == "any"):
                t = ("i",) + r.choice(SCALARS)
            k = Node("field", self.fresh("m"), type=t, no=P["static"] | P["bitfield"])
            k.pre = self.attr("v", k) + "%s%s%s;\n" % ("mutable " if r.randrange(8) == 0 and t[0] == "i" else "", declare(t, k.name), " = {}" if t[0] in ("i",) and not union and r.randrange(6) == 0 else "")
            return [k]
        if w < 15:
            i = r.choice(INTS)
            b = r.randint(1, i[2])
            k = Node("field", self.fresh("b"), type=("i", i[0], i[1]), yes=P["bitfield"], no=P["static"], bits=b)
            k.pre = "%s %s : %d;\n" % (i[0], k.name, b)
            return [k]
        if w < 18 and not union:
            self.count("static members")
            k = Node("field", self.fresh("s"), type=("i",) + r.choice(SCALARS), yes=P["static"])
            if r.randrange(3) == 0:
                k.type = ("i",) + r.choice(SCALARS[:12])
                k.pre = "static constexpr %s = {};\n" % declare(k.type, k.name)
                k.type = ("q", "const", k.type)
            elif r.randrange(3) == 0:
                k.pre = "%s %s;\n" % (r.choice(["static thread_local", "thread_local static"] + ["static inline", "inline static", "static inline thread_local"]), declare(k.type, k.name))
            else:
                k.pre = "static %s;\n" % declare(k.type, k.name)
                if r.randrange(2) and visible:
                    self.later.append(Node("field", k.name, type=k.type, yes=P["static"], pre="%s %s::%s;\n" % (k.type[1], n.path, k.name)))
            return [k]
        if w < 26:
            return self.method(n, union, visible)
        if w < 29 and depth < 3:
            ms = self.record(n.path, depth + 1, visible=visible)
            return ms
        if w < 31:
            return self.enum(n.path, visible)
        if w < 33:
            return self.typedef(n.path, visible)
        if w < 34:
            return self.alias(n.path, visible)
        if w < 36 and depth < 3:
            self.count("anonymous members")
            u = Node(r.choice(["union", "struct"]), "", pre="")
            u.pre = u.tag + " {\n"
            for _ in range(r.choice([1, 2, 3])):
                t = ("i",) + r.choice(SCALARS)
                k = Node("field", self.fresh("m"), type=t, no=P["static"])
                k.pre = declare(t, k.name) + ";\n"
                u.kids.append(k)
            u.post = "}"
            if r.randrange(2):
                f = Node("field", "", type=("c", u), pre=";\n")
            else:
                f = Node("field", self.fresh("m"), type=("c", u))
                f.pre = " %s;\n" % f.name
            return [u, f]
        if w < 38:
            self.count("friends")
            x = self.fresh("fr")
            o = [x for x in self.types if x.tag == "struct"]
            # a friend that the namespace does not declare is no member of anything
            return [Node(None, pre=r.choice(["friend struct %s;\n" % x, "friend class %s;\n" % x, "friend void %s(int);\n" % x, "friend int %s(%s &) { return 0; }\n" % (x, n.name),
                                             "template<class Z> friend struct %s;\n" % x, "friend %s;\n" % (r.choice(o).path if o else "struct " + x)]))]
        if w < 39 and depth == 0:
            x = self.fresh("m")
            self.count("member templates")
            return [Node(None, pre=r.choice(["template<class Z> void %s(Z);\n" % x, "template<class Z> struct %s { Z z; };\n" % x, "template<class Z> %s(Z, int, int, int);\n" % n.name if not union else "",
                                             "template<int N> static constexpr int %s = N;\n" % x, "template<class Z> using %s = Z *;\n" % x]))]
        return [Node(None, pre=r.choice(["static_assert(true, \"\");\n", ";\n"]))]
    def method(self, n, union, visible):
        r = self.r
        self.count("methods")
        w = r.randrange(14)
        done = getattr(n, "done", None)
        if done is None:
            done = n.done = set()
        void = ("i", "void", "void")
        if w == 0 and "ctor" not in done:
            done.add("ctor")
            return [Node("function", n.name, type=void, pre="%s%s()%s;\n" % (r.choice(["", "explicit "]), n.name, r.choice(["", "", " noexcept", " = delete"])))]
        if w == 1 and "copy" not in done:
            done.add("copy")
            return [Node("function", n.name, type=void, kids=[Node("param", "", type=("any", "", ""))], pre="%s(const %s &)%s;\n" % (n.name, n.name, r.choice(["", " = delete"])))]
        if w == 2 and "dtor" not in done and not union:
            done.add("dtor")
            return [Node("function", "~" + n.name, type=void, pre="%s~%s();\n" % (r.choice(["", "virtual "]), n.name))] if not done & {"bodies"} else []
        if w == 3:
            o = r.choice(["+", "-", "=", "+=", "==", "<", "[]", "->*", ",", "<<=", "&&"])
            if o not in done:
                done.add(o)
                self.count("operators")
                if o == "=":
                    return [Node("function", "operator=", type=("any", "", ""), kids=[Node("param", "o", type=("any", "", ""))], pre="%s &operator=(const %s &o);\n" % (n.name, n.name))]
                return [Node("function", "operator" + o, type=("i", "int", "int"), kids=[Node("param", "i", type=("i", "int", "int"))], pre="int operator%s(int i);\n" % o)]
        if w == 4:
            o = r.choice([("operator int", "int", "int"), ("operator bool", "bool", "bool"), ("operator double", "double", "double")])
            if o[0] not in done:
                done.add(o[0])
                self.count("operators")
                return [Node("function", o[0], type=("i", o[1], o[2]), pre="%s%s() const;\n" % (r.choice(["", "explicit "]), o[0]))]
        if w == 5 and "call" not in done:
            done.add("call")
            return [Node("function", "operator()", type=void, kids=[Node("param", "", type=("i", "int", "int"))], pre="void operator()(int);\n")]
        name = self.fresh("f") if r.randrange(6) or not done & {"names"} else n.last
        done.add("names")
        n.last = name
        ps, text = self.params()
        if self.ellipsis:
            text = text.replace("...", "").rstrip(", ")
        if name in getattr(n, "sigs", ()):
            name = self.fresh("f")
        n.sigs = getattr(n, "sigs", set()) | {name}
        t = self.type(1, True, True)
        while bare(t)[0] == "a":
            t = bare(t)[2]
        kind = r.randrange(8)
        static = kind == 0
        pre = "static " if static else "virtual " if kind == 1 and not union else ""
        post = ""
        body = False
        if kind == 1 and not union and r.randrange(2):
            post = " = 0"
            n.abstract = True
        elif r.randrange(3) == 0:
            body = True
        if not static and not t[0] in ("any",):
            q = r.choice(["", "", " const", " volatile", " const noexcept", " &"])
        else:
            q = ""
        s = declare(t, "%s(%s)%s" % (name, text, q))
        yes = (P["static"] if static else 0) | (P["inline"] if body else 0)
        no = (P["static"] | P["inline"]) & ~yes | P["extern_c"]
        k = Node("function", name, type=t, kids=ps, yes=yes, no=no)
        k.pre = self.attr("fr", k) + pre + s + post + (r.choice(self.BODY[1:]) if body else ";\n")
        if not body and not post and visible and t[0] == "i" and r.randrange(4) == 0 and " = {}" not in text:
            self.count("methods defined outside of the class")
            self.later.append(Node("function", name, type=t, kids=ps, pre=declare(t, "%s::%s(%s)%s" % (n.path, name, text, q)) + r.choice(self.BODY[1:])))
        return [k]
    def template(self, path):
        r = self.r
        w = r.randrange(8)
        name = self.fresh("t")
        self.count("templates")
        ts = r.choice(["class A", "typename A", "class A, int N = 3", "class A, class B = int", "class A, template<class> class TT = %s_tt" % name, "class A, class... R"])
        tt = "template<class> struct %s_tt;\n" % name
        full = path + "::" + name
        if w < 4:
            body = r.choice(["A a; int i;", "A a; struct In { A b; int c; }; In in; enum { E1, E2 }; typedef A T; static int s;", "", "virtual A f(A, int); template<class Q> Q g(Q); friend void ff(A); union { A x; int y; };",
                             "class P; P *p; A arr[3]; int f : 3;", "struct { int z; } in; auto f() -> A; %s(); ~%s();" % (name, name)])
            out = [Node(None, pre=tt + "template<%s> %s %s { %s};\n" % (ts, r.choice(["struct", "struct", "union"]) if "virtual" not in body and "static" not in body and "A a" not in body else "struct", name, body))]
            self.templates.append((full, "class"))
            if r.randrange(3) == 0:
                out += self.item(path, 9, False, True)
            if r.randrange(2):
                self.count("full specializations")
                n = Node("struct", name, path=full + "<char[7]>")
                n.key = "struct"
                if ts in ("class A", "typename A") or "=" in ts or "..." in ts:
                    m = Node("field", self.fresh("m"), type=("i",) + r.choice(SCALARS), no=P["static"])
                    m.pre = declare(m.type, m.name) + ";\n"
                    n.kids = [m]
                    if r.randrange(2):
                        n.kids += self.method(n, True, False)
                    n.pre, n.post = "template<> %s %s<char[7]> {\n" % ("struct", name), "};\n"
                    k = 0 if "union" in out[0].pre.split(name + " {")[0].split("\n")[-1] else 1
                    if k:
                        out.append(n)
            if r.randrange(3) == 0 and ts in ("class A", "typename A"):
                self.count("partial specializations")
                out.append(Node(None, pre="template<class A> struct %s<A *> { A *part; struct Deep { A d; }; int f(); };\ntemplate<class A> int %s<A *>::f() { struct L { int x; }; return 0; }\n" % (name, name) if "union" not in out[0].pre.split("{")[0] else ""))
            if r.randrange(6) == 0 and "struct %s {" % name in out[0].pre and "tt" not in ts:
                self.count("explicit instantiations")
                # what an instantiation adds is not stated here
                out.append(Node("struct", name, optional=True, pre="%stemplate struct %s<short>;\n" % (r.choice(["", "extern "]), name)))
            return out
        if w < 6:
            s = r.choice(["A %s(A a, int b = 3)", "void %s(A *, const A &)", "auto %s(A a) -> decltype(a)", "static inline int %s(A)", "constexpr int %s(A)"]) % name
            out = [Node(None, pre="template<class A> %s%s" % (s, r.choice([";\n", " { struct L { A in; int q; } *l; enum { E1 }; static int s; for (;;); }\n"]) if "auto" not in s and "constexpr" not in s else ";\n"))]
            if "A %s(A a, int" % name in s and r.randrange(2):
                self.count("full specializations")
                out.append(Node("function", name, type=("i", "long", "long"), kids=[Node("param", "z", type=("i", "long", "long")), Node("param", "", type=("i", "int", "int"))],
                                pre="template<> long %s<long>(long z, int);\n" % name))
            return out
        if w == 6:
            return [Node(None, pre="template<class A> %s %s = A();\n" % (r.choice(["A", "const A", "constexpr A"]), name))]
        return [Node(None, pre="template<class A> using %s = %s;\n" % (name, r.choice(["A", "A *", "A &", "int", "A (*)(A, int)"])))]
    def other(self, path, c):
        r = self.r
        w = r.randrange(6)
        if w == 0:
            return self.alias(path)
        if w == 1 and self.vars:
            self.count("using declarations")
            v = r.choice(self.vars)[0]
            if v.rsplit("::", 1)[0] != path:
                return [Node(None, pre="using %s;\n" % v)]
        if w == 2:
            return [Node(None, pre="static_assert(sizeof(int) == 4, \"size\");\n")]
        if w == 3 and not c:
            return [Node("function", 'operator""_' + self.fresh("u"), type=("i", "int", "int"), kids=[Node("param", "", type=("i", "unsigned long long", "ulong"))])]
        if w == 4:
            return [Node(None, pre="asm(\"\");\n")]
        return [Node(None, pre=";\n")]

def emit(ns, out):
    for n in ns:
        if n.tag == "function" and n.name.startswith('operator""') and not n.pre:
            out.append("int %s(unsigned long long);\n" % n.name)
            continue
        out.append(n.pre)
        if n.tag in ("struct", "union"):
            emit(n.kids, out)
        out.append(n.post)

def render(ns):
    out = []
    emit(ns, out)
    return "".join(out)

class Case:
    pass

def gen(seed, n):
    r = random.Random("cxx-%s-%s" % (seed, n))
    g = Gen(r)
    c = Case()
    c.std = r.choice(STDS)
    c.file = r.choice(["u.cc", "u.cpp", "u.cxx", "a b.cc", "u.C"])
    c.items = []
    for _ in range(r.choice([1, 2, 3, 5, 8, 12])):
        c.items += g.item("", 0, False, False)
    c.labels = g.labels
    return c

# ---- comparison

class Compare:
    def __init__(self, db, items, file):
        self.db, self.bad, self.node, self.todo, self.count = db, [], {}, [], 0
        r = db.n.get(db.root)
        if r is None or refl.TAGS[r.tag] != "source" or r.name != os.path.basename(file):
            self.bad.append("the root is not the source %s" % file)
            return
        self.scope("the unit", items, db.kids(r))
        for where, t, i in self.todo:
            e = self.match(t, i)
            if e:
                self.bad.append("%s: %s" % (where, e))
        return
    def scope(self, where, want, have):
        want = [n for n in want if n.tag]
        j = 0
        for n in want:
            x = have[j] if j < len(have) else None
            t = refl.TAGS[x.tag] if x is not None else None
            if t != n.tag or x.name != n.name:
                if n.optional:
                    continue
                self.bad.append("%s: %s where %s should be" % (where, "%s %s" % (t, plug.quoted(x.name)) if x is not None else "nothing", "%s %s" % (n.tag, plug.quoted(n.name))))
                return
            j += 1
            if n.optional:
                continue
            self.count += 1
            self.node[id(n)] = x.id
            here = "%s / %s %s" % (where, n.tag, n.name)
            if x.props & n.yes != n.yes or x.props & n.no:
                self.bad.append("%s: marks %s and not %s expected, %s recorded" % (here, marks(n.yes), marks(n.no), marks(x.props)))
            if n.attrs is not None:
                got = [(a.name, self.value(a.link)) for a in self.db.chain(x.attr)]
                if got != n.attrs:
                    self.bad.append("%s: attributes %s, not %s" % (here, got, n.attrs))
            if n.tag == "enum" and x.qty != n.bits:
                self.bad.append("%s: %d bits, not %d" % (here, x.qty, n.bits))
            if n.tag in ("struct", "union", "enum"):
                if n.target is None:
                    self.scope(here, n.kids, self.db.kids(x))
            elif n.tag == "constant":
                if x.qty != n.value & (1 << 64) - 1:
                    self.bad.append("%s: value %d, not %d" % (here, x.qty, n.value))
                self.todo.append((here, n.type, x.link))
            elif n.tag == "function":
                ks = self.db.kids(x)
                if not ks or refl.TAGS[ks[0].tag] != "param" or not ks[0].props & P["out"]:
                    self.bad.append("%s: no result" % here)
                    continue
                self.todo.append((here + " / result", n.type, ks[0].link))
                self.scope(here, n.kids, ks[1:])
            else:
                if n.bits is not None and x.qty != n.bits:
                    self.bad.append("%s: %d bits, not %d" % (here, x.qty, n.bits))
                self.todo.append((here, n.type, x.link))
        if j < len(have):
            self.bad.append("%s: %s %s was not declared there" % (where, refl.TAGS[have[j].tag], plug.quoted(have[j].name)))
    def value(self, i):
        x = self.db.n.get(i)
        return None if x is None else x.name or x.qty
    def match(self, t, i):
        if t[0] == "any":
            return None
        if t[0] == "i":
            return None if i == cgen.INTRINSIC[t[2]] else "type is not %s" % t[2]
        if t[0] == "alias":
            return self.match(t[2], i)
        if t[0] == "c":
            n = t[1]
            if n.tag == "typedef":            # types are recorded without the names given to them
                return self.match(n.type, i)
            want = self.node.get(id(n))
            if want is None:
                return None
            return None if i == want else "type is not the declared %s %s" % (n.tag, n.name)
        x = self.db.n.get(i)
        tag = refl.TAGS[x.tag] if x is not None else None
        if t[0] == "p":
            if tag != "pointer" or x.qty != 64:
                return "type is not a pointer of 64 bits"
            return self.match(t[1], x.link)
        if t[0] == "a":
            if tag != "array" or x.qty != t[1]:
                return "type is not an array of %d" % t[1]
            return self.match(t[2], x.link)
        if bare(t)[0] == "any":
            return None
        words = set()
        while t[0] in ("q", "alias") or t[0] == "c" and t[1].tag == "typedef":
            if t[0] == "q":
                words |= set(t[1].split())
            t = t[1].type if t[0] == "c" else t[2]
        if t[0] == "a":
            return None                       # the elements are qualified
        if tag != "qualifier" or set(p for p in plug.CVR if x.props & P[p]) != words:
            return "qualifiers differ"
        return self.match(t, x.link)

def marks(p):
    return "(%s)" % " ".join(k for k, v in P.items() if p & v)

def examine(env, c, top, again=False):
    """complaints (None: not a valid unit), reason"""
    d = tempfile.mkdtemp(dir=top)
    try:
        path = os.path.join(d, c.file)
        with open(path, "w") as f:
            f.write(render(c.items))
        extra = [c.std] if c.std else []
        p = subprocess.run([build.LLVM + "/bin/clang", "-fsyntax-only", "-w", *extra, path], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        if p.returncode:
            return None, p.stderr.decode("utf8", "replace")[:400]
        st, data, msg = plug.reflect(env.so, path, os.path.join(d, "u.refl"), extra)
        if st:
            return ["the compiler ends with %d: %s" % (st, plug.cut(msg))], None
        k = Compare(Db(data, env.base), c.items, c.file)
        bad = k.bad
        if again and not bad:
            st, two, msg = plug.reflect(env.so, path, os.path.join(d, "o.refl"), extra)
            if two != data:
                bad = ["a second run gives another database"]
        return bad, k.count
    except (refl.Bad, ValueError) as e:
        return ["the database is not well-formed: %s" % e], None
    finally:
        shutil.rmtree(d, ignore_errors=True)

Db = plug.Db

# ---- shrinking: any node may go if the text stays valid and still fails

def paths(ns, at=()):
    for k, n in enumerate(ns):
        yield at + (k,)
        if n.tag in ("struct", "union"):
            for p in paths(n.kids, at + (k,)):
                yield p

def without(items, group):
    import copy
    q = copy.deepcopy(items)
    for p in sorted(group, reverse=True):
        l = q
        for k in p[:-1]:
            l = l[k].kids
        del l[p[-1]]
    return q

def shrink(c, failing):
    import copy
    end = time.time() + 90
    changed = True
    while changed and time.time() < end:
        changed = False
        # several neighbours at once (a namespace with its closing brace), then one by one
        for w in (32, 16, 8, 4, 3, 2, 1):
            ps = list(paths(c.items))
            k = len(ps) - w
            while k >= 0 and time.time() < end:
                g = ps[k:k + w]
                g = [p for p in g if not any(p[:len(o)] == o and p != o for o in g)]
                q = copy.copy(c)
                try:
                    q.items = without(c.items, g)
                except IndexError:
                    k -= 1
                    continue
                if q.items and failing(q):
                    c, changed = q, True
                    ps = list(paths(c.items))
                k -= max(1, w // 2)
        for k, n in enumerate(c.items):
            if not n.tag and n.pre.endswith("{\n"):
                for m in range(k + 1, len(c.items)):
                    if c.items[m].pre == "}\n" and not c.items[m].tag:
                        q = copy.copy(c)
                        q.items = without(c.items, [(k,), (m,)])
                        if q.items and failing(q):
                            c, changed = q, True
                            break
                if changed:
                    break
        if c.std:
            q = copy.copy(c)
            q.std = ""
            if failing(q):
                c, changed = q, True
    return c

def worker(a):
    env, seed, lo, hi, top = a
    out = []
    for n in range(lo, hi):
        c = gen(seed, n)
        bad, why = examine(env, c, top, n % 20 == 0)
        t = render(c.items)
        out.append((n, hashlib.sha256((c.std + t).encode()).hexdigest()[:16], bad, why, c.labels, t[:500] if n % 97 == 0 else None))
        if bad:
            break
    return out

# ---- headers

def candidates():
    out = []
    for d in sorted(glob.glob("/usr/include/c++/*"))[-1:]:
        out += [os.path.basename(f) for f in sorted(glob.glob(d + "/*")) if os.path.isfile(f) and "." not in os.path.basename(f)]
        for s in ("ext", "experimental", "debug", "pstl"):
            out += [s + "/" + os.path.basename(f) for f in sorted(glob.glob(d + "/" + s + "/*")) if os.path.isfile(f) and not f.endswith((".tcc", ".h"))]
    for s in ("gtest/gtest.h", "gmock/gmock.h", "catch2/catch_all.hpp", "rapidcheck.h", "benchmark/benchmark.h", "z3++.h"):
        if os.path.exists("/usr/include/" + s):
            out.append(s)
    out += ["boost/" + os.path.basename(f) for f in sorted(glob.glob("/usr/include/boost/*.hpp"))]
    return out

def header(a):
    env, k, names, std, top = a
    d = tempfile.mkdtemp(dir=top)
    try:
        path = os.path.join(d, "h.cc")
        with open(path, "w") as f:
            f.write("".join("#include <%s>\n" % n for n in names) + "namespace tail { int last_of_unit; }\n")
        extra = [std] if std else []
        p = subprocess.run([build.LLVM + "/bin/clang", "-fsyntax-only", "-w", *extra, path], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if p.returncode:
            return k, names, std, None, 0
        o = os.path.join(d, "h.refl")
        st, data, msg = plug.reflect(env.so, path, o, extra)
        if st:
            return k, names, std, ["the compiler ends with %d: %s" % (st, plug.cut(msg))], 0
        try:
            db = Db(data, env.base)
            r = db.n.get(db.root)
            kids = db.kids(r)
            if not kids or kids[-1].name != "last_of_unit":
                return k, names, std, ["the last declaration of the unit is not the last one recorded"], 0
            for x in db.n.values():
                for f in ("next", "link", "attr"):
                    v = getattr(x, f)
                    if v and v not in db.n and v not in plug.BIN:
                        return k, names, std, ["the %s of declaration %d leads nowhere" % (f, x.id)], 0
            # every list of members ends, and nothing is in two lists
            owner = {}
            for x in db.n.values():
                if refl.TAGS[x.tag] in plug.CONTAINERS:
                    for y in db.kids(x):
                        if owner.setdefault(y.id, x.id) != x.id:
                            return k, names, std, ["declaration %d (%s) is a member of two others" % (y.id, y.name)], 0
        except (refl.Bad, ValueError) as e:
            return k, names, std, ["the database is not well-formed: %s" % e], 0
        if plug.reflect(env.so, path, os.path.join(d, "o.refl"), extra)[1] != data:
            return k, names, std, ["a second run gives another database"], 0
        return k, names, std, [], len(kids)
    finally:
        shutil.rmtree(d, ignore_errors=True)

def headers(rep, env, part, top):
    r = random.Random("cxx-headers-%s" % rep.seed)
    all_ = candidates()
    if rep.thorough():
        jobs = [[h] for h in all_] + [r.sample(all_, 3) for _ in range(200)]
    else:
        jobs = [r.sample(all_, r.choice([1, 1, 2])) for _ in range(48)]
    jobs = [(env, k, j, r.choice(STDS), top) for k, j in enumerate(jobs)]
    n, kids, invalid, samples, fails = 0, 0, 0, [], []
    with ProcessPoolExecutor(8) as ex:
        for k, names, std, bad, count in ex.map(header, jobs):
            if bad is None:
                invalid += 1
                continue
            n += 1
            kids += count
            samples.append("%s %s: %d declarations at file scope" % (" ".join(names), std, count))
            if bad:
                fails.append((names, std, bad))
    for k, (names, std, bad) in enumerate(fails[:3]):
        for m in list(names):
            rest = [x for x in names if x != m]
            if rest and header((env, 0, rest, std, top))[3]:
                names = rest
        path = os.path.join(rep.rdir, "C31-header-%d.json" % k)
        with open(path, "w") as f:
            json.dump(dict(headers=names, std=std, complaints=bad), f, indent=1)
        rep.violation("headers", "%s %s: %s" % (" ".join(names), std, bad[0]), path)
    rep.add("installed headers", n, n, {"declarations at file scope": kids, "header sets a compiler rejects (discarded)": invalid}, samples[:12])

def run(rep, part, opt):
    env = plug.Env(rep.tmp)
    top = tempfile.mkdtemp(dir=rep.tmp)
    if "replay" in opt:
        with open(opt["replay"]) as f:
            j = json.load(f)
        if "headers" in j:
            bad = header((env, 0, j["headers"], j["std"], top))[3]
        else:
            c = pickle.loads(base64.b64decode(j["case"]))
            print(render(c.items))
            bad, why = examine(env, c, top, True)
        print("complaints:", bad)
        if bad:
            rep.violation("replay", bad[0], opt["replay"])
        return
    total = int((part["thorough"] if rep.thorough() else part["quick"]) * float(opt.get("scale", 1)))
    jobs = [(env, rep.seed, a, min(total, a + 20), top) for a in range(0, total, 20)]
    seen, samples, evals, nontrivial, fails, invalid, labels = set(), [], 0, 0, [], [], {}
    stop = time.time() + (100000 if rep.thorough() else 400)
    with ProcessPoolExecutor(8) as ex:
        for out in ex.map(worker, jobs):
            for n, h, bad, why, lab, text in out:
                if bad is None:
                    invalid.append((n, why))
                    continue
                evals += 1
                if h not in seen and (bad or why >= 3):
                    nontrivial += 1
                seen.add(h)
                for k, v in lab.items():
                    labels[k] = labels.get(k, 0) + v
                if text:
                    samples.append(text)
                if bad:
                    fails.append(n)
            if len(fails) >= 3 or time.time() > stop:
                ex.shutdown(cancel_futures=True)
                break
    for k, n in enumerate(fails[:3]):
        c = gen(rep.seed, n)
        bad = examine(env, c, top, True)[0]
        if not bad:
            rep.notes.append("case %d failed once only" % n)
            continue
        def sign(b):
            return re.sub(r'"[^"]*"|\w*\d\w*', "#", b[0].split(" / ")[-1]).split(":", 1)[-1][:40] if b else None
        want = sign(bad)
        c = shrink(c, lambda q: sign(examine(env, q, top, "second run" in bad[0])[0]) == want)
        bad = examine(env, c, top, True)[0] or ["?"]
        path = os.path.join(rep.rdir, "C31-%d.json" % k)
        with open(path, "w") as f:
            json.dump(dict(text=render(c.items), std=c.std, file=c.file, complaints=bad, case=base64.b64encode(pickle.dumps(c)).decode()), f, indent=1)
        rep.violation("units", "unit %d: %s" % (n, bad[0]), path)
    labels["units that a compiler rejects (discarded)"] = len(invalid)
    if invalid:
        rep.notes.append("rejected, such as %d: %s" % (invalid[0][0], " ".join((invalid[0][1] or "").split("error:")[-1].split())[:120]))
    rep.add("units", evals, nontrivial, labels, samples[:12])
    if "scale" not in opt or float(opt["scale"]) >= 1:
        headers(rep, env, part, top)
