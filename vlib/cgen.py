"""Generator of C translation units together with an independent account of what they declare.

A unit is a list of items (objects below). render() gives its C text; expect() walks the items in the order in which a compiler sees them
and gives the tree of declarations (Exp) with the type of each; both work from the same objects, so that a failing unit can be shrunk by
removing items and members. Nothing here looks at how the plug-in works: types are normalised by the rules of C (typedefs name types,
qualifiers of an array belong to its elements, qualifiers given twice count once)."""
import copy

class Invalid(Exception):
    pass

INTRINSIC = {n: i + 1 for i, n in enumerate("void bool bit sign ubyte byte ushort short uint int ulong long ucent cent half float double quad chalf cfloat cdouble cquad".split())}
# spelling, intrinsic, width in bits, usable for a bit-field
BASES = [("int", "int", 32, 1), ("unsigned", "uint", 32, 1), ("unsigned int", "uint", 32, 1), ("signed", "int", 32, 1), ("char", "byte", 8, 1), ("signed char", "byte", 8, 1),
  ("unsigned char", "ubyte", 8, 1), ("short", "short", 16, 1), ("unsigned short", "ushort", 16, 1), ("short int", "short", 16, 1), ("int short unsigned", "ushort", 16, 1), ("long", "long", 64, 1),
  ("unsigned long", "ulong", 64, 1), ("long unsigned int", "ulong", 64, 1), ("long long", "long", 64, 1), ("unsigned long long", "ulong", 64, 1), ("_Bool", "bool", 8, 1),
  ("float", "float", 32, 0), ("double", "double", 64, 0), ("long double", "quad", 128, 0), ("float _Complex", "cfloat", 64, 0), ("double _Complex", "cdouble", 128, 0),
  ("_Complex long double", "cquad", 256, 0), ("__int128", "cent", 128, 0), ("unsigned __int128", "ucent", 128, 0)]
QUALS = ("const", "volatile", "restrict")

# ---- objects

class Obj:
    def __init__(self, **kw):
        self.__dict__.update(kw)

class Rec(Obj):        # kind, name (None: no tag), members, attrs
    tagword = property(lambda s: s.kind)
class Enum(Obj):       # name, consts: [Const], attrs, packed
    tagword = "enum"
class Const(Obj):      # name, value, text (None: implicit), attrs
    pass
class Field(Obj):      # name, type, bits, attrs
    pass
class Anon(Obj):       # rec: anonymous struct / union member
    pass
class Inner(Obj):      # obj: a tagged struct, union or enum declared inside a record without declaring a member
    pass
class Fwd(Obj):        # obj
    pass
class Def(Obj):        # obj
    pass
class Vars(Obj):       # spec, decls: [Field-like name, type, attrs, init]; all types share their leaf; typedef: bool
    pass
class TypedefName(Obj):  # name, type (spelled), attrs
    pass
class Func(Obj):       # name, ret, params: [(name, type)], variadic, storage, body, attrs
    pass
class Assert(Obj):     # a _Static_assert: declares nothing
    pass

# types as spelled: ("base", spelling, intrinsic), ("void",), ("td", TypedefName), ("tag", obj), ("inline", obj), ("q", quals, leaf),
# ("ptr", quals, T), ("arr", spec, text, T), ("fn", params, T)   spec: ("n", count) | ("inc",) | ("vla",) | ("static", count) | ("staticvla",)

def leaf(t):
    while t[0] in ("ptr", "arr", "fn"):
        t = t[-1]
    return t

def bare(t):
    t = leaf(t)
    while t[0] in ("q", "atomic"):
        t = leaf(t[2] if t[0] == "q" else t[1])
    return t

def atomic(t):
    t = leaf(t)
    while t[0] == "q":
        t = leaf(t[2])
    return t[0] == "atomic" or t[0] == "td" and atomic(t[1].type)

def retarget(t, new):
    """the same declarator around another leaf"""
    if t[0] in ("ptr", "arr", "fn"):
        return t[:-1] + (retarget(t[-1], new),)
    return new

def qual(sem, qs):
    if not qs:
        return sem
    if sem[0] == "a":
        return sem[:3] + (qual(sem[3], qs),)
    if sem[0] == "q":
        return ("q", sem[1] | frozenset(qs), sem[2])
    return ("q", frozenset(qs), sem)

def sem(t):
    """normal form: ("i", intrinsic) ("p", T) ("a", count, props, T) ("q", set, T) ("t", obj) ("f",)"""
    k = t[0]
    if k == "base":
        return ("i", t[2])
    if k == "void":
        return ("i", "void")
    if k == "td":
        return sem(t[1].type)
    if k in ("tag", "inline"):
        return ("t", t[1])
    if k == "q":
        return qual(sem(t[2]), t[1])
    if k == "atomic":
        return sem(t[1])
    if k == "ptr":
        return qual(("p", sem(t[2])), t[1])
    if k == "arr":
        s = t[1]
        return ("a", s[1] if s[0] in ("n", "static") else 0, frozenset((["static"] if s[0].startswith("static") else []) + (["vla"] if "vla" in s[0] else [])), sem(t[3]))
    if k == "fn":
        return ("f",)
    raise ValueError(t)

def show(s, names={}):
    k = s[0]
    if k == "i":
        return s[1]
    if k == "p":
        return "*" + show(s[1])
    if k == "a":
        return "[%d%s]" % (s[1], "".join("," + x for x in sorted(s[2]))) + show(s[3])
    if k == "q":
        return " ".join(sorted(s[1])) + " " + show(s[2])
    if k == "t":
        return "%s %s" % (s[1].tagword, s[1].name or "(unnamed)")
    return "function"

# ---- text

def attrs_text(attrs):
    out = []
    for a in attrs:
        out.append("__attribute__((%s%s))" % (a[0], "" if len(a) == 1 else "(%d)" % a[1] if isinstance(a[1], int) else '("%s")' % a[1]))
    return " ".join(out)

def sp(*xs):
    return " ".join(x for x in xs if x)

def declr(t, inner):
    k = t[0]
    if k == "ptr":
        i = "*" + " ".join(t[1]) + (" " if t[1] else "") + inner
        return declr(t[2], "(" + i + ")" if t[2][0] in ("arr", "fn") else i)
    if k == "arr":
        return declr(t[3], inner + "[" + t[2] + "]")
    if k == "fn":
        return declr(t[2], inner + "(" + (", ".join(param_text(n, p) for n, p in t[1]) or "void") + ")")
    return inner

def param_text(n, t):
    return sp(leaf_text(leaf(t)), declr(t, n or ""))

def leaf_text(t):
    k = t[0]
    if k == "base":
        return t[1]
    if k == "void":
        return "void"
    if k == "td":
        return t[1].name
    if k == "tag":
        return "%s %s" % (t[1].tagword, t[1].name)
    if k == "inline":
        return body_text(t[1])
    if k == "q":
        return sp(" ".join(t[1]), leaf_text(t[2])) if t[3] else sp(leaf_text(t[2]), " ".join(t[1]))
    if k == "atomic":
        return "_Atomic(%s)" % param_text("", t[1])
    raise ValueError(t)

def body_text(o):
    if isinstance(o, Enum):
        return sp("enum", attrs_text(o.attrs), o.name) + " { " + ", ".join(sp(c.name, attrs_text(c.attrs)) + (" = " + c.text if c.text is not None else "") for c in o.consts) + " }"
    return sp(o.kind, attrs_text(o.attrs), o.name) + " { " + " ".join(member_text(m) for m in o.members) + " }"

def member_text(m):
    if isinstance(m, Anon):
        return body_text(m.rec) + ";"
    if isinstance(m, Inner):
        return body_text(m.obj) + ";"
    return sp(leaf_text(leaf(m.type)), declr(m.type, m.name or "") + (" : %d" % m.bits if m.bits is not None else ""), attrs_text(m.attrs)) + ";"

def item_text(i):
    if isinstance(i, Fwd):
        return "%s %s;" % (i.obj.tagword, i.obj.name)
    if isinstance(i, Def):
        return body_text(i.obj) + ";"
    if isinstance(i, Vars):
        return sp(i.spec, leaf_text(leaf(i.decls[0].type)), ", ".join(sp(declr(d.type, d.name), attrs_text(d.attrs)) + (" = " + d.init if getattr(d, "init", None) else "") for d in i.decls)) + ";"
    if isinstance(i, Func):
        if i.fntype is not None:
            return sp(i.storage, i.fntype.name, i.name) + ";"
        ps = [param_text(n, p) for n, p in i.params] + (["..."] if i.variadic else [])
        t = ("fnx", i)
        inner = i.name + "(" + (", ".join(ps) or ("void" if i.void else "")) + ")"
        return sp(i.storage, attrs_text(i.attrs) if i.attrs else "", leaf_text(leaf(i.ret)), declr(i.ret, inner)) + (" { " + i.body + " }" if i.body is not None else ";")
    if isinstance(i, Assert):
        return i.text
    raise ValueError(i)

def render(items):
    return "\n".join(item_text(i) for i in items) + "\n"

# ---- what is declared

class Exp:
    def __init__(self, tag, name, obj=None, type=None, attrs=(), props=frozenset(), qty=0):
        self.tag, self.name, self.obj, self.type, self.attrs, self.props, self.qty = tag, name or "", obj, type, list(attrs), frozenset(props), qty
        self.children = []
    def path(self):
        return "%s %s" % (self.tag, self.name or "(unnamed)")

def enum_rep(e):
    """signed?, width"""
    vs = [c.value for c in e.consts]
    neg = min(vs) < 0
    for w in ((8, 16, 32, 64) if e.packed else (32, 64)):
        if neg and -(1 << (w - 1)) <= min(vs) and max(vs) < 1 << (w - 1):
            return True, w
        if not neg and max(vs) < 1 << w:
            return False, w
    raise Invalid("enum values")

class Walk:
    def __init__(self, items):
        self.declared = set()     # ids of tags seen
        self.defined = set()
        self.counts = {}
        self.typedefs = set()
        self.names = set()
        self.children = []        # of the source
        self.defs = {}            # id(obj) -> Exp of the definition
        for i in items:
            self.item(i)
    def see(self, o, into):
        """a mention of a tag declares it where it stands if it is new"""
        if id(o) not in self.declared:
            if into is None:
                raise Invalid("undeclared tag in a prototype")
            self.declared.add(id(o))
            self.count(o)
            into.append(Exp(o.tagword, o.name, o))
    def count(self, o):
        self.counts[id(o)] = self.counts.get(id(o), 0) + 1
        if o.attrs and self.counts[id(o)] > 1:
            raise Invalid("attributes on a tag that is declared again")
    def new_name(self, n):
        if n in self.names:
            raise Invalid("name used twice")
        self.names.add(n)
    def define(self, o, into):
        if id(o) in self.defined:
            raise Invalid("defined twice")
        self.declared.add(id(o))
        self.count(o)
        e = Exp(o.tagword, o.name, o, attrs=o.attrs)
        into.append(e)
        self.defs[id(o)] = e
        if isinstance(o, Enum):
            if not o.consts:
                raise Invalid("empty enum")
            s, w = enum_rep(o)
            e.qty = w
            at = None
            for c in o.consts:
                self.new_name(c.name)
                if c.text is None and c.value != (0 if at is None else at + 1):
                    raise Invalid("implicit enumerator value")
                at = c.value
                e.children.append(Exp("constant", c.name, c, ("i", {8: "byte", 16: "short", 32: "int", 64: "long"}[w] if s else {8: "ubyte", 16: "ushort", 32: "uint", 64: "ulong"}[w]),
                                      c.attrs, qty=c.value & (1 << 64) - 1))
        else:
            named = False
            for n, m in enumerate(o.members):
                if isinstance(m, Anon):
                    self.define(m.rec, e.children)
                    e.children.append(Exp("field", "", m, ("t", m.rec)))
                elif isinstance(m, Inner):
                    self.define(m.obj, e.children)
                else:
                    self.type(m.type, e.children, True)
                    s = sem(m.type)
                    flex = s[0] == "a" and not s[1] and "inc" in str(m.type[1])
                    e.children.append(Exp("field", m.name or "", m, s, m.attrs, ["bitfield"] if m.bits is not None else [], m.bits or 0))
        self.defined.add(id(o))
        return e
    def type(self, t, into, complete, proto=False):
        """declares what the type mentions; complete: an object of the type is declared"""
        k = t[0]
        if k == "ptr":
            return self.type(t[2], into, False, proto)
        if k == "arr":
            return self.type(t[3], into, True, proto)
        if k == "fn":
            self.type(t[2], into, False, proto)      # the leaf comes first in the text
            for n, p in t[1]:
                self.type(p, None, False)
            return
        if k == "atomic":
            return self.type(t[1], into, True, proto)
        if k == "q":
            return self.type(t[2], into, complete, proto)
        if k == "td":
            if id(t[1]) not in self.typedefs:
                raise Invalid("typedef not declared")
            b = bare(t)
            if complete:
                s = sem(t[1].type)
                self.complete(s)
            return
        if k == "inline":
            if into is None:
                raise Invalid("definition in a prototype")
            self.define(t[1], into)
            return
        if k == "tag":
            self.see(t[1], into)
            if complete:
                self.complete(("t", t[1]))
        if k == "void" and complete:
            raise Invalid("void object")
    def complete(self, s):
        while s[0] in ("a", "q"):
            s = s[-1]
        if s[0] == "t" and id(s[1]) not in self.defined:
            raise Invalid("incomplete type")
        if s[0] == "f" or s == ("i", "void"):
            raise Invalid("no object type")
    def item(self, i):
        c = self.children
        if isinstance(i, Assert):
            return
        if isinstance(i, Fwd):
            o = i.obj
            self.declared.add(id(o))
            self.count(o)
            c.append(Exp(o.tagword, o.name, o))
        elif isinstance(i, Def):
            self.define(i.obj, c)
        elif isinstance(i, Vars):
            first = True
            if not i.decls:
                raise Invalid("no declarators")
            for d in i.decls:
                td = i.typedef
                if first:
                    self.type(d.type, c, not td and "extern" not in i.spec)
                else:
                    if bare(d.type)[0] == "inline":
                        self.type(retarget(d.type, ("tag", bare(d.type)[1])), c, not td and "extern" not in i.spec)
                    else:
                        self.type(d.type, c, not td and "extern" not in i.spec)
                first = False
                s = sem(d.type)
                if td:
                    c.append(Exp("typedef", d.name, d, s, d.attrs))
                    self.typedefs.add(id(d))
                    self.new_name(d.name)
                else:
                    ps = []
                    if "_Thread_local" not in i.spec:
                        ps.append("static")
                    if "static" not in i.spec:
                        ps.append("extern_c")
                    if not d.again:
                        self.new_name(d.name)
                    elif d.name not in self.names:
                        raise Invalid("redeclaration first")
                    c.append(Exp("field", d.name, d, s, d.attrs, ps))
        elif isinstance(i, Func):
            if i.again:
                if i.name not in self.names:
                    raise Invalid("redeclaration first")
            else:
                self.new_name(i.name)
            if i.fntype is not None:
                if id(i.fntype) not in self.typedefs:
                    raise Invalid("typedef not declared")
                t = i.fntype.type
                ret, params = t[2], [("", p) for n, p in t[1]]
            else:
                ret, params = i.ret, i.params
                self.type(ret, c, False)
                b = sem(ret)
                if i.body is not None and b != ("i", "void"):
                    self.complete(b)
                for n, p in params:
                    self.type(p, None, i.body is not None and p[0] not in ("ptr", "arr", "fn"))
            ps = []
            st = i.storage.split()
            if "static" not in st:
                ps += ["global", "extern_c"]
            else:
                ps.append("static")
            if "inline" in st or "__inline" in st:
                ps.append("inline")
            if "_Noreturn" in st or ("noreturn",) in i.attrs:
                ps.append("noreturn")
            e = Exp("function", i.name, i, None, [a for a in i.attrs if a != ("noreturn",)], ps)
            e.children.append(Exp("param", "", None, sem(ret), props=["out"]))
            for n, p in params:
                e.children.append(Exp("param", n or "", None, sem(p)))
            c.append(e)

def expect(items):
    return Walk(items)

# ---- generation

class Gen:
    def __init__(self, rng, layout=False):
        self.r = rng
        self.layout = layout       # only what a layout program can look at
        self.n = 0
        self.items = []
        self.tags = []             # all tags with a name
        self.tds = []
        self.defined = set()
        self.mentioned = set()
        self.consts = []           # (name, value) for array bounds
        self.plain_funcs = []
        self.keep = []
    def chance(self, a, b=100):
        return self.r.randrange(b) < a
    def name(self, p):
        self.n += 1
        x = self.r.randrange(40)
        pad = "_" * self.r.randrange(3) if x < 30 else "Z" * self.r.randrange(40) if x < 38 else "q" * self.r.choice([120, 254, 255, 256, 257, 300, 600])
        if self.chance(1) and not self.layout:
            pad += self.r.choice(["é", "ß中", "$"])
        return "%s%s%d" % (p, pad, self.n)
    def note(self):
        x = self.r.randrange(12)
        if x == 0:
            return "n" * self.r.choice([1, 100, 255, 256, 300, 1000])
        if x == 1:
            return self.r.choice(["a b", "x=1,y=2", "ü", "%s%d", "[json:{}]", "a/b", "-", "'"])
        return "%s%d" % (self.r.choice(["key", "note", "json:name", "range", "min"]), self.r.randrange(100))
    def attrs(self, what):
        out = []
        if self.layout:
            return out
        if not self.chance(25):
            return out
        for _ in range(self.r.choice([1, 1, 1, 2, 2, 3, 5, 9])):
            x = self.r.randrange(20)
            if x < 12:
                out.append(("annotate", self.note()))
            elif x < 14:
                out.append(("deprecated",))
            elif x < 17 and what in ("field", "var", "func", "rec"):
                out.append(("aligned", self.r.choice([8, 16, 32, 64, 128, 4096])))
            elif x < 18 and what in ("var", "func", "typedef", "rec"):
                out.append(("unused",))
            elif what == "func":
                out.append((self.r.choice(["pure", "warn_unused_result", "always_inline", "used", "alias"]),))
                if out[-1][0] == "alias":
                    out[-1] = ("alias", self.r.choice(["f_1", "target", "x" * 60]))
            elif what == "rec":
                out.append(("packed",))
            elif what == "var":
                out.append(("used",))
        seen = set()
        res = []
        for a in out:
            if a[0] not in ("annotate", "aligned") and a[0] in seen:
                continue
            if a in res:
                continue
            seen.add(a[0])
            res.append(a)
        return res
    def base(self, bits=False):
        ok = [b for b in BASES if b[3] or not bits]
        b = self.r.choice(ok[:17]) if self.chance(75) else self.r.choice(ok)
        return ("base", b[0], b[1])
    def quals(self, n=30):
        if not self.chance(n):
            return ()
        return tuple(self.r.sample(["const", "volatile"], self.r.choice([1, 1, 1, 2])))
    def mention(self):
        """any tag, also one that is not or never defined"""
        if not self.tags or self.chance(8):
            o = self.new_tag()
            self.tags.append(o)
            return ("tag", o)
        return ("tag", self.r.choice(self.tags[-8:] if self.chance(70) else self.tags))
    def new_tag(self):
        x = self.r.randrange(10)
        if x < 6:
            return Rec(kind="struct", name=self.name("S"), members=None, attrs=[])
        if x < 9:
            return Rec(kind="union", name=self.name("U"), members=None, attrs=[])
        return Enum(name=self.name("E"), consts=None, attrs=[], packed=False)
    def done(self):
        return [o for o in self.tags if id(o) in self.defined]
    def is_object(self, t):
        """may an object of this type be declared"""
        s = sem(t)
        while s[0] in ("a", "q"):
            if s[0] == "a" and (not s[1] and True):
                return False
            s = s[-1]
        return not (s[0] == "f" or s == ("i", "void") or (s[0] == "t" and id(s[1]) not in self.defined))
    def leaf(self, obj, where, inline=True):
        """obj: a complete object type is needed"""
        x = self.r.randrange(100)
        t = None
        if x < 45:
            t = self.base()
        elif x < 62 and self.tds:
            c = [d for d in self.tds if not obj or self.is_object(("td", d))]
            if where == "member":
                c = [d for d in c if not self.has_flex(sem(d.type))]
            if c:
                t = ("td", self.r.choice(c))
        elif x < 80:
            c = self.done()
            if where == "member":
                c = [o for o in c if not self.has_flex(("t", o))]
            if c:
                t = ("tag", self.r.choice(c))
        elif x < 86 and inline and where in ("member", "var", "typedef"):
            o = self.record(named=self.chance(50), depth=1, flexible=where != "member") if self.chance(75) else self.enum(named=self.chance(50))
            t = ("inline", o)
        elif not obj:
            t = self.mention() if where != "param" else None
            if t is None and self.tags:
                t = ("tag", self.r.choice(self.tags))
        if t is None:
            t = self.base()
        if t[0] == "tag" and where == "param" and id(t[1]) not in self.mentioned:
            t = self.base()
        if self.chance(2) and obj and not self.layout and t[0] in ("base", "tag"):
            if not (t[0] == "tag" and id(t[1]) not in self.defined):
                t = ("atomic", t)
        q = self.quals(20)
        if q and t[0] != "atomic" and not (sem(t)[0] == "f"):
            t = ("q", q, t, self.chance(60))
        if t[0] == "tag" or bare(t)[0] == "tag":
            self.mentioned.add(id(bare(t)[1]))
        return t
    def has_flex(self, s):
        while s[0] in ("a", "q"):
            s = s[-1]
        return s[0] == "t" and isinstance(s[1], Rec) and s[1].members is not None and self.has_flex_rec(s[1])
    def has_flex_rec(self, o):
        for m in o.members or ():
            if isinstance(m, Field) and m.type[0] == "arr" and m.type[1][0] == "inc":
                return True
            if isinstance(m, Anon) and self.has_flex_rec(m.rec):
                return True
            if isinstance(m, Field) and self.has_flex(sem(m.type)):
                return True
        return False
    def bound(self, zero=False):
        n = self.r.choice([1, 1, 2, 2, 3, 3, 4, 5, 7, 8, 10, 16, 31, 64, 100, 1000]) if not self.layout else self.r.choice([1, 1, 2, 2, 3, 3, 4, 5, 7, 8, 9, 100, 4097] if self.chance(95) else [1 << 20, (1 << 31) + 1, 1 << 33])
        if zero and self.chance(5):
            n = 0
        if self.chance(2) and not self.layout:
            n = self.r.choice([65535, 65536, 1 << 20, 0x7fffffff, 0xffffffff, 1 << 32, (1 << 33) + 7])
        x = self.r.randrange(10)
        if x == 0 and n > 1:
            k = self.r.randrange(1, n)
            return n, "%d + %d" % (k, n - k)
        if x == 1:
            return n, "0x%x" % n
        if x == 2 and n == 4:
            return n, "sizeof(int)"
        if x == 3 and n == 8:
            return n, "sizeof(struct { long l; })" if False else "sizeof(void *)"
        return n, "%d" % n
    def wrap(self, t, where, depth=0):
        """pointers, arrays and functions around a leaf; objects stay objects where needed"""
        n = self.r.choice([0, 0, 0, 0, 1, 1, 1, 2, 2, 3, 4])
        for _ in range(n):
            s = sem(t)
            if s[0] in ("f",) or (s == ("i", "void")) or not self.is_object(t):
                k = "ptr"
            else:
                k = self.r.choice(["ptr", "ptr", "arr", "arr", "fn"])
            if k == "fn" and (s[0] in ("a", "f") or depth > 1 or t[0] == "arr"):
                k = "ptr"
            if k == "ptr":
                q = list(self.quals(20))
                if self.chance(8) and s[0] != "f":
                    q.append("restrict")
                t = ("ptr", tuple(q), t)
            elif k == "arr":
                if self.has_flex(s) or self.elems(s) > 1 << 30:
                    t = ("ptr", (), t)
                    continue
                c, txt = self.bound(True)
                if self.elems(s) * c > 1 << 36:
                    c, txt = 2, "2"
                t = ("arr", ("n", c), txt, t)
            else:
                t = ("ptr", self.quals(10), ("fn", self.params(depth + 1, False), t))
        return t
    def elems(self, s):
        n = 1
        while s[0] in ("a", "q"):
            if s[0] == "a":
                n *= max(1, s[1])
            s = s[-1]
        return n * 64 if s[0] == "t" else n
    def otype(self, where):
        """an object type"""
        if self.chance(35):
            t = ("ptr", self.quals(15) + (("restrict",) if self.chance(5) else ()), ("void",) if self.chance(15) else self.leaf(False, where))
            if self.chance(15) and t[2][0] == "void":
                t = ("ptr", t[1], ("q", self.quals(100), ("void",), True))
            if "restrict" in t[1] and sem(t[2])[0] == "f":
                t = ("ptr", (), t[2])
            if self.chance(30):
                t = self.wrap(t, where)
        else:
            t = self.wrap(self.leaf(True, where), where)
        if not self.is_object(t):
            t = ("ptr", (), t)
        return t
    def members(self, depth, union):
        out = []
        n = self.r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12]) if self.chance(97) else 60
        if n == 0 and self.chance(60):
            n = 1
        for i in range(n):
            x = self.r.randrange(100)
            if x < 9 and depth < 4:
                out.append(Anon(rec=self.record(named=False, depth=depth + 1, flexible=False)))
            elif x < 11 and depth < 3 and not self.layout:
                o = self.record(named=True, depth=depth + 1) if self.chance(70) else self.enum(named=True)
                out.append(Inner(obj=o))
            elif x < 32:
                bt = self.bitbase()
                w = self.bitwidth(bt)
                if self.chance(18):
                    out.append(Field(name=None, type=bt, bits=self.r.choice([0, self.r.randrange(0, w + 1), w]), attrs=[]))
                else:
                    out.append(Field(name=self.name("b"), type=bt, bits=self.r.choice([1, w, self.r.randrange(1, w + 1), min(w, 3)]), attrs=self.attrs("field0")))
            else:
                out.append(Field(name=self.name("m"), type=self.otype("member"), bits=None, attrs=self.attrs("field")))
        return out
    def bitbase(self):
        if self.chance(15):
            c = [o for o in self.done() if isinstance(o, Enum)]
            if c:
                return ("tag", self.r.choice(c))
        if self.chance(15):
            c = [d for d in self.tds if not atomic(d.type) and sem(d.type)[0] == "i" and sem(d.type)[1] in ("int", "uint", "byte", "ubyte", "short", "ushort", "long", "ulong", "bool")]
            if c:
                return ("td", self.r.choice(c))
        t = self.base(True)
        if self.chance(10):
            t = ("q", self.quals(100), t, True)
        return t
    def bitwidth(self, t):
        s = sem(t)
        while s[0] == "q":
            s = s[-1]
        if s[0] == "t":
            return enum_rep(s[1])[1]
        return 1 if s[1] == "bool" else {b[1]: b[2] for b in BASES}[s[1]]
    def record(self, named=True, depth=0, flexible=True, o=None):
        if o is None:
            o = Rec(kind="struct" if self.chance(70) else "union", name=self.name("R") if named else None, members=None, attrs=[])
        if named or self.chance(50):
            o.attrs = self.attrs("rec")
        if o.name:
            self.mentioned.add(id(o))
            if o not in self.tags:
                self.tags.append(o)
        ms = self.members(depth, o.kind == "union")
        if flexible and o.kind == "struct" and self.chance(4) and any(isinstance(m, Field) and m.name and not m.bits for m in ms):
            ms.append(Field(name=self.name("flex"), type=("arr", ("inc",), "", self.base()), bits=None, attrs=[]))
        o.members = ms
        self.keep.append(o)
        self.defined.add(id(o))
        return o
    def enum(self, named=True, o=None):
        if o is None:
            o = Enum(name=self.name("E") if named else None, consts=None, attrs=[], packed=False)
            if o.name:
                self.tags.append(o)
        o.attrs = self.attrs("enum")
        kind = self.r.randrange(8)
        lo, hi = [(0, 255), (0, (1 << 32) - 1), (-(1 << 31), (1 << 31) - 1), (0, (1 << 64) - 1), (-(1 << 63), (1 << 63) - 1), (-128, 127), (0, 1 << 31), (-5, 1 << 32)][kind]
        cs = []
        prev = None
        for i in range(self.r.choice([1, 2, 2, 3, 4, 6, 10]) if self.chance(97) else 80):
            if (prev is None or prev < hi) and self.chance(35):
                v = 0 if prev is None else prev + 1
                # an implicit value must have a type: int, or that of the one before
                if v < (1 << 31) or prev is not None and prev not in ((1 << 31) - 1, (1 << 32) - 1, (1 << 63) - 1):
                    cs.append(Const(name=self.name("C"), value=v, text=None, attrs=self.attrs("const")))
                    prev = v
                    continue
            x = self.r.randrange(6)
            v = lo if x == 0 else hi if x == 1 else self.r.choice([lo + 1, hi - 1, 0, 1, 10, 1 << 7, 1 << 8]) if x < 4 else self.r.randrange(lo, hi + 1)
            v = min(max(v, lo), hi)
            cs.append(Const(name=self.name("C"), value=v, text=self.number(v), attrs=self.attrs("const")))
            prev = v
        o.consts = cs
        self.keep.append(o)
        if self.chance(6) and not self.layout:
            o.packed = True
            o.attrs = [("packed",)]
        self.defined.add(id(o))
        self.mentioned.add(id(o))
        return o
    def number(self, v):
        if v == -(1 << 63):
            return "(-9223372036854775807LL - 1)"
        suf = "" if abs(v) < 1 << 31 else "LL" if abs(v) < 1 << 63 else "ULL"
        x = self.r.randrange(6)
        if 0 <= v and x == 0:
            return "0x%X%s" % (v, suf)
        if 0 <= v and x == 1:
            return "0%o%s" % (v, suf) if v else "0"
        if v > 0 and v & (v - 1) == 0 and x == 2:
            return "1%s << %d" % ("ULL" if v >= 1 << 63 else "LL" if v >= 1 << 31 else "", v.bit_length() - 1)
        if 33 <= v < 127 and x == 3 and chr(v) not in "\\'":
            return "'%s'" % chr(v)
        if v < 0 and x == 4:
            return "~%d%s" % (-v - 1, suf or "")
        return "%d%s" % (v, suf)
    def params(self, depth, named):
        out = []
        ints = []
        for i in range(self.r.choice([0, 1, 1, 2, 2, 3, 4]) if self.chance(97) else 25):
            n = self.name("p") if named and self.chance(88) or self.chance(10) else None
            if named and self.chance(14):
                e = self.base() if self.chance(70) else ("ptr", (), self.leaf(False, "param"))
                x = self.r.randrange(6)
                if x == 0:
                    t = ("arr", ("inc",), "", e)
                elif x == 1:
                    c, txt = self.bound()
                    t = ("arr", ("static", c), "static " + txt, e)
                elif x == 2:
                    if not ints:
                        m = self.name("p")
                        out.append((m, ("base", "int", "int")))
                        ints.append(m)
                    t = ("arr", ("vla",), self.r.choice(ints), e)
                    if self.chance(40):
                        t = ("arr", ("vla",), self.r.choice(ints) + " + 1", t)
                    elif self.chance(60):
                        t = ("arr", ("staticvla",), "static " + self.r.choice(ints), e)
                elif x == 3 and named == "proto":
                    t = ("arr", ("vla",), "*", e)
                else:
                    c, txt = self.bound()
                    t = ("arr", ("n", c), txt, e)
                    if self.chance(40):
                        c, txt = self.bound()
                        t = ("arr", ("inc",), "", t) if self.chance(30) else ("arr", ("n", c), txt, t)
            else:
                t = self.wrap(self.leaf(True, "param", False), "param", depth + 1) if self.chance(65) else ("ptr", self.quals(15), ("void",) if self.chance(15) else self.leaf(False, "param", False))
                if not self.is_object(t):
                    t = ("ptr", (), t)
                if self.has_flex(sem(t)) and t[0] in ("tag", "td", "q"):
                    t = ("ptr", (), t)
            if n and t == ("base", "int", "int"):
                ints.append(n)
            out.append((n, t))
        return out
    def func(self):
        st = self.r.choice(["", "", "", "extern", "static", "static inline", "inline", "_Noreturn", "extern inline", "static __inline", "static _Noreturn"])
        body = None
        if self.chance(35) or "inline" in st and self.chance(80):
            body = self.body(st)
        ps = self.params(0, "def" if body is not None else "proto")
        if body is not None:
            ps = [(n or self.name("p"), t) for n, t in ps]
        r = ("void",) if self.chance(30) else None
        if r is None:
            r = self.leaf(True, "ret", False) if self.chance(60) else ("ptr", (), self.leaf(False, "ret", False))
            while r[0] in ("q",):
                r = r[2]
            if r[0] == "td" and sem(r)[0] in ("a", "f", "q") or r[0] == "atomic":
                r = ("ptr", (), r)
            if self.chance(8):
                r = ("ptr", (), ("fn", self.params(1, False), r))
            elif self.chance(4) and self.is_object(r) and r[0] != "atomic" and not self.has_flex(sem(r)):
                r = ("ptr", (), ("arr", ("n", 3), "3", r))
        at = self.attrs("func")
        if r[0] == "void":
            at = [a for a in at if a[0] != "warn_unused_result"]
        if body is not None or "static" in st or "inline" in st:
            at = [a for a in at if a[0] != "alias"]
        if self.chance(5):
            at = at + [("noreturn",)]
        return Func(name=self.name("f"), ret=r, params=ps, variadic=bool(ps) and self.chance(8), void=self.chance(80) or True, storage=st, body=body, attrs=at, again=False, fntype=None)
    def body(self, st):
        lines = []
        for _ in range(self.r.randrange(4)):
            k = self.r.randrange(9)
            n = self.name("l")
            lines.append(["int %s = 1;", "struct L%s { int z; union { int u; }; };", "enum { Q%s = 3 };", "typedef long T%s;", "for (int %s = 0; 0;);", "extern int x%s;", "int %s(int);", "{ static char %s[3]; }",
                          "(void)sizeof(struct K%s { int k; });"][k] % n)
        lines.append("for (;;);")
        return " ".join(lines)
    def deduced(self):
        text, name = self.r.choice([("3", "int"), ("3u", "uint"), ("4L", "long"), ("1.5", "double"), ("2.5f", "float"), ("(char) 1", "byte"), ("(_Bool) 1", "bool"), ("sizeof(int)", "ulong"), ("(short) 2", "short"), ("1.5L", "quad")])
        t = ("base", "__auto_type", name)
        qs = self.r.choice([(), (), ("const",), ("volatile",), ("const", "volatile")])
        if qs:
            t = ("q", qs, t, self.chance(50))
        return Vars(spec=self.r.choice(["", "static"]), decls=[Field(name=self.name("v"), type=t, attrs=self.attrs("var"), again=False, init=text)], typedef=False)
    def vars(self):
        if not self.layout and self.chance(3):
            return self.deduced()
        td = self.chance(35)
        spec = "typedef" if td else self.r.choice(["", "", "", "extern", "static", "static", "_Thread_local", "static _Thread_local", "extern _Thread_local"])
        where = "typedef" if td else "var"
        obj = not td or self.chance(70)
        t = None
        if td and self.chance(6):
            l = self.leaf(True, "ret", False)
            while l[0] == "q":
                l = l[2]
            if sem(l)[0] in ("i", "p", "t") and l[0] != "atomic":
                t = ("fn", self.params(1, False), l)
        if t is None:
            t = self.otype(where) if obj else (self.leaf(False, where) if self.chance(50) else ("void",))
        cls = TypedefName if td else Field
        ds = []
        l = leaf(t)
        for i in range(self.r.choice([1, 1, 1, 1, 2, 3])):
            if i:
                if t[0] == "fn":
                    break
                x = self.wrap(l, where)
                if not td and not self.is_object(x):
                    x = ("ptr", (), x)
                if self.has_flex(sem(x)) and x[0] == "arr":
                    x = ("ptr", (), x)
            else:
                x = t
            at = self.attrs("typedef" if td else "var")
            if "extern" in spec:
                at = [a for a in at if a[0] != "used"]        # the compiler drops it from declarations that define nothing
            d = cls(name=self.name("t" if td else "v"), type=x, attrs=at, again=False, init=None)
            ds.append(d)
        if spec == "extern" and t[0] not in ("fn",) and self.chance(15) and self.is_object(ds[-1].type) and not self.has_flex(sem(ds[-1].type)):
            ds[-1].type = ("arr", ("inc",), "", ds[-1].type)
        if spec in ("", "static") and not td:
            for d in ds:
                s = sem(d.type)
                if self.chance(25) and s[0] in ("i", "p") and "c" != s[-1][0]:
                    d.init = "0"
                elif self.chance(15) and s[0] == "a" and s[1] and not (self.layout and self.elems(s) > 1 << 14):
                    d.init = "{ 0 }" if s[3][0] in ("i", "p") else None
        if td:
            self.tds += ds
        return Vars(spec=spec, decls=ds, typedef=td)
    def item(self):
        x = self.r.randrange(100)
        if x < 30:
            open_ = [o for o in self.tags if id(o) not in self.defined]
            if open_ and self.chance(55):
                o = self.r.choice(open_)
                o2 = self.record(True, o=o) if isinstance(o, Rec) else self.enum(True, o=o)
                o2.attrs = []
                if isinstance(o2, Enum):
                    o2.packed = False
                return Def(obj=o2)
            return Def(obj=self.record())
        if x < 40:
            return Def(obj=self.enum(self.chance(70)))
        if x < 46 and not self.layout:
            o = self.r.choice(self.tags) if self.tags and self.chance(50) else None
            if o is None or o.name is None:
                o = self.new_tag()
                self.tags.append(o)
            if isinstance(o, Enum) and id(o) in self.defined:
                o = self.new_tag(); self.tags.append(o)
            o.attrs = []
            if isinstance(o, Enum):
                o.packed = False
            self.mentioned.add(id(o))
            return Fwd(obj=o)
        if x < 76 or self.layout:
            return self.vars()
        if x < 78:
            return Assert(text="_Static_assert(1, \"x\");")
        if x < 80:
            return Assert(text=";" if self.chance(30) else "#pragma weak nothing")
        if x < 84:
            c = [d for d in self.tds if d.type[0] == "fn"]
            if c:
                return Func(name=self.name("f"), fntype=self.r.choice(c), ret=None, params=[], variadic=False, void=True, storage=self.r.choice(["", "extern", "static"]), body=None, attrs=[], again=False)
        if x < 88 and self.plain_funcs:
            f = copy.copy(self.r.choice(self.plain_funcs))
            f.again = True
            f.body = None
            return f
        f = self.func()
        if f.storage in ("", "extern") and not f.attrs and f.body is None and all("vla" not in str(p[1][1]) for p in f.params if p[1][0] == "arr"):
            self.plain_funcs.append(f)
        return f
    def unit(self, n):
        for _ in range(n):
            self.items.append(self.item())
        # attributes only on tags declared once
        try:
            strip_attrs(self.items)
        except Invalid:
            keep = []
            for i in self.items:      # the few that do not fit are left out
                try:
                    strip_attrs(keep + [i])
                    keep.append(i)
                except Invalid:
                    pass
            self.items = keep
        return self.items

def strip_attrs(items):
    for _ in range(200):
        try:
            Walk(items)
            return
        except Invalid as e:
            if "attributes" not in str(e):
                raise
        w = Walk.__new__(Walk)
        seen = {}
        objs = {}
        def tags(t, f):
            k = t[0]
            if k in ("tag", "inline"):
                f(t[1])
                if k == "inline":
                    inner(t[1])
            elif k == "fn":
                for _, p in t[1]:
                    tags(p, f)
                tags(t[2], f)
            elif k in ("ptr", "arr", "q", "atomic"):
                tags(t[2] if k == "q" else t[-1], f)
        def hit(o):
            o.attrs = [] if not getattr(o, "packed", False) else o.attrs
        def inner(o):
            if isinstance(o, Rec):
                for m in o.members or ():
                    if isinstance(m, Anon):
                        inner(m.rec)
                    elif isinstance(m, Inner):
                        inner(m.obj)
                    else:
                        tags(m.type, hit if bare(m.type)[0] == "tag" else lambda o: None)
        for i in items:
            if isinstance(i, Fwd):
                i.obj.attrs = []
                if isinstance(i.obj, Enum):
                    i.obj.packed = False
            elif isinstance(i, Def):
                inner(i.obj)
            elif isinstance(i, Vars):
                for d in i.decls:
                    tags(d.type, hit if bare(d.type)[0] == "tag" else lambda o: None)
            elif isinstance(i, Func):
                if i.fntype is None:
                    tags(i.ret, hit)
        # a mention before the definition is the only other way to be declared twice
        try:
            Walk(items)
            return
        except Invalid as e:
            for i in items:
                strip_all(i)

def strip_all(i):
    def rec(o):
        o.attrs = [] if not getattr(o, "packed", False) else o.attrs
        for m in getattr(o, "members", None) or ():
            if isinstance(m, Anon):
                rec(m.rec)
            elif isinstance(m, Inner):
                rec(m.obj)
            elif bare(m.type)[0] == "inline":
                rec(bare(m.type)[1])
    if isinstance(i, Def):
        rec(i.obj)
    elif isinstance(i, Vars):
        for d in i.decls:
            if bare(d.type)[0] == "inline":
                rec(bare(d.type)[1])

# ---- shrinking

def smaller(items):
    """units with something taken away; the caller keeps those that still fail (invalid ones raise in expect)"""
    n = len(items)
    k = n // 2
    while k >= 1:
        for a in range(0, n, k):
            yield ("items", a, a + k)
        k //= 2
    for i in range(n):
        yield ("inner", i)

def apply_cut(items, cut):
    if cut[0] == "items":
        return items[:cut[1]] + items[cut[2]:]
    return items

def lists_of(items):
    """every list of members, enumerators, declarators, attributes or parameters in the unit"""
    out = []
    def ty(t):
        k = t[0]
        if k == "inline":
            obj(t[1])
        elif k == "fn":
            out.append(("params", t[1]))
            ty(t[2])
        elif k in ("ptr", "arr"):
            ty(t[-1])
        elif k == "q":
            ty(t[2])
    def obj(o):
        out.append(("attrs", o.attrs))
        if isinstance(o, Enum):
            if o.consts:
                out.append(("consts", o.consts))
                for c in o.consts:
                    out.append(("attrs", c.attrs))
        elif o.members is not None:
            out.append(("members", o.members))
            for m in o.members:
                if isinstance(m, Anon):
                    obj(m.rec)
                elif isinstance(m, Inner):
                    obj(m.obj)
                else:
                    out.append(("attrs", m.attrs))
                    ty(m.type)
    for i in items:
        if isinstance(i, Def):
            obj(i.obj)
        elif isinstance(i, Vars):
            out.append(("decls", i.decls))
            for n, d in enumerate(i.decls):
                out.append(("attrs", d.attrs))
                if n == 0:
                    ty(d.type)
        elif isinstance(i, Func):
            out.append(("params", i.params))
            out.append(("attrs", i.attrs))
    return out

def shrink(items, fails, budget=400):
    """fails(items) -> bool (False also when the unit is not valid)"""
    used = 0
    again = True
    while again and used < budget:
        again = False
        k = max(1, len(items) // 2)
        while k >= 1 and used < budget:
            a = 0
            while a < len(items) and used < budget:
                t = items[:a] + items[a + k:]
                used += 1
                if t and fails(t):
                    items = t
                    again = True
                else:
                    a += k
            k //= 2
        n = 0
        while used < budget:
            ls = lists_of(items)
            if n >= len(ls):
                break
            kind, l = ls[n]
            j = len(l) - 1
            while j >= 0 and used < budget:
                x = l[j]
                del l[j]
                used += 1
                if fails(items):
                    again = True
                else:
                    l.insert(j, x)
                j -= 1
            n += 1
    return items
