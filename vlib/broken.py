"""C32: translation units with errors (which the plug-in does not report) and of unusual kinds. The plug-in ends by itself and leaves a
well-formed database: every declaration in one list, of a kind that belongs there, no type that contains itself, and the library's
answers about it end. Declarations with errors between valid ones of a generated unit (C or C++, vlib/cgen.py and vlib/cxx.py) do not
disturb what is recorded of the others; other units are damaged token by token."""
import hashlib, json, os, random, re, shutil, subprocess, tempfile, time
from concurrent.futures import ProcessPoolExecutor
from . import build, cgen, cxx, layout, plug, refl

T = refl.TAGS
ANY = {"typedef", "enum", "struct", "union", "field", "function"}
KIDS = dict(source=ANY, struct=ANY, union=ANY, enum={"constant", "struct", "union", "enum"}, set={"constant"}, function={"param"})
TYPES = {"array", "pointer", "qualifier", "enum", "struct", "union"}
LISTED = {"field", "constant", "function", "param", "typedef", "attribute"}

def check(db, name):
    """complaints about the structure of a database"""
    bad, owner = [], {}
    def show(x):
        return "%s %s (%d)" % (T[x.tag] if x.tag < len(T) else x.tag, plug.quoted(x.name), x.id)
    r = db.n.get(db.root)
    if r is None or T[r.tag] != "source" or r.name != name or r.next:
        return ["the root is not the source %s" % name]
    owner[r.id] = 0
    todo = [r]
    while todo:
        x = todo.pop()
        lists = [(x.attr, {"attribute"})]
        if T[x.tag] in KIDS:
            lists.append((x.link, KIDS[T[x.tag]]))
        for i, kinds in lists:
            while i:
                y = db.n.get(i)
                if y is None:
                    bad.append("%s lists %d, which is no declaration of the file" % (show(x), i))
                    break
                if i in owner:
                    bad.append("%s is listed in %d and in %d" % (show(y), owner[i], x.id))
                    break
                owner[i] = x.id
                if T[y.tag] not in kinds:
                    bad.append("%s lists %s" % (show(x), show(y)))
                todo.append(y)
                i = y.next
    for x in db.n.values():
        t = T[x.tag] if x.tag < len(T) else "?"
        if x.id not in owner:
            if t in LISTED or x.next:
                bad.append("%s is in no list" % show(x))
            if t in ("struct", "union", "enum") and x.link:
                bad.append("%s has members and is in no list" % show(x))
        if t in ("field", "constant", "param", "typedef", "array", "pointer", "qualifier"):
            y = db.n.get(x.link)
            if y is None and not (1 <= x.link < refl.FIRST):
                bad.append("the type of %s is %d" % (show(x), x.link))
            elif y is not None and T[y.tag] not in TYPES:
                bad.append("the type of %s is %s" % (show(x), show(y)))
        elif t not in KIDS and t not in ("attribute", "value"):
            bad.append("%s does not belong there" % show(x))
    # what a value of the type is made of
    state = {}
    def parts(x):
        t = T[x.tag]
        if t in ("array", "qualifier", "typedef"):
            return [x.link]
        if t in ("struct", "union"):
            return [f.link for f in db.chain(x.link) if T[f.tag] == "field" and not f.props & plug.P["static"]]
        return []
    if not bad:
        for x in db.n.values():
            st = [(x.id, None)]
            while st:
                i, it = st.pop()
                if i not in db.n:
                    continue
                if it is None:
                    if state.get(i):
                        continue
                    state[i] = 1
                    it = iter(parts(db.n[i]))
                for j in it:
                    if state.get(j) == 1:
                        bad.append("%s contains itself" % show(db.n[j]))
                        return bad
                    if j in db.n and not state.get(j):
                        st.append((i, it))
                        st.append((j, None))
                        break
                else:
                    state[i] = 2
    return bad

def without(db):
    """the database without the declarations with errors: those with bad_ in their name and what they list"""
    gone = set()
    def drop(x):
        if x.id in gone:
            return
        gone.add(x.id)
        for i in [x.attr] + ([x.link] if T[x.tag] in KIDS else []):
            for y in db.chain(i):
                drop(y)
    for x in list(db.n.values()):
        if "bad_" in x.name:
            drop(x)
    def skip(i):
        while i in gone:
            i = db.n[i].next
        return i
    for x in db.n.values():
        x.next = skip(x.next)
        if T[x.tag] in KIDS:
            x.link = skip(x.link)
        x.attr = skip(x.attr)
    for i in gone:
        del db.n[i]
    return db

# ---- declarations with errors

HUGE = "0x2000000000000000"
C_BAD = [
    "struct bad_1 { int bad_2; bad_unknown bad_3; int bad_4 : 3; };",
    "struct bad_1 { char bad_2[%s]; int bad_3; struct bad_4 { int bad_5; } bad_6; enum bad_7 { bad_8 = 1, bad_9 } bad_10; };" % HUGE,
    "struct bad_1 { struct { int bad_2; char bad_3[%s]; struct { int bad_4; }; union { long bad_5; }; }; int bad_6; };" % HUGE,
    "struct bad_1 { struct bad_2 { char bad_3[%s]; struct bad_4 { int bad_5; } bad_6; } *bad_7; int bad_8; };\nstruct bad_4 bad_9; struct bad_2 *bad_10; struct bad_1 bad_11(struct bad_2 bad_12);" % HUGE,
    "struct bad_1 { struct bad_1 bad_2; int bad_3; };",
    "union bad_1 { union bad_1 bad_2[3]; int bad_3; }; union bad_1 bad_4;",
    "struct bad_1 { int bad_2; struct { struct bad_1 bad_3; } bad_4; int bad_5; } bad_6;",
    "struct bad_1 { int bad_2; int bad_2; };",
    "struct bad_1 { void bad_2; int bad_3; };",
    "struct bad_1 { struct bad_9 bad_2; int bad_3; };",
    "struct bad_1 { int bad_2[]; int bad_3; };",
    "struct bad_1 { int bad_2 : 99; int bad_3 : -1; float bad_4 : 3; int bad_5 : 0; int bad_6; };",
    "struct bad_1 { int bad_2(void); int bad_3; };",
    "struct bad_1 { int bad_2[-1]; long bad_3[bad_unknown]; int bad_4[1.5]; int bad_5[0x10000000000000000]; int bad_6; };",
    "struct bad_1 { int bad_2 }; ",
    "struct bad_1 { int bad_2; }; struct bad_1 { long bad_3; };",
    "struct bad_1 { int bad_2; }; union bad_1 { long bad_3; }; union bad_1 bad_4;",
    "enum bad_1 { bad_2 = bad_unknown, bad_3, bad_4 = 1.5, bad_5 };",
    "enum bad_1 { bad_2 = 1, bad_2 = 2, bad_3 };",
    "enum bad_1 { bad_2, bad_3 }; enum bad_1 { bad_4 };",
    "enum bad_1 { bad_2 = 0x7fffffffffffffff, bad_3, bad_4 = 0xffffffffffffffff, bad_5, bad_6 = -1 };",
    "enum bad_1 { };",
    "enum bad_1 bad_2;",
    "struct bad_1 bad_2;",
    "struct bad_1 bad_2[3]; union bad_3 bad_4;",
    "bad_unknown bad_1;", "bad_unknown *bad_1, bad_2[3];",
    "int bad_1(bad_unknown bad_2, int bad_3);", "bad_unknown bad_1(int bad_2);",
    "int bad_1[-1];", "int bad_1[bad_unknown];", "int bad_1[%s], bad_2;" % HUGE, "int bad_1[3][];", "int bad_1[1.5];",
    "void bad_1;", "void bad_1[3];", "int bad_1(void)[3];", "int bad_1(void)(void);", "int (*bad_1[3])(void)[2];",
    "int bad_1 = \"x\" + ;", "int bad_1 = bad_unknown;", "int bad_1 = { 1, 2, { 3 };" if 0 else "int bad_1 = { 1, 2, { 3 } };",
    "int bad_1; long bad_1;", "int bad_1; int bad_1(void);", "int bad_1(int bad_2); int bad_1(long bad_3, int bad_4);", "int bad_1(void) { return 1; } int bad_1(void) { return 2; }",
    "typedef int bad_1; typedef long bad_1;", "typedef bad_unknown bad_1; bad_1 bad_2;", "typedef int bad_1[-1]; bad_1 bad_2;", "typedef int bad_1; int bad_1;",
    "typedef struct bad_0 { int bad_1; bad_unknown bad_2; } bad_3; bad_3 bad_4; bad_3 *bad_5(bad_3 bad_6);",
    "typedef enum bad_0 { bad_1 = bad_unknown } bad_2; bad_2 bad_3;",
    "_Static_assert(0, \"bad\");", "_Static_assert(bad_unknown, \"bad\");",
    "int bad_1(void) { return bad_unknown + ; struct bad_2 { int bad_3; bad_unknown bad_4; } x; }", "int bad_1(void) { bad_2(; ) }", "void bad_1(void) { goto bad_2; int bad_3 = ; case 4: break; }",
    "int bad_1(bad_2, bad_3) int bad_2; { }", "int bad_1(int bad_2, int bad_2);", "int bad_1(void bad_2, int bad_3);", "int bad_1(int bad_2[%s], char bad_3[-1], struct bad_4 bad_5);" % HUGE,
    "int bad_1(struct bad_2 { int bad_3; bad_unknown bad_4; } bad_5);", "int bad_1(struct bad_2 { int bad_3; struct bad_2 bad_6; } bad_5, enum bad_7 { bad_8 = bad_unknown } bad_9);",
    "int bad_1 __attribute__((aligned(3)));", "int bad_1 __attribute__((aligned(bad_unknown)));", "struct __attribute__((aligned(0x100000000000))) bad_1 { int bad_2; };", "int bad_1 __attribute__((alias(5)));",
    "int bad_1(void) __attribute__((alias(\"bad_2\")));", "int bad_1 __attribute__((vector_size(7)));", "int bad_1 __attribute__((mode(bad_unknown)));", "int bad_1 __attribute__((annotate(5)));", "int bad_1 __attribute__((aligned(\"x\")));",
    "static int bad_1; extern int bad_2; static int bad_2;", "register int bad_1;", "auto int bad_1;", "extern static int bad_1;", "long long long bad_1;", "short double bad_1;", "signed unsigned bad_1;", "_Complex bad_1;", "inline int bad_1;", "_Noreturn int bad_1;",
    "_Thread_local int bad_1(void);", "const void bad_1;", "_Atomic(int[3]) bad_1;", "_Alignas(3) int bad_1;", "_Alignas(8) int bad_1 : 3;", "int bad_1 : 3;", "struct bad_1 : 3;", "int : ;", "struct bad_1 { int : ; int bad_2; };",
    "struct bad_0 { int bad_1; } bad_2 bad_3;", "int bad_1 bad_2;", "= 3;", "return 3;", "if (1) ;" if 0 else "goto bad_1;", "}", "int bad_1(int, ...) { va_arg(bad_2, int); }",
    "#error bad", "#include BAD", "#if 1 +\nint bad_1;\n#endif", "#bad", "#define", "int bad_1 = 'abcdefgh';", "char bad_1[] = L\"x\";", "int bad_1 = 08;", "int bad_1 = 1__2;", "int bad_1 = \"\\xzz\";", "struct bad_1;\nstruct bad_1 { int bad_2[sizeof (struct bad_1)]; };",
    "int bad_1[sizeof (struct bad_2)];", "int bad_1[(int) &bad_2];", "int bad_1 = sizeof (int[%s]);" % HUGE, "enum bad_1 { bad_2 = sizeof (struct bad_3) };", "int bad_1 = __builtin_offsetof(struct bad_2, bad_3);",
    "__typeof__(bad_unknown) bad_1;", "__typeof__(bad_1) bad_1;", "__auto_type bad_1;", "__auto_type bad_1 = bad_unknown;", "__auto_type bad_1 = { 1 };", "__auto_type bad_1 = 1, bad_2 = 2.0;", "int __attribute__((bad_unknown(1, \"x\"))) bad_1;",
    "struct bad_1 { _Static_assert(0, \"\"); int bad_2; };", "struct bad_1 { struct bad_2; int bad_3; struct bad_2 bad_4; };", "struct bad_1 { enum bad_2 bad_3; int bad_4; };", "struct bad_1 { struct; union { int; }; int; };", "struct bad_1 { extern int bad_2; static int bad_3; typedef int bad_4; };",
    "struct bad_1 { int bad_2 __attribute__((aligned(3()))); int bad_3 __attribute__((aligned(bad_unknown + 1))); _Alignas(bad_unknown) int bad_4; int bad_5 : 3(); };", "int bad_1 __attribute__((aligned(1())));",
    "struct bad_1 { int bad_2 = 3; };", "struct bad_1 { int bad_2, bad_3[bad_unknown], bad_4; };", "struct bad_1 { int bad_2; } const const volatile long bad_3;", "struct bad_1 { union { struct bad_1 bad_2; struct { union bad_3 { struct bad_1 bad_4; int bad_5; } bad_6; } bad_7; }; int bad_8; };",
]
CXX_BAD = [
    "class bad_1 : bad_unknown { int bad_2; };", "struct bad_1 : bad_1 { int bad_2; };", "struct bad_1; struct bad_2 : bad_1 { int bad_3; };", "union bad_1 { int bad_2; }; struct bad_3 : bad_1 { int bad_4; };",
    "struct bad_1 { bad_1 bad_2; int bad_3; };", "struct bad_1 { static bad_1 bad_2; bad_unknown bad_3; int bad_4; };", "struct bad_1 { struct bad_2 { bad_1 bad_3; int bad_4; } bad_5; int bad_6; }; bad_1::bad_2 bad_7;",
    "struct bad_1 { bad_1 &bad_2 = bad_3; auto bad_4; auto bad_5 = 1; int bad_6; };", "struct bad_1 { virtual void bad_2() = 1; virtual int bad_3; int bad_4; };", "struct bad_1 { int bad_2; int bad_2(); int bad_3; };",
    "struct bad_1 { bad_1(bad_1); ~bad_1(int); bad_2(); int bad_3; };", "struct bad_1 { operator int(int); int operator+(int, int, int); int bad_3; };", "struct bad_1 { friend bad_unknown; friend class bad_2 { int bad_3; }; friend void bad_4::bad_5(); int bad_6; };",
    "struct bad_1 { using bad_2::bad_3; using bad_4 = bad_5; typedef bad_unknown bad_6; int bad_7; };", "struct bad_1 { template <class T> virtual void bad_2(); template <class T> T bad_3; int bad_4; };", "struct bad_1 { enum bad_2 : float { bad_3 }; enum class bad_4 : bad_unknown { bad_5 }; int bad_6; };",
    "template <class T> struct bad_1 { T bad_2; }; bad_1<int, int> bad_3;", "template <class T> struct bad_1 { T bad_2; int bad_3[-1]; }; bad_1<int> bad_4; bad_1<void> bad_5;", "template <class T> struct bad_1 : T { typename T::x bad_2; }; bad_1<int> bad_3;",
    "template <class T> bad_unknown bad_1(T);", "template <> struct bad_1<int> { int bad_2; };", "template <class T> struct bad_1 { struct bad_2 { T bad_3; bad_unknown bad_4; }; }; bad_1<int>::bad_2 bad_5; template struct bad_1<long>;",
    "template <class T> struct bad_1 { bad_1<T *> bad_2; }; bad_1<int> bad_3;" if 0 else "template <int N> struct bad_1 { int bad_2[N]; }; template struct bad_1<-1>; bad_1<-2> bad_3;", "template <class T, class T> struct bad_1 { };", "template <bad_unknown T> struct bad_1 { int bad_2; }; bad_1<1> bad_3;",
    "auto bad_1 = bad_unknown;", "auto bad_1;", "auto bad_1 = 1, bad_2 = 2.0;", "auto bad_1();  int bad_2 = bad_1();", "auto bad_1() { return bad_1(); }", "decltype(bad_unknown) bad_1;", "decltype(auto) bad_1 = bad_unknown;", "auto [bad_1, bad_2] = 3;", "auto [bad_1, bad_2] = bad_unknown;",
    "using bad_1 = bad_unknown;", "using bad_1::bad_2;", "using namespace bad_unknown;", "namespace bad_1 = bad_unknown;", "namespace { bad_unknown bad_1; struct bad_2 { bad_2 bad_3; int bad_4; }; }", "namespace bad_1 { struct bad_2 { bad_unknown bad_3; int bad_4; }; }  bad_1::bad_2 bad_5;" if 0 else "namespace bad_7 { }",
    "int bad_1; namespace bad_1 { int bad_2; }", "constexpr int bad_1 = bad_unknown;", "constexpr int bad_1;", "constexpr int bad_1() { return bad_2; } int bad_3[bad_1()];", "enum class bad_1 : float { bad_2 };", "enum bad_1 : bad_unknown { bad_2, bad_3 };", "enum bad_1 : char { bad_2 = 1000, bad_3 };", "enum class bad_1; enum bad_1 { bad_2 };", "enum class bad_1 : int; enum class bad_1 : long { bad_2 };", "enum bad_1; bad_1 bad_2;",
    "int bad_1::bad_2() { }", "int bad_1::bad_2;", "struct bad_1 { int bad_2; }; int bad_1::bad_3 = 1; int bad_1::bad_4() { }", "struct bad_1 { }; struct bad_1::bad_2 { int bad_3; };", "struct bad_1 { struct bad_2; }; struct bad_1::bad_2 { bad_1::bad_2 bad_3; int bad_4; };", "static_assert(false, \"\");", "extern \"D\" { int bad_1; }", "extern \"C\" { int bad_1(int); int bad_1(long); template <class T> struct bad_2; struct bad_3 { bad_3 bad_4; int bad_5; }; }",
    "int bad_1(int bad_2 = bad_unknown);", "int bad_1(int bad_2 = 1, int bad_3);", "int bad_1(auto... bad_2...);" if 0 else "int bad_1(void, int);", "int &bad_1;", "int &&*bad_1;", "int &bad_1[3];", "int bad_1::*;" if 0 else "int bad_unknown::*bad_1;", "void bad_1() noexcept(bad_unknown);", "void bad_1() const;", "virtual void bad_1();", "explicit bad_1();", "mutable int bad_1;", "struct bad_1 { mutable const int bad_2; mutable int &bad_3; static mutable int bad_4; int bad_5; };",
    "int operator+(int, int);", "int operator\"\" bad_1(int);", "operator int();", "struct bad_1 { abstract() = 0; virtual ~bad_1() = 0 = 0; int bad_2; };", "struct bad_1 { int bad_2; } bad_3 { 1, 2, 3 };", "thread_local bad_unknown bad_1;", "inline namespace bad_1 { bad_unknown bad_2; }", "class bad_1; bad_1 bad_2; bad_1 bad_3[2]; bad_1 bad_4(bad_1 bad_5);", "struct bad_1 final { }; struct bad_2 : bad_1 { int bad_3; };", "struct bad_1 { void bad_2() override; void bad_3() final; int bad_4; };",
    "bad_1 bad_2(1, 2);", "bad_1<int> bad_2;", "template bad_1;" if 0 else "template int bad_1<int>(int);", "[] { return 1; };" if 0 else "int bad_1 = [] { return bad_unknown; }();", "int bad_1 = [bad_2](auto x) { struct bad_3 { int bad_4; bad_unknown bad_5; }; return x; }(1);", "auto bad_1 = [](bad_unknown x) { return x; };", "alignas(3) int bad_1;", "alignas(bad_unknown) struct bad_2 { int bad_3; };" if 0 else "struct alignas(3) bad_2 { int bad_3; };", "[[bad_unknown, deprecated(5)]] int bad_1;", "struct bad_1 { [[noreturn]] int bad_2; [[nodiscard]] int bad_3; alignas(bad_unknown) int bad_4; };",
    "try { } catch (...) { }", "struct bad_1 { union { bad_unknown bad_2; int bad_3; struct { bad_1 bad_4; }; }; int bad_5; };", "union bad_1 { int &bad_2; bad_1 bad_3; virtual void bad_4(); int bad_5; };", "struct bad_1 { int bad_2 : bad_unknown; int bad_3 : 99; int bad_4; }; bad_1 bad_5;", "struct bad_1 { bad_1() : bad_2(1), bad_3(2) { } int bad_4; };", "struct bad_1 { int bad_2[]; int bad_3; bad_1 operator=; };",
    "concept bad_1 = true;", "template <class T> concept bad_1 = bad_unknown<T>; template <bad_1 T> struct bad_2 { int bad_3; }; bad_2<int> bad_4;", "template <class T> requires bad_unknown<T> struct bad_1 { int bad_2; }; bad_1<int> bad_3;", "import bad_1;", "co_await 1;", "consteval int bad_1();  constinit int bad_2 = bad_1();", "struct bad_1 { auto operator<=>(const bad_1 &) const = default; bad_unknown bad_2; int bad_3; };", "template <class... T> struct bad_1 : T... { using T::bad_2...; int bad_3; }; bad_1<int, long> bad_4;",
]

# of these nothing is recorded: what is declared has an error in its type, and a type made up for it would be wrong
ABSENT = {
    "struct bad_1 { int bad_2; bad_unknown bad_3; int bad_4 : 3; };",
    "struct bad_1 { char bad_2[%s]; int bad_3; struct bad_4 { int bad_5; } bad_6; enum bad_7 { bad_8 = 1, bad_9 } bad_10; };" % HUGE,
    "struct bad_1 { struct bad_1 bad_2; int bad_3; };",
    "struct bad_1 { int bad_2; int bad_2; };",
    "struct bad_1 { void bad_2; int bad_3; };",
    "struct bad_1 { struct bad_9 bad_2; int bad_3; };",
    "struct bad_1 { int bad_2[]; int bad_3; };",
    "struct bad_1 { int bad_2 : 99; int bad_3 : -1; float bad_4 : 3; int bad_5 : 0; int bad_6; };",
    "struct bad_1 { int bad_2[-1]; long bad_3[bad_unknown]; int bad_4[1.5]; int bad_5[0x10000000000000000]; int bad_6; };",
    "bad_unknown bad_1;", "bad_unknown *bad_1, bad_2[3];",
    "int bad_1(bad_unknown bad_2, int bad_3);", "bad_unknown bad_1(int bad_2);",
    "int bad_1[-1];", "int bad_1[bad_unknown];", "int bad_1[%s], bad_2;" % HUGE, "int bad_1[3][];", "int bad_1[1.5];",
    "void bad_1;", "void bad_1[3];", "const void bad_1;", "int bad_1(void)[3];", "int bad_1(void)(void);", "int (*bad_1[3])(void)[2];",
    "int bad_1(int bad_2, int bad_2);", "_Atomic(int[3]) bad_1;", "__typeof__(bad_unknown) bad_1;", "typedef bad_unknown bad_1;", "typedef int bad_1[-1];", "typedef int bad_1(void)[3];",
    "struct bad_1 { int bad_2, bad_3[bad_unknown], bad_4; };", "union bad_1 { int bad_2; bad_unknown bad_3; };",
    "int bad_1(int bad_2[-1]);", "int bad_1(int bad_2, int bad_2) { return 1; }", "bad_unknown bad_1(void) { return 1; }", "int bad_1(bad_unknown bad_2) { return 1; }", "int bad_1(int bad_2[-1]) { return 1; }",
    "static bad_unknown bad_1(int bad_2) { return 1; }", "static inline int bad_1(int bad_2, bad_unknown *bad_3) { return 1; }", "extern int bad_1(int bad_2, bad_unknown bad_3);",
    "bad_unknown bad_1 = { 1 };", "int bad_1[-1] = { 1 };", "static bad_unknown bad_1;", "extern bad_unknown bad_1;", "extern int bad_1[-1];", "static int bad_1[bad_unknown] = { 1 };", "const bad_unknown *bad_1 = 0;",
    "typedef bad_unknown *bad_1;", "typedef int bad_1[bad_unknown];", "typedef void bad_1[3];", "typedef struct { int bad_1; bad_unknown bad_2; } *bad_3[-1];",
    "struct bad_1 { bad_unknown bad_2; };", "struct bad_1 { struct { bad_unknown bad_2; int bad_3; } bad_4; bad_unknown bad_5; };", "union bad_1 { bad_unknown bad_2; };",
}
C_BAD += sorted(ABSENT - set(C_BAD))

def wrongly(db, parts):
    """declarations of ABSENT that are recorded"""
    want = set()
    for b, p in parts:
        if b and re.sub(r"\bbad_(\w+)_\d+\b", r"bad_\1", p.strip()) in ABSENT:
            want.update(re.findall(r"\bbad_\w+", p))
    return ["%s %s is recorded although its declaration has no type" % (T[x.tag], x.name) for x in db.n.values() if x.name in want]

# whole units of kinds that the generators do not make
ODD = [
    (".c", "typedef int v4 __attribute__((vector_size(16))); v4 a; struct s { v4 v[2]; const v4 *p; }; v4 f(v4 x, volatile v4 y); typedef float v3 __attribute__((ext_vector_type(3))); v3 g; struct t { v3 x; _Bool b; } *u;"),
    (".c", "_BitInt(7) a; struct s { _BitInt(33) b; unsigned _BitInt(128) c; _BitInt(5) d : 3; }; _BitInt(64) f(_BitInt(3) x);"),
    (".c", "__int128 a; unsigned __int128 b; struct s { __int128 c : 100; __float128 d; _Float16 e; __fp16 f; long double g; _Complex float h; _Complex int i; _Complex long double j; }; _Complex char k;"),
    (".c", "int (^block)(int); struct s { void (^b)(void); int (^*pb[3])(char); }; typedef void (^bt)(struct s); bt f(bt x);"),
    (".c", "struct s { int n; int data[]; } x = { 2, { 1, 2 } }; struct e { }; union eu { }; struct e ea[3]; struct n { struct e a; struct { } b; struct { }; int c[0]; }; int t[] = { 1, 2, 3 }; char w[] = \"abc\"; int u[][2] = { { 1 }, { 2 } };"),
    (".c", "int f(n, p) int n; char *p; { return n; } int g(); int h(int n, int a[n][n + 1], int b[*], int c[static 3], int d[const restrict 4]); int k(a, b) { return 1; } void z(int n) { struct l { int a[n]; } x; }"),
    (".c", "_Atomic int a; _Atomic(struct { int x; } *) p; struct s { _Atomic long b; _Atomic(char) c[3]; }; _Thread_local int d; _Alignas(32) char e; _Noreturn void f(void); __auto_type g = 1.0; __typeof__(a) h; __typeof__(int (*)(void)) i;"),
    (".c", "asm(\"nop\"); int a asm(\"b\"); int f(void) asm(\"g\"); _Static_assert(1, \"\"); ; extern int c; extern int c; int c; int c = 1; static int s; static int s; #pragma pack(1)\nstruct p { char a; long b; };\n#pragma pack()\n#pragma comment(lib, \"x\")\n"),
    (".c", "enum { A, B } e; struct { int x; } s; union { int y; } u; typedef struct { struct { enum { C } c; }; } t; struct o { struct i { int z; } i; }; struct i j; enum fwd; enum fwd *pf; struct inc; struct inc *pi; struct inc f(struct inc); extern struct inc xi; extern enum fwd xf; extern void v; extern int ia[];"),
    (".c", "__attribute__((address_space(1))) int a; int *__attribute__((address_space(2))) *b; __seg_gs int c; struct s { int __attribute__((address_space(3))) *p; int __ptr32 *q; }; void f(void) __attribute__((overloadable)); void f(int) __attribute__((overloadable)); int g __attribute__((weak, visibility(\"hidden\"), section(\"x\"), cleanup(f)));"),
    (".c", "__builtin_va_list v; struct s { __builtin_va_list w; }; int f(__builtin_va_list); __SIZE_TYPE__ z; __WCHAR_TYPE__ w; __NSConstantString n; void *__builtin_x; const char *s = __FILE__; int l[__LINE__ + sizeof(__func__)];"),
    (".cc", "struct B { int b; }; struct C : B { int c; virtual void f(); }; struct D : virtual B, C { int d; }; int D::*md; void (D::*mf)(); int &r = D().d; int &&rr = 1; decltype(nullptr) np; struct E { int &r; D &&d; int E::*m; E *e; static E s; static E a[2]; static const int k = 3; };"),
    (".cc", "template <class T> struct v { T t; struct in { T u; } i; static v<T> s; enum e { x }; T f(T); }; v<int> a; v<v<int>> b; v<int>::in c; v<long>::e d; template struct v<char>; template <> struct v<void> { int w; struct in { int q; }; }; v<void> g; v<void>::in h; extern template struct v<short>; struct k : v<float> { v<float>::in z; v<double> y; };"),
    (".cc", "auto a = [] { return 1; }; auto b = [](auto x) { struct l { int z; } q; return q; }; auto c = b(1); decltype(b(2)) d; auto [e, f] = [] { struct { int x, y; } s { }; return s; }(); auto g() { struct l { int a; struct m { int b; } c; }; return l { }; } auto h = g(); decltype(h.c) i; using t = decltype(g()); t j; t *k;"),
    (".cc", "namespace n { inline namespace i { struct s { s *n; struct t; }; struct s::t { int a; s b; }; } namespace { int anon; struct as { int x; }; } } n::s a; n::s::t b; n::as c; using n::s; using namespace n; namespace m = n; m::s d; struct n2::x; extern \"C\" { namespace q { int c(int); struct d { int e; }; } extern \"C++\" { int f(long); q::d g; } }"),
    (".cc", "enum class e : unsigned char { a, b }; enum f : long long { c = -1 }; enum g; enum class h; enum i : int; struct s { enum class j; e x : 3; i y; h *z; }; enum class s::j { k }; s::j l; union u { int a; float b; u(); ~u(); static u w; struct { int c; union { long d; }; }; }; static union { int an; long bn; }; bool bo; char16_t c16; char32_t c32; wchar_t wc; char8_t c8;"),
    (".cc", "template <class T> auto f(T t) -> decltype(t + 1); template <class... T> struct tp; template <> struct tp<> { }; template <class H, class... R> struct tp<H, R...> : tp<R...> { H h; }; tp<int, char, tp<long>> x; template <template <class> class C> struct tt { C<int> c; }; template <class T> using al = T *; al<int> y; tt<al> z; template <class T> T vt = T(1); auto w = vt<int>; template <int N> struct ar { int a[N]; ar<N - 1> *p; }; ar<3> q; template <> struct ar<0> { };"),
    (".cc", "struct a; struct b { a *p; friend a; friend struct c; friend void ff(b) { struct z { int y; } x; } struct d { b *q; d(d *); operator int() { return 1; } }; union { int e; d *f; }; int g : 3, : 0, h : 5; static int k; static d m; mutable int n; const int o = 1; virtual ~b() = default; b(const b &) = delete; b &operator=(b) noexcept; template <class T> T t(T); using u = d; typedef a w; u v; w *x; }; int b::k; b::d b::m { nullptr }; struct a { b y; b::d z; };"),
    (".c", ""), (".cc", ";"), (".c", "struct s"), (".c", "struct s {"), (".c", "struct s { struct t { int a;"), (".c", "int f(struct s { int a; } x"), (".cc", "namespace n { struct s { struct t { int a;"), (".cc", "template <class T> struct s { T t;"), (".c", "enum e { a, b"), (".c", "}}}} int x;"), (".c", "int x = (((((;"), (".c", "#if 1\nint x;"), (".c", "/* int y;"), (".c", "char *s = \"abc\nint z;"),
]

def names(text, k):
    return re.sub(r"\bbad_(\w+)", lambda m: "bad_%s_%d" % (m.group(1), k), text)

class Case:
    pass

WORDS = "struct union enum typedef static extern const volatile int long unsigned char void float double { } ( ) [ ] ; , : = * & 0 1 -1 99 ... sizeof inline __attribute__ __typeof__".split()
CXXWORDS = "class template < > :: namespace using friend virtual operator auto decltype constexpr typename public private this new ~ && -> noexcept explicit".split()
TOKEN = re.compile(r'\s+|//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|\w+|::|->|\.\.\.|&&|<<|>>|.', re.S)

def damage(r, text, cpp, k):
    ts = TOKEN.findall(text)
    solid = [i for i, t in enumerate(ts) if not t.isspace()]
    for _ in range(k):
        if not solid:
            break
        i = r.choice(solid)
        w = r.randrange(7)
        if w == 0:
            ts[i] = ""
        elif w == 1:
            ts[i] += " " + ts[i]
        elif w == 2:
            j = r.choice(solid)
            ts[i], ts[j] = ts[j], ts[i]
        elif w == 3:
            ts[i] = " %s " % r.choice(WORDS + CXXWORDS * cpp)
        elif w == 4:
            ts[i] = " %s %s" % (r.choice(WORDS + CXXWORDS * cpp), ts[i])
        elif w == 5:
            n = r.choice([2, 3, 5, 10, 30])
            ts[i:i + n] = [""] * len(ts[i:i + n])
        else:
            n = r.choice([2, 3, 5, 10])
            j = r.choice(solid)
            ts[i] += " " + " ".join(x for x in ts[j:j + n])
    return "".join(ts)

def gen(seed, n):
    r = random.Random("broken-%s-%s" % (seed, n))
    c = Case()
    c.std, c.items, c.bad, c.again = "", None, [], (n // 6) % 3 + 1 if n % 6 == 0 else 0
    c.mode = r.choice(["among", "among", "damaged", "damaged", "odd"])
    if c.mode == "odd":
        ext, text = r.choice(ODD)
        c.file = "u" + ext
        c.parts = [text + "\n"]
        if r.randrange(3):
            c.parts = [damage(r, text, ext in (".cc", ".mm"), r.choice([1, 1, 2, 3, 5])) + "\n"]
        c.cpp = None
        return c
    c.cpp = r.randrange(2) == 1
    if c.cpp:
        u = cxx.gen(seed, "broken-%s" % n)
        c.file, c.std, c.items = u.file, u.std, u.items
        parts = []
        for x in u.items:
            o = []
            cxx.emit([x], o)
            parts.append("".join(o))
    else:
        g = cgen.Gen(r)
        c.items = g.unit(r.choice([1, 2, 3, 5, 8, 12, 20]))
        c.file = "u.h"
        parts = [cgen.item_text(x) + "\n" for x in c.items]
    if c.mode == "damaged":
        t = "".join(parts)
        if r.randrange(3) == 0:
            t += "\n".join(r.choice(C_BAD + CXX_BAD * c.cpp) for _ in range(r.choice([1, 2, 5]))) + "\n"
        c.parts = [damage(r, t, c.cpp, r.choice([1, 1, 1, 2, 3, 5, 10, 30]))]
        return c
    c.parts = [(False, p) for p in parts]
    for k in range(r.choice([1, 1, 2, 3, 5, 10, 40])):
        t = r.choice(CXX_BAD if c.cpp and r.randrange(3) else C_BAD)
        if t == "}" and c.cpp:
            continue                          # the end of a namespace
        c.parts.insert(r.randrange(len(c.parts) + 1), (True, names(t, k) + "\n"))
    c.bad = [p for b, p in c.parts if b]
    return c

def text(c):
    return "".join(p if isinstance(p, str) else p[1] for p in c.parts)

def signal(st):
    return st < 0 or st >= 128

def examine(env, c, d, probe):
    """complaints, number of declarations, status"""
    path = os.path.join(d, c.file)
    with open(path, "w") as f:
        f.write(text(c))
    extra = ([c.std] if c.std else []) + (["-x", "c", "-fblocks"] if c.file.endswith(".c") else [])
    out = os.path.join(d, "u.refl")
    st, data, msg = plug.reflect(env.so, path, out, extra)
    if st not in (0, 1):
        # the compiler itself fails on some of these
        p = subprocess.run([build.LLVM + "/bin/clang", "-fsyntax-only", "-w", *extra, path], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=d)
        if p.returncode not in (0, 1):
            return [], 0, "clang fails"
        return ["the compiler ends with %d: %s" % (st, plug.cut(" ".join(msg.split()[:30])))], 0, "crash"
    if st == 1:
        bad = []
        if not msg.strip():
            bad.append("status 1 without a message")
        if data:
            bad.append("status 1 and a database of %d octets: %s" % (len(data), plug.cut(msg)))
        return bad, 0, "rejected"
    try:
        db = plug.Db(data, env.base)
        bad = check(db, c.file)
        if bad:
            return bad, len(db.n), "ok"
        if c.again:
            ways = { 1: ("with debug output", path, extra + ["-Xclang", "-plugin-arg-crefl", "-Xclang", "-debug"], {}, None),
                     2: ("by a relative path, from another directory", os.path.relpath(path, os.path.dirname(d)), extra, {}, os.path.dirname(d)),
                     3: ("in another environment", path, extra, dict(LANG="tr_TR.UTF-8", TZ="Asia/Tokyo", MALLOC_PERTURB_="165", HOME="/nowhere"), None) }
            how, where, opts, more, cwd = ways[c.again]
            again = plug.reflect(env.so, where, os.path.join(d, "again.refl"), opts, more, cwd)
            if again[:2] != (st, data):
                return ["reflected again, %s: %s" % (how, "status %d" % again[0] if again[0] else "another database")], len(db.n), "ok"
        ans, msg = probe.ask(out)
        if ans is None:
            return [msg], len(db.n), "ok"
        if ans[2]:
            return ["library: " + ans[2][0]], len(db.n), "ok"
        n = len(db.n)
        if c.mode == "among":
            wrong = wrongly(db, c.parts)
            db = without(plug.Db(data, env.base))
            if c.cpp:
                bad = cxx.Compare(db, c.items, c.file).bad
            else:
                k = plug.Compare(db, cgen.expect(c.items), c.file)
                bad = k.c08 + k.c09
            bad = ["among declarations with errors: " + b for b in bad] + wrong
        return bad, n, "ok"
    except (refl.Bad, ValueError) as e:
        return ["the database is not well-formed: %s" % e], 0, "ok"

# ---- shrinking: parts, then tokens (of the declarations with errors, or of the whole damaged text)

def smaller(xs, test, end):
    """a shorter list for which the test holds"""
    w = max(1, len(xs) // 2)
    while w and time.time() < end:
        k = len(xs) - w
        while k > -w and time.time() < end:
            a = max(0, k)
            ys = xs[:a] + xs[k + w:]
            if len(ys) < len(xs) and test(ys):
                xs = ys
            k -= w
        w //= 2
    return xs

def shrink(c, failing):
    import copy
    end = time.time() + 90
    def made(parts):
        q = copy.copy(c)
        q.parts = parts
        return q
    if c.mode == "among":
        q = made(keep(c, smaller(c.parts, lambda ps: failing(made(keep(c, ps))), end)))
        return q if failing(q) else c
    lines = "".join(c.parts).splitlines(True)
    lines = smaller(lines, lambda ls: failing(made(ls)), end)
    ts = smaller(TOKEN.findall("".join(lines)), lambda t: failing(made(["".join(t)])), end)
    return made(["".join(ts)])

def keep(c, parts):
    # the generated declarations depend on each other, so they all stay
    have = [p for p in parts if p[0]]
    out = []
    for p in c.parts:
        if not p[0] or p in have:
            out.append(p)
    return out

def worker(a):
    env, binary, seed, lo, hi, top = a
    d = tempfile.mkdtemp(dir=top)
    probe = layout.Probe(binary)
    out = []
    try:
        for n in range(lo, hi):
            c = gen(seed, n)
            bad, k, st = examine(env, c, d, probe)
            t = text(c)
            out.append((n, hashlib.sha256((c.file + c.std + t).encode()).hexdigest()[:16], bad, k, st, "%s%s" % ({None: "", True: "C++ ", False: "C "}[c.cpp], c.mode), len(c.bad), t[:400] if n % 97 == 0 else None))
            if bad:
                break
    finally:
        probe.close()
        shutil.rmtree(d, ignore_errors=True)
    return out

def run(rep, part, opt):
    env = plug.Env(rep.tmp)
    binary = build.harness("c04probe")
    d = tempfile.mkdtemp(dir=rep.tmp)
    if "replay" in opt:
        with open(opt["replay"]) as f:
            j = json.load(f)
        c = gen(j["seed"], j["case"])
        if c.mode == "among":
            c.parts = keep(c, [(True, p) for p in j["bad"]])
        else:
            c.parts = [j["text"]]
        print(text(c))
        probe = layout.Probe(binary)
        bad = examine(env, c, d, probe)[0]
        probe.close()
        print("complaints:", bad[:10])
        if bad:
            rep.violation("replay", bad[0], opt["replay"])
        return
    total = int((part["thorough"] if rep.thorough() else part["quick"]) * float(opt.get("scale", 1)))
    jobs = [(env, binary, rep.seed, a, min(total, a + 25), d) for a in range(0, total, 25)]
    labels, seen, samples, evals, nontrivial, fails, inserted = {}, set(), [], 0, 0, [], 0
    stop = time.time() + (100000 if rep.thorough() else 400)
    with ProcessPoolExecutor(8) as ex:
        for out in ex.map(worker, jobs):
            for n, h, bad, k, st, mode, b, t in out:
                evals += 1
                labels["%s: %s" % (mode, st)] = labels.get("%s: %s" % (mode, st), 0) + 1
                inserted += b
                if h not in seen and (k >= 3 or bad):
                    nontrivial += 1
                seen.add(h)
                if t:
                    samples.append(t)
                if bad:
                    fails.append(n)
            if len(fails) >= 3 or time.time() > stop:
                ex.shutdown(cancel_futures=True)
                break
    labels["declarations with errors among generated ones"] = inserted
    for k, n in enumerate(fails[:3]):
        probe = layout.Probe(binary)
        c = gen(rep.seed, n)
        bad = examine(env, c, d, probe)[0]
        if not bad:
            probe.close()
            rep.notes.append("case %d failed once only" % n)
            continue
        sign = lambda b: re.sub(r'"[^"]*"|\w*\d\w*', "#", b[0])[:40] if b else None
        want = sign(bad)
        c = shrink(c, lambda q: sign(examine(env, q, d, probe)[0]) == want)
        bad = examine(env, c, d, probe)[0] or bad
        probe.close()
        path = os.path.join(rep.rdir, "C32-%d.json" % k)
        with open(path, "w") as f:
            json.dump(dict(seed=rep.seed, case=n, file=c.file, std=c.std, mode=c.mode, text=text(c), bad=[p[1] for p in c.parts if not isinstance(p, str) and p[0]], complaints=bad), f, indent=1)
        rep.violation("units", "unit %d (%s, %s): %s" % (n, c.mode, c.file, bad[0]), path)
    rep.add("units", evals, nontrivial, labels, samples[:12])
