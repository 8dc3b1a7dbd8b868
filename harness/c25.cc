/* C25: the ASN.1 dump tool on generated DER trees and on damaged and arbitrary files */
#include "codec.h"
#include "toolrun.h"
#include <crefl/oid.h>
using namespace vp;
typedef unsigned long long ull;

static const char *tag_names[32] = { "reserved", "boolean", "integer", "bit_string", "octet_string", "null", "object_identifier", "object_descriptor", "external", "real",
    "enumerated", "embedded_pdv", "utf8_string", "relative_oid", "reserved_14", "reserved_15", "sequence", "set", "numeric_string", "printable_string", "t61_string",
    "reserved_21", "ia5_string", "utc_time", "generalized_time", "graphic_string", "iso646_string", "general_string", "utf32_string", "reserved_29", "utf16_string", "reserved_31" };

/* one expected line; text_known is false where the content is not a proper value of its type */
struct Line { size_t off; uint64_t len; unsigned depth, cons; std::string tag, text; bool text_known = true; };
struct Walk { std::vector<Line> lines; bool ok = true, canon = true, deep = false; size_t end = 0; };

static std::string oid_text(const Bytes &v)
{
    ref::OidDec d = ref::oid_dec(v.data(), v.size()); std::string s;
    for (auto x : d.c) { if (!s.empty()) s += "."; s += std::to_string(x); }
    return s;
}
/* lenient reference walk over definite-length BER, in file order */
static bool walk(Walk &w, const Bytes &f, size_t at, size_t limit, unsigned depth)
{
    if (depth > 1000) { w.deep = true; }
    ref::IdentDec i = ref::ident_dec(f.data() + at, f.size() - at); if (!i.ok) return false;
    ref::Dec l = ref::length_dec(f.data() + at + i.used, f.size() - at - i.used); if (!l.ok) return false;
    w.canon &= i.canon && l.canon && i.id.num < (1ull << 56);
    size_t cur = at + i.used + l.used;
    if (cur > limit || l.val > limit - cur) return false;
    Line x; x.off = cur; x.len = l.val; x.depth = depth; x.cons = i.id.cons;
    static const char *cls[] = { "universal", "application", "context", "private" };
    x.tag = i.id.cls ? strf("%s [%llu]", cls[i.id.cls], (ull)i.id.num) : i.id.num < 32 ? tag_names[i.id.num] : "<unknown>";
    Bytes v(f.begin() + cur, f.begin() + cur + l.val); uint64_t n = i.id.cls ? 0 : i.id.num;
    if (n == 6) {
        ref::OidDec d = ref::oid_dec(v.data(), v.size()); bool big = false; for (auto a : d.c) big |= a >= (1ull << 56);
        x.text_known = d.ok && d.canon && d.c.size() <= 15 && !big;
        if (x.text_known) x.text = strf("%s (%s)", crefl_asn1_oid_desc((char *)v.data(), v.size()), oid_text(v).c_str());
    } else if (n == 9 || n == 2 || n == 3) {
        x.text = "{"; for (size_t k = 0; k < v.size(); k++) x.text += strf("%s%02x", k ? "," : "", v[k]); x.text += "}";
    } else if (n == 23 || n == 19) {
        for (auto b : v) if (b < 0x20 || b > 0x7e) x.text_known = false;
        x.text = "\"" + std::string(v.begin(), v.end()) + "\"";
    }
    w.lines.push_back(x);
    if (n == 16 || n == 17) {
        size_t p = cur, e = cur + l.val;
        while (p < e) { if (!walk(w, f, p, e, depth + 1)) return false; p = w.end; }
    }
    w.end = cur + l.val;
    return true;
}
static std::string trim(const std::string &s)
{
    size_t a = s.find_first_not_of(' '), b = s.find_last_not_of(' '); return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}
/* "[  off;len  ]<2*depth spaces>|-<*| >tag   text" */
static bool parse_line(const std::string &s, Line &l, std::string &rest)
{
    const char *p = s.c_str(); char *e;
    if (*p++ != '[') return false;
    l.off = strtoull(p, &e, 10); if (e == p || *e != ';') return false; p = e + 1;
    l.len = strtoull(p, &e, 10); if (e == p) return false; p = e; while (*p == ' ') p++;
    if (*p++ != ']') return false;
    unsigned sp = 0; while (*p == ' ') p++, sp++;
    if (sp & 1 || p[0] != '|' || p[1] != '-') return false;
    l.depth = sp / 2; p += 2;
    l.cons = *p == '*' ? 1 : *p == ' ' ? 0 : 2; if (l.cons == 2) return false;
    rest = p + 1; return true;
}
static void compare(const std::string &out, const Walk &w, size_t upto, const Bytes &f)
{
    /* unknown texts may contain anything, newlines included: lines are only compared up to the first of them */
    size_t pos = 0;
    for (size_t k = 0; k < upto; k++) {
        const Line &x = w.lines[k]; size_t nl = out.find('\n', pos);
        VP_CHECK(nl != std::string::npos, "element %zu (at %zu, %s) has no line in the output", k, x.off, x.tag.c_str());
        std::string s = out.substr(pos, nl - pos); pos = nl + 1; Line g; std::string rest;
        VP_CHECK(parse_line(s, g, rest), "line %zu has another form: %s", k, s.substr(0, 200).c_str());
        VP_CHECK(g.off == x.off && g.len == x.len && g.depth == x.depth && g.cons == x.cons, "element %zu: offset %zu length %llu depth %u constructed %u expected, printed %s", k, x.off, (ull)x.len, x.depth, x.cons, s.substr(0, 200).c_str());
        VP_CHECK(rest.compare(0, x.tag.size(), x.tag) == 0 && (rest.size() == x.tag.size() || rest[x.tag.size()] == ' ' || rest[x.tag.size()] == '{' || rest[x.tag.size()] == '"'), "element %zu: tag %s expected, printed %s", k, x.tag.c_str(), s.substr(0, 200).c_str());
        if (!x.text_known) return;
        std::string t = trim(rest.substr(x.tag.size())), want = trim(x.text);
        VP_CHECK(t == want, "element %zu (%s at %zu): text %s expected, printed %s", k, x.tag.c_str(), x.off, want.substr(0, 300).c_str(), t.substr(0, 300).c_str());
    }
    if (upto == w.lines.size() && w.ok) VP_CHECK(pos == out.size(), "%zu elements, but more output: %s", upto, out.substr(pos, 200).c_str());
}

static Bytes wrap(const ref::Ident &i, const Bytes &content) { return ref::cat(ref::cat(ref::ident(i), ref::length(content.size())), content); }
static Bytes printable(Case &c, size_t n) { Bytes r; for (size_t i = 0; i < n; i++) r.push_back((uint8_t)c.pick({ 'a', 'Z', '0', ' ', '%', '(', ')', '+', ',', '-', '.', '/', ':', '=', '?', '\'', 'n', 's' })); return r; }
static Bytes gen_oid(Case &c)
{
    static const std::vector<Bytes> known = { { 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d }, { 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 1 }, { 0x55, 4, 3 }, { 0x55, 4, 10 }, { 0x55, 0x1d, 0x0f }, { 0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7 }, { 0x55, 8 } };
    if (c.chance(1, 3)) return c.pick(known);
    std::vector<uint64_t> v; v.push_back(c.draw(2)); v.push_back(v[0] < 2 ? c.draw(39) : c.interesting() & ((1ull << 55) - 1));
    size_t n = c.draw(13); for (size_t i = 0; i < n; i++) v.push_back(c.interesting() & ((1ull << 56) - 1));
    return ref::oid(v);
}
/* universal sequences, sets and object identifiers have contents of their own */
static Bytes other(ref::Ident i, const Bytes &v)
{
    if (i.cls == 0 && (i.num == 16 || i.num == 17 || i.num == 6)) i.num = 18;
    return wrap(i, v);
}
static Bytes element(Case &c, unsigned depth, unsigned &budget)
{
    if (budget) budget--;
    unsigned k = c.below(12);
    size_t n = c.size(300);
    switch (k) {
    case 0: case 1: case 2: {       /* nested */
        Bytes in; unsigned m = depth > 20 ? 0 : c.below(5);
        for (unsigned i = 0; i < m && budget; i++) in = ref::cat(in, element(c, depth + 1, budget));
        return wrap({ (uint64_t)(c.flip() ? 16 : 17), 0, (unsigned)!c.chance(1, 10) }, in);
    }
    case 3: return wrap({ 6, 0, 0 }, gen_oid(c));
    case 4: return wrap({ 2, 0, 0 }, c.bytes(1 + n));
    case 5: return wrap({ c.pick<uint64_t>({ 3, 9 }), 0, 0 }, c.bytes(n));
    case 6: return wrap({ c.pick<uint64_t>({ 19, 23 }), 0, 0 }, printable(c, n));
    case 7: return wrap({ 5, 0, 0 }, {});
    case 8: return other({ c.draw(40), (unsigned)c.draw(3), c.flip() }, printable(c, n));    /* any small tag of any class */
    case 9: { Bytes in; unsigned m = c.below(4); for (unsigned i = 0; i < m && budget; i++) in = ref::cat(in, element(c, depth + 1, budget));
              return wrap({ c.flip() ? c.draw(40) : c.interesting() & ((1ull << 56) - 1), 1 + (unsigned)c.draw(2), 1 }, in); }
    case 10: return wrap({ c.pick<uint64_t>({ 1, 4, 10, 12, 22, 24 }), 0, 0 }, c.bytes(n));
    default: return other({ c.interesting() & ((1ull << 56) - 1), (unsigned)c.draw(3), c.flip() }, printable(c, n));
    }
}
static Bytes tree(Case &c)
{
    Bytes f; unsigned budget = 1 + c.size(60);
    switch (c.below(8)) {
    case 0: {                        /* a chain */
        f = element(c, 0, budget); unsigned d = c.size(300);
        for (unsigned i = 0; i < d; i++) f = wrap({ 16 + (i & 1), 0, 1 }, f);
        break;
    }
    case 1: f = element(c, 0, budget); break;
    case 2: {                        /* long lengths */
        Bytes big = printable(c, 10); size_t n = c.pick<size_t>({ 127, 128, 255, 256, 65535, 65536, 70000 }) + c.draw(2); big.resize(n, 'x');
        f = wrap({ 16, 0, 1 }, ref::cat(wrap({ 19, 0, 0 }, big), element(c, 1, budget))); break;
    }
    default: { Bytes in; unsigned m = 1 + c.below(8); for (unsigned i = 0; i < m && budget; i++) in = ref::cat(in, element(c, 1, budget)); f = wrap({ 16, 0, 1 }, in); }
    }
    return f;
}
static ToolRun dump(const Bytes &f)
{
    static std::string p = scratch_file("der"); put_file(p, f.data(), f.size());
    return run_tool({ "asn1tool", "--dump", p });
}

VP_PROP(der_tree, 40000, 1000000)
{
    Bytes f = tree(c); c.note("%s", hex(f).c_str());
    Walk w; w.ok = walk(w, f, 0, f.size(), 0);
    VP_CHECK(w.ok && w.end == f.size(), "generator and reference walk disagree");
    if (w.lines.size() > 1) c.nontrivial(hash_bytes(f.data(), f.size()));
    unsigned md = 0; for (auto &l : w.lines) md = std::max(md, l.depth);
    c.label(strf("depth %s", md < 3 ? "0-2" : md < 10 ? "3-9" : md < 100 ? "10-99" : "100+"));
    c.label(strf("elements %s", w.lines.size() < 2 ? "1" : w.lines.size() < 10 ? "2-9" : "10+"));
    /* the tree's primitive texts are all proper values except small tags drawn at random */
    ToolRun t = dump(f);
    compare(t.out, w, w.lines.size(), f);
    if (w.canon) VP_CHECK(t.status == 0, "exit status %d for a well-formed file", t.status);
    ToolRun t2 = dump(f); VP_CHECK(t2.out == t.out && t2.status == t.status, "a second run printed something else");
}
/* damaged and arbitrary files */
static Bytes wild(Case &c)
{
    Bytes f;
    switch (c.below(8)) {
    case 0: f = c.bytes(c.size(64)); break;
    case 1: { unsigned n = c.size(2000); Bytes pat = c.bytes(1 + c.draw(3)); for (unsigned i = 0; i < n; i++) f.push_back(c.below(20) ? pat[i % pat.size()] : c.byte()); break; }
    case 2: { unsigned n = c.draw(3000); for (unsigned i = 0; i < n; i++) f.push_back(0x30), f.push_back(c.chance(1, 50) ? c.byte() : 0x80); break; }    /* endless nesting */
    case 3: {                        /* nesting with true lengths, deeper than the tool may follow */
        unsigned n = c.draw(40000); f = { 5, 0 };
        if (n > 3000) n = 900 + n % 300;
        for (unsigned i = 0; i < n; i++) f = wrap({ 16, 0, 1 }, f);
        break;
    }
    default: f = tree(c); break;
    }
    unsigned k = c.below(4);
    for (unsigned i = 0; i < k && !f.empty(); i++) switch (c.below(6)) {
    case 0: f.resize(c.draw(f.size())); break;
    case 1: f[c.below(f.size())] = c.byte(); break;
    case 2: f[c.below(std::min<size_t>(f.size(), 8))] = c.byte(); break;
    case 3: f.insert(f.begin() + c.below(f.size() + 1), c.byte()); break;
    case 4: f.erase(f.begin() + c.below(f.size())); break;
    default: { size_t a = c.below(f.size()); Bytes h = c.bytes(c.draw(10)); for (size_t j = 0; j < h.size() && a + j < f.size(); j++) f[a + j] = h[j]; }
    }
    return f;
}
VP_PROP(any_file, 60000, 2000000)
{
    Bytes f = wild(c); c.note("%s", hex(f).c_str());
    if (f.size() > 1) c.nontrivial(hash_bytes(f.data(), f.size()));
    Walk w; w.ok = walk(w, f, 0, f.size(), 0);
    ToolRun t = dump(f);
    VP_CHECK(t.status == 0 || t.status == 1, "exit status %d", t.status);
    if (!w.ok) { c.label("not well-formed"); VP_CHECK(t.status != 0, "exit status 0 for a file with an element that does not fit"); }
    else if (w.canon && !w.deep) { c.label("well-formed"); VP_CHECK(t.status == 0, "exit status %d for a well-formed file", t.status); }
    else c.label(w.deep ? "very deep" : "well-formed, not minimal");
    if (!w.deep) compare(t.out, w, t.status == 0 || w.canon ? w.lines.size() : 0, f);
}
