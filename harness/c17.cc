/* C17: object identifiers: components, dotted text, BER */
#include "codec.h"
using namespace vp;
typedef unsigned long long ull;
typedef std::vector<uint64_t> Comps;

static uint64_t sub(Case &c)
{
    switch (c.draw(3)) {
    case 0: return c.draw(200);
    case 1: { unsigned k = 1 + c.draw(7); return ((1ull << (7 * k)) + (uint64_t)c.range(-2, 2)) & ((1ull << 56) - 1); }
    case 2: return c.pick({ 0, 1, 39, 40, 79, 80, 113549, 840 });
    default: return c.interesting() & ((1ull << 56) - 1);
    }
}
static Comps gen(Case &c, size_t max = 15)
{
    Comps v; size_t n = 2 + c.draw(max - 2); uint64_t a = c.draw(2); v.push_back(a);
    v.push_back(a < 2 ? c.draw(39) : c.chance(1, 4) ? (1ull << 56) - 81 - c.draw(3) : std::min<uint64_t>(sub(c), (1ull << 56) - 81));
    while (v.size() < n) v.push_back(sub(c));
    return v;
}
static std::string text(const Comps &v) { std::string s; for (size_t i = 0; i < v.size(); i++) { if (i) s += '.'; s += std::to_string(v[i]); } return s; }
static asn1_oid *mk(const Comps &v) { asn1_oid *o = (asn1_oid *)malloc(sizeof *o); o->count = v.size(); for (size_t i = 0; i < v.size() && i < 15; i++) o->oid[i] = v[i]; return o; }
struct O { asn1_oid *o; O(const Comps &v) : o(mk(v)) {} O() : o((asn1_oid *)malloc(sizeof(asn1_oid))) { memset(o, 0x5c, sizeof *o); } ~O() { free(o); }
    bool is(const Comps &v) const { if (o->count != v.size()) return false; for (size_t i = 0; i < v.size() && i < 15; i++) if (o->oid[i] != v[i]) return false; return true; }
    std::string str() const { Comps v; for (size_t i = 0; i < o->count && i < 15; i++) v.push_back(o->oid[i]); return text(v) + strf(" (%llu)", (ull)o->count); } };

VP_PROP(ber_round_trip, 250000, 5000000)
{
    Comps v = gen(c); Bytes w = ref::oid(v); bool der = c.flip(); Bytes full = der ? ref::tlv(6, w) : w; O o(v);
    c.note("%s -> %s", text(v).c_str(), hex(w).c_str()); c.nontrivial(hash_bytes(v.data(), v.size() * 8)); c.label(strf("%zu components", v.size()));
    VP_CHECK(crefl_asn1_ber_oid_length(o.o) == w.size(), "%s: predicted length %zu, expected %zu", text(v).c_str(), crefl_asn1_ber_oid_length(o.o), w.size());
    Buf b(full.size() + c.draw(2)); int r = der ? crefl_asn1_der_oid_write(&b, asn1_tag_object_identifier, o.o) : crefl_asn1_ber_oid_write(&b, w.size(), o.o);
    VP_CHECK(r == 0 && b.written() == full, "%s: write gave %d, %s, expected %s", text(v).c_str(), r, hex(b.written()).c_str(), hex(full).c_str());
    VP_CHECK(o.is(v), "write changed the OID");
    Bytes in = ref::cat(full, c.bytes(c.draw(2))); Buf i(in); O g; r = der ? crefl_asn1_der_oid_read(&i, asn1_tag_object_identifier, g.o) : crefl_asn1_ber_oid_read(&i, w.size(), g.o);
    VP_CHECK(r == 0 && g.is(v) && i.pos() == full.size(), "%s: read of %s gave %d, %s, %zu octets", text(v).c_str(), hex(in).c_str(), r, g.str().c_str(), i.pos());
}
VP_PROP(text_round_trip, 200000, 4000000)
{
    Comps v = gen(c); std::string s = text(v); O o(v); c.note("%s", s.c_str()); c.nontrivial(hash_str(s));
    /* length query, exact fit, roomy and too small buffers */
    size_t n = 0; int r = crefl_asn1_oid_to_string(nullptr, &n, o.o); VP_CHECK(r == 0 && n == s.size(), "%s: length query gave %d, %zu", s.c_str(), r, n);
    size_t cap = c.flip() ? s.size() + 1 + c.draw(3) : c.draw(s.size() + 1); char *t = (char *)malloc(cap ? cap : 1); memset(t, '#', cap ? cap : 1); n = cap;
    r = crefl_asn1_oid_to_string(t, &n, o.o); std::string got(t, cap ? strnlen(t, cap) : 0); free(t);
    VP_CHECK(r == 0 && n == s.size(), "%s: with %zu bytes gave %d, length %zu", s.c_str(), cap, r, n);
    VP_CHECK(got == s.substr(0, cap ? cap - 1 : 0), "%s: with %zu bytes gave text '%s'", s.c_str(), cap, got.c_str());
    /* parsing the exact bytes, with nothing behind them */
    char *e = (char *)malloc(s.size()); memcpy(e, s.data(), s.size()); O p; r = crefl_asn1_oid_from_string(p.o, e, s.size()); free(e);
    VP_CHECK(r == 0 && p.is(v), "%s: parsed as %d, %s", s.c_str(), r, p.str().c_str());
}
/* any text: the reference accepts digits separated by single dots, each below 2^56; a trailing dot may or may not be accepted */
VP_PROP(text_any, 300000, 6000000)
{
    std::string s; size_t n = c.draw(18);
    switch (c.draw(3)) {
    case 3: { size_t k = 13 + c.draw(c.chance(1, 8) ? 60 : 6); for (size_t i = 0; i < k; i++) { if (i) s += '.'; s += std::to_string(c.chance(1, 4) ? sub(c) : c.draw(40)); } if (c.chance(1, 4)) s += c.pick({ '.', 'x', '0' }); } break;
    case 0: for (size_t i = 0; i < n; i++) s += c.pick({ '0', '1', '9', '.', '.', '2', '7', 'x', ' ', '-', '/', ':' }); break;
    case 1: { s = text(gen(c, 4)); size_t k = c.draw(2); for (size_t i = 0; i < k; i++) { size_t at = c.draw(s.size()); char ch = c.pick({ '.', '0', 'a', '+', (char)0xb2, '\0', '9', '\x80', '\xff' }); if (c.flip()) s.insert(at, 1, ch); else if (at < s.size()) s[at] = ch; } } break;
    default: { size_t k = 1 + c.draw(3); for (size_t i = 0; i < k; i++) { if (i) s += '.'; s += std::to_string((1ull << 56) + (uint64_t)c.range(-2, 2)); if (c.chance(1, 3)) s += c.pick({ '0', '5' }); } } break;
    }
    Comps v; bool ok = true, dot = false, lead0 = false; size_t i = 0, L = s.size();
    while (i < L || (i == L && i > 0)) {
        size_t j = i; unsigned __int128 x = 0; bool over = false;
        while (j < L && s[j] >= '0' && s[j] <= '9') { x = x * 10 + (s[j] - '0'); if (x >= (1ull << 56)) { over = true; break; } j++; }
        if (over) { ok = false; break; }
        if (j == i) { ok = false; if (i == L) dot = true; break; }
        if (j < L && s[j] != '.') { ok = false; break; }
        if (s[i] == '0' && j > i + 1) lead0 = true;
        v.push_back((uint64_t)x);
        if (j == L) break;
        i = j + 1;
    }
    c.note("'%s'", s.c_str()); if (L > 1) c.nontrivial(hash_str(s)); c.label(ok ? "valid text" : "invalid text");
    char *e = (char *)malloc(L); memcpy(e, s.data(), L); O p; int r = crefl_asn1_oid_from_string(p.o, e, L); free(e);
    if (!(dot || lead0)) VP_CHECK((r == 0) == ok, "'%s' (%s): parse gave %d, %s", s.c_str(), ok ? "valid" : "invalid", r, p.str().c_str());
    if (r == 0) VP_CHECK(ok || dot, "'%s' accepted as %s", s.c_str(), p.str().c_str());
    if (!lead0 || r == 0) VP_CHECK(p.is(v), "'%s': parse gave %d, %s, expected components %s (%zu)", s.c_str(), r, p.str().c_str(), text(v).c_str(), v.size());
}
/* any content octets and claimed length */
VP_PROP(ber_any, 400000, 8000000)
{
    Bytes in; 
    switch (c.draw(3)) {
    case 0: in = c.bytes(c.draw(24)); break;
    case 1: in = ref::oid(gen(c)); break;
    case 2: { size_t k = c.draw(6); for (size_t i = 0; i < k; i++) in = ref::cat(in, ref::b128(sub(c))); } break;
    default: { size_t k = 14 + c.draw(40); for (size_t i = 0; i < k; i++) in.push_back((uint8_t)c.draw(200)); } break;
    }
    if (!in.empty() && c.chance(1, 3)) { size_t at = c.draw(in.size() - 1); in[at] = c.byte(); }
    size_t st = in.empty() ? 0 : c.chance(1, 6) ? c.draw(in.size()) : 0, have = in.size() - st; const uint8_t *p = in.data() + st;
    size_t n = c.chance(1, 2) ? have : c.chance(1, 6) ? c.interesting() : c.draw(have + 3);
    c.note("%s from %zu length %zu", hex(in).c_str(), st, n); if (n > 1) c.nontrivial(hash_bytes(in.data(), in.size(), n * 64 + st));
    ref::OidDec d; if (n <= have) d = ref::oid_dec(p, n);
    bool small = true; for (size_t k = 0; k < d.c.size(); k++) small &= d.c[k] < (1ull << 56) - 80; bool must = d.ok && d.canon && small && d.c.size() <= 15; c.label(must ? "valid" : d.ok ? "unusual" : "invalid");
    Buf b(in, st); O g; int r = crefl_asn1_ber_oid_read(&b, n, g.o);
    if (r == 0 && n > 0) { VP_CHECK(d.ok && b.pos() == st + n, "OID of %zu octets in %s at %zu accepted as %s, %zu octets", n, hex(in).c_str(), st, g.str().c_str(), b.pos() - st);
        VP_CHECK(g.is(d.c), "OID %s (%zu at %zu) read as %s, expected %s", hex(in).c_str(), n, st, g.str().c_str(), text(d.c).c_str()); }
    else if (r == 0) VP_CHECK(g.o->count == 0 && b.pos() == st, "empty OID read as %s", g.str().c_str());
    else { VP_CHECK(!must, "OID %s (%zu at %zu) rejected, it is %s", hex(in).c_str(), n, st, text(d.c).c_str()); VP_CHECK(g.o->count <= 15, "failed read left %llu components", (ull)g.o->count); }
    VP_CHECK(b.pos() <= in.size(), "position beyond the input");
}
VP_PROP(der_any, 200000, 4000000)
{
    Bytes ct = c.flip() ? ref::oid(gen(c, 6)) : c.bytes(c.draw(10)); Bytes in = ref::cat(ref::ident({ c.chance(1, 8) ? c.draw(100) : 6, 0, 0 }), c.chance(1, 4) ? ref::length(c.flip() ? c.draw(20) : c.interesting()) : ref::length(ct.size())); in = ref::cat(in, ct);
    if (c.chance(1, 4)) in.resize(c.draw(in.size())); if (c.chance(1, 4)) in.push_back(c.byte());
    ref::IdentDec i = ref::ident_dec(in.data(), in.size()); ref::Dec l; if (i.ok) l = ref::length_dec(in.data() + i.used, in.size() - i.used); size_t h = i.used + l.used;
    ref::OidDec d; if (i.ok && l.ok && l.val <= in.size() - h) d = ref::oid_dec(in.data() + h, l.val);
    bool small = true; for (auto x : d.c) small &= x < (1ull << 56) - 80; bool must = d.ok && d.canon && small && d.c.size() <= 15 && i.canon && l.canon && i.id.num == 6 && !i.id.cls && !i.id.cons; c.label(must ? "valid element" : d.ok ? "unusual element" : "invalid element");
    c.note("%s", hex(in).c_str()); if (in.size() > 2) c.nontrivial(hash_bytes(in.data(), in.size()));
    Buf b(in); O g; int r = crefl_asn1_der_oid_read(&b, asn1_tag_object_identifier, g.o);
    if (r == 0 && !(i.ok && l.ok && l.val == 0)) VP_CHECK(d.ok && g.is(d.c) && b.pos() == h + l.val, "DER OID %s accepted as %s, %zu octets; reference: %s %s", hex(in).c_str(), g.str().c_str(), b.pos(), d.ok ? "valid" : "invalid", text(d.c).c_str());
    if (r) VP_CHECK(!must, "DER OID %s rejected, it is %s", hex(in).c_str(), text(d.c).c_str());
    VP_CHECK(b.pos() <= in.size(), "position beyond the input");
}
/* a component list that is too long for the type: never read or written beyond it */
VP_PROP(too_long, 30000, 500000)
{
    Comps v = gen(c); while (v.size() < 15) v.push_back(sub(c)); O o(v); o.o->count = 16 + (c.flip() ? c.draw(20) : c.interesting() >> 1);
    c.note("count %llu", (ull)o.o->count); c.nontrivial(hash_bytes(v.data(), 120, o.o->count));
    size_t L = crefl_asn1_ber_oid_length(o.o); (void)L; Buf b(400); int r = c.flip() ? crefl_asn1_ber_oid_write(&b, L, o.o) : crefl_asn1_der_oid_write(&b, asn1_tag_object_identifier, o.o);
    VP_CHECK(r < 0, "OID of %llu components written", (ull)o.o->count);
    char t[400]; size_t n = c.draw(400); r = crefl_asn1_oid_to_string(t, &n, o.o); (void)r;
}
