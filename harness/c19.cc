/* C19: decoders on arbitrary bytes, lengths and start positions, alone and in sequence */
#include "codec.h"
#include <crefl/oid.h>
using namespace vp;
typedef unsigned long long ull;

struct Out { bool ok; Bytes val; size_t pos; };
template <typename T> static void put(Bytes &b, const T &v) { const uint8_t *p = (const uint8_t *)&v; b.insert(b.end(), p, p + sizeof v); }
struct Op { unsigned fn; size_t len; unsigned tag; size_t cap; };
static const char *names[] = { "tag", "ident", "length", "boolean", "der_boolean", "u64", "u64_byval", "s64", "s64_byval", "der_u64", "der_u64_byval", "der_s64", "der_s64_byval", "le_u64", "le_u64_byval", "le_s64", "le_s64_byval",
    "real", "real_byval", "der_real", "der_real_byval", "vf_f64", "vf_f64_byval", "vf_f32", "vf_f32_byval", "leb", "leb_byval", "vlu", "vlu_byval", "oid", "der_oid", "octets", "der_octets", "null", "der_null" };
enum { NF = sizeof(names) / sizeof(names[0]) };

template <typename T> static T fill(uint8_t f) { T t; memset((void *)&t, f, sizeof t); return t; }
static Out run1(const Op &o, crefl_buf *b, uint8_t f)
{
    Out r; int e = 0; size_t n = o.len; asn1_tag t = (asn1_tag)o.tag;
#define PTR(T, call) { T v = fill<T>(f); e = call; if (e == 0) put(r.val, v); break; }
#define VAL(call) { auto x = call; e = (int)x.error; if (e == 0) put(r.val, x.value); break; }
#define FLT(T, call) { T v = 0; e = call; if (e == 0) put(r.val, v); break; }
    switch (o.fn) {
    case 0: PTR(u64, crefl_asn1_ber_tag_read(b, &v))
    case 1: { asn1_id v = fill<asn1_id>(f); e = crefl_asn1_ber_ident_read(b, &v); if (e == 0) { put(r.val, (u64)v._identifier); put(r.val, (u64)v._constructed); put(r.val, (u64)v._class); } break; }
    case 2: PTR(u64, crefl_asn1_ber_length_read(b, &v))
    case 3: { bool v = f & 1; e = crefl_asn1_ber_boolean_read(b, n, &v); if (e == 0) put(r.val, v); break; }
    case 4: { bool v = f & 1; e = crefl_asn1_der_boolean_read(b, t, &v); if (e == 0) put(r.val, v); break; }
    case 5: PTR(u64, crefl_asn1_ber_integer_u64_read(b, n, &v))
    case 6: VAL(crefl_asn1_ber_integer_u64_read_byval(b, n))
    case 7: PTR(s64, crefl_asn1_ber_integer_s64_read(b, n, &v))
    case 8: VAL(crefl_asn1_ber_integer_s64_read_byval(b, n))
    case 9: PTR(u64, crefl_asn1_der_integer_u64_read(b, t, &v))
    case 10: VAL(crefl_asn1_der_integer_u64_read_byval(b, t))
    case 11: PTR(s64, crefl_asn1_der_integer_s64_read(b, t, &v))
    case 12: VAL(crefl_asn1_der_integer_s64_read_byval(b, t))
    case 13: PTR(u64, crefl_le_ber_integer_u64_read(b, n, &v))
    case 14: VAL(crefl_le_ber_integer_u64_read_byval(b, n))
    case 15: PTR(s64, crefl_le_ber_integer_s64_read(b, n, &v))
    case 16: VAL(crefl_le_ber_integer_s64_read_byval(b, n))
    case 17: PTR(double, crefl_asn1_ber_real_f64_read(b, n, &v))
    case 18: VAL(crefl_asn1_ber_real_f64_read_byval(b, n))
    case 19: PTR(double, crefl_asn1_der_real_f64_read(b, t, &v))
    case 20: VAL(crefl_asn1_der_real_f64_read_byval(b, t))
    case 21: PTR(double, crefl_vf_f64_read(b, &v))
    case 22: VAL(crefl_vf_f64_read_byval(b))
    case 23: PTR(float, crefl_vf_f32_read(b, &v))
    case 24: VAL(crefl_vf_f32_read_byval(b))
    case 25: PTR(u64, crefl_leb_u64_read(b, &v))
    case 26: VAL(crefl_leb_u64_read_byval(b))
    case 27: PTR(u64, crefl_vlu_u64_read(b, &v))
    case 28: VAL(crefl_vlu_u64_read_byval(b))
    case 29: case 30: {
        asn1_oid *v = (asn1_oid *)malloc(sizeof *v); memset(v, f, sizeof *v); e = o.fn == 29 ? crefl_asn1_ber_oid_read(b, n, v) : crefl_asn1_der_oid_read(b, t, v);
        if (e == 0) { u64 k = v->count; put(r.val, k); for (u64 i = 0; i < k && i < 15; i++) put(r.val, v->oid[i]); } free(v);   /* like octets, the full count is reported; the first 15 are stored */
        break; }
    case 31: case 32: {
        u8 *d = (u8 *)malloc(o.cap); memset(d, f, o.cap); asn1_string s; s.count = o.cap; s.str = d; e = o.fn == 31 ? crefl_asn1_ber_octets_read(b, n, &s) : crefl_asn1_der_octets_read(b, t, &s);
        if (e == 0) { put(r.val, (u64)s.count); size_t k = std::min<size_t>(o.cap, s.count); r.val.insert(r.val.end(), d, d + k); } free(d); break; }
    case 33: e = crefl_asn1_ber_null_read(b, n); break;
    default: e = crefl_asn1_der_null_read(b, t); break;
    }
    VP_CHECK(b->data_offset <= b->data_size, "%s: position %zu beyond the %zu octets of input", names[o.fn], b->data_offset, b->data_size);
    VP_CHECK(e <= 0, "%s: an error is reported as %d, callers look for negative results", names[o.fn], e);
    r.ok = e == 0; r.pos = b->data_offset; return r;
}
/* input that gets deep into the decoders: elements with right and wrong headers, boundary octets, runs */
static Bytes input(Case &c)
{
    Bytes b; size_t parts = 1 + c.draw(4);
    for (size_t i = 0; i < parts; i++) switch (c.draw(8)) {
    case 0: b = ref::cat(b, c.bytes(c.draw(12))); break;
    case 1: b = ref::cat(b, Bytes(c.draw(12), c.pick<uint8_t>({ 0x80, 0xff, 0, 0x7f, 0x9f, 0x1f }))); break;
    case 2: { Bytes ct = c.bytes(c.draw(12)); b = ref::cat(b, ref::ident({ c.flip() ? c.draw(31) : c.interesting() >> 8, (unsigned)c.draw(3), (unsigned)c.draw(1) })); b = ref::cat(b, c.chance(1, 4) ? ref::length(c.interesting()) : ref::length(ct.size())); b = ref::cat(b, ct); break; }
    case 3: b = ref::cat(b, ref::tlv(6, c.bytes(c.draw(20)))); break;
    case 4: { Bytes ct{ (uint8_t)c.draw(255) }; ct = ref::cat(ct, c.bytes(c.draw(12))); b = ref::cat(b, ref::tlv(9, ct)); break; }
    case 5: { uint8_t h = 0x80 | (uint8_t)c.draw(127); b.push_back(h); b = ref::cat(b, c.bytes(c.draw(18))); break; }
    case 6: b = ref::cat(b, ref::leb(c.interesting())); break;
    case 7: b = ref::cat(b, ref::vlu(c.interesting() >> 8)); break;
    default: b = ref::cat(b, ref::length(c.interesting())); break;
    }
    if (c.chance(1, 3) && !b.empty()) b.resize(c.draw(b.size()));
    return b;
}
VP_PROP(sequences, 350000, 12000000)
{
    Bytes in = input(c); size_t start = c.chance(1, 3) ? c.draw(in.size()) : 0, n = 1 + c.draw(5); uint64_t fp = hash_bytes(in.data(), in.size(), start);
    std::vector<Op> ops; std::string d; for (size_t i = 0; i < n; i++) {
        Op o; o.fn = (unsigned)c.draw(NF - 1); size_t left = in.size() - start; switch (c.draw(4)) { case 0: o.len = left; break; case 1: o.len = c.interesting(); break; case 2: o.len = left + (size_t)c.range(-2, 2); break; default: o.len = c.draw(left + 2); } o.tag = (unsigned)c.draw(31); o.cap = c.draw(24); ops.push_back(o); fp = mix(fp ^ o.fn ^ o.len << 8); char t[80]; snprintf(t, sizeof t, " %s(%zu)", names[o.fn], o.len); d += t; }
    c.note("%s from %zu:%s", hex(in).c_str(), start, d.c_str()); if (in.size() > 1) c.nontrivial(fp);
    Buf a(in, start), b(in, start); size_t good = 0;
    for (size_t i = 0; i < n; i++) {
        size_t before = a.pos(); Out x = run1(ops[i], &a.b, 0x00), y = run1(ops[i], &b.b, 0xff);
        VP_CHECK(x.ok == y.ok && x.val == y.val && x.pos == y.pos, "%s(%zu) at %zu of %s: two runs gave %d %s to %zu and %d %s to %zu", names[ops[i].fn], ops[i].len, before, hex(in).c_str(), (int)x.ok, hex(x.val).c_str(), x.pos, (int)y.ok, hex(y.val).c_str(), y.pos);
        VP_CHECK(x.pos >= before, "%s(%zu) at %zu moved back to %zu", names[ops[i].fn], ops[i].len, before, x.pos);
        good += x.ok; c.label(x.ok ? "accepted" : "rejected");
    }
    VP_CHECK(a.all() == in, "decoding changed the input %s to %s", hex(in).c_str(), hex(a.all()).c_str());
    if (good == n) c.label("whole sequence accepted");
}
/* every decoder on the same input */
VP_PROP(each, 150000, 5000000)
{
    Bytes in = c.flip() ? input(c) : c.bytes(c.draw(24)); size_t start = c.chance(1, 4) ? c.draw(in.size()) : 0, len = c.chance(1, 3) ? c.interesting() : c.draw(in.size() + 2); c.note("%s from %zu, length %zu", hex(in).c_str(), start, len); if (in.size() > 1) c.nontrivial(hash_bytes(in.data(), in.size(), start * 64 + len));
    Op o; o.len = len; o.tag = (unsigned)c.draw(31); o.cap = c.draw(24);
    for (unsigned f = 0; f < NF; f++) { Buf a(in, start); o.fn = f; Out x = run1(o, &a.b, 0x55); VP_CHECK(a.all() == in, "%s changed the input", names[f]); c.label(x.ok ? "accepted" : "rejected"); }
}
/* text and table lookups */
VP_PROP(texts, 150000, 4000000)
{
    Bytes in = c.flip() ? c.bytes(c.draw(24)) : Bytes(); if (in.empty()) { std::string s; size_t n = c.draw(20); for (size_t i = 0; i < n; i++) s += "0123456789..-+x \0"[c.draw(16)]; in.assign(s.begin(), s.end()); }
    size_t n = in.size(); char *p = (char *)malloc(n); memcpy(p, in.data(), n); c.note("%s", hex(in).c_str()); if (n > 1) c.nontrivial(hash_bytes(in.data(), n));
    asn1_oid a = fill<asn1_oid>(0), b = fill<asn1_oid>(0xff); int x = crefl_asn1_oid_from_string(&a, p, n), y = crefl_asn1_oid_from_string(&b, p, n);
    const char *d = crefl_asn1_oid_desc(p, n); free(p);
    VP_CHECK(d != nullptr && strlen(d) < 200, "no description");
    VP_CHECK(x == y && a.count == b.count && a.count <= 15, "OID text %s: two runs gave %d and %d, counts %llu and %llu", hex(in).c_str(), x, y, (ull)a.count, (ull)b.count); for (u64 i = 0; i < a.count; i++) VP_CHECK(a.oid[i] == b.oid[i], "OID text: component %llu differs", (ull)i);
    size_t cap = c.draw(40), len = cap; char *o = (char *)malloc(cap); memset(o, 0x44, cap); if (a.count) { crefl_asn1_oid_to_string(o, &len, &a); if (cap) VP_CHECK(memchr(o, 0, cap) != nullptr, "OID text is not terminated within its %zu bytes", cap); } free(o);
}
