/* C13: integers (big and little endian, signed and unsigned, BER content and DER elements, by pointer and by value) and booleans */
#include "codec.h"
using namespace vp;

typedef unsigned long long ull; typedef long long sll;

static uint64_t val(Case &c)
{
    switch (c.draw(3)) {
    case 0: { unsigned k = 1 + c.draw(7); return (1ull << (8 * k - c.draw(1))) + (uint64_t)c.range(-2, 2); }
    case 1: { unsigned k = 1 + c.draw(7); return 0 - ((1ull << (8 * k - c.draw(1))) + (uint64_t)c.range(-2, 2)); }
    default: return c.interesting();
    }
}
static const char *kinds[] = { "be u64", "be s64", "le u64", "le s64" };
static size_t len_of(int k, bool bv, uint64_t v)
{
    u64 u = v; s64 s = (s64)v;
    switch (k) {
    case 0: return bv ? crefl_asn1_ber_integer_u64_length_byval(u) : crefl_asn1_ber_integer_u64_length(&u);
    case 1: return bv ? crefl_asn1_ber_integer_s64_length_byval(s) : crefl_asn1_ber_integer_s64_length(&s);
    case 2: return bv ? crefl_le_ber_integer_u64_length_byval(u) : crefl_le_ber_integer_u64_length(&u);
    default: return bv ? crefl_le_ber_integer_s64_length_byval(s) : crefl_le_ber_integer_s64_length(&s);
    }
}
static int wr(int k, bool bv, crefl_buf *b, size_t n, uint64_t v)
{
    u64 u = v; s64 s = (s64)v;
    switch (k) {
    case 0: return bv ? crefl_asn1_ber_integer_u64_write_byval(b, n, u) : crefl_asn1_ber_integer_u64_write(b, n, &u);
    case 1: return bv ? crefl_asn1_ber_integer_s64_write_byval(b, n, s) : crefl_asn1_ber_integer_s64_write(b, n, &s);
    case 2: return bv ? crefl_le_ber_integer_u64_write_byval(b, n, u) : crefl_le_ber_integer_u64_write(b, n, &u);
    default: return bv ? crefl_le_ber_integer_s64_write_byval(b, n, s) : crefl_le_ber_integer_s64_write(b, n, &s);
    }
}
static int rd(int k, bool bv, crefl_buf *b, size_t n, uint64_t *v)
{
    int r; u64 u = 0x1234567812345678ull; s64 s = 0x1234567812345678ll; u64_result ur; s64_result sr;
    switch (k) {
    case 0: if (bv) { ur = crefl_asn1_ber_integer_u64_read_byval(b, n); *v = ur.value; return ur.error ? -1 : 0; } r = crefl_asn1_ber_integer_u64_read(b, n, &u); *v = u; return r;
    case 1: if (bv) { sr = crefl_asn1_ber_integer_s64_read_byval(b, n); *v = (u64)sr.value; return sr.error ? -1 : 0; } r = crefl_asn1_ber_integer_s64_read(b, n, &s); *v = (u64)s; return r;
    case 2: if (bv) { ur = crefl_le_ber_integer_u64_read_byval(b, n); *v = ur.value; return ur.error ? -1 : 0; } r = crefl_le_ber_integer_u64_read(b, n, &u); *v = u; return r;
    default: if (bv) { sr = crefl_le_ber_integer_s64_read_byval(b, n); *v = (u64)sr.value; return sr.error ? -1 : 0; } r = crefl_le_ber_integer_s64_read(b, n, &s); *v = (u64)s; return r;
    }
}
static uint64_t ref_val(int k, const uint8_t *p, size_t n)
{
    uint64_t v = 0; bool neg;
    if (k < 2) { for (size_t i = 0; i < n; i++) v = v << 8 | p[i]; neg = p[0] & 0x80; }
    else { for (size_t i = 0; i < n; i++) v |= (uint64_t)p[i] << (8 * i); neg = p[n - 1] & 0x80; }
    if ((k & 1) && neg && n < 8) v |= ~0ull << (8 * n);
    return v;
}

VP_PROP(content_round_trip, 400000, 8000000)
{
    int k = c.draw(3); bool bv = c.flip(), bv2 = c.flip(); uint64_t v = val(c);
    size_t min = (k & 1) ? ref::min_s((int64_t)v) : ref::be_min_u(v).size();
    size_t n = c.chance(1, 3) ? min + c.draw(8 - min) : min;
    Bytes w = k < 2 ? ref::be_n(v, n) : ref::le_n(v, n);
    c.note("%s 0x%llx in %zu octets (minimal %zu) -> %s", kinds[k], (ull)v, n, min, hex(w).c_str()); c.nontrivial(mix(v) ^ mix(k * 64 + n)); c.label(strf("%s %zu octets", kinds[k], n));
    size_t l = len_of(k, bv, v);
    VP_CHECK(l == min, "%s 0x%llx: predicted length %zu (by %s), minimal is %zu", kinds[k], (ull)v, l, bv ? "value" : "pointer", min);
    Buf o(n + c.draw(2)); int r = wr(k, bv, &o, n, v);
    VP_CHECK(r == 0 && o.written() == w, "%s 0x%llx in %zu octets: write by %s gave %d, %s, expected %s", kinds[k], (ull)v, n, bv ? "value" : "pointer", r, hex(o.written()).c_str(), hex(w).c_str());
    Bytes in = ref::cat(w, c.bytes(c.draw(2))); Buf b(in); uint64_t g; r = rd(k, bv2, &b, n, &g);
    VP_CHECK(r == 0 && g == v && b.pos() == n, "%s: read of %s by %s gave %d, 0x%llx, %zu octets, expected 0x%llx", kinds[k], hex(w).c_str(), bv2 ? "value" : "pointer", r, (ull)g, b.pos(), (ull)v);
}
/* a field of no octets or more than eight cannot hold an integer; one of one to eight octets takes exactly that many */
VP_PROP(write_length, 200000, 4000000)
{
    int k = c.draw(3); uint64_t v = val(c); size_t min = (k & 1) ? ref::min_s((int64_t)v) : ref::be_min_u(v).size();
    size_t n; switch (c.draw(5)) { case 0: n = 0; break; case 1: n = 9 + c.draw(23); break; case 2: n = c.interesting(); break; default: n = min + c.draw(8 - min); }
    size_t room = c.draw(12), pre = c.draw(3); bool ok = n >= min && n <= 8 && room >= n, bad = n < 1 || n > 8 || room < n;
    c.note("write %s 0x%llx in %zu octets with room for %zu", kinds[k], (ull)v, n, room); c.nontrivial(mix(v) ^ mix(k * 64 + n) ^ mix(room * 4 + pre)); c.label(n < 1 ? "empty field" : n > 8 ? "field over eight octets" : room < n ? "no room" : "in range");
    for (int bv = 0; bv < 2; bv++) {
        Buf o(pre + room, 0xA5); o.b.data_offset = pre; int r = wr(k, bv, &o, n, v);
        if (bad) VP_CHECK(r != 0, "%s 0x%llx in %zu octets with room for %zu: write by %s succeeds", kinds[k], (ull)v, n, room, bv ? "value" : "pointer");
        if (ok) { Bytes w = k < 2 ? ref::be_n(v, n) : ref::le_n(v, n); VP_CHECK(r == 0 && o.written(pre) == w, "%s 0x%llx in %zu octets at %zu: write by %s gave %d, %s, expected %s", kinds[k], (ull)v, n, pre, bv ? "value" : "pointer", r, hex(o.written(pre)).c_str(), hex(w).c_str()); }
        VP_CHECK(o.pos() >= pre && o.pos() <= pre + room, "position outside the buffer");
    }
}
/* arbitrary content and claimed length */
VP_PROP(content_any, 400000, 8000000)
{
    int k = c.draw(3); Bytes in = c.bytes(c.draw(12)); size_t st = in.empty() ? 0 : c.chance(1, 4) ? c.draw(in.size()) : 0;
    size_t n; switch (c.draw(9)) { case 0: n = 9 + c.draw(20); break; case 1: n = c.interesting(); break; case 2: n = 8; break; default: n = c.draw(9); }
    size_t have = in.size() - st; bool okref = n >= 1 && n <= 8 && have >= n;
    c.note("%s %s from %zu, length %zu", kinds[k], hex(in).c_str(), st, n); c.nontrivial(hash_bytes(in.data(), in.size(), n * 8 + k + st * 1000)); c.label(okref ? "valid" : "invalid");
    for (int bv = 0; bv < 2; bv++) {
        Buf b(in, st); uint64_t g; int r = rd(k, bv, &b, n, &g);
        VP_CHECK((r == 0) == okref, "%s: read of %zu octets from %s at %zu by %s gave %d, expected %s", kinds[k], n, hex(in).c_str(), st, bv ? "value" : "pointer", r, okref ? "success" : "an error");
        if (okref) { uint64_t w = ref_val(k, in.data() + st, n); VP_CHECK(g == w && b.pos() == st + n, "%s: read of %zu octets from %s at %zu by %s gave 0x%llx, expected 0x%llx", kinds[k], n, hex(in).c_str(), st, bv ? "value" : "pointer", (ull)g, (ull)w); }
        VP_CHECK(b.pos() <= in.size(), "position beyond the input");
    }
}
static int der_wr(bool sg, bool bv, crefl_buf *b, asn1_tag t, uint64_t v)
{
    u64 u = v; s64 s = (s64)v;
    if (sg) return bv ? crefl_asn1_der_integer_s64_write_byval(b, t, s) : crefl_asn1_der_integer_s64_write(b, t, &s);
    return bv ? crefl_asn1_der_integer_u64_write_byval(b, t, u) : crefl_asn1_der_integer_u64_write(b, t, &u);
}
static int der_rd(bool sg, bool bv, crefl_buf *b, asn1_tag t, uint64_t *v)
{
    int r; u64 u = 99; s64 s = 99;
    if (sg) { if (bv) { s64_result x = crefl_asn1_der_integer_s64_read_byval(b, t); *v = (u64)x.value; return x.error ? -1 : 0; } r = crefl_asn1_der_integer_s64_read(b, t, &s); *v = (u64)s; return r; }
    if (bv) { u64_result x = crefl_asn1_der_integer_u64_read_byval(b, t); *v = x.value; return x.error ? -1 : 0; } r = crefl_asn1_der_integer_u64_read(b, t, &u); *v = u; return r;
}
VP_PROP(der_round_trip, 300000, 6000000)
{
    bool sg = c.flip(), bv = c.flip(), bv2 = c.flip(); uint64_t v = val(c); asn1_tag t = c.chance(1, 4) ? asn1_tag_enumerated : asn1_tag_integer;
    Bytes w = ref::tlv(t, sg ? ref::be_n(v, ref::min_s((int64_t)v)) : ref::be_min_u(v));
    c.note("DER %s 0x%llx -> %s", sg ? "s64" : "u64", (ull)v, hex(w).c_str()); c.nontrivial(mix(v) + sg * 2 + (t == asn1_tag_integer));
    Buf o(w.size() + c.draw(2)); int r = der_wr(sg, bv, &o, t, v);
    VP_CHECK(r == 0 && o.written() == w, "DER %s 0x%llx: write by %s gave %d, %s, expected %s", sg ? "s64" : "u64", (ull)v, bv ? "value" : "pointer", r, hex(o.written()).c_str(), hex(w).c_str());
    Bytes in = ref::cat(w, c.bytes(c.draw(2))); Buf b(in); uint64_t g; r = der_rd(sg, bv2, &b, t, &g);
    VP_CHECK(r == 0 && g == v && b.pos() == w.size(), "DER %s: read of %s by %s gave %d, 0x%llx, %zu octets, expected 0x%llx", sg ? "s64" : "u64", hex(in).c_str(), bv2 ? "value" : "pointer", r, (ull)g, b.pos(), (ull)v);
}
/* DER elements cut short, with wrong lengths, or just octets: success means a complete element with that value */
VP_PROP(der_any, 400000, 8000000)
{
    bool sg = c.flip(); Bytes in;
    if (c.chance(1, 4)) in = c.bytes(c.draw(14));
    else {
        size_t n = c.draw(9); Bytes ct = c.bytes(n); in = ref::cat(ref::ident({ c.chance(1, 8) ? c.draw(200) : 2, 0, 0 }), c.chance(1, 5) ? ref::length(c.interesting()) : c.chance(1, 6) ? ref::cat(Bytes{ (uint8_t)0x82, 0 }, Bytes{ (uint8_t)n }) : ref::length(n));
        in = ref::cat(in, ct); if (c.chance(1, 4)) in.resize(c.draw(in.size())); if (c.chance(1, 4)) in.push_back(c.byte());
    }
    c.note("DER %s %s", sg ? "s64" : "u64", hex(in).c_str()); if (in.size() > 2) c.nontrivial(hash_bytes(in.data(), in.size(), sg));
    ref::IdentDec i = ref::ident_dec(in.data(), in.size()); ref::Dec l; if (i.ok) l = ref::length_dec(in.data() + i.used, in.size() - i.used);
    size_t h = i.used + l.used; bool ok = i.ok && l.ok && l.val >= 1 && l.val <= 8 && in.size() - h >= l.val;
    bool must = ok && i.canon && l.canon && i.id.num == 2 && i.id.cls == 0 && !i.id.cons;
    c.label(must ? "valid" : ok ? "valid, unusual header" : "invalid");
    int rr[2]; for (int bv = 0; bv < 2; bv++) {
        Buf b(in); uint64_t g; int r = rr[bv] = der_rd(sg, bv, &b, asn1_tag_integer, &g);
        if (r == 0) { VP_CHECK(ok, "DER read accepted %s as 0x%llx", hex(in).c_str(), (ull)g); uint64_t w = ref_val(sg, in.data() + h, l.val);
            VP_CHECK(g == w && b.pos() == h + l.val, "DER %s read of %s by %s gave 0x%llx, expected 0x%llx", sg ? "s64" : "u64", hex(in).c_str(), bv ? "value" : "pointer", (ull)g, (ull)w); }
        else VP_CHECK(!must, "DER %s read by %s rejected %s", sg ? "s64" : "u64", bv ? "value" : "pointer", hex(in).c_str());
        VP_CHECK(b.pos() <= in.size(), "position beyond the input");
    }
    VP_CHECK(rr[0] == rr[1], "DER %s read of %s by pointer %d, by value %d", sg ? "s64" : "u64", hex(in).c_str(), rr[0], rr[1]);
}
VP_PROP(boolean, 100000, 2000000)
{
    bool v = c.flip(); int form = c.draw(3);
    if (form == 0) {           /* round trips */
        bool der = c.flip(); Buf o(3); int r = der ? crefl_asn1_der_boolean_write(&o, asn1_tag_boolean, &v) : crefl_asn1_ber_boolean_write(&o, crefl_asn1_ber_boolean_length(&v), &v);
        VP_CHECK(crefl_asn1_ber_boolean_length(&v) == 1, "boolean length");
        Bytes w = o.written(); c.note("%s boolean %d -> %s", der ? "DER" : "BER", v, hex(w).c_str());
        VP_CHECK(r == 0 && w.size() == (der ? 3u : 1u), "boolean %d: write gave %d, %s", v, r, hex(w).c_str());
        uint8_t x = w.back(); if (der) VP_CHECK(w[0] == 1 && w[1] == 1 && x == (v ? 0xff : 0), "DER boolean %d was written as %s", v, hex(w).c_str());
        VP_CHECK((x != 0) == v, "boolean %d written as %s", v, hex(w).c_str());
        Buf b(w); bool g = !v; r = der ? crefl_asn1_der_boolean_read(&b, asn1_tag_boolean, &g) : crefl_asn1_ber_boolean_read(&b, 1, &g);
        VP_CHECK(r == 0 && g == v && b.pos() == w.size(), "boolean %s read as %d (%d)", hex(w).c_str(), g, r);
        c.nontrivial(der * 2 + v);
    } else if (form == 1) {    /* any content, any claimed length */
        Bytes in = c.bytes(c.draw(3)); size_t n = c.flip() ? 1 : c.chance(1, 3) ? c.interesting() : c.draw(4); bool ok = n == 1 && in.size() >= 1;
        c.note("BER boolean %s length %zu", hex(in).c_str(), n); c.nontrivial(hash_bytes(in.data(), in.size(), n));
        Buf b(in); bool g = false; int r = crefl_asn1_ber_boolean_read(&b, n, &g);
        VP_CHECK((r == 0) == ok, "boolean read of length %zu from %s gave %d", n, hex(in).c_str(), r);
        if (ok) VP_CHECK(g == (in[0] != 0) && b.pos() == 1, "boolean %s read as %d", hex(in).c_str(), g);
    } else if (form == 2) {    /* DER */
        Bytes in = ref::cat(ref::cat(Bytes{ 1 }, ref::length(c.draw(3))), c.bytes(c.draw(3))); if (c.chance(1, 4)) in = c.bytes(c.draw(5));
        ref::IdentDec i = ref::ident_dec(in.data(), in.size()); ref::Dec l; if (i.ok) l = ref::length_dec(in.data() + i.used, in.size() - i.used);
        size_t h = i.used + l.used; bool ok = i.ok && l.ok && l.val == 1 && in.size() > h, must = ok && in[0] == 1 && l.canon;
        c.note("DER boolean %s", hex(in).c_str()); c.nontrivial(hash_bytes(in.data(), in.size(), 7));
        Buf b(in); bool g = false; int r = crefl_asn1_der_boolean_read(&b, asn1_tag_boolean, &g);
        if (r == 0) VP_CHECK(ok && g == (in[h] != 0) && b.pos() == h + 1, "DER boolean %s accepted as %d, %zu octets", hex(in).c_str(), g, b.pos()); else VP_CHECK(!must, "DER boolean %s rejected", hex(in).c_str());
    } else {                   /* writing with another length is an error */
        size_t n = c.chance(1, 3) ? c.interesting() : c.draw(4); Buf o(8); int r = crefl_asn1_ber_boolean_write(&o, n, &v);
        c.note("BER boolean write length %zu", n); c.nontrivial(n * 2 + v);
        VP_CHECK((r == 0) == (n == 1), "boolean write with length %zu gave %d, %s", n, r, hex(o.written()).c_str());
    }
}
