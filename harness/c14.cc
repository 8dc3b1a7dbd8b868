/* C14: ASN.1 REAL */
#include "fgen.h"
using namespace vp;
typedef unsigned long long ull;

static Bytes canon(double d)
{
    uint64_t u = ref::dbits(d);
    if (u == 0) return Bytes{}; if (u == 1ull << 63) return Bytes{ 0x43 };
    if (std::isnan(d)) return Bytes{ 0x42 }; if (std::isinf(d)) return Bytes{ (uint8_t)(d > 0 ? 0x40 : 0x41) };
    ref::Num n = ref::num_of(d); size_t el = ref::min_s(n.exp);
    Bytes r{ (uint8_t)(0x80 | (n.neg ? 0x40 : 0) | (el - 1)) };
    r = ref::cat(r, ref::be_n((uint64_t)n.exp, el)); return ref::cat(r, ref::be_min_u((uint64_t)n.man));
}
static int rd(bool bv, crefl_buf *b, size_t n, double *v) { if (bv) { f64_result r = crefl_asn1_ber_real_f64_read_byval(b, n); *v = r.value; return r.error ? -1 : 0; } *v = 123.25; return crefl_asn1_ber_real_f64_read(b, n, v); }
static int drd(bool bv, crefl_buf *b, double *v) { if (bv) { f64_result r = crefl_asn1_der_real_f64_read_byval(b, asn1_tag_real); *v = r.value; return r.error ? -1 : 0; } *v = 123.25; return crefl_asn1_der_real_f64_read(b, asn1_tag_real, v); }
static bool same(double a, double b) { return std::isnan(a) ? std::isnan(b) : ref::dbits(a) == ref::dbits(b); }

VP_PROP(round_trip, 500000, 12000000)
{
    double d = ref::bitsd(gen_f64_bits(c)); Bytes w = canon(d); bool der = c.flip(), bv = c.flip(), bv2 = c.flip(); Bytes full = der ? ref::tlv(9, w) : w;
    c.note("%a (%016llx) -> %s", d, (ull)ref::dbits(d), hex(w).c_str()); c.nontrivial(ref::dbits(d)); c.label(w.empty() ? "plus zero" : w.size() == 1 ? "special" : (ref::dbits(d) >> 52 & 0x7ff) ? "normal" : "subnormal");
    size_t L = bv ? crefl_asn1_ber_real_f64_length_byval(d) : crefl_asn1_ber_real_f64_length(&d);
    VP_CHECK(L == w.size(), "%a: predicted length %zu, canonical %zu (%s)", d, L, w.size(), hex(w).c_str());
    Buf o(full.size() + c.draw(2)); int r = der ? (bv ? crefl_asn1_der_real_f64_write_byval(&o, asn1_tag_real, d) : crefl_asn1_der_real_f64_write(&o, asn1_tag_real, &d)) : (bv ? crefl_asn1_ber_real_f64_write_byval(&o, L, d) : crefl_asn1_ber_real_f64_write(&o, L, &d));
    VP_CHECK(r == 0 && o.written() == full, "%a (%016llx): write by %s gave %d, %s, expected %s", d, (ull)ref::dbits(d), bv ? "value" : "pointer", r, hex(o.written()).c_str(), hex(full).c_str());
    Bytes in = ref::cat(full, c.bytes(c.draw(2))); Buf b(in); double g; r = der ? drd(bv2, &b, &g) : rd(bv2, &b, w.size(), &g);
    VP_CHECK(r == 0 && same(g, d) && b.pos() == full.size(), "%a: read of %s by %s gave %d, %a (%016llx), %zu octets", d, hex(in).c_str(), bv2 ? "value" : "pointer", r, g, (ull)ref::dbits(g), b.pos());
}
static Bytes wild(Case &c)
{
    Bytes b;
    switch (c.draw(5)) {
    case 0: return c.bytes(c.draw(14));
    case 1: b = canon(ref::bitsd(gen_f64_bits(c))); if (!b.empty() && c.flip()) b[c.draw(b.size() - 1)] = c.byte(); return b;
    case 2: b.push_back((uint8_t)(0x40 + c.draw(5))); if (c.chance(1, 4)) b.push_back(c.byte()); return b;
    default: {
        /* any binary header: sign, base, scale, exponent form; exponents around the limits; mantissa of 0..10 octets with padding */
        unsigned ef = c.chance(1, 6) ? 2 + c.draw(1) : c.draw(1), base = c.chance(1, 8) ? 3 : c.draw(2), F = c.draw(3); uint8_t h = 0x80 | c.draw(1) << 6 | base << 4 | F << 2 | ef; b.push_back(h);
        int64_t e; switch (c.draw(3)) { case 0: e = c.range(-8, 8); break; case 1: e = c.range(-1200, 1100) / (base == 1 ? 3 : base == 2 ? 4 : 1); break; case 2: e = c.pick({ 127, 128, -128, -129, 1023, 971, 970, -1074, -1075, -1022, -1126, -1127, 1024, 32767, -32768 }); break; default: e = (int16_t)c.draw(65535); }
        size_t el = ef + 1; if (ef == 3) { el = c.draw(3); b.push_back((uint8_t)el); } if (el == 1) e = (int8_t)e; b = ref::cat(b, ref::be_n((uint64_t)e, el));
        uint64_t m = c.chance(1, 12) ? 0 : c.interesting(); Bytes mm = ref::be_min_u(m); if (c.chance(1, 4)) mm.insert(mm.begin(), c.draw(3), (uint8_t)0); if (c.chance(1, 10)) mm = c.bytes(c.draw(10)); b = ref::cat(b, mm);
        if (c.chance(1, 10)) b.resize(c.draw(b.size())); return b; } }
}
/* is g an acceptable value for the decoded content? */
static void judge(const Bytes &in, const ref::RealDec &d, double g, const char *how)
{
    switch (d.k) {
    case ref::RealDec::PZERO: VP_CHECK(ref::dbits(g) == 0, "REAL %s read %s as %a, it is plus zero", hex(in).c_str(), how, g); break;
    case ref::RealDec::NZERO: VP_CHECK(ref::dbits(g) == 1ull << 63, "REAL %s read %s as %a, it is minus zero", hex(in).c_str(), how, g); break;
    case ref::RealDec::PINF: VP_CHECK(std::isinf(g) && g > 0, "REAL %s read %s as %a, it is +infinity", hex(in).c_str(), how, g); break;
    case ref::RealDec::NINF: VP_CHECK(std::isinf(g) && g < 0, "REAL %s read %s as %a, it is -infinity", hex(in).c_str(), how, g); break;
    case ref::RealDec::NAN_: VP_CHECK(std::isnan(g), "REAL %s read %s as %a, it is not a number", hex(in).c_str(), how, g); break;
    case ref::RealDec::FINITE: {
        if (d.n.man == 0) { VP_CHECK(g == 0, "REAL %s read %s as %a, it is zero", hex(in).c_str(), how, g); break; }
        VP_CHECK(!std::isnan(g) && std::signbit(g) == d.n.neg, "REAL %s read %s as %a: wrong sign or not a number", hex(in).c_str(), how, g);
        double lo, hi; ref::neighbours(d.n, ref::F64, lo, hi); double a = fabs(g);
        if (ref::fit(d.n, ref::F64) == ref::OVERFLOW_) VP_CHECK(std::isinf(a) || a == 1.7976931348623157e308, "REAL %s read %s as %a, it is too large for a double", hex(in).c_str(), how, g);
        else VP_CHECK(a == lo || a == hi, "REAL %s read %s as %a, it lies between %a and %a", hex(in).c_str(), how, g, lo, hi);
        break; }
    case ref::RealDec::DECIMAL: case ref::RealDec::TOOBIG: break;    /* not supported by the reader: value not judged */
    default: VP_CHECK(false, "REAL %s read %s as %a, it is malformed", hex(in).c_str(), how, g);
    }
}
VP_PROP(read_any, 600000, 14000000)
{
    Bytes ct = wild(c), in = ref::cat(ct, c.bytes(c.draw(2))); size_t n = ct.size(); if (c.chance(1, 10)) n = c.draw(in.size() + 3);
    ref::RealDec d; bool whole = n <= in.size(); if (whole) d = ref::real_dec(in.data(), n);
    c.note("%s, length %zu", hex(in).c_str(), n); if (n > 1) c.nontrivial(hash_bytes(in.data(), in.size(), n));
    bool fin = d.k == ref::RealDec::FINITE, must = d.k >= ref::RealDec::PINF && d.k <= ref::RealDec::PZERO;
    if (fin && ref::fit(d.n, ref::F64) == ref::EXACT && d.n.man) { double v; ref::neighbours(d.n, ref::F64, v, v); if (d.n.neg) v = -v; if (canon(v) == Bytes(in.begin(), in.begin() + n)) must = true; }
    c.label(must ? "canonical" : fin ? "other finite" : d.k == ref::RealDec::BAD ? "malformed" : "unsupported");
    double g[2]; int r[2];
    for (int bv = 0; bv < 2; bv++) {
        Buf b(in); r[bv] = rd(bv, &b, n, &g[bv]);
        if (r[bv] == 0) { VP_CHECK(whole, "REAL of length %zu accepted from %zu octets %s", n, in.size(), hex(in).c_str()); judge(Bytes(in.begin(), in.begin() + n), d, g[bv], bv ? "by value" : "by pointer"); VP_CHECK(b.pos() == n, "REAL %s of length %zu: %zu octets consumed", hex(in).c_str(), n, b.pos()); if (fin) c.label("finite accepted"); }
        else VP_CHECK(!must, "REAL %s of length %zu rejected %s", hex(in).c_str(), n, bv ? "by value" : "by pointer");
        VP_CHECK(b.pos() <= in.size(), "position beyond the input");
    }
    VP_CHECK(r[0] == r[1] && (r[0] || same(g[0], g[1])), "REAL %s of length %zu: by pointer %d %a, by value %d %a", hex(in).c_str(), n, r[0], g[0], r[1], g[1]);
}
VP_PROP(der_any, 200000, 4000000)
{
    Bytes ct = wild(c); Bytes in = ref::cat(ref::ident({ c.chance(1, 10) ? c.draw(100) : 9, 0, 0 }), c.chance(1, 5) ? ref::length(c.flip() ? c.draw(16) : c.interesting()) : ref::length(ct.size())); in = ref::cat(in, ct); if (c.chance(1, 5)) in.resize(c.draw(in.size()));
    ref::IdentDec i = ref::ident_dec(in.data(), in.size()); ref::Dec l; if (i.ok) l = ref::length_dec(in.data() + i.used, in.size() - i.used); size_t h = i.used + l.used; bool whole = i.ok && l.ok && l.val <= in.size() - h;
    c.note("%s", hex(in).c_str()); if (in.size() > 2) c.nontrivial(hash_bytes(in.data(), in.size())); c.label(whole ? "whole element" : "broken element");
    double g[2]; int r[2]; for (int bv = 0; bv < 2; bv++) {
        Buf b(in); r[bv] = drd(bv, &b, &g[bv]);
        if (r[bv] == 0) { VP_CHECK(whole && b.pos() == h + l.val, "DER REAL %s accepted as %a, position %zu", hex(in).c_str(), g[bv], b.pos()); judge(Bytes(in.begin() + h, in.begin() + h + l.val), ref::real_dec(in.data() + h, l.val), g[bv], bv ? "by value" : "by pointer"); }
        VP_CHECK(b.pos() <= in.size(), "position beyond the input");
    }
    VP_CHECK(r[0] == r[1] && (r[0] || same(g[0], g[1])), "DER REAL %s: by pointer %d %a, by value %d %a", hex(in).c_str(), r[0], g[0], r[1], g[1]);
}
