/* buffers with exact bounds, and independent reference codecs for the formats crefl implements */
#pragma once
#include "vp.h"
#include <crefl/asn1.h>
#include <crefl/buf.h>

typedef std::vector<uint8_t> Bytes;


/* a crefl_buf over a heap block of exactly the given size (red zones right behind it) with the position at start */
struct Buf
{
    crefl_buf b; size_t cap;
    explicit Buf(size_t n, uint8_t fill = 0xA5) { init(n); memset(b.data, fill, n); }
    explicit Buf(const Bytes &v, size_t start = 0) { init(v.size()); if (!v.empty()) memcpy(b.data, v.data(), v.size()); b.data_offset = start; }
    void init(size_t n) { memset(&b, 0, sizeof b); b.data = (char *)malloc(n ? n : 1); if (!n) { free(b.data); b.data = (char *)malloc(0); } b.data_offset = 0; b.data_size = n; cap = n; }
    ~Buf() { free(b.data); }
    Buf(const Buf &) = delete; Buf &operator=(const Buf &) = delete;
    crefl_buf *operator&() { return &b; }
    size_t pos() const { return b.data_offset; }
    Bytes written(size_t from = 0) const { return Bytes((uint8_t *)b.data + from, (uint8_t *)b.data + b.data_offset); }
    Bytes all() const { return Bytes((uint8_t *)b.data, (uint8_t *)b.data + cap); }
};

namespace ref {

/* result of a lenient reference decode at the front of some bytes */
struct Dec { bool ok = false; size_t used = 0; uint64_t val = 0; bool canon = false; };

/* base-128 big-endian, high bit = continue (BER tag numbers, OID subidentifiers); value must fit 64 bits */
static inline Bytes b128(uint64_t v)
{
    Bytes r; int n = 1; while (n < 10 && (v >> (7 * n)) != 0) n++;
    for (int i = n - 1; i >= 0; i--) r.push_back((uint8_t)(((v >> (7 * i)) & 0x7f) | (i ? 0x80 : 0)));
    return r;
}
static inline Dec b128_dec(const uint8_t *p, size_t n)
{
    Dec d; unsigned __int128 v = 0;
    if (n && p[0] == 0x80) return d;  /* X.690 8.1.2.4.2c and 8.19.2: leading bits are not all zero */
    for (size_t i = 0; i < n; i++) {
        v = (v << 7) | (p[i] & 0x7f);
        if (v >> 64) return d;
        if (!(p[i] & 0x80)) { d.ok = true; d.used = i + 1; d.val = (uint64_t)v; d.canon = b128(d.val).size() == d.used; return d; }
    }
    return d;
}
/* LEB128, little-endian */
static inline Bytes leb(uint64_t v)
{
    Bytes r; do { uint8_t b = v & 0x7f; v >>= 7; r.push_back(b | (v ? 0x80 : 0)); } while (v); return r;
}
static inline Dec leb_dec(const uint8_t *p, size_t n)
{
    Dec d; unsigned __int128 v = 0;
    for (size_t i = 0; i < n; i++) {
        if (i < 18) v |= (unsigned __int128)(p[i] & 0x7f) << (7 * i); else if (p[i] & 0x7f) return d;
        if (v >> 64) return d;
        if (!(p[i] & 0x80)) { d.ok = true; d.used = i + 1; d.val = (uint64_t)v; d.canon = leb(d.val).size() == d.used; return d; }
    }
    return d;
}
/* VLU: n-1 one bits, a zero bit, then 7n value bits, all little-endian (n = 1..8) */
static inline Bytes vlu(uint64_t v)
{
    int n = 1; while (n < 8 && (v >> (7 * n)) != 0) n++;
    Bytes r; unsigned __int128 x = ((unsigned __int128)v << n) | (((unsigned __int128)1 << (n - 1)) - 1);
    for (int i = 0; i < n; i++) r.push_back((uint8_t)(x >> (8 * i)));
    return r;
}
static inline Dec vlu_dec(const uint8_t *p, size_t n)
{
    Dec d; if (!n) return d;
    unsigned k = 0; while (k < 8 && (p[0] >> k & 1)) k++;
    if (k == 8) return d;             /* longer than 56 bits: outside the format's supported range */
    unsigned len = k + 1; if (n < len) return d;
    uint64_t x = 0; for (unsigned i = 0; i < len; i++) x |= (uint64_t)p[i] << (8 * i);
    d.ok = true; d.used = len; d.val = x >> len; d.canon = vlu(d.val).size() == len;
    return d;
}
/* definite BER length */
static inline Bytes length(uint64_t v)
{
    Bytes r; if (v < 128) { r.push_back((uint8_t)v); return r; }
    int n = 1; while (n < 8 && (v >> (8 * n)) != 0) n++;
    r.push_back(0x80 | n); for (int i = n - 1; i >= 0; i--) r.push_back((uint8_t)(v >> (8 * i)));
    return r;
}
static inline Dec length_dec(const uint8_t *p, size_t n)
{
    Dec d; if (!n) return d;
    if (p[0] < 0x80) { d.ok = true; d.used = 1; d.val = p[0]; d.canon = true; return d; }
    size_t k = p[0] & 0x7f; if (k == 0 || k == 127 || n < 1 + k) return d;
    unsigned __int128 v = 0; for (size_t i = 0; i < k; i++) { v = (v << 8) | p[1 + i]; if (v >> 64) return d; }
    d.ok = true; d.used = 1 + k; d.val = (uint64_t)v; d.canon = length(d.val).size() == d.used;
    return d;
}
/* identifier octets */
struct Ident { uint64_t num; unsigned cls, cons; };
static inline Bytes ident(const Ident &i)
{
    Bytes r; r.push_back((uint8_t)(i.cls << 6 | i.cons << 5 | (i.num < 31 ? i.num : 31)));
    if (i.num >= 31) { Bytes t = b128(i.num); r.insert(r.end(), t.begin(), t.end()); }
    return r;
}
struct IdentDec { bool ok = false, canon = false; size_t used = 0; Ident id{ 0, 0, 0 }; };
static inline IdentDec ident_dec(const uint8_t *p, size_t n)
{
    IdentDec d; if (!n) return d;
    d.id.cls = p[0] >> 6; d.id.cons = p[0] >> 5 & 1; d.id.num = p[0] & 31; d.used = 1;
    if (d.id.num == 31) {
        Dec t = b128_dec(p + 1, n - 1); if (!t.ok || t.val < 31) return d;       /* numbers up to 30 have the single-octet form only (8.1.2.2) */
        d.id.num = t.val; d.used += t.used;
    }
    d.ok = true; d.canon = ident(d.id).size() == d.used;
    return d;
}
static inline Bytes cat(const Bytes &a, const Bytes &b) { Bytes r(a); r.insert(r.end(), b.begin(), b.end()); return r; }
static inline Bytes tlv(uint64_t tag, const Bytes &content) { return cat(cat(ident({ tag, 0, 0 }), length(content.size())), content); }

/* integers */
static inline Bytes be_min_u(uint64_t v) { Bytes r; int n = 1; while (n < 8 && (v >> (8 * n))) n++; for (int i = n - 1; i >= 0; i--) r.push_back((uint8_t)(v >> (8 * i))); return r; }
static inline size_t min_s(int64_t v) { size_t n = 1; while (n < 8) { int64_t s = (int64_t)((uint64_t)v << (64 - 8 * n)) >> (64 - 8 * n); if (s == v) break; n++; } return n; }
static inline Bytes be_n(uint64_t v, size_t n) { Bytes r; for (size_t i = n; i-- > 0;) r.push_back((uint8_t)(v >> (8 * i))); return r; }
static inline Bytes le_n(uint64_t v, size_t n) { Bytes r; for (size_t i = 0; i < n; i++) r.push_back((uint8_t)(v >> (8 * i))); return r; }

/* OID content octets */
static inline Bytes oid(const std::vector<uint64_t> &c)
{
    Bytes r = b128(c[0] * 40 + c[1]); for (size_t i = 2; i < c.size(); i++) r = cat(r, b128(c[i])); return r;
}
struct OidDec { bool ok = false, canon = true; std::vector<uint64_t> c; };
static inline OidDec oid_dec(const uint8_t *p, size_t n)
{
    OidDec d; if (!n) return d;
    size_t i = 0; bool first = true;
    while (i < n) {
        Dec s = b128_dec(p + i, n - i); if (!s.ok) return d;
        d.canon &= s.canon; i += s.used;
        if (first) { uint64_t a = s.val < 40 ? 0 : s.val < 80 ? 1 : 2; d.c.push_back(a); d.c.push_back(s.val - 40 * a); first = false; }
        else d.c.push_back(s.val);
    }
    d.ok = true; return d;
}

/*
 * exact binary numbers: (-1)^neg * man * 2^exp with man < 2^64 (0 = zero), for REAL and vf. Rounding to double / float is never
 * done here: the question asked is whether a given double is acceptable for the exact value.
 */
struct Num { bool neg = false; unsigned __int128 man = 0; int64_t exp = 0; };

static inline int bitlen(unsigned __int128 v) { int n = 0; while (v) { n++; v >>= 1; } return n; }

static inline uint64_t dbits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static inline double bitsd(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
static inline uint32_t fbits(float d) { uint32_t u; memcpy(&u, &d, 4); return u; }
static inline float bitsf(uint32_t u) { float d; memcpy(&d, &u, 4); return d; }

/* exact decomposition of a finite double */
static inline Num num_of(double d)
{
    Num n; uint64_t u = dbits(d); n.neg = u >> 63; uint64_t e = u >> 52 & 0x7ff, m = u & ((1ull << 52) - 1);
    if (e) { n.man = m | 1ull << 52; n.exp = (int64_t)e - 1075; } else { n.man = m; n.exp = -1074; }
    if (n.man) while (!(n.man & 1)) { n.man >>= 1; n.exp++; }
    else n.exp = 0;
    return n;
}
static inline Num num_of_f(float f) { return num_of((double)f); } /* exact */

/* how an exact value relates to a binary floating-point format with P significant bits and exponents [emin, emax] (value 2^e) */
enum Fit { EXACT, INEXACT, OVERFLOW_, UNDERFLOW_ };
struct Fmt { int p; int emin /* exponent of the least subnormal bit */; int emax /* exponent of the msb of the largest */; };
static const Fmt F64 = { 53, -1074, 1023 }, F32 = { 24, -149, 127 };
static inline Fit fit(const Num &n0, const Fmt &f)
{
    Num n = n0; if (!n.man) return EXACT;
    while (!(n.man & 1)) { n.man >>= 1; n.exp++; }
    int bl = bitlen(n.man); int64_t top = n.exp + bl - 1;
    if (top > f.emax) return OVERFLOW_;
    if (top < f.emin) return UNDERFLOW_;
    if (n.exp < f.emin || bl > f.p) return INEXACT;
    return EXACT;
}
/* the two representable neighbours (truncation and next away) as (man, exp) scaled: returns doubles lo <= |n| <= hi (hi may be inf) */
static inline void neighbours(const Num &n0, const Fmt &f, double &lo, double &hi)
{
    Num n = n0; int bl = bitlen(n.man); int64_t top = n.exp + bl - 1;
    int64_t lsb = top - (f.p - 1); if (lsb < f.emin) lsb = f.emin;
    /* number of units of 2^lsb */
    unsigned __int128 u; bool rem = false;
    if (n.exp >= lsb) u = n.man << (n.exp - lsb);
    else { int64_t s = lsb - n.exp; if (s >= 127) { u = 0; rem = n.man != 0; } else { u = n.man >> s; rem = (u << s) != n.man; } }
    lo = ldexp((double)(uint64_t)u, (int)lsb);
    hi = rem ? ldexp((double)(uint64_t)(u + 1), (int)lsb) : lo;
    double maxv = f.p == 53 ? 1.7976931348623157e308 : 3.4028234663852886e38;
    if (hi > maxv) hi = INFINITY;
}

/* X.690 8.5 REAL content octets, lenient about padding */
struct RealDec { enum K { BAD, FINITE, PINF, NINF, NAN_, NZERO, PZERO, DECIMAL, TOOBIG } k = BAD; Num n; };
static inline RealDec real_dec(const uint8_t *p, size_t len)
{
    RealDec d; if (len == 0) { d.k = RealDec::PZERO; return d; }
    uint8_t h = p[0];
    if (!(h & 0x80)) {
        if (h & 0x40) {
            if (len != 1) return d;
            d.k = h == 0x40 ? RealDec::PINF : h == 0x41 ? RealDec::NINF : h == 0x42 ? RealDec::NAN_ : h == 0x43 ? RealDec::NZERO : RealDec::BAD;
            return d;
        }
        if (h >= 1 && h <= 3) d.k = RealDec::DECIMAL;
        return d;
    }
    unsigned base = h >> 4 & 3, F = h >> 2 & 3, ef = h & 3; size_t i = 1, el;
    if (base == 3) return d;
    if (ef == 3) { if (len < 2) return d; el = p[1]; i = 2; if (el == 0) return d; } else el = ef + 1;
    if (len < i + el + 1) return d;       /* at least one mantissa octet */
    __int128 e = (int8_t)p[i]; bool big = false;
    for (size_t k = 1; k < el; k++) { e = e * 256 + p[i + k]; if (e > ((__int128)1 << 40) || e < -((__int128)1 << 40)) big = true, e = e > 0 ? ((__int128)1 << 40) : -((__int128)1 << 40); }
    i += el;
    unsigned __int128 m = 0; bool mbig = false;
    for (; i < len; i++) { if (m >> 120) mbig = true; m = (m << 8) | p[i]; }
    d.n.neg = h >> 6 & 1; d.n.man = m; d.n.exp = (int64_t)(e * (base == 0 ? 1 : base == 1 ? 3 : 4) + F);
    d.k = big || mbig ? RealDec::TOOBIG : RealDec::FINITE;
    return d;
}
} /* namespace ref */
