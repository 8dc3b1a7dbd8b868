/* C15: variable-length floating point (vf128) */
#include "fgen.h"
using namespace vp;
typedef unsigned long long ull;

/* reference meaning of an encoding at the front of some bytes */
struct Vf { enum K { BAD, FINITE, INF, NAN_ } k = BAD; ref::Num n; bool neg = false; size_t used = 0; bool must = false; const char *form = "bad"; };
static Vf vf_dec(const uint8_t *p, size_t len)
{
    Vf d; if (!len) return d; uint8_t h = p[0]; d.neg = h >> 6 & 1; d.n.neg = d.neg; unsigned E = h >> 4 & 3, M = h & 15;
    if (!(h & 0x80)) {
        d.used = 1; d.must = true; d.form = "inline";
        if (E == 3) { d.k = M ? Vf::NAN_ : Vf::INF; return d; }
        d.k = Vf::FINITE; d.n.man = E ? 16 + M : M; d.n.exp = E ? (int)E - 1 - 4 : -4; return d;
    }
    if (!E && !M) return d;                                     /* reserved */
    if (len < 1 + E + M) return d;
    d.used = 1 + E + M;
    int64_t e = 0; if (E) { uint64_t u = 0; for (unsigned i = 0; i < E; i++) u |= (uint64_t)p[1 + i] << (8 * i); e = (int64_t)(u << (64 - 8 * E)) >> (64 - 8 * E); }
    unsigned __int128 m = 0; for (unsigned i = 0; i < M; i++) m |= (unsigned __int128)p[1 + E + i] << (8 * i);
    if (M && !m) return d;                                      /* no leading one */
    bool emin = !E || ref::min_s(e) == E;
    d.k = Vf::FINITE;
    if (!M) { d.n.man = 1; d.n.exp = e; d.must = emin; d.form = "power of two"; return d; }
    int bl = ref::bitlen(m), tz = 0; while (!(m >> tz & 1)) tz++;
    bool mmin = p[1 + E + M - 1] != 0;
    d.n.man = m;
    if (E) { d.n.exp = e - (bl - 1); d.must = M <= 8 && emin && mmin && tz == 0; d.form = "explicit"; }
    else { d.n.exp = -tz - 1 - (bl - 1); d.must = M <= 8 && mmin && tz <= 7; d.form = "unary"; }
    return d;
}
/* length of the shortest encoding of a double / float value */
static size_t shortest(double v)
{
    if (std::isnan(v) || std::isinf(v) || v == 0) return 1;
    ref::Num n = ref::num_of(v); int bl = ref::bitlen(n.man); int64_t top = n.exp + bl - 1; uint64_t m = (uint64_t)n.man;
    if (n.exp >= -4 && fabs(v) < 4 && bl <= 5 && (top <= -1 || n.exp >= top - 4)) return 1;
    auto ml = [](unsigned __int128 x) { size_t l = 1; while (x >> (8 * l)) l++; return l; };
    size_t best = 1 + ref::min_s(top) + (m == 1 ? 0 : ml(m));
    if (top <= -1 && top >= -8) best = std::min(best, 1 + ml((unsigned __int128)m << (-top - 1)));
    return best;
}
template <typename T> struct Tr;
template <> struct Tr<double>
{
    typedef uint64_t U; static constexpr const char *name = "f64"; static const ref::Fmt &fmt() { return ref::F64; }
    static U gen(Case &c) { return gen_f64_bits(c); } static U bits(double d) { return ref::dbits(d); } static double val(U u) { return ref::bitsd(u); }
    static int wr(bool bv, crefl_buf *b, double v) { return bv ? crefl_vf_f64_write_byval(b, v) : crefl_vf_f64_write(b, &v); }
    static int rd(bool bv, crefl_buf *b, double *v) { if (bv) { f64_result r = crefl_vf_f64_read_byval(b); *v = r.value; return r.error ? -1 : 0; } *v = 77; return crefl_vf_f64_read(b, v); }
};
template <> struct Tr<float>
{
    typedef uint32_t U; static constexpr const char *name = "f32"; static const ref::Fmt &fmt() { return ref::F32; }
    static U gen(Case &c) { return gen_f32_bits(c); } static U bits(float d) { return ref::fbits(d); } static float val(U u) { return ref::bitsf(u); }
    static int wr(bool bv, crefl_buf *b, float v) { return bv ? crefl_vf_f32_write_byval(b, v) : crefl_vf_f32_write(b, &v); }
    static int rd(bool bv, crefl_buf *b, float *v) { if (bv) { f32_result r = crefl_vf_f32_read_byval(b); *v = r.value; return r.error ? -1 : 0; } *v = 77; return crefl_vf_f32_read(b, v); }
};
/* is g the value of the decoded encoding in T's format: exact, truncated, infinite when too large and zero when too small? */
template <typename T> static void judge(const Bytes &in, const Vf &d, T g, const char *how)
{
    const char *nm = Tr<T>::name;
    switch (d.k) {
    case Vf::INF: VP_CHECK(std::isinf(g) && std::signbit(g) == d.neg, "vf %s read as %s %s is %a, it is %cinfinity", hex(in).c_str(), nm, how, (double)g, d.neg ? '-' : '+'); return;
    case Vf::NAN_: VP_CHECK(std::isnan(g) && std::signbit(g) == d.neg, "vf %s read as %s %s is %a (sign %d), it is NaN with sign %d", hex(in).c_str(), nm, how, (double)g, (int)std::signbit(g), (int)d.neg); return;
    case Vf::FINITE: break;
    default: VP_CHECK(false, "vf %s read as %s %s gave %a, it is malformed or truncated", hex(in).c_str(), nm, how, (double)g); return;
    }
    VP_CHECK(!std::isnan(g) && std::signbit(g) == d.neg, "vf %s read as %s %s is %a: wrong sign or not a number", hex(in).c_str(), nm, how, (double)g);
    double a = fabs((double)g);
    if (!d.n.man) { VP_CHECK(a == 0, "vf %s read as %s %s is %a, it is zero", hex(in).c_str(), nm, how, (double)g); return; }
    ref::Fit f = ref::fit(d.n, Tr<T>::fmt());
    if (f == ref::OVERFLOW_) { VP_CHECK(std::isinf(a), "vf %s read as %s %s is %a, it is too large and must read as infinity", hex(in).c_str(), nm, how, (double)g); return; }
    double lo, hi; ref::neighbours(d.n, Tr<T>::fmt(), lo, hi);
    VP_CHECK(a == lo, "vf %s read as %s %s is %a, it denotes %s%a", hex(in).c_str(), nm, how, (double)g, lo == hi ? "" : "(truncated) ", lo);
}
template <typename T> static void round_trip(Case &c)
{
    T v = Tr<T>::val(Tr<T>::gen(c)); bool bv = c.flip(), bv2 = c.flip(), w = c.flip(); size_t L = shortest(v);
    c.note("%s %a (%llx)", Tr<T>::name, (double)v, (ull)Tr<T>::bits(v)); c.nontrivial(hash_bytes(&v, sizeof v, 5));
    Buf o(L + c.draw(2)); int r = Tr<T>::wr(bv, &o, v); Bytes e = o.written();
    VP_CHECK(r == 0, "%s %a: write failed with room for %zu octets, %zu suffice", Tr<T>::name, (double)v, o.cap, L);
    VP_CHECK(e.size() == L, "%s %a written as %s, %zu octets suffice", Tr<T>::name, (double)v, hex(e).c_str(), L);
    Vf d = vf_dec(e.data(), e.size()); c.label(d.form); VP_CHECK(d.k != Vf::BAD && d.used == L, "%s %a written as %s, which is malformed", Tr<T>::name, (double)v, hex(e).c_str());
    judge<T>(e, d, v, "(the value written)"); if (d.k == Vf::FINITE && d.n.man) VP_CHECK(ref::fit(d.n, Tr<T>::fmt()) == ref::EXACT, "%s %a written as %s, another number", Tr<T>::name, (double)v, hex(e).c_str());
    { Buf o2(16); r = Tr<T>::wr(!bv, &o2, v); VP_CHECK(r == 0 && o2.written() == e, "%s %a written as %s by %s, by %s %d, %s", Tr<T>::name, (double)v, hex(e).c_str(), bv ? "value" : "pointer", bv ? "pointer" : "value", r, hex(o2.written()).c_str()); }
    Bytes in = ref::cat(e, c.bytes(c.draw(2))); Buf b(in); T g; r = Tr<T>::rd(bv2, &b, &g);
    VP_CHECK(r == 0 && b.pos() == L && (std::isnan(v) ? std::isnan(g) && std::signbit(g) == std::signbit(v) : Tr<T>::bits(g) == Tr<T>::bits(v)), "%s %a (%llx) written as %s, read by %s gave %d, %a (%llx), %zu octets", Tr<T>::name, (double)v, (ull)Tr<T>::bits(v), hex(e).c_str(), bv2 ? "value" : "pointer", r, (double)g, (ull)Tr<T>::bits(g), b.pos());
    if (sizeof(T) == 4 && w) {
        Buf b2(in); double gd; r = Tr<double>::rd(bv2, &b2, &gd); double x = v;
        VP_CHECK(r == 0 && b2.pos() == L && (std::isnan(x) ? std::isnan(gd) && std::signbit(gd) == std::signbit(x) : ref::dbits(gd) == ref::dbits(x)), "float %a written as %s, read as a double by %s gave %d, %a", (double)v, hex(e).c_str(), bv2 ? "value" : "pointer", r, gd);
        c.label("float read as double");
    }
}
VP_PROP(round_trip_f64, 700000, 16000000) { round_trip<double>(c); }
VP_PROP(round_trip_f32, 700000, 16000000) { round_trip<float>(c); }

static Bytes wild(Case &c)
{
    Bytes b;
    switch (c.draw(7)) {
    case 0: return c.bytes(c.draw(20));
    case 1: case 2: { Buf o(16); if (c.flip()) crefl_vf_f64_write_byval(&o, ref::bitsd(gen_f64_bits(c))); else crefl_vf_f32_write_byval(&o, ref::bitsf(gen_f32_bits(c))); b = o.written(); if (!b.empty() && c.flip()) b[c.draw(b.size() - 1)] = c.byte(); if (c.chance(1, 6)) b.resize(c.draw(b.size())); return b; }
    default: {
        unsigned E = c.draw(3), M = c.chance(1, 10) ? 9 + c.draw(6) : c.draw(8), mt = c.draw(5);
        int64_t e = 0; switch (c.draw(4)) { case 0: e = c.range(-10, 10); break; case 1: e = c.range(-160, 140); break; case 2: e = c.range(-1090, 1040); break; case 3: e = c.pick({ 127, 128, -126, -127, -128, -149, -150, -151, 1023, 1024, -1022, -1023, -1024, -1074, -1075, -1076, -32768, 32767, -8388608, 8388607, -1087, -1100 }); break; default: e = (int64_t)(c.draw(0xffffff)) - 0x800000; }
        Bytes mm; if (M) { if (mt == 0) mm = c.bytes(M); else { uint64_t m = c.draw(UINT64_MAX); if (mt == 1) m |= 1ull << 63; if (mt == 2) m = 1ull << c.draw(63); if (mt == 3) m = UINT64_MAX << c.draw(63); unsigned nb = M > 8 ? 8 : M; m &= nb == 8 ? UINT64_MAX : (1ull << 8 * nb) - 1; if (c.flip()) m |= 1; mm = ref::le_n(m, nb); while (mm.size() < M) mm.push_back(0); } if (c.flip() && M && !mm.back()) mm.back() = 1 + c.draw(254); }
        if (E && c.flip()) E = ref::min_s(e) <= 3 ? ref::min_s(e) : 3;
        b.push_back(0x80 | c.draw(1) << 6 | E << 4 | M); b = ref::cat(b, ref::le_n((uint64_t)e, E)); b = ref::cat(b, mm); if (c.chance(1, 12)) b.resize(c.draw(b.size())); return b; } }
}
template <typename T> static void read_any(Case &c)
{
    Bytes in = ref::cat(wild(c), c.bytes(c.draw(1))); Vf d = vf_dec(in.data(), in.size());
    c.note("%s", hex(in).c_str()); if (in.size() > 1) c.nontrivial(hash_bytes(in.data(), in.size(), sizeof(T))); c.label(d.k == Vf::BAD ? "malformed" : d.form); if (d.must) c.label("canonical");
    if (d.k == Vf::FINITE && d.n.man) { ref::Fit f = ref::fit(d.n, Tr<T>::fmt()); c.label(f == ref::EXACT ? "exact" : f == ref::INEXACT ? "truncated" : f == ref::OVERFLOW_ ? "overflow" : "underflow"); }
    T g[2]; int r[2]; size_t ps[2];
    for (int bv = 0; bv < 2; bv++) {
        const char *how = bv ? "by value" : "by pointer"; Buf b(in); r[bv] = Tr<T>::rd(bv, &b, &g[bv]); ps[bv] = b.pos();
        if (r[bv] == 0) { judge<T>(in, d, g[bv], how); VP_CHECK(b.pos() == d.used, "vf %s: %zu octets consumed, the encoding has %zu", hex(in).c_str(), b.pos(), d.used); }
        else VP_CHECK(!d.must, "vf %s rejected as %s %s", hex(in).c_str(), Tr<T>::name, how);
        VP_CHECK(b.pos() <= in.size(), "position beyond the input");
    }
    VP_CHECK(r[0] == r[1] && (r[0] || Tr<T>::bits(g[0]) == Tr<T>::bits(g[1])), "vf %s: by pointer %d %a, by value %d %a", hex(in).c_str(), r[0], (double)g[0], r[1], (double)g[1]);
}
VP_PROP(read_any_f64, 600000, 14000000) { read_any<double>(c); }
VP_PROP(read_any_f32, 600000, 14000000) { read_any<float>(c); }
