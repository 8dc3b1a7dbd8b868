/* C16: LEB128 and VLU unsigned integers */
#include "codec.h"
using namespace vp;
typedef unsigned long long ull;

static const char *nm[] = { "LEB128", "VLU" };
static uint64_t val(Case &c)
{
    if (c.flip()) { unsigned k = 1 + c.draw(7); return ((1ull << (7 * k)) + (uint64_t)c.range(-2, 2)) & ((1ull << 56) - 1); }
    return c.interesting() & ((1ull << 56) - 1);
}
static int wr(int k, bool bv, crefl_buf *b, uint64_t v)
{
    u64 u = v;
    return k ? (bv ? crefl_vlu_u64_write_byval(b, u) : crefl_vlu_u64_write(b, &u)) : (bv ? crefl_leb_u64_write_byval(b, u) : crefl_leb_u64_write(b, &u));
}
static int rd(int k, bool bv, crefl_buf *b, uint64_t *v)
{
    u64 u = 0x77; if (bv) { u64_result r = k ? crefl_vlu_u64_read_byval(b) : crefl_leb_u64_read_byval(b); *v = r.value; return r.error ? -1 : 0; }
    int r = k ? crefl_vlu_u64_read(b, &u) : crefl_leb_u64_read(b, &u); *v = u; return r;
}
VP_PROP(round_trip, 600000, 12000000)
{
    int k = c.draw(1); bool bv = c.flip(), bv2 = c.flip(); uint64_t v = val(c); Bytes w = k ? ref::vlu(v) : ref::leb(v);
    c.note("%s 0x%llx -> %s", nm[k], (ull)v, hex(w).c_str()); c.nontrivial(mix(v) + k); c.label(strf("%s %zu octets", nm[k], w.size()));
    Buf o(w.size() + c.draw(2)); int r = wr(k, bv, &o, v);
    VP_CHECK(r == 0 && o.written() == w, "%s 0x%llx: write by %s gave %d, %s, expected %s", nm[k], (ull)v, bv ? "value" : "pointer", r, hex(o.written()).c_str(), hex(w).c_str());
    Bytes in = ref::cat(w, c.bytes(c.draw(3))); Buf b(in); uint64_t g; r = rd(k, bv2, &b, &g);
    VP_CHECK(r == 0 && g == v && b.pos() == w.size(), "%s: read of %s by %s gave %d, 0x%llx, %zu octets, expected 0x%llx", nm[k], hex(in).c_str(), bv2 ? "value" : "pointer", r, (ull)g, b.pos(), (ull)v);
    /* no strict prefix is accepted */
    if (w.size() > 1) { Bytes p(w.begin(), w.begin() + c.draw(w.size() - 1)); Buf q(p); VP_CHECK(rd(k, bv2, &q, &g) < 0 && q.pos() <= p.size(), "%s: truncated %s accepted as 0x%llx", nm[k], hex(p).c_str(), (ull)g); }
}
VP_PROP(out_of_range, 60000, 1000000)
{
    int k = c.draw(1); bool bv = c.flip(); uint64_t v = c.interesting() | 1ull << (56 + c.draw(7)); if (c.chance(1, 4)) v = (1ull << 56) + c.draw(2); Buf o(16);
    c.note("%s 0x%llx", nm[k], (ull)v); c.nontrivial(mix(v) + k);
    VP_CHECK(wr(k, bv, &o, v) < 0, "%s: 0x%llx is outside the range but was written by %s as %s", nm[k], (ull)v, bv ? "value" : "pointer", hex(o.written()).c_str());
}
VP_PROP(read_any, 600000, 12000000)
{
    int k = c.draw(1); Bytes in;
    switch (c.draw(4)) {
    case 0: in = c.bytes(c.draw(12)); break;
    case 1: { size_t n = c.draw(11); for (size_t i = 0; i < n; i++) in.push_back((uint8_t)(0x80 | c.byte())); if (c.flip()) in.push_back(c.byte() & 0x7f); } break;
    case 2: in = k ? ref::vlu(val(c)) : ref::leb(val(c)); if (c.flip()) in.push_back(c.byte()); break;
    case 3: in.push_back((uint8_t)((1u << c.draw(8)) - 1)); { Bytes t = c.bytes(c.draw(9)); in = ref::cat(in, t); } break;
    default: in = c.block(c.draw(12)); break;
    }
    size_t st = in.empty() ? 0 : c.chance(1, 6) ? c.draw(in.size()) : 0; const uint8_t *p = in.data() + st; size_t n = in.size() - st;
    if (n && c.chance(1, 4)) { size_t cut = 1 + c.draw(n - 1); in.resize(st + cut); n = cut; p = in.data() + st; }
    c.note("%s %s from %zu", nm[k], hex(in).c_str(), st); if (n > 1) c.nontrivial(hash_bytes(in.data(), in.size(), st * 2 + k));
    ref::Dec d = k ? ref::vlu_dec(p, n) : ref::leb_dec(p, n); bool must = d.ok && d.canon && d.val < (1ull << 56); c.label(must ? "minimal" : d.ok ? "padded" : "invalid");
    int rr[2]; for (int bv = 0; bv < 2; bv++) {
        Buf b(in, st); uint64_t g; int r = rr[bv] = rd(k, bv, &b, &g);
        if (r == 0) VP_CHECK(d.ok && g == d.val && b.pos() == st + d.used, "%s: read of %s at %zu by %s accepted 0x%llx, %zu octets; reference: %s 0x%llx, %zu octets", nm[k], hex(in).c_str(), st, bv ? "value" : "pointer", (ull)g, b.pos() - st, d.ok ? "valid" : "invalid", (ull)d.val, d.used);
        else VP_CHECK(!must, "%s: read by %s rejected %s at %zu, the form of 0x%llx", nm[k], bv ? "value" : "pointer", hex(in).c_str(), st, (ull)d.val);
        VP_CHECK(b.pos() <= in.size(), "position beyond the input");
    }
    VP_CHECK(rr[0] == rr[1], "%s: read of %s at %zu by pointer %d, by value %d", nm[k], hex(in).c_str(), st, rr[0], rr[1]);
}
/* several values one after another in one buffer */
VP_PROP(sequence, 60000, 1200000)
{
    size_t n = 2 + c.draw(20); std::vector<std::pair<int, uint64_t>> v; Bytes w;
    for (size_t i = 0; i < n; i++) { int k = c.draw(1); uint64_t x = val(c); v.push_back({ k, x }); w = ref::cat(w, k ? ref::vlu(x) : ref::leb(x)); }
    Buf o(w.size()); for (auto &x : v) VP_CHECK(wr(x.first, c.flip(), &o, x.second) == 0, "%s: write of 0x%llx into a buffer of the exact size failed", nm[x.first], (ull)x.second);
    VP_CHECK(o.written() == w, "sequence of %zu values written as %s, expected %s", n, hex(o.written()).c_str(), hex(w).c_str());
    o.b.data_offset = 0; for (auto &x : v) { uint64_t g; int r = rd(x.first, c.flip(), &o, &g); VP_CHECK(r == 0 && g == x.second, "%s: 0x%llx read back as 0x%llx (%d)", nm[x.first], (ull)x.second, (ull)g, r); }
    VP_CHECK(o.pos() == w.size(), "position after the sequence"); c.note("%zu values in %zu octets", n, w.size()); c.nontrivial();
}
