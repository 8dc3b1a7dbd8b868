/* C18: octet strings and NULL */
#include "codec.h"
using namespace vp;
typedef unsigned long long ull;

static Bytes content(Case &c)
{
    switch (c.draw(4)) {
    case 0: return c.bytes(c.draw(8));
    case 1: return c.block(126 + c.draw(4));
    case 2: return c.block(254 + c.draw(4));
    case 3: return c.chance(1, 8) ? c.block(65534 + c.draw(4)) : c.block(c.draw(600));
    default: return c.block(c.draw(64));
    }
}
VP_PROP(round_trip, 200000, 4000000)
{
    Bytes v = content(c); bool der = c.flip(); asn1_tag t = c.flip() ? asn1_tag_octet_string : c.pick({ asn1_tag_utf8_string, asn1_tag_printable_string, asn1_tag_ia5_string, asn1_tag_bit_string });
    Bytes full = der ? ref::tlv(t, v) : v; u8 *src = (u8 *)malloc(v.size()); memcpy(src, v.data(), v.size()); asn1_string s; s.count = v.size(); s.str = src;
    c.note("%s %zu octets %s", der ? "DER" : "BER", v.size(), hex(v.data(), v.size(), 16).c_str()); c.nontrivial(hash_bytes(v.data(), v.size(), der * 64 + t)); c.label(v.empty() ? "empty" : v.size() < 128 ? "short" : "long form");
    size_t L = crefl_asn1_ber_octets_length(&s); VP_CHECK(L == v.size(), "octets: predicted length %zu of %zu", L, v.size());
    Buf o(full.size() + c.draw(2)); int r = der ? crefl_asn1_der_octets_write(&o, t, &s) : crefl_asn1_ber_octets_write(&o, v.size(), &s); free(src);
    VP_CHECK(r == 0 && o.written() == full, "octets %s: write gave %d, %s", hex(v).c_str(), r, hex(o.written()).c_str());
    /* read with some capacity */
    size_t cap = c.chance(1, 3) ? c.draw(v.size() + 2) : v.size(); bool null = c.chance(1, 6); if (null && c.flip()) cap = 0;
    Bytes in = ref::cat(full, c.bytes(c.draw(2))); Buf b(in); u8 *dst = null ? nullptr : (u8 *)malloc(cap); if (dst) memset(dst, 0x33, cap); asn1_string g; g.count = cap; g.str = dst;
    r = der ? crefl_asn1_der_octets_read(&b, t, &g) : crefl_asn1_ber_octets_read(&b, v.size(), &g);
    VP_CHECK(r == 0 && g.count == v.size() && b.pos() == full.size() && g.str == dst, "octets of %zu: read into %zu gave %d, count %llu, position %zu", v.size(), cap, r, (ull)g.count, b.pos());
    if (dst) { size_t k = std::min(cap, v.size()); VP_CHECK(!memcmp(dst, v.data(), k), "octets %s: read as %s", hex(v).c_str(), hex(dst, k).c_str()); for (size_t i = k; i < cap; i++) VP_CHECK(dst[i] == 0x33, "octets: read touched octet %zu behind the content", i); free(dst); }
}
VP_PROP(read_claimed, 300000, 6000000)
{
    Bytes in = c.chance(1, 4) ? content(c) : c.bytes(c.draw(20)); size_t st = c.chance(1, 3) ? c.draw(in.size()) : 0, have = in.size() - st;
    size_t n = c.chance(1, 4) ? c.interesting() : c.draw(have + 3), cap = c.flip() ? c.draw(24) : std::min<size_t>(n, 70000); bool null = c.chance(1, 6); bool ok = n <= have;
    c.note("%zu octets from %zu, claimed %zu, capacity %zu%s", in.size(), st, n, cap, null ? ", no destination" : ""); c.nontrivial(hash_bytes(in.data(), in.size(), n * 512 + st * 2 + cap)); c.label(ok ? "fits" : "claims too much");
    u8 *dst = null ? nullptr : (u8 *)malloc(cap); if (dst) memset(dst, 0x33, cap); asn1_string g; g.count = cap; g.str = dst; Buf b(in, st);
    int r = crefl_asn1_ber_octets_read(&b, n, &g);
    VP_CHECK((r == 0) == ok, "octets: %zu claimed, %zu there: read gave %d", n, have, r); VP_CHECK(b.pos() <= in.size(), "position beyond the input");
    if (ok) { VP_CHECK(g.count == n && b.pos() == st + n, "octets of %zu: count %llu, position %zu", n, (ull)g.count, b.pos()); if (dst) VP_CHECK(!memcmp(dst, in.data() + st, std::min(cap, n)), "octets read wrongly"); }
    free(dst);
}
VP_PROP(der_read_any, 300000, 6000000)
{
    Bytes ct = c.chance(1, 4) ? content(c) : c.bytes(c.draw(12)); Bytes in = ref::cat(ref::ident({ c.chance(1, 8) ? c.draw(100) : 4, 0, 0 }), c.chance(1, 3) ? ref::length(c.flip() ? c.draw(20) : c.interesting()) : ref::length(ct.size())); in = ref::cat(in, ct);
    if (c.chance(1, 4)) in.resize(c.draw(in.size()));
    ref::IdentDec i = ref::ident_dec(in.data(), in.size()); ref::Dec l; if (i.ok) l = ref::length_dec(in.data() + i.used, in.size() - i.used); size_t h = i.used + l.used;
    bool ok = i.ok && l.ok && l.val <= in.size() - h, must = ok && i.canon && l.canon && i.id.num == 4 && !i.id.cls && !i.id.cons; size_t cap = c.draw(30); c.label(ok ? "complete element" : "incomplete element");
    c.note("%s capacity %zu", hex(in.data(), in.size(), 24).c_str(), cap); if (in.size() > 1) c.nontrivial(hash_bytes(in.data(), in.size(), cap));
    u8 *dst = (u8 *)malloc(cap); asn1_string g; g.count = cap; g.str = dst; Buf b(in); int r = crefl_asn1_der_octets_read(&b, asn1_tag_octet_string, &g);
    if (r == 0) VP_CHECK(ok && g.count == l.val && b.pos() == h + l.val && !memcmp(dst, in.data() + h, std::min<size_t>(cap, l.val)), "DER octets %s accepted: count %llu, position %zu", hex(in).c_str(), (ull)g.count, b.pos());
    else VP_CHECK(!must, "DER octets %s rejected", hex(in).c_str());
    VP_CHECK(b.pos() <= in.size(), "position beyond the input"); free(dst);
}
VP_PROP(write_room, 200000, 4000000)
{
    Bytes v = c.bytes(c.draw(40)); bool der = c.flip(); Bytes full = der ? ref::tlv(4, v) : v; size_t pre = c.draw(6), room = c.draw(full.size() + 2);
    u8 *src = (u8 *)malloc(v.size()); memcpy(src, v.data(), v.size()); asn1_string s; s.count = v.size(); s.str = src; Buf o(pre + room); o.b.data_offset = pre; Bytes before = o.all();
    int r = der ? crefl_asn1_der_octets_write(&o, asn1_tag_octet_string, &s) : crefl_asn1_ber_octets_write(&o, v.size(), &s); free(src); bool ok = room >= full.size();
    c.note("%s %zu octets into %zu", der ? "DER" : "BER", v.size(), room); c.nontrivial(hash_bytes(v.data(), v.size(), room * 16 + pre * 2 + der)); c.label(ok ? "room" : "no room");
    VP_CHECK((r == 0) == ok, "octets: writing %zu into %zu gave %d", full.size(), room, r); VP_CHECK(o.pos() <= pre + room, "position beyond the buffer");
    Bytes a = o.all(); VP_CHECK(!memcmp(a.data(), before.data(), pre), "octets: write changed what was there"); if (ok) VP_CHECK(o.written(pre) == full, "octets written as %s", hex(o.written(pre)).c_str());
}
/* a field length other than the length of the string: the field takes exactly that many octets, or there is an error; nothing outside the string or the buffer is used */
VP_PROP(write_field, 200000, 4000000)
{
    Bytes v = c.bytes(c.draw(24)); size_t n = c.chance(1, 4) ? c.interesting() : c.chance(1, 3) ? v.size() + c.draw(20) : c.draw(v.size()), pre = c.draw(6), room = c.flip() ? std::min<size_t>(n, 64) + c.draw(3) : c.draw(40);
    u8 *src = (u8 *)malloc(v.size()); memcpy(src, v.data(), v.size()); asn1_string s; s.count = v.size(); s.str = src; Buf o(pre + room); o.b.data_offset = pre; Bytes before = o.all();
    int r = crefl_asn1_ber_octets_write(&o, n, &s); free(src);
    c.note("%zu of %zu octets into %zu", n, v.size(), room); c.nontrivial(hash_bytes(v.data(), v.size(), room * 64 + n)); c.label(room < n ? "no room" : n > v.size() ? "longer field" : "prefix");
    if (room < n) VP_CHECK(r != 0, "octets: a field of %zu written into %zu octets", n, room);
    else if (n <= v.size()) VP_CHECK(r == 0, "octets: writing %zu of %zu into %zu gave %d", n, v.size(), room, r);
    VP_CHECK(o.pos() >= pre && o.pos() <= pre + room, "position beyond the buffer");
    Bytes a = o.all(); VP_CHECK(!memcmp(a.data(), before.data(), pre), "octets: write changed what was there");
    if (r == 0) { size_t k = std::min(n, v.size()); Bytes w = o.written(pre); VP_CHECK(w.size() == n && std::equal(v.begin(), v.begin() + k, w.begin()), "octets: %zu of %s written as %s", n, hex(v).c_str(), hex(w).c_str()); VP_CHECK(!memcmp(a.data() + pre + n, before.data() + pre + n, room - n), "octets: write touched what is behind the field"); }
}
VP_PROP(null, 60000, 1000000)
{
    int f = c.draw(3); c.nontrivial();
    VP_CHECK(crefl_asn1_ber_null_length() == 0, "NULL length");
    if (f == 0) { Buf o(2 + c.draw(1)); int r = crefl_asn1_der_null_write(&o, asn1_tag_null); VP_CHECK(r == 0 && o.written() == (Bytes{ 5, 0 }), "DER NULL written as %s (%d)", hex(o.written()).c_str(), r);
        Buf b(ref::cat(Bytes{ 5, 0 }, c.bytes(c.draw(2)))); r = crefl_asn1_der_null_read(&b, asn1_tag_null); VP_CHECK(r == 0 && b.pos() == 2, "DER NULL read gave %d, position %zu", r, b.pos()); c.note("DER NULL"); }
    else if (f == 1) { size_t n = c.chance(1, 3) ? 0 : c.interesting(); Bytes in = c.bytes(c.draw(4)); Buf b(in); size_t st = c.draw(in.size()); b.b.data_offset = st; int r = crefl_asn1_ber_null_read(&b, n); c.note("BER NULL length %zu", n); VP_CHECK((r == 0) == (n == 0) && b.pos() == st, "NULL read of length %zu gave %d, position moved by %zd", n, r, (ssize_t)(b.pos() - st));
        Buf o(4); r = crefl_asn1_ber_null_write(&o, n); VP_CHECK((r == 0) == (n == 0) && o.pos() == 0, "NULL write of length %zu gave %d", n, r); }
    else if (f == 2) { size_t cap = c.draw(2); Buf o(cap); int r = crefl_asn1_der_null_write(&o, asn1_tag_null); VP_CHECK((r == 0) == (cap == 2), "DER NULL write into %zu gave %d", cap, r); c.note("DER NULL room %zu", cap); }
    else { Bytes in = ref::cat(Bytes{ 5 }, c.flip() ? ref::length(c.interesting()) : c.bytes(c.draw(3))); if (c.chance(1, 4)) in.resize(c.draw(in.size())); ref::IdentDec i = ref::ident_dec(in.data(), in.size()); ref::Dec l; if (i.ok) l = ref::length_dec(in.data() + i.used, in.size() - i.used);
        bool ok = i.ok && l.ok && l.val == 0; Buf b(in); int r = crefl_asn1_der_null_read(&b, asn1_tag_null); c.note("DER NULL %s", hex(in).c_str()); if (r == 0) VP_CHECK(ok && b.pos() == i.used + l.used, "DER NULL %s accepted", hex(in).c_str()); else VP_CHECK(!(ok && l.canon), "DER NULL %s rejected", hex(in).c_str()); }
}
