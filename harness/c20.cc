/* C20: encoders and the capacity of the buffer */
#include "fgen.h"
using namespace vp;
typedef unsigned long long ull;

struct Enc { unsigned fn; uint64_t v; size_t len; unsigned tag; std::vector<uint64_t> oid; Bytes str; };
static const char *names[] = { "tag", "ident", "length", "boolean", "der_boolean", "u64", "u64_byval", "s64", "s64_byval", "der_u64", "der_u64_byval", "der_s64", "der_s64_byval", "le_u64", "le_u64_byval", "le_s64", "le_s64_byval",
    "real", "real_byval", "der_real", "der_real_byval", "vf_f64", "vf_f64_byval", "vf_f32", "vf_f32_byval", "leb", "leb_byval", "vlu", "vlu_byval", "oid", "der_oid", "octets", "der_octets", "null", "der_null" };
enum { NF = sizeof(names) / sizeof(names[0]) };
static Enc gen(Case &c)
{
    Enc e; e.fn = (unsigned)c.draw(NF - 1); e.v = c.interesting(); e.tag = 1 + (unsigned)c.draw(29); e.len = 0;
    switch (e.fn) {
    case 0: case 1: case 25: case 26: case 27: case 28: e.v &= (1ull << 56) - 1; if (e.fn > 1 && c.chance(1, 12)) e.v = c.interesting(); break;
    case 2: break;
    case 17: case 18: case 19: case 20: case 21: case 22: e.v = gen_f64_bits(c); break;
    case 23: case 24: e.v = gen_f32_bits(c); break;
    case 29: case 30: { e.oid = { c.draw(2), c.draw(39) }; if (e.oid[0] == 2 && c.flip()) e.oid[1] = c.draw((1ull << 40)); size_t n = c.draw(13); for (size_t i = 0; i < n; i++) e.oid.push_back(c.interesting() & ((1ull << 56) - 1)); break; }
    case 3: case 5: case 6: case 7: case 8: case 13: case 14: case 15: case 16: if (c.flip()) e.len = 1 + (c.chance(1, 8) ? c.interesting() % 40 : c.draw(8)); break; /* explicit length + 1 */
    case 31: case 32: e.str = c.chance(1, 10) ? c.block(120 + c.draw(20)) : c.bytes(c.draw(12)); break;
    }
    if (e.fn == 31 && c.flip()) e.len = 1 + c.draw(e.str.size()); /* a prefix */
    return e;
}
static int wr(const Enc &e, crefl_buf *b)
{
    u64 u = e.v; s64 s = (s64)e.v; double d = ref::bitsd(e.v); float f = ref::bitsf((uint32_t)e.v); bool t = e.v & 1; asn1_tag g = (asn1_tag)e.tag; asn1_oid o; memset(&o, 0, sizeof o); o.count = e.oid.size(); for (size_t i = 0; i < e.oid.size(); i++) o.oid[i] = e.oid[i];
    const bool xl = e.len > 0; const size_t xn = e.len - 1; Bytes cp(e.str); cp.shrink_to_fit(); asn1_string st; st.count = cp.size(); st.str = cp.data();
    switch (e.fn) {
    case 0: return crefl_asn1_ber_tag_write(b, u);
    case 1: { asn1_id id; memset(&id, 0, sizeof id); id._identifier = u; id._class = e.tag & 3; id._constructed = e.tag >> 2 & 1; return crefl_asn1_ber_ident_write(b, id); }
    case 2: return crefl_asn1_ber_length_write(b, u);
    case 3: return crefl_asn1_ber_boolean_write(b, xl ? xn : crefl_asn1_ber_boolean_length(&t), &t);
    case 4: return crefl_asn1_der_boolean_write(b, g, &t);
    case 5: return crefl_asn1_ber_integer_u64_write(b, xl ? xn : crefl_asn1_ber_integer_u64_length(&u), &u);
    case 6: return crefl_asn1_ber_integer_u64_write_byval(b, xl ? xn : crefl_asn1_ber_integer_u64_length_byval(u), u);
    case 7: return crefl_asn1_ber_integer_s64_write(b, xl ? xn : crefl_asn1_ber_integer_s64_length(&s), &s);
    case 8: return crefl_asn1_ber_integer_s64_write_byval(b, xl ? xn : crefl_asn1_ber_integer_s64_length_byval(s), s);
    case 9: return crefl_asn1_der_integer_u64_write(b, g, &u);
    case 10: return crefl_asn1_der_integer_u64_write_byval(b, g, u);
    case 11: return crefl_asn1_der_integer_s64_write(b, g, &s);
    case 12: return crefl_asn1_der_integer_s64_write_byval(b, g, s);
    case 13: return crefl_le_ber_integer_u64_write(b, xl ? xn : crefl_le_ber_integer_u64_length(&u), &u);
    case 14: return crefl_le_ber_integer_u64_write_byval(b, xl ? xn : crefl_le_ber_integer_u64_length_byval(u), u);
    case 15: return crefl_le_ber_integer_s64_write(b, xl ? xn : crefl_le_ber_integer_s64_length(&s), &s);
    case 16: return crefl_le_ber_integer_s64_write_byval(b, xl ? xn : crefl_le_ber_integer_s64_length_byval(s), s);
    case 17: return crefl_asn1_ber_real_f64_write(b, crefl_asn1_ber_real_f64_length(&d), &d);
    case 18: return crefl_asn1_ber_real_f64_write_byval(b, crefl_asn1_ber_real_f64_length_byval(d), d);
    case 19: return crefl_asn1_der_real_f64_write(b, g, &d);
    case 20: return crefl_asn1_der_real_f64_write_byval(b, g, d);
    case 21: return crefl_vf_f64_write(b, &d);
    case 22: return crefl_vf_f64_write_byval(b, d);
    case 23: return crefl_vf_f32_write(b, &f);
    case 24: return crefl_vf_f32_write_byval(b, f);
    case 25: return crefl_leb_u64_write(b, &u);
    case 26: return crefl_leb_u64_write_byval(b, u);
    case 27: return crefl_vlu_u64_write(b, &u);
    case 28: return crefl_vlu_u64_write_byval(b, u);
    case 29: return crefl_asn1_ber_oid_write(b, crefl_asn1_ber_oid_length(&o), &o);
    case 30: return crefl_asn1_der_oid_write(b, g, &o);
    case 31: return crefl_asn1_ber_octets_write(b, xl ? xn : crefl_asn1_ber_octets_length(&st), &st);
    case 32: return crefl_asn1_der_octets_write(b, g, &st);
    case 33: return crefl_asn1_ber_null_write(b, 0);
    default: return crefl_asn1_der_null_write(b, g);
    }
}
/* the octets an encoder produces when there is room; false if it refuses the value */
static bool encode(const Enc &e, Bytes &out) { Buf b(256); int r = wr(e, &b.b); VP_CHECK(b.pos() <= 256, "%s: position beyond the buffer", names[e.fn]); out = b.written(); return r == 0; }

VP_PROP(every_capacity, 120000, 4000000)
{
    Enc e = gen(c); Bytes w; bool ok = encode(e, w); c.note("%s of %016llx%s: %s", names[e.fn], (ull)e.v, e.len ? strf(" in %zu octets", e.len - 1).c_str() : "", ok ? hex(w).c_str() : "refused"); c.label(ok ? "encodable" : "refused value");
    if (w.size() > 0) c.nontrivial(hash_bytes(w.data(), w.size(), e.fn)); size_t pre = c.draw(3), N = ok ? w.size() : 10;
    for (size_t room = 0; room <= N + 1; room++) {
        if (N > 24 && room > 4 && room + 3 < N) continue;
        size_t cap = pre + room; Buf b(cap, 0xA5); for (size_t i = 0; i < pre; i++) b.b.data[i] = (char)(0x10 + i); b.b.data_offset = pre;
        int r = wr(e, &b.b); bool fits = ok && room >= w.size();
        VP_CHECK((r == 0) == fits && r <= 0, "%s of %016llx needs %zu octets, room for %zu: result %d", names[e.fn], (ull)e.v, w.size(), room, r);
        VP_CHECK(b.pos() >= pre && b.pos() <= cap, "%s: position %zu of %zu, it was %zu", names[e.fn], b.pos(), cap, pre);
        for (size_t i = 0; i < pre; i++) VP_CHECK((uint8_t)b.b.data[i] == 0x10 + i, "%s: changed what was written before", names[e.fn]);
        if (fits) { VP_CHECK(b.pos() == pre + w.size() && b.written(pre) == w, "%s of %016llx at %zu: wrote %s, expected %s", names[e.fn], (ull)e.v, pre, hex(b.written(pre)).c_str(), hex(w).c_str()); for (size_t i = pre + w.size(); i < cap; i++) VP_CHECK((uint8_t)b.b.data[i] == 0xA5, "%s: touched octets behind the encoding", names[e.fn]); }
    }
}
VP_PROP(sequences, 80000, 3000000)
{
    /* a buffer inside a guarded block: octets before and behind it must stay */
    size_t n = 1 + c.draw(11), cap = c.size(120), guard = 64; Bytes mem(guard + cap + guard, 0x3C); crefl_buf b; b.data = (char *)mem.data() + guard; b.data_offset = 0; b.data_size = cap; Bytes m; size_t fails = 0, good = 0; uint64_t fp = cap;
    for (size_t i = 0; i < n; i++) {
        Enc e = gen(c); Bytes w; bool ok = encode(e, w); size_t pos = b.data_offset; fp = mix(fp ^ e.fn ^ e.v << 8); m.assign(mem.begin() + guard, mem.begin() + guard + pos);
        int r = wr(e, &b); bool fits = ok && cap - pos >= w.size();
        VP_CHECK((r == 0) == fits && r <= 0, "write %zu, %s of %016llx, needs %zu octets, room for %zu: result %d", i, names[e.fn], (ull)e.v, w.size(), cap - pos, r);
        VP_CHECK(b.data_offset >= pos && b.data_offset <= cap && b.data_size == cap && b.data == (char *)mem.data() + guard, "write %zu, %s: position %zu of %zu, it was %zu", i, names[e.fn], b.data_offset, cap, pos);
        VP_CHECK(std::equal(m.begin(), m.end(), mem.begin() + guard), "write %zu, %s: what was written before is changed", i, names[e.fn]);
        if (fits) { VP_CHECK(b.data_offset == pos + w.size() && std::equal(w.begin(), w.end(), mem.begin() + guard + pos), "write %zu, %s: other octets than on their own", i, names[e.fn]); good++; } else fails++;
        for (size_t k = 0; k < guard; k++) VP_CHECK(mem[k] == 0x3C && mem[guard + cap + k] == 0x3C, "write %zu, %s: touched memory outside the buffer", i, names[e.fn]);
    }
    c.note("%zu writes into %zu octets, %zu refused", n, cap, fails); if (good && n > 1) c.nontrivial(fp); if (fails && good) c.label("some refused"); 
}
