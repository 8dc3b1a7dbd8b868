/* C12: BER tag numbers, identifiers and lengths */
#include "codec.h"
using namespace vp;

static uint64_t val56(Case &c) { return c.interesting() & ((1ull << 56) - 1); }
static uint64_t v7(Case &c)     /* dense at 7-bit boundaries */
{
    if (c.flip()) { unsigned k = 1 + c.draw(7); uint64_t v = (1ull << (7 * k)) + (uint64_t)c.range(-2, 2); return v & ((1ull << 56) - 1); }
    return val56(c);
}

VP_PROP(tag_round_trip, 250000, 6000000)
{
    uint64_t v = v7(c); Bytes w = ref::b128(v); size_t tail = c.draw(2);
    c.note("tag %llu -> %s", (unsigned long long)v, hex(w).c_str()); c.nontrivial(v); c.label(strf("tag %zu octets", w.size()));
    VP_CHECK(crefl_asn1_ber_tag_length(v) == w.size(), "tag %llu: predicted length %zu, minimal form has %zu octets", (unsigned long long)v, crefl_asn1_ber_tag_length(v), w.size());
    Buf o(w.size() + tail); int r = crefl_asn1_ber_tag_write(&o, v);
    VP_CHECK(r == 0 && o.written() == w, "tag %llu: write gave %d, %s, expected %s", (unsigned long long)v, r, hex(o.written()).c_str(), hex(w).c_str());
    Bytes in = ref::cat(w, c.bytes(tail)); Buf b(in); u64 got = 0x5a5a; r = crefl_asn1_ber_tag_read(&b, &got);
    VP_CHECK(r == 0 && got == v && b.pos() == w.size(), "tag %llu: read of %s gave %d, %llu, %zu octets", (unsigned long long)v, hex(in).c_str(), r, (unsigned long long)got, b.pos());
}
VP_PROP(tag_out_of_range, 4000, 100000)
{
    uint64_t v = c.interesting() | 1ull << (56 + c.draw(7)); Buf o(16);
    c.nontrivial(v); c.note("tag %llu", (unsigned long long)v);
    VP_CHECK(crefl_asn1_ber_tag_write(&o, v) < 0, "tag %llu beyond 56 bits was written as %s", (unsigned long long)v, hex(o.written()).c_str());
}
VP_PROP(ident_round_trip, 250000, 6000000)
{
    ref::Ident i; i.num = c.flip() ? c.draw(140) : v7(c); i.cls = c.draw(3); i.cons = c.draw(1);
    Bytes w = ref::ident(i); size_t tail = c.draw(2);
    asn1_id id; memset(&id, 0xff, sizeof id); id._identifier = i.num; id._constructed = i.cons; id._class = i.cls;
    c.note("identifier class %u constructed %u number %llu -> %s", i.cls, i.cons, (unsigned long long)i.num, hex(w).c_str());
    c.nontrivial(mix(i.num * 8 + i.cls * 2 + i.cons)); c.label(strf("ident class %u", i.cls));
    VP_CHECK(crefl_asn1_ber_ident_length(id) == w.size(), "identifier number %llu: predicted length %zu, expected %zu", (unsigned long long)i.num, crefl_asn1_ber_ident_length(id), w.size());
    Buf o(w.size() + tail); int r = crefl_asn1_ber_ident_write(&o, id);
    VP_CHECK(r == 0 && o.written() == w, "identifier class %u cons %u number %llu: write gave %d, %s, expected %s", i.cls, i.cons, (unsigned long long)i.num, r, hex(o.written()).c_str(), hex(w).c_str());
    Bytes in = ref::cat(w, c.bytes(tail)); Buf b(in); asn1_id g; memset(&g, c.flip() ? 0xff : 0, sizeof g); r = crefl_asn1_ber_ident_read(&b, &g);
    VP_CHECK(r == 0 && g._identifier == i.num && g._class == i.cls && g._constructed == i.cons && b.pos() == w.size(),
        "identifier %s: read gave %d, class %u cons %u number %llu, %zu octets", hex(in).c_str(), r, (unsigned)g._class, (unsigned)g._constructed, (unsigned long long)g._identifier, b.pos());
}
VP_PROP(length_round_trip, 250000, 6000000)
{
    uint64_t v = c.interesting();
    if (c.chance(1, 3)) { unsigned k = 1 + c.draw(6); v = (1ull << (8 * k)) + (uint64_t)c.range(-2, 2); }
    Bytes w = ref::length(v); size_t tail = c.draw(2);
    c.note("length %llu -> %s", (unsigned long long)v, hex(w).c_str()); c.nontrivial(v); c.label(strf("length %zu octets", w.size()));
    VP_CHECK(crefl_asn1_ber_length_length(v) == w.size(), "length %llu: predicted %zu, minimal form has %zu octets", (unsigned long long)v, crefl_asn1_ber_length_length(v), w.size());
    Buf o(w.size() + tail); int r = crefl_asn1_ber_length_write(&o, v);
    VP_CHECK(r == 0 && o.written() == w, "length %llu: write gave %d, %s, expected %s", (unsigned long long)v, r, hex(o.written()).c_str(), hex(w).c_str());
    Bytes in = ref::cat(w, c.bytes(tail)); Buf b(in); u64 got = 0x5a5a; r = crefl_asn1_ber_length_read(&b, &got);
    VP_CHECK(r == 0 && got == v && b.pos() == w.size(), "length %llu: read of %s gave %d, %llu, %zu octets", (unsigned long long)v, hex(in).c_str(), r, (unsigned long long)got, b.pos());
}
/* arbitrary input: success implies the reference agrees; every strict prefix of a canonical form fails */
static Bytes wild(Case &c)
{
    Bytes b;
    switch (c.draw(4)) {
    case 0: b = c.bytes(c.draw(12)); break;
    case 1: { size_t n = c.draw(12); for (size_t i = 0; i < n; i++) b.push_back((uint8_t)(0x80 | c.byte())); if (c.flip()) b.push_back(c.byte() & 0x7f); } break;
    case 2: b = ref::b128(c.interesting()); if (c.flip()) b.insert(b.begin(), (uint8_t)(c.flip() ? 0x1f | c.byte() : c.byte())); break;
    case 3: b = ref::length(c.interesting()); break;
    default: { b.push_back((uint8_t)(0x80 + c.draw(10))); Bytes t = c.bytes(c.draw(10)); b.insert(b.end(), t.begin(), t.end()); } break;
    }
    if (!b.empty() && c.chance(1, 4)) b.resize(c.draw(b.size()));
    if (c.chance(1, 4)) b.push_back(c.byte());
    return b;
}
VP_PROP(read_any, 500000, 12000000)
{
    Bytes in = wild(c); size_t st = in.empty() ? 0 : c.chance(1, 8) ? c.draw(in.size()) : 0; size_t n = in.size() - st; const uint8_t *p = in.data() + st;
    c.note("%s from %zu", hex(in).c_str(), st);
    if (n > 1) c.nontrivial(hash_bytes(in.data(), in.size(), st));
    {
        Buf b(in, st); u64 v = 1; int r = crefl_asn1_ber_tag_read(&b, &v); ref::Dec d = ref::b128_dec(p, n);
        if (r == 0) { c.label("tag accepted"); VP_CHECK(d.ok && d.val == v && b.pos() == st + d.used, "tag read of %s at %zu accepted: value %llu, %zu octets; reference: %s %llu, %zu octets", hex(in).c_str(), st, (unsigned long long)v, b.pos() - st, d.ok ? "valid" : "invalid", (unsigned long long)d.val, d.used); }
        else { c.label("tag rejected"); VP_CHECK(!(d.ok && d.canon && d.val < (1ull << 56)), "tag read rejected %s at %zu, the minimal form of %llu", hex(in).c_str(), st, (unsigned long long)d.val); }
        VP_CHECK(b.pos() <= in.size(), "position beyond the input");
    }
    {
        Buf b(in, st); u64 v = 1; int r = crefl_asn1_ber_length_read(&b, &v); ref::Dec d = ref::length_dec(p, n);
        if (r == 0) { c.label("length accepted"); VP_CHECK(d.ok && d.val == v && b.pos() == st + d.used, "length read of %s at %zu accepted: value %llu, %zu octets; reference: %s %llu, %zu octets", hex(in).c_str(), st, (unsigned long long)v, b.pos() - st, d.ok ? "valid" : "invalid", (unsigned long long)d.val, d.used); }
        else { c.label("length rejected"); VP_CHECK(!(d.ok && d.canon), "length read rejected %s at %zu, the minimal form of %llu", hex(in).c_str(), st, (unsigned long long)d.val); }
        VP_CHECK(b.pos() <= in.size(), "position beyond the input");
    }
    {
        Buf b(in, st); asn1_id g; memset(&g, 0, sizeof g); int r = crefl_asn1_ber_ident_read(&b, &g); ref::IdentDec d = ref::ident_dec(p, n);
        if (r == 0) { c.label("ident accepted"); VP_CHECK(d.ok && d.id.num == g._identifier && d.id.cls == g._class && d.id.cons == g._constructed && b.pos() == st + d.used,
            "identifier read of %s at %zu accepted: class %u cons %u number %llu, %zu octets; reference: %s class %u cons %u number %llu, %zu octets", hex(in).c_str(), st, (unsigned)g._class, (unsigned)g._constructed, (unsigned long long)g._identifier, b.pos() - st,
            d.ok ? "valid" : "invalid", d.id.cls, d.id.cons, (unsigned long long)d.id.num, d.used); }
        else { c.label("ident rejected"); VP_CHECK(!(d.ok && d.canon && d.id.num < (1ull << 56)), "identifier read rejected %s at %zu, minimal for number %llu", hex(in).c_str(), st, (unsigned long long)d.id.num); }
        VP_CHECK(b.pos() <= in.size(), "position beyond the input");
    }
}

/* the numbers and names of the universal tags (X.680, table 1) and classes */
VP_PROP(universal, 4000, 100000)
{
    static const struct { unsigned v, num; const char *name; } t[] = {
        { asn1_tag_boolean, 1, "boolean" }, { asn1_tag_integer, 2, "integer" }, { asn1_tag_bit_string, 3, "bit_string" }, { asn1_tag_octet_string, 4, "octet_string" }, { asn1_tag_null, 5, "null" },
        { asn1_tag_object_identifier, 6, "object_identifier" }, { asn1_tag_object_descriptor, 7, "object_descriptor" }, { asn1_tag_external, 8, "external" }, { asn1_tag_real, 9, "real" },
        { asn1_tag_enumerated, 10, "enumerated" }, { asn1_tag_embedded_pdv, 11, "embedded_pdv" }, { asn1_tag_utf8_string, 12, "utf8_string" }, { asn1_tag_relative_oid, 13, "relative_oid" },
        { asn1_tag_sequence, 16, "sequence" }, { asn1_tag_set, 17, "set" }, { asn1_tag_numeric_string, 18, "numeric_string" }, { asn1_tag_printable_string, 19, "printable_string" },
        { asn1_tag_teletext_string, 20, 0 }, { asn1_tag_t61_string, 20, "t61_string" }, { asn1_tag_ia5_string, 22, "ia5_string" }, { asn1_tag_utc_time, 23, "utc_time" },
        { asn1_tag_generalized_time, 24, "generalized_time" }, { asn1_tag_graphic_string, 25, "graphic_string" }, { asn1_tag_visible_string, 26, 0 }, { asn1_tag_iso646_string, 26, "iso646_string" },
        { asn1_tag_general_string, 27, "general_string" }, { asn1_tag_universal_string, 28, 0 }, { asn1_tag_utf32_string, 28, "utf32_string" }, { asn1_tag_bmp_string, 30, 0 }, { asn1_tag_utf16_string, 30, "utf16_string" } };
    static const unsigned cls[] = { asn1_class_universal, asn1_class_application, asn1_class_context_specific, asn1_class_private };
    unsigned k = c.draw(sizeof(t) / sizeof(*t) - 1), q = c.draw(3); VP_CHECK(t[k].v == t[k].num, "universal tag %u has the constant %u", t[k].num, t[k].v); VP_CHECK(cls[q] == q, "class %u has the constant %u", q, cls[q]);
    if (t[k].name) VP_CHECK(!strcmp(asn1_tag_name(t[k].v), t[k].name), "tag %s is named %s", t[k].name, asn1_tag_name(t[k].v));
    uint64_t beyond = 32 + (c.interesting() >> 1); VP_CHECK(!strcmp(asn1_tag_name(beyond), "<unknown>"), "tag %llu is named %s", (unsigned long long)beyond, asn1_tag_name(beyond));
    asn1_id i = {}; i._identifier = t[k].v; i._class = cls[q]; Buf o(4); int r = crefl_asn1_ber_ident_write(&o, i); uint8_t w = (uint8_t)(q << 6 | t[k].num);
    VP_CHECK(r == 0 && o.written() == (Bytes{ w }), "class %u tag %u is written as %s", q, t[k].num, hex(o.written()).c_str());
    c.note("class %u, universal tag %u, beyond %llu", q, t[k].num, (unsigned long long)beyond); c.nontrivial(mix(k * 4 + q) ^ beyond);
}
