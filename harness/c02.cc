/* C02: any byte string is rejected or loaded as a safe database */
#include "dbgen.h"

static uint32_t get32(const Bytes &b, size_t o) { uint32_t v; memcpy(&v, b.data() + o, 4); return v; }
static void put32(Bytes &b, size_t o, uint32_t v) { if (o + 4 <= b.size()) memcpy(b.data() + o, &v, 4); }

static Bytes valid_image(Case &c)
{
    Model m; if (c.flip()) m = any_graph(c, c.chance(1, 10) ? 200 : 20); else { SrcGen g(c, 40); g.start(); g.decls(1 + c.size(10)); m = g.m; }
    std::vector<uint32_t> place; Db a(build_db(m, any_order(c, m), place, c.draw(3))); return image(a.db);
}
struct Scan { unsigned count = 0, names = 0; };
/* what an accepted database must be */
static void check_safe(decl_db *db, const Bytes &b, const char *how)
{
    VP_CHECK(db->decl_offset >= 1 && db->name_offset >= 1 && db->decl_offset <= db->decl_size && db->name_offset <= db->name_size, "%s: sizes decl %zu of %zu, names %zu of %zu", how, db->decl_offset, db->decl_size, db->name_offset, db->name_size);
    VP_CHECK(db->root_element < db->decl_offset, "%s: root %u of %zu", how, db->root_element, db->decl_offset);
    size_t sum = 0;
    for (size_t i = 0; i < db->decl_offset; i++) {
        decl_node *d = db->decl + i;
        VP_CHECK(d->_link < db->decl_offset && d->_next < db->decl_offset && d->_attr < db->decl_offset, "%s: declaration %zu of %zu: link %u next %u attr %u", how, i, db->decl_offset, d->_link, d->_next, d->_attr);
        VP_CHECK(d->_name < db->name_offset && memchr(db->name + d->_name, 0, db->name_offset - d->_name), "%s: name of declaration %zu at %u is not terminated within %zu", how, i, d->_name, db->name_offset);
        decl_ref r = crefl_lookup(db, i); sum += strlen(crefl_decl_name(r)) + crefl_decl_tag(crefl_decl_next(r)) + crefl_decl_tag(crefl_decl_link(r)) + crefl_decl_tag(crefl_decl_attr(r));
    }
    /* it is the input that was loaded */
    uint32_t cnt = get32(b, 8);
    size_t nb = cnt ? nbuiltin() + 1 : 1;
    VP_CHECK(db->decl_offset == nb + cnt, "%s: %zu declarations for %u in the input", how, db->decl_offset, cnt);
    for (uint32_t i = 0; i < cnt; i++) VP_CHECK(!memcmp(db->decl + nb + i, b.data() + 20 + 32 * (size_t)i, 32), "%s: declaration %u is not what the input says", how, i);
    if (cnt) VP_CHECK(db->root_element == get32(b, 16), "%s: root %u, the input says %u", how, db->root_element, get32(b, 16));
    if (cnt) for (uint32_t i = 0; i < cnt; i++) {   /* names of the input behind the built-in ones */
        decl_node *d = db->decl + nb + i; Db e; crefl_db_defaults(e.db);
        if (d->_name >= e.db->name_offset) VP_CHECK(!strcmp(db->name + d->_name, (const char *)b.data() + 20 + 32 * (size_t)cnt + (d->_name - e.db->name_offset)), "%s: name of declaration %u is not what the input says", how, i);
        if (i > 8) break;
    }
    (void)sum;
}
static int load(Case &c, const Bytes &b, bool file, const char *how)
{
    Db d; int rc;
    if (file) {
        static std::string path = std::string(getenv("VP_SCRATCH") ? getenv("VP_SCRATCH") : "/tmp") + "/c02." + std::to_string(getpid());
        FILE *f = fopen(path.c_str(), "wb"); VP_CHECK(f && (!b.size() || fwrite(b.data(), 1, b.size(), f) == b.size()) && fclose(f) == 0, "scratch file");
        rc = crefl_db_read_file(d.db, path.c_str());
    } else {
        std::unique_ptr<uint8_t[]> p(new uint8_t[b.size()]); if (b.size()) memcpy(p.get(), b.data(), b.size());
        rc = crefl_db_read_mem(d.db, p.get(), b.size());
        if (rc == 0) VP_CHECK(b.empty() || !memcmp(p.get(), b.data(), b.size()), "the input was changed");
    }
    if (rc == 0) check_safe(d.db, b, how);
    VP_CHECK(rc <= 0, "%s: the result is %d, neither success nor an error", how, rc);
    return rc;
}
/* every truncation of a valid image is rejected; the image itself and nothing else is needed */
VP_PROP(truncated, 6000, 200000)
{
    Bytes b = valid_image(c); c.nontrivial(hash_bytes(b.data(), b.size())); c.note("image of %zu octets", b.size());
    bool file = c.chance(1, 6);
    VP_CHECK(load(c, b, file, "valid image") == 0, "the valid image was rejected");
    for (int k = 0; k < 10; k++) {
        size_t n = k == 0 ? b.size() - 1 : k == 1 ? std::min<size_t>(b.size() - 1, c.draw(40)) : k < 4 ? b.size() - 1 - c.below(std::min<size_t>(b.size(), 40)) : c.below(b.size());
        Bytes t(b.begin(), b.begin() + n);
        VP_CHECK(load(c, t, file, "truncated") < 0, "the image of %zu octets cut to %zu was accepted", b.size(), n);
    }
}
VP_PROP(all_truncations, 60, 1500)
{
    Bytes b = valid_image(c); c.nontrivial(hash_bytes(b.data(), b.size())); c.note("image of %zu octets, every prefix", b.size());
    for (size_t n = b.size(); n-- > 0 && b.size() - n < 6000;) VP_CHECK(load(c, Bytes(b.begin(), b.begin() + n), false, "truncated") < 0, "the image of %zu octets cut to %zu was accepted", b.size(), n);
}
static void mutate(Case &c, Bytes &b)
{
    uint32_t cnt = b.size() >= 20 ? get32(b, 8) : 0, names = b.size() >= 20 ? get32(b, 12) : 0; uint32_t nb = nbuiltin() + 1;
    uint32_t lim = nb + cnt;
    auto hostile = [&](uint32_t l) -> uint32_t {
        switch (c.below(7)) { case 0: return l; case 1: return l - 1; case 2: return l + (uint32_t)c.draw(40); case 3: return 0xffffffffu - (uint32_t)c.draw(40); case 4: return 0x80000000u + (uint32_t)c.draw(4) - 2; case 5: return (uint32_t)c.below(l + 1); default: return (uint32_t)c.u64(); }
    };
    unsigned k = 1 + c.below(3);
    for (unsigned i = 0; i < k; i++) {
        switch (c.below(12)) {
        case 0: put32(b, 8, c.flip() ? cnt + (uint32_t)c.range(-3, 3) : hostile(cnt)); c.note(" count"); break;
        case 1: put32(b, 12, c.flip() ? names + (uint32_t)c.range(-3, 3) : hostile(names)); c.note(" namesize"); break;
        case 2: put32(b, 16, c.flip() ? nb + (uint32_t)c.range(-3, 3) : hostile(lim)); c.note(" root"); break;
        case 3: case 4: case 5: case 6: if (cnt) { size_t f = c.below(4), e = c.below(cnt); Db d; crefl_db_defaults(d.db); uint32_t nl = (uint32_t)d.db->name_offset + names;
            put32(b, 20 + 32 * e + 8 + 4 * f, hostile(f == 0 ? nl : lim)); c.note(" ref %zu of %zu", f, e); } break;
        case 7: if (b.size()) { b[b.size() - 1 - c.below(std::min<size_t>(b.size(), 4))] = (uint8_t)(c.flip() ? 'A' : c.byte()); c.note(" tail"); } break;
        case 8: if (b.size()) { b[c.below(b.size())] ^= 1 << c.draw(7); c.note(" bit"); } break;
        case 9: { size_t p = c.below(b.size() + 1); Bytes z = c.bytes(c.draw(40)); b.insert(b.begin() + p, z.begin(), z.end()); c.note(" insert %zu", z.size()); break; }
        case 10: { size_t p = c.below(b.size() + 1), n = std::min<size_t>(b.size() - p, c.draw(40)); b.erase(b.begin() + p, b.begin() + p + n); c.note(" erase %zu", n); break; }
        default: if (b.size()) { b.resize(c.below(b.size()) + (c.flip() ? 0 : b.size() / 2)); c.note(" resize"); } break;
        }
    }
}
VP_PROP(mutated, 90000, 3000000)
{
    Bytes b = valid_image(c); mutate(c, b); bool file = c.chance(1, 12);
    if (b.size() >= 20) c.nontrivial(hash_bytes(b.data(), b.size()));
    c.note(" %zu octets", b.size());
    c.label(load(c, b, file, "mutated") == 0 ? "accepted" : "rejected");
}
/* images written by hand: small tables with every reference at or around the boundary */
VP_PROP(crafted, 120000, 4000000)
{
    uint32_t nb = nbuiltin() + 1; Db d; crefl_db_defaults(d.db); uint32_t nn = (uint32_t)d.db->name_offset;
    uint32_t cnt = (uint32_t)c.draw(6); Bytes b; auto p32 = [&](uint32_t v) { for (int i = 0; i < 4; i++) b.push_back(v >> 8 * i); };
    Bytes names; unsigned k = c.draw(20); for (unsigned i = 0; i < k; i++) names.push_back(c.chance(1, 3) ? 0 : 'a' + c.draw(3));
    if (c.below(4) && !names.empty()) names.back() = 0;
    const char *mg = c.chance(1, 20) ? "crefl001" : "crefl000"; b.insert(b.end(), mg, mg + 8);
    auto around = [&](uint32_t v) { return c.below(6) ? v : v + (uint32_t)c.range(-1, 1); };
    p32(around(cnt)); p32(around((uint32_t)names.size())); p32(around(nb));
    for (uint32_t i = 0; i < cnt; i++) {
        p32((uint32_t)c.draw(25)); p32((uint32_t)c.draw(3));
        auto edge = [&](uint32_t l) { return c.below(3) ? (uint32_t)c.below(l) : c.below(4) ? l - 1 : l; };
        p32(edge(nn + (uint32_t)names.size())); for (int f = 0; f < 3; f++) p32(edge(nb + cnt));
        p32((uint32_t)c.u64()); p32(0);
    }
    b.insert(b.end(), names.begin(), names.end());
    for (size_t i = c.draw(3); i; i--) if (c.flip()) b.push_back((uint8_t)c.byte());
    c.nontrivial(hash_bytes(b.data(), b.size())); c.note("%s", hex(b).c_str());
    /* valid by the format's rules? then it must load */
    uint32_t hc = get32(b, 8), hn = get32(b, 12); bool ok = !memcmp(b.data(), "crefl000", 8) && hc && 20 + 32ull * hc + hn == b.size() && get32(b, 16) == nb && (hn == 0 || b.back() == 0);
    if (ok) for (uint32_t i = 0; i < hc; i++) { size_t o = 20 + 32 * (size_t)i; ok = ok && get32(b, o + 8) < nn + hn && get32(b, o + 12) < nb + hc && get32(b, o + 16) < nb + hc && get32(b, o + 20) < nb + hc && get32(b, o) < NTAGS; }
    int rc = load(c, b, c.chance(1, 30), "crafted");
    if (ok) { c.label("valid"); VP_CHECK(rc == 0, "a valid image was rejected"); } else c.label(rc ? "rejected" : "accepted");
}
VP_PROP(noise, 30000, 1000000)
{
    Bytes b; if (c.flip()) { const char *m = "crefl000"; b.assign(m, m + 8); } Bytes z = c.flip() ? c.bytes(c.draw(120)) : c.block(c.draw(3000)); b.insert(b.end(), z.begin(), z.end());
    if (b.size() > 1) c.nontrivial(hash_bytes(b.data(), b.size()));
    c.note("%s", hex(b).c_str()); c.label(load(c, b, c.chance(1, 10), "noise") == 0 ? "accepted" : "rejected");
}
