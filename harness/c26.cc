/* C26: growing databases keep everything; built-in intrinsics */
#include "dbgen.h"
#include <crefl/types.h>

struct BI { const char *name; unsigned props, width; };
/* the defined intrinsics: names, numeric properties (padding aside) and widths */
enum { NUM = _decl_integral | _decl_real | _decl_complex | _decl_signed | _decl_unsigned | _decl_ieee754 };
static const BI builtins[] = {
    { "bit", _decl_uint, 1 }, { "sign", _decl_sint, 1 }, { "ubyte", _decl_uint, 8 }, { "byte", _decl_sint, 8 }, { "ushort", _decl_uint, 16 }, { "short", _decl_sint, 16 },
    { "uint", _decl_uint, 32 }, { "int", _decl_sint, 32 }, { "ulong", _decl_uint, 64 }, { "long", _decl_sint, 64 }, { "ucent", _decl_uint, 128 }, { "cent", _decl_sint, 128 },
    { "half", _decl_float, 16 }, { "float", _decl_float, 32 }, { "double", _decl_float, 64 }, { "quad", _decl_float, 128 },
    { "chalf", _decl_cfloat, 32 }, { "cfloat", _decl_cfloat, 64 }, { "cdouble", _decl_cfloat, 128 }, { "cquad", _decl_cfloat, 256 },
};
enum { NB = sizeof builtins / sizeof *builtins };
VP_PROP(growth, 40000, 1200000)
{
    Db d; bool defaults = c.flip(); if (defaults) crefl_db_defaults(d.db);
    struct N { uint32_t idx; unsigned tag, props; uint64_t qty; uint32_t next, link, attr; std::string name; };
    std::vector<N> ns; std::map<uint32_t, std::string> names; size_t steps = 1 + (c.chance(1, 12) ? c.draw(1500) : c.size(120));
    std::vector<std::pair<size_t, decl_node>> before; std::vector<std::string> bnames;
    for (size_t i = 0; i < d.db->decl_offset; i++) { before.push_back({ i, d.db->decl[i] }); bnames.push_back(crefl_decl_name(crefl_lookup(d.db, i))); }
    size_t nn = 0, longest = 0;
    auto verify = [&](const char *when) {
        for (auto &n : ns) {
            decl_ref r = crefl_lookup(d.db, n.idx); decl_node *p = crefl_decl_ptr(r);
            VP_CHECK(crefl_decl_tag(r) == n.tag && p->_props == n.props && p->_quantity == n.qty && p->_next == n.next && p->_link == n.link && p->_attr == n.attr, "%s: declaration %u changed: tag %u props %x quantity %llx next %u link %u attr %u", when, n.idx, p->_tag, p->_props, (ull)p->_quantity, p->_next, p->_link, p->_attr);
            VP_CHECK(n.name == crefl_decl_name(r), "%s: name of declaration %u is '%.80s', it was given '%.80s'", when, n.idx, crefl_decl_name(r), n.name.c_str());
        }
        for (auto &x : names) VP_CHECK(x.second == d.db->name + x.first, "%s: name %u is '%.80s', it was '%.80s'", when, x.first, d.db->name + x.first, x.second.c_str());
        for (size_t i = 0; i < before.size(); i++) VP_CHECK(!memcmp(&d.db->decl[i], &before[i].second, sizeof(decl_node)) && bnames[i] == crefl_decl_name(crefl_lookup(d.db, i)), "%s: earlier declaration %zu changed", when, i);
        VP_CHECK(d.db->decl[0]._tag == 0 && !*crefl_decl_name(crefl_lookup(d.db, 0)), "%s: declaration 0", when);
        VP_CHECK(d.db->name_offset <= d.db->name_size && d.db->decl_offset <= d.db->decl_size, "%s: sizes", when);
    };
    auto newname = [&](N *n) {
        std::string s = c.chance(1, 8) ? std::string(c.draw(c.chance(1, 10) ? 70000 : 700), 'a' + c.draw(25)) : gen_name(c);
        /* lengths right at the end of the storage */
        if (c.chance(1, 6) && d.db->name_size < (1 << 17)) { size_t room = d.db->name_size - d.db->name_offset; s = std::string(std::max<int64_t>(0, (int64_t)room + c.range(-3, 3)), 'r'); }
        decl_id id = crefl_name_new(d.db, s.c_str()); nn++; longest = std::max(longest, s.size());
        VP_CHECK(id < d.db->name_offset, "name identifier %u of %zu", id, d.db->name_offset);
        if (!s.empty()) { VP_CHECK(!names.count(id), "name identifier %u was given before", id); VP_CHECK(id != 0, "name '%.60s' got the identifier of the empty name", s.c_str()); names[id] = s; }
        else VP_CHECK(!d.db->name[id], "the empty name reads '%.60s'", d.db->name + id);
        if (n) { crefl_decl_ptr(crefl_lookup(d.db, n->idx))->_name = id; n->name = s; }
    };
    for (size_t i = 0; i < steps; i++) {
        unsigned op = c.below(6);
        if (defaults && !ns.empty() && c.chance(1, 40)) {   /* go on with what a reader makes of it */
            d.db->root_element = ns[0].idx; Bytes img = image(d.db); Db e;
            VP_CHECK(crefl_db_read_mem(e.db, img.data(), img.size()) == 0, "not readable"); std::swap(d.db, e.db); c.label("read back"); verify("read back");
        }
        if (op < 3 || ns.empty()) {
            N n = {}; n.tag = c.chance(1, 10) ? (unsigned)c.interesting() : (unsigned)c.draw(NTAGS - 1);
            decl_ref r = crefl_decl_new(d.db, n.tag); n.idx = crefl_decl_idx(r);
            VP_CHECK(r.db == d.db && n.idx != 0 && n.idx < d.db->decl_offset, "new declaration is %u of %zu", n.idx, d.db->decl_offset);
            for (auto &o : ns) VP_CHECK(o.idx != n.idx, "declaration %u was given before", n.idx);
            VP_CHECK(n.idx >= before.size(), "declaration %u is a built-in one", n.idx);
            decl_node *p = crefl_decl_ptr(r);
            VP_CHECK(p->_tag == n.tag && !p->_props && !p->_name && !p->_next && !p->_link && !p->_attr && !p->_quantity, "new declaration %u is not empty", n.idx);
            ns.push_back(n);
        } else if (op == 3) newname(nullptr);
        else if (op == 4) newname(&ns[c.below(ns.size())]);
        else { N &n = ns[c.below(ns.size())]; decl_node *p = crefl_decl_ptr(crefl_lookup(d.db, n.idx)); p->_props = n.props = (unsigned)c.u64(); p->_quantity = n.qty = c.u64(); p->_link = n.link = ns[c.below(ns.size())].idx; p->_next = n.next = ns[c.below(ns.size())].idx; p->_attr = n.attr = ns[c.below(ns.size())].idx; }
        if (c.chance(1, 10)) verify("growing");
    }
    verify("at the end"); c.note("%zu declarations, %zu names, longest %zu", ns.size(), nn, longest);
    if (ns.size() > 1) c.nontrivial(mix(ns.size() ^ mix(nn ^ mix(longest ^ mix(d.db->name_offset)))));
}

/* past the limits of sixteen bits, in both tables */
VP_PROP(huge, 4, 60)
{
    Db d; if (c.flip()) crefl_db_defaults(d.db); size_t n = 65000 + c.draw(20000), l = 1 + c.draw(60); uint64_t s = c.u64(); std::vector<std::pair<uint32_t, uint32_t>> ids; auto nm = [&](size_t i) { uint64_t h = mix(s ^ i); return std::to_string(i) + std::string(h % l, 'a' + h % 26); };
    size_t n0 = d.db->decl_offset;
    for (size_t i = 0; i < n; i++) {
        decl_ref r = crefl_decl_new(d.db, 1 + i % (NTAGS - 1)); decl_id id = crefl_name_new(d.db, nm(i).c_str()); decl_node *p = crefl_decl_ptr(r); p->_name = id; p->_quantity = mix(s + i); p->_next = (decl_id)(crefl_decl_idx(r) - 1); ids.push_back({ (uint32_t)crefl_decl_idx(r), id });
    }
    c.note("%zu declarations, names of %zu octets", n, d.db->name_offset); c.nontrivial(s ^ n); std::set<uint32_t> seen;
    VP_CHECK(d.db->decl_offset == n0 + n, "%zu declarations, expected %zu", d.db->decl_offset, n0 + n);
    for (size_t i = 0; i < n; i++) {
        decl_ref r = crefl_lookup(d.db, ids[i].first); decl_node *p = crefl_decl_ptr(r);
        VP_CHECK(seen.insert(ids[i].first).second, "declaration %u was given twice", ids[i].first);
        VP_CHECK(crefl_decl_idx(r) == ids[i].first && crefl_decl_tag(r) == 1 + i % (NTAGS - 1) && p->_quantity == mix(s + i) && p->_next == ids[i].first - 1 && !p->_link && !p->_attr && !p->_props, "declaration %u, number %zu, changed", ids[i].first, i);
        VP_CHECK(nm(i) == crefl_decl_name(r), "name of declaration %u, number %zu, is '%.60s', it was given '%.60s'", ids[i].first, i, crefl_decl_name(r), nm(i).c_str());
    }
}
VP_PROP(intrinsics, 60000, 2000000)
{
    Db d; crefl_db_defaults(d.db); size_t n0 = d.db->decl_offset;
    VP_CHECK(n0 == NB + 3, "%zu declarations in a new database, expected %d", n0 - 1, NB + 2);
    /* more intrinsics and other declarations of the same width and properties */
    struct U { unsigned tag, props; uint64_t w; }; std::vector<U> own; unsigned k = c.size(8);
    for (unsigned i = 0; i < k; i++) {
        U u = { c.flip() ? (unsigned)_decl_intrinsic : (unsigned)c.draw(NTAGS - 1), c.flip() ? (unsigned)builtins[c.below(NB)].props | (c.flip() ? (unsigned)_decl_pad_pow2 : 0) : (unsigned)c.u64(), c.flip() ? builtins[c.below(NB)].width : c.interesting() };
        decl_ref r = crefl_decl_new(d.db, u.tag); decl_id id = crefl_name_new(d.db, "own"); decl_node *p = crefl_decl_ptr(r); p->_props = u.props; p->_quantity = u.w; p->_name = id; own.push_back(u);
    }
    std::set<std::string> names; unsigned voids = 0, bools = 0;
    for (size_t i = 1; i < n0; i++) {
        decl_ref r = crefl_lookup(d.db, i); std::string nm = crefl_decl_name(r); VP_CHECK(crefl_is_intrinsic(r) && names.insert(nm).second, "declaration %zu is a %s named %s", i, tag_str(crefl_decl_tag(r)), nm.c_str());
        if (nm == "void") { voids++; VP_CHECK(!(crefl_decl_props(r) & NUM), "void has properties %x", crefl_decl_props(r)); }
        if (nm == "bool") { bools++; VP_CHECK((crefl_decl_props(r) & _decl_integral) && crefl_decl_qty(r) == 1, "bool has properties %x width %llu", crefl_decl_props(r), (ull)crefl_decl_qty(r)); }
    }
    VP_CHECK(voids == 1 && bools == 1, "%u void, %u bool", voids, bools);
    for (auto &b : builtins) {
        decl_ref r = crefl_intrinsic(d.db, b.props | _decl_pad_pow2, b.width);
        VP_CHECK(r.db == d.db && r.decl_idx && !strcmp(crefl_decl_name(r), b.name) && (crefl_decl_props(r) & NUM) == b.props && crefl_decl_qty(r) == b.width, "intrinsic with properties %x of %u bits is %s (%zu)", b.props, b.width, crefl_decl_name(r), (size_t)r.decl_idx);
    }
    { decl_ref r = crefl_intrinsic(d.db, _decl_sint | _decl_pad_byte, 1); VP_CHECK(r.decl_idx && !strcmp(crefl_decl_name(r), "bool"), "the one bit byte padded integer is %s", crefl_decl_name(r)); }
    /* any question: a match if there is one, and only a match */
    for (int q = 0; q < 6; q++) {
        unsigned props = c.below(3) ? builtins[c.below(NB)].props & (c.flip() ? ~0u : (unsigned)c.u64()) : (unsigned)(1u << c.draw(31)) | (c.flip() ? 1u << c.draw(31) : 0);
        uint64_t w = c.below(4) ? builtins[c.below(NB)].width : c.draw(300);
        if (c.chance(1, 3) && !own.empty()) { const U &u = c.pick(own); props = u.props; w = u.w; }
        size_t have = 0; for (size_t i = 1; i < d.db->decl_offset && !have; i++) { decl_node *p = d.db->decl + i; if (p->_tag == _decl_intrinsic && p->_quantity == w && (p->_props & props) == props) have = i; }
        decl_ref r = crefl_intrinsic(d.db, props, w); decl_node *p = crefl_decl_ptr(r);
        c.nontrivial(mix(props ^ mix(w ^ mix(k)))); c.note("[%x,%llu]->%zu ", props, (ull)w, (size_t)r.decl_idx);
        if (!have) { VP_CHECK(r.db == d.db && r.decl_idx == 0, "no intrinsic has properties %x and %llu bits, got %s", props, (ull)w, crefl_decl_name(r)); c.label("none"); continue; }
        VP_CHECK(r.decl_idx && r.decl_idx < d.db->decl_offset && p->_tag == _decl_intrinsic && p->_quantity == w && (p->_props & props) == props, "properties %x, %llu bits: got declaration %zu", props, (ull)w, (size_t)r.decl_idx);
        if (have < n0) VP_CHECK(r.decl_idx < n0, "properties %x, %llu bits: a built-in intrinsic has them, got declaration %zu", props, (ull)w, (size_t)r.decl_idx);
        c.label("found");
    }
}
