/* C03: reflection queries list exactly the matching children */
#include "dbgen.h"

typedef int (*query)(decl_ref, decl_ref *, size_t *);
static bool any(unsigned) { return true; }
static bool types(unsigned t) { return t == _decl_typedef || t == _decl_intrinsic || t == _decl_set || t == _decl_enum || t == _decl_struct || t == _decl_union || t == _decl_array || t == _decl_pointer || t == _decl_qualifier; }
static bool constants(unsigned t) { return t == _decl_constant; }
static bool fields(unsigned t) { return t == _decl_field; }
static bool params(unsigned t) { return t == _decl_param; }
static bool functions(unsigned t) { return t == _decl_function; }
static bool sources(unsigned t) { return t == _decl_source; }
static const struct { const char *name; query fn; unsigned of; bool (*want)(unsigned); } queries[] = {
    { "enum_constants", crefl_enum_constants, _decl_enum, constants }, { "set_constants", crefl_set_constants, _decl_set, constants },
    { "struct_fields", crefl_struct_fields, _decl_struct, fields }, { "union_fields", crefl_union_fields, _decl_union, fields },
    { "function_params", crefl_function_params, _decl_function, params }, { "source_decls", crefl_source_decls, _decl_source, any },
    { "source_types", crefl_source_types, _decl_source, types }, { "source_fields", crefl_source_fields, _decl_source, fields },
    { "source_functions", crefl_source_functions, _decl_source, functions }, { "archive_sources", crefl_archive_sources, _decl_archive, sources },
};
static const struct { const char *name; int (*fn)(decl_ref); unsigned tag; } preds[] = {
    { "none", crefl_is_none, _decl_none }, { "typedef", crefl_is_typedef, _decl_typedef }, { "intrinsic", crefl_is_intrinsic, _decl_intrinsic }, { "set", crefl_is_set, _decl_set },
    { "enum", crefl_is_enum, _decl_enum }, { "struct", crefl_is_struct, _decl_struct }, { "union", crefl_is_union, _decl_union }, { "field", crefl_is_field, _decl_field },
    { "array", crefl_is_array, _decl_array }, { "pointer", crefl_is_pointer, _decl_pointer }, { "constant", crefl_is_constant, _decl_constant }, { "function", crefl_is_function, _decl_function },
    { "param", crefl_is_param, _decl_param }, { "attribute", crefl_is_attribute, _decl_attribute }, { "value", crefl_is_value, _decl_value }, { "archive", crefl_is_archive, _decl_archive },
    { "source", crefl_is_source, _decl_source }, { "alias", crefl_is_alias, _decl_alias },
};
static const struct { const char *name; decl_ref (*fn)(decl_ref); unsigned tag; } accs[] = {
    { "typedef_type", crefl_typedef_type, _decl_typedef }, { "field_type", crefl_field_type, _decl_field }, { "array_type", crefl_array_type, _decl_array },
    { "pointer_type", crefl_pointer_type, _decl_pointer }, { "constant_type", crefl_constant_type, _decl_constant }, { "param_type", crefl_param_type, _decl_param },
};
/* lists: parents of any kind with children of mixed kinds, mostly of the kinds the parent asks for */
static Model lists(Case &c)
{
    Model m; unsigned parents = 1 + c.draw(4); std::vector<int> ps;
    for (unsigned p = 0; p < parents; p++) {
        int k = m.add(c.chance(1, 5) ? (unsigned)c.draw(NTAGS - 1) : c.pick<unsigned>({ _decl_source, _decl_source, _decl_archive, _decl_set, _decl_enum, _decl_struct, _decl_union, _decl_function }), gen_name(c));
        ps.push_back(k); m.n[k].qty = c.interesting(); m.n[k].props = (unsigned)c.interesting();
        size_t n = c.chance(1, 20) ? c.draw(300) : c.size(30); int last = -1;
        for (size_t i = 0; i < n; i++) {
            unsigned t = m.n[k].tag, w = t == _decl_enum || t == _decl_set ? _decl_constant : t == _decl_function ? _decl_param : t == _decl_archive ? _decl_source : _decl_field;
            int z = m.add(c.flip() ? w : c.chance(1, 10) ? (unsigned)c.draw(60) : (unsigned)c.draw(NTAGS - 1), gen_name(c));
            m.n[z].qty = c.interesting(); m.n[z].props = (unsigned)c.interesting();
            m.n[z].link = c.flip() ? BUILTIN + 1 + (int)c.below(nbuiltin()) : (int)c.below(m.n.size()); if (c.chance(1, 4)) m.n[z].attr = (int)c.below(m.n.size());
            if (last < 0) m.n[k].link = z; else m.n[last].next = z;
            last = z;
        }
    }
    return m;
}
VP_PROP(queries_model, 40000, 1500000)
{
    Model m = c.below(4) ? lists(c) : any_graph(c, 60); describe(c, m);
    std::vector<uint32_t> place; Db d(build_db(m, any_order(c, m), place, c.draw(3))); size_t total = 0;
    std::vector<decl_ref> store;
    auto ask = [&](size_t i, int q) {
        const MNode &x = m.n[i]; decl_ref r = crefl_lookup(d.db, place[i]); std::vector<uint32_t> want;
        if (x.tag == queries[q].of) for (int k = x.link; k >= 0; k = k >= BUILTIN ? -1 : m.n[k].next) {
            unsigned t = k >= BUILTIN ? (unsigned)_decl_intrinsic : m.n[k].tag; if (queries[q].want(t)) want.push_back(at(k, place)); }
        total += want.size(); decl_ref mark = { (decl_db *)&mark, 0xabcdef };
        const char *nm = queries[q].name;
        for (int k = 0; k < 4; k++) {
            size_t cap = k == 0 ? want.size() : k == 1 ? c.draw(want.size()) : k == 2 ? want.size() + 1 + c.draw(3) : 0, room = cap + 4, s = cap;
            store.assign(room, mark); decl_ref *out = k == 3 && c.flip() ? nullptr : store.data(); size_t *ps = &s;
            if (!out) s = c.draw(5) == 0 ? SIZE_MAX : c.draw(10);     /* capacity without an array */
            if (out && k == 3 && c.flip()) ps = nullptr;              /* array without a capacity: nothing may be stored */
            size_t s0 = s;
            int rc = queries[q].fn(r, out, ps);
            if (x.tag != queries[q].of) {
                VP_CHECK(rc < 0, "%s of a %s succeeded", nm, tag_str(x.tag)); VP_CHECK(s == s0, "%s of a %s reports %zu", nm, tag_str(x.tag), s);
                for (auto &z : store) VP_CHECK(z.db == mark.db && z.decl_idx == mark.decl_idx, "%s of a %s stores something", nm, tag_str(x.tag));
                continue;
            }
            VP_CHECK(rc == 0, "%s of #%zu failed: %d", nm, i, rc);
            if (ps) VP_CHECK(s == want.size(), "%s of #%zu counts %zu, there are %zu (capacity %zu)", nm, i, s, want.size(), s0);
            size_t lim = !out || !ps ? 0 : std::min(s0, want.size());
            for (size_t z = 0; z < lim; z++) VP_CHECK(store[z].db == d.db && store[z].decl_idx == want[z], "%s of #%zu: entry %zu is declaration %zu, expected %u", nm, i, z, store[z].decl_idx, want[z]);
            for (size_t z = lim; z < room; z++) VP_CHECK(store[z].db == mark.db && store[z].decl_idx == mark.decl_idx, "%s of #%zu with capacity %zu touches entry %zu", nm, i, s0, z);
        }
    };
    for (size_t i = 0; i < m.n.size(); i++) {
        int mine = 0; for (auto &q : queries) mine += q.of == m.n[i].tag;
        for (int q = 0; q < 10; q++) if (queries[q].of == m.n[i].tag || c.chance(1, 8)) ask(i, q);
    }
    if (total) { Bytes b = image(d.db); c.nontrivial(hash_bytes(b.data(), b.size())); }
}
VP_PROP(accessors, 30000, 1000000)
{
    Model m = c.flip() ? lists(c) : any_graph(c, 60); describe(c, m);
    std::vector<uint32_t> place; Db d(build_db(m, any_order(c, m), place, c.draw(3)));
    if (m.n.size() > 1) { Bytes b = image(d.db); c.nontrivial(hash_bytes(b.data(), b.size())); }
    decl_ref root = crefl_root(d.db); VP_CHECK(root.db == d.db && crefl_decl_idx(root) == d.db->root_element, "root");
    for (size_t i = 0; i < m.n.size(); i++) {
        const MNode &x = m.n[i]; decl_ref r = crefl_lookup(d.db, place[i]);
        VP_CHECK(r.db == d.db && crefl_decl_idx(r) == place[i], "lookup of %u gives %zu", place[i], (size_t)crefl_decl_idx(r));
        VP_CHECK(crefl_decl_tag(r) == x.tag && crefl_decl_props(r) == x.props && crefl_decl_qty(r) == x.qty, "#%zu: tag %u props %x quantity %llx", i, crefl_decl_tag(r), crefl_decl_props(r), (ull)crefl_decl_qty(r));
        VP_CHECK(x.name == crefl_decl_name(r), "#%zu: name %.60s", i, crefl_decl_name(r));
        VP_CHECK(!!crefl_decl_has_name(r) == !x.name.empty(), "#%zu: has_name %d for '%.60s'", i, crefl_decl_has_name(r), x.name.c_str());
        struct { const char *n; decl_ref got; int want; } refs[] = { { "next", crefl_decl_next(r), x.next }, { "link", crefl_decl_link(r), x.link }, { "attr", crefl_decl_attr(r), x.attr } };
        for (auto &f : refs) VP_CHECK(f.got.db == d.db && crefl_decl_idx(f.got) == at(f.want, place), "#%zu: %s is %zu, expected %u", i, f.n, (size_t)crefl_decl_idx(f.got), at(f.want, place));
        VP_CHECK(crefl_decl_ptr(r) == d.db->decl + place[i], "#%zu: pointer", i);
        decl_ref v = crefl_decl_void(r); VP_CHECK(v.db == d.db && crefl_decl_idx(v) == 0 && crefl_is_none(v), "void");
        VP_CHECK(crefl_is_any(r), "any");
        VP_CHECK(!!crefl_is_type(r) == types(x.tag), "#%zu: a %s is %sa type", i, tag_str(x.tag), crefl_is_type(r) ? "" : "not ");
        for (auto &p : preds) VP_CHECK(!!p.fn(r) == (x.tag == p.tag), "#%zu: is_%s is %d for a %s", i, p.name, p.fn(r), tag_str(x.tag));
        for (auto &a : accs) { decl_ref g = a.fn(r); uint32_t w = x.tag == a.tag ? at(x.link, place) : 0; VP_CHECK(g.db == d.db && crefl_decl_idx(g) == w, "#%zu: %s of a %s is %zu, expected %u", i, a.name, tag_str(x.tag), (size_t)crefl_decl_idx(g), w); }
        VP_CHECK(crefl_array_count(r) == (x.tag == _decl_array ? x.qty : 0), "#%zu: array count %zu", i, crefl_array_count(r));
        VP_CHECK(crefl_constant_value(r).ux == (x.tag == _decl_constant ? x.qty : 0), "#%zu: constant value %llx", i, (ull)crefl_constant_value(r).ux);
        VP_CHECK((uint64_t)crefl_function_addr(r) == (x.tag == _decl_function ? x.qty : 0), "#%zu: function address %p", i, crefl_function_addr(r));
        VP_CHECK(!strcmp(crefl_tag_name(x.tag), tag_str(x.tag)), "tag %u is named %s", x.tag, crefl_tag_name(x.tag));
    }
    unsigned t = (unsigned)c.interesting(); VP_CHECK(!strcmp(crefl_tag_name(t), tag_str(t)), "tag %u is named %s", t, crefl_tag_name(t));
}
