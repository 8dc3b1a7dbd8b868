/* C06: fully qualified names and the set of indexed declarations */
#include "dbgen.h"

static void compare(decl_index *ix, decl_db *db, const NameRef &r, const char *when)
{
    for (size_t i = 1; i < db->decl_offset; i++) {
        decl_entry_ref e = crefl_entry_ref(ix, crefl_lookup(db, i)); bool v = crefl_entry_is_valid(e), m = crefl_entry_is_marked(e);
        VP_CHECK(v == (r.state[i] == 2) && m == v, "%s: declaration %zu (%s '%.40s') is %sreachable, but %svalid and %smarked", when, i, tag_str(db->decl[i]._tag), db->name + db->decl[i]._name, r.state[i] ? "" : "not ", v ? "" : "not ", m ? "" : "not ");
        std::string got = crefl_entry_fqn(e);
        VP_CHECK(got == r.fqn[i], "%s: declaration %zu (%s) is named '%.200s', expected '%.200s'", when, i, tag_str(db->decl[i]._tag), got.c_str(), r.fqn[i].c_str());
    }
    VP_CHECK(!crefl_entry_is_valid(crefl_entry_ref(ix, crefl_lookup(db, 0))) && !*crefl_entry_fqn(crefl_entry_ref(ix, crefl_lookup(db, 0))), "%s: declaration 0 is indexed", when);
}
static void scan_checks(Case &c, decl_db *db, const char *which)
{
    NameRef r(db); if (r.ambiguous) c.discard();
    Idx ix; Bytes b = image(db);
    if (c.flip()) { size_t k = 1 + c.below(db->decl_offset - 1); (void)crefl_entry_ref(ix.ix, crefl_lookup(db, k)); }    /* an index may be asked before it is filled */
    crefl_index_scan(ix.ix, db); compare(ix.ix, db, r, which);
    crefl_index_scan(ix.ix, db); compare(ix.ix, db, r, "scanned again");
    VP_CHECK(image(db) == b, "%s: scanning changed the database", which);
    size_t named = 0; for (size_t i = 1; i < db->decl_offset; i++) named += r.state[i] == 2;
    if (named > 2) c.nontrivial(hash_bytes(b.data(), b.size()));
}
static Model gen(Case &c, unsigned budget)
{
    Model m; SrcGen g(c, budget, c.flip()); unsigned wrap = c.draw(3); std::vector<int> arcs;
    for (unsigned i = 0; i < wrap; i++) { int k = g.m.add(_decl_archive, gen_name(c)); if (!arcs.empty()) g.append(arcs.back(), k); arcs.push_back(k); }
    unsigned srcs = wrap ? 1 + c.below(3) : 1;
    for (unsigned i = 0; i < srcs; i++) { g.start(); if (wrap) g.append(arcs[c.below(arcs.size())], g.root); g.decls(1 + c.size(budget / 3)); }
    if (c.chance(1, 3)) {      /* mutual references between records through pointers */
        std::vector<int> recs; for (auto &x : g.m.n) if (x.tag == _decl_source) for (int i = x.link; i >= 0; i = g.m.n[i].next) if (g.m.n[i].tag == _decl_struct || g.m.n[i].tag == _decl_union) recs.push_back(i);
        if (!recs.empty()) for (auto &x : g.m.n) if (x.tag == _decl_pointer && c.chance(1, 3)) x.link = recs[c.below(recs.size())];
    }
    if (c.chance(1, 3)) {      /* aliases of earlier shared declarations among those of a source */
        for (unsigned i = 0; i < 3; i++) { std::vector<int> sh; for (size_t k = 0; k < g.m.n.size(); k++) if (is_shared(g.m.n[k].tag)) sh.push_back((int)k);
            if (sh.empty()) break; int t = sh[c.below(sh.size())]; int a = g.m.add(_decl_alias, c.flip() ? g.m.n[t].name : gen_name(c)); g.m.n[a].link = t; g.append(g.root, a); }
    }
    return g.m;
}
VP_PROP(names, 40000, 1000000)
{
    Model m = gen(c, c.chance(1, 12) ? 500 : 50); describe(c, m); std::vector<uint32_t> p1, p2;
    Db a(build_db(m, any_order(c, m), p1, c.draw(3))); scan_checks(c, a.db, "first");
    if (c.flip()) {   /* independent of storage */
        Db b(build_db(m, any_order(c, m), p2, c.draw(3))); Idx x, y; crefl_index_scan(x.ix, a.db); crefl_index_scan(y.ix, b.db);
        for (size_t i = 0; i < m.n.size(); i++) {
            decl_entry_ref e = crefl_entry_ref(x.ix, crefl_lookup(a.db, p1[i])), f = crefl_entry_ref(y.ix, crefl_lookup(b.db, p2[i]));
            VP_CHECK(crefl_entry_is_valid(e) == crefl_entry_is_valid(f) && !strcmp(crefl_entry_fqn(e), crefl_entry_fqn(f)), "stored differently, #%zu is named '%.100s' and '%.100s'", i, crefl_entry_fqn(e), crefl_entry_fqn(f));
        }
    }
}
VP_PROP(merged, 6000, 150000)
{
    unsigned n = 1 + c.below(3); std::vector<Model> ms; std::vector<Db> dbs; std::vector<decl_db *> in; std::vector<uint32_t> place;
    for (unsigned i = 0; i < n; i++) { Model m; if (i && c.flip()) m = ms[0]; else { SrcGen g(c, 40, true); g.start(); g.decls(1 + c.size(12)); m = g.m; } ms.push_back(m); describe(c, m); dbs.emplace_back(build_db(m, any_order(c, m), place, 0)); in.push_back(dbs.back().db); }
    Db out; VP_CHECK(crefl_link_merge(out.db, "m", in.data(), n) == 0, "merge"); scan_checks(c, out.db, "merged");
}
/* long names, deep nesting, large indices: growth of both tables */
VP_PROP(growth, 1500, 20000)
{
    Model m; int src = m.add(_decl_source, gen_name(c)); int last = -1; unsigned depth = c.draw(60), wide = c.chance(1, 100) ? 65000 + c.draw(6000) : c.draw(c.chance(1, 10) ? 9000 : 400); size_t len = c.draw(c.chance(1, 4) ? 3000 : 40); uint64_t s = c.u64();
    if (depth > 25 || wide > 9000) len = len % 100;
    int cur = src; auto put = [&](int p, int k) { if (m.n[p].link < 0) m.n[p].link = k; else m.n[last].next = k; last = k; };
    for (unsigned i = 0; i < depth; i++) { int k = m.add(i % 3 ? _decl_struct : _decl_union, i % 7 == 6 ? "" : std::string(1 + len % (i + 1), 'a' + i % 26)); put(cur, k); cur = k; last = -1; }
    for (unsigned i = 0; i < wide; i++) { s = mix(s); int k = m.add(_decl_field, s % 11 ? "f" + std::to_string(s % 1000) + std::string(s % (len / 8 + 1), 'x') : ""); m.n[k].link = s % 3 ? BUILTIN + 1 + (int)(s % nbuiltin()) : -1; put(cur, k); }
    std::vector<int> o = plain_order(m); if (c.flip()) std::reverse(o.begin() + 1, o.end());
    c.note("depth %u, %u members, name length %zu", depth, wide, len); std::vector<uint32_t> place; Db a(build_db(m, o, place, 0)); scan_checks(c, a.db, "large");
}
