/* C05: hashes identify declarations by content */
#include "dbgen.h"

static Model source(Case &c, unsigned budget, bool plain = false, bool enclosing = false) { SrcGen g(c, budget, plain); g.enclosing = enclosing; g.start(); g.decls(1 + c.size(14)); return g.m; }
static std::vector<int> reach(const Model &m, int root)
{
    std::vector<int> st{ root }, out; std::set<int> seen{ root };
    while (!st.empty()) { int i = st.back(); st.pop_back(); out.push_back(i); for (int r : { m.n[i].next, m.n[i].link, m.n[i].attr }) if (r >= 0 && r < BUILTIN && seen.insert(r).second) st.push_back(r); }
    return out;
}
/* the same source stored differently, and with one identifying part changed */
VP_PROP(content, 30000, 800000)
{
    Model m = source(c, 40, c.chance(1, 3), c.flip()); describe(c, m); std::vector<uint32_t> place; Bijection b;
    Db a(build_db(m, any_order(c, m), place, c.draw(3))); b.add(a.db, "first");
    Db p(build_db(m, any_order(c, m), place, c.draw(3))); b.add(p.db, "permuted");
    Model t = m; std::string what, all; unsigned k = 1 + c.below(3);
    for (unsigned i = 0; i < k; i++) { std::vector<int> r = reach(t, 0), e; for (int j : r) if (t.n[j].alts.size() > 1) e.push_back(j); int n = !e.empty() && c.chance(1, 3) ? e[c.below(e.size())] : r[c.below(r.size())]; if (tweak(c, t, n, what)) { all += " " + what; c.note("\n tweak #%d: %s", n, what.c_str()); c.label(what); } }
    Db q(build_db(t, any_order(c, t), place, c.draw(3))); b.add(q.db, "changed");
    Bytes img = image(a.db); c.nontrivial(hash_bytes(img.data(), img.size(), hash_str(all)));
}
/* declarations moved to other sources and archives keep their hash */
VP_PROP(position, 15000, 400000)
{
    Model m = source(c, 40, false, c.flip()); Bijection b; std::vector<uint32_t> place; Db a(build_db(m, any_order(c, m), place, c.draw(3))); b.add(a.db, "first");
    Model w; unsigned nest = c.draw(2); int root = -1, src;
    for (unsigned i = 0; i < nest; i++) { int k = w.add(_decl_archive, gen_name(c)); if (root >= 0) w.n[root].link = k; root = k; }
    src = w.add(_decl_source, gen_name(c)); if (root >= 0) w.n[root].link = src;
    auto append = [&](int p, int x) { if (w.n[p].link < 0) { w.n[p].link = x; return; } int k = w.n[p].link; while (w.n[k].next >= 0) k = w.n[k].next; w.n[k].next = x; };
    /* some declarations of the first, in another order, twice, or inside a struct, with others between */
    std::vector<int> ds; for (int k = m.n[0].link; k >= 0; k = m.n[k].next) ds.push_back(k);
    unsigned n = 1 + c.size(8);
    for (unsigned i = 0; i < n; i++) {
        if (ds.empty()) break;
        int d = ds[c.below(ds.size())]; std::map<int, int> memo; int x = clone(w, m, d, memo);
        if (c.chance(1, 4)) { int s = w.add(_decl_struct, gen_name(c)); w.n[s].link = x; int f = w.add(_decl_field, "f"); w.n[f].link = x; w.n[x].next = f; x = s; }
        append(src, x);
    }
    describe(c, w); Db q(build_db(w, any_order(c, w), place, c.draw(3))); b.add(q.db, "rearranged");
    Bytes img = image(q.db); c.nontrivial(hash_bytes(img.data(), img.size())); c.label(b.shared ? "shared declarations" : "nothing shared");
}
/* the same on every computation and after a round trip: any graph without cycles other than through references */
VP_PROP(stable, 15000, 400000)
{
    Model m = source(c, 60, false, c.flip());
    /* further references, also mutually recursive ones */
    std::vector<int> ptrs, recs; for (size_t i = 0; i < m.n.size(); i++) { if (m.n[i].tag == _decl_pointer) ptrs.push_back((int)i); if (m.n[i].tag == _decl_struct || m.n[i].tag == _decl_union) recs.push_back((int)i); }
    if (!recs.empty()) for (int p : ptrs) if (c.chance(1, 3)) m.n[p].link = recs[c.below(recs.size())];
    describe(c, m); std::vector<uint32_t> place; std::vector<int> order = any_order(c, m);
    Db a(build_db(m, order, place, c.draw(3))), a2(build_db(m, order, place, c.draw(3))), r;
    Bytes img = image(a.db); VP_CHECK(crefl_db_read_mem(r.db, img.data(), img.size()) == 0, "read"); c.nontrivial(hash_bytes(img.data(), img.size()));
    Idx x, y, z; crefl_index_scan(x.ix, a.db); crefl_index_scan(y.ix, a2.db); crefl_index_scan(z.ix, r.db);
    std::vector<std::string> h; for (size_t i = 1; i < a.db->decl_offset; i++) h.push_back(is_valid(x.ix, a.db, i) ? hash_of(x.ix, a.db, i) : "");
    crefl_index_scan(x.ix, a.db);
    for (size_t i = 1; i < a.db->decl_offset; i++) {
        auto get = [&](Idx &k, decl_db *d) { return is_valid(k.ix, d, i) ? hash_of(k.ix, d, i) : std::string(); };
        VP_CHECK(get(x, a.db) == h[i - 1], "a second scan changes the hash of declaration %zu", i);
        VP_CHECK(get(y, a2.db) == h[i - 1], "another database and index give declaration %zu another hash", i);
        VP_CHECK(get(z, r.db) == h[i - 1], "after a round trip declaration %zu has another hash", i);
    }
    VP_CHECK(image(a.db) == img, "hashing changed the database");
}
VP_PROP(merged, 12000, 300000)
{
    unsigned n = 1 + c.below(3); std::vector<Model> ms; std::vector<Db> dbs; std::vector<decl_db *> in; Bijection b; std::vector<uint32_t> place;
    for (unsigned i = 0; i < n; i++) {
        Model m = i && c.flip() ? ms[c.below(i)] : source(c, 30, true); std::string w;
        if (i && c.flip()) { std::vector<int> r = reach(m, 0); tweak(c, m, r[c.below(r.size())], w); }
        ms.push_back(m); dbs.emplace_back(build_db(m, any_order(c, m), place, c.draw(3))); in.push_back(dbs.back().db); c.note("\n input %u", i); describe(c, m); b.add(in.back(), "input");
    }
    Db out; VP_CHECK(crefl_link_merge(out.db, "merged", in.data(), n) == 0, "merge failed"); b.add(out.db, "merged");
    Bytes img = image(out.db); c.nontrivial(hash_bytes(img.data(), img.size())); c.label(b.shared ? "shared declarations" : "nothing shared");
    Db back; VP_CHECK(crefl_db_read_mem(back.db, img.data(), img.size()) == 0, "read"); b.add(back.db, "merged and read back");
    if (c.chance(1, 3)) { decl_db *two[2] = { out.db, in[c.below(n)] }; Db o2; VP_CHECK(crefl_link_merge(o2.db, "again", two, 2) == 0, "merge failed"); b.add(o2.db, "merged twice"); }
}
