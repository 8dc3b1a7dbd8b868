/* C07: merging keeps every declaration once and loses nothing */
#include "dbgen.h"

static std::vector<int> reach(const Model &m, int root)
{
    std::vector<int> st{ root }, out; std::set<int> seen{ root };
    while (!st.empty()) { int i = st.back(); st.pop_back(); out.push_back(i); for (int r : { m.n[i].next, m.n[i].link, m.n[i].attr }) if (r >= 0 && r < BUILTIN && seen.insert(r).second) st.push_back(r); }
    return out;
}
static void well_formed(decl_db *db, const char *which)
{
    Db e; crefl_db_defaults(e.db);
    VP_CHECK(db->decl_offset >= e.db->decl_offset, "%s: built-in intrinsics are missing", which);
    for (size_t i = 0; i < e.db->decl_offset; i++) {
        decl_node *x = db->decl + i, *y = e.db->decl + i;
        VP_CHECK(x->_tag == y->_tag && x->_props == y->_props && x->_quantity == y->_quantity && x->_next == y->_next && x->_link == y->_link && x->_attr == y->_attr && !strcmp(db->name + x->_name, e.db->name + y->_name), "%s: built-in intrinsic %zu changed", which, i);
    }
    for (size_t i = 0; i < db->decl_offset; i++) {
        decl_node *x = db->decl + i;
        VP_CHECK(x->_next < db->decl_offset && x->_link < db->decl_offset && x->_attr < db->decl_offset && x->_name < db->name_offset, "%s: declaration %zu: next %u link %u attr %u name %u", which, i, x->_next, x->_link, x->_attr, x->_name);
        if (x->_tag == _decl_alias) {
            decl_node *t = db->decl + x->_link; VP_CHECK(x->_link && is_shared(t->_tag), "%s: alias %zu leads to a %s", which, i, tag_str(t->_tag));
            VP_CHECK(!strcmp(db->name + x->_name, db->name + t->_name), "%s: alias %zu is named %.60s, its target %.60s", which, i, db->name + x->_name, db->name + t->_name);
        }
    }
}
struct Built { std::vector<Db> dbs; std::vector<decl_db *> in; };
static void check_merge(Case &c, decl_db *out, const std::vector<decl_db *> &in, const std::string &name, const std::string &base)
{
    std::vector<Bytes> before; for (auto d : in) before.push_back(image(d));
    std::vector<decl_db *> arg = in; arg.push_back((decl_db *)16);
    VP_CHECK(crefl_link_merge(out, name.c_str(), arg.data(), in.size()) == 0, "merge failed");
    for (size_t i = 0; i < in.size(); i++) VP_CHECK(image(in[i]) == before[i] && arg[i] == in[i], "input %zu was changed", i);
    well_formed(out, "merged");
    decl_ref r = crefl_root(out); VP_CHECK(crefl_is_archive(r) && base == crefl_decl_name(r), "the root is a %s named '%.100s', expected an archive named '%.100s'", tag_str(crefl_decl_tag(r)), crefl_decl_name(r), base.c_str());
    VP_CHECK(out->root_element == nbuiltin() + 1, "root %u", out->root_element);
    Terms ts; std::vector<int> want, got; std::vector<std::string> names;
    for (auto d : in) { TermCalc t(ts, d); want.push_back(t.root()); }
    TermCalc t(ts, out); t.root(); size_t aliases = 0;
    for (size_t k = out->decl[out->root_element]._link; k; k = out->decl[k]._next) { size_t q = k; while (out->decl[q]._tag == _decl_alias) q = out->decl[q]._link; got.push_back(t.term[q]); }
    VP_CHECK(got.size() == want.size(), "%zu sources for %zu inputs", got.size(), want.size());
    std::vector<std::string> text(ts.ids.size()); for (auto &x : ts.ids) text[x.second] = x.first;
    for (size_t i = 0; i < want.size(); i++) {
        if (want[i] == got[i]) continue;
        std::string d = strf("input %zu differs in the merged archive:", i); int a = want[i], b = got[i];
        /* lead to the innermost difference */
        for (int step = 0; step < 12; step++) {
            auto cut = [&](int q) { std::string z = text[q].substr(0, 160); for (auto &ch : z) if (ch == '\n') ch = ' '; return z; };
            d += "\n   " + cut(a) + "  <>  " + cut(b);
            auto subs = [&](int q) { std::vector<int> v; std::string &z = text[q]; for (size_t p = z.rfind('\n'); p != std::string::npos && p < z.size(); p++) if ((z[p] == 'A' || z[p] == 'X' || z[p] == 'L') && isdigit(z[p + 1])) v.push_back(atoi(z.c_str() + p + 1)); return v; };
            std::vector<int> x = subs(a), y = subs(b); bool f = false; for (size_t k = 0; k < x.size() && k < y.size() && !f; k++) if (x[k] != y[k]) { a = x[k]; b = y[k]; f = true; }
            if (!f) break;
        }
        throw Failure{ d };
    }
    std::map<int, size_t> once; size_t shared = 0;
    for (size_t i = 1; i < out->decl_offset; i++) {
        if (out->decl[i]._tag == _decl_alias) aliases++;
        if (!is_shared(out->decl[i]._tag) || !t.closed(i)) continue;
        shared++;
        VP_CHECK(!once.count(t.term[i]), "declarations %zu and %zu are the same %s '%.60s'", once[t.term[i]], i, tag_str(out->decl[i]._tag), out->name + out->decl[i]._name);
        once[t.term[i]] = i;
    }
    c.label(aliases ? "with shared declarations" : "nothing shared");
    Bytes img = image(out); Db o2; std::vector<decl_db *> in2 = in;
    VP_CHECK(crefl_link_merge(o2.db, name.c_str(), in2.data(), in2.size()) == 0 && image(o2.db) == img, "merging again gives another result");
    Db back; VP_CHECK(crefl_db_read_mem(back.db, img.data(), img.size()) == 0, "the merged image was rejected"); std::string d = db_diff(out, back.db); VP_CHECK(d.empty(), "read back: %s", d.c_str());
    if (in.size() > 1 || out->decl_offset > nbuiltin() + 4) c.nontrivial(hash_bytes(img.data(), img.size()));
}
static std::string merge_name(Case &c, std::string &base)
{
    base = c.pick<const char *>({ "merged.refl", "m", "x.y.z", "out", "a b" }); if (c.chance(1, 6)) base = std::string(c.draw(300), 'n') + "n";
    switch (c.below(4)) { case 0: return "dir/" + base; case 1: return "/a/b.c/" + base; default: return base; }
}
static void inputs(Case &c, Built &b, unsigned n, unsigned budget)
{
    std::vector<Model> ms; std::vector<uint32_t> place;
    for (unsigned i = 0; i < n; i++) {
        Model m; std::string w;
        if (i && c.below(3)) {
            m = ms[c.below(i)];
            for (unsigned k = c.below(3); k; k--) { std::vector<int> r = reach(m, 0); tweak(c, m, r[c.below(r.size())], w); if (!is_list(m.n[0].tag)) m.n[0].tag = _decl_source; }
            if (c.flip()) {   /* further declarations, also copies of its own */
                std::vector<int> ds; for (int k = m.n[0].link; k >= 0; k = m.n[k].next) ds.push_back(k);
                int last = ds.empty() ? -1 : ds.back();
                for (unsigned k = 1 + c.below(3); k && !ds.empty(); k--) { std::map<int, int> memo; const Model &src = c.flip() ? m : ms[0]; Model copy = src; std::vector<int> sd; for (int q = copy.n[0].link; q >= 0; q = copy.n[q].next) sd.push_back(q); if (sd.empty()) break; int x = clone(m, copy, sd[c.below(sd.size())], memo); if (last < 0) m.n[0].link = x; else m.n[last].next = x; last = x; }
            }
        } else { SrcGen g(c, budget, c.below(4)); g.start(); g.decls(1 + c.size(12)); m = g.m;
            if (c.chance(1, 3)) { std::vector<int> ds; for (int k = m.n[0].link; k >= 0; k = m.n[k].next) ds.push_back(k); if (!ds.empty()) { Model copy = m; std::map<int, int> memo; int x = clone(m, copy, ds[c.below(ds.size())], memo); m.n[ds.back()].next = x; } } }
        ms.push_back(m); c.note("\n input %u", i); describe(c, m); b.dbs.emplace_back(build_db(m, any_order(c, m), place, c.draw(3))); b.in.push_back(b.dbs.back().db);
    }
}
VP_PROP(sources, 30000, 800000)
{
    Built b; inputs(c, b, c.chance(1, 10) ? c.below(13) : 1 + c.below(4), 30); std::string base, name = merge_name(c, base);
    Db out; check_merge(c, out.db, b.in, name, base);
}
/* merging what was merged before, also after a round trip */
VP_PROP(archives, 12000, 300000)
{
    Built b; inputs(c, b, 2 + c.below(3), 24); std::string base, name = merge_name(c, base);
    unsigned rounds = 1 + c.below(3);
    for (unsigned i = 0; i < rounds; i++) {
        std::vector<decl_db *> in; unsigned n = 1 + c.below(3); for (unsigned k = 0; k < n; k++) in.push_back(b.in[k == 0 ? b.in.size() - 1 : c.below(b.in.size())]);
        b.dbs.emplace_back(); Db &o = b.dbs.back(); name = merge_name(c, base); check_merge(c, o.db, in, name, base);
        if (c.flip()) { Bytes img = image(o.db); Db r; VP_CHECK(crefl_db_read_mem(r.db, img.data(), img.size()) == 0, "read"); std::swap(r.db, o.db); }
        b.in.push_back(b.dbs.back().db);
    }
}
VP_PROP(large, 300, 6000)
{
    Built b; inputs(c, b, 2 + c.below(4), 600); std::string base, name = merge_name(c, base); Db out; check_merge(c, out.db, b.in, name, base);
}
/* past the limits of sixteen bits, with many shared declarations */
VP_PROP(huge, 4, 60)
{
    unsigned k = 2 + c.draw(1); size_t n = 12000 + c.draw(14000); uint64_t s = c.u64(); Built b; std::vector<uint32_t> place; std::string base, name = merge_name(c, base);
    for (unsigned i = 0; i < k; i++) {
        Model m; m.add(_decl_source, strf("s%u.c", i)); int last = -1;
        for (size_t j = 0; j < n; j++) {
            uint64_t h = mix(s ^ j); bool shared = h % 3; if (!shared) h = mix(h ^ (i + 1)); unsigned tag = h >> 8 & 1 ? _decl_struct : h >> 9 & 1 ? _decl_union : _decl_function;
            int d = m.add(tag, "d" + std::to_string(h % 1000003)); int f = m.add(tag == _decl_function ? _decl_param : _decl_field, "f"); m.n[f].link = BUILTIN + 1 + (int)(h % nbuiltin()); m.n[d].link = f; if (last < 0) m.n[0].link = d; else m.n[last].next = d; last = d;
        }
        b.dbs.emplace_back(build_db(m, plain_order(m), place, 0)); b.in.push_back(b.dbs.back().db);
    }
    c.note("%u sources of %zu declarations", k, n); Db out; check_merge(c, out.db, b.in, name, base); c.label(out.db->decl_offset > 65536 ? "over 65536 declarations" : "fewer");
}
