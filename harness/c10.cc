/* C10: crefltool's dumps, statistics, emitted source and merged files */
#include "dbgen.h"
#include "toolrun.h"
#include <crefl/dump.h>

static std::string text_name(Case &c)
{
    if (c.below(3)) return gen_name(c, true);
    std::string s; size_t n = c.chance(1, 12) ? c.draw(600) : c.size(60); for (size_t i = 0; i < n; i++) s += (char)(c.chance(1, 20) ? '%' : c.chance(1, 30) ? 0xa1 + c.draw(90) : 0x20 + c.draw(94));
    return s;
}
static Model gen(Case &c, unsigned budget)
{
    SrcGen g(c, budget, true); int arc = -1;
    if (c.chance(1, 4)) arc = g.m.add(_decl_archive, "");
    unsigned srcs = arc < 0 ? 1 : 1 + c.below(3);
    for (unsigned i = 0; i < srcs; i++) { g.start(); if (arc >= 0) g.append(arc, g.root); g.decls(1 + c.size(budget / 3)); }
    if (c.chance(1, 4)) { std::vector<int> sh; for (size_t k = 0; k < g.m.n.size(); k++) if (is_shared(g.m.n[k].tag)) sh.push_back((int)k); if (!sh.empty()) { int t = sh[c.below(sh.size())], a = g.m.add(_decl_alias, g.m.n[t].name); g.m.n[a].link = t; g.append(g.root, a); } }
    if (c.chance(1, 3)) for (size_t lone = 1 + c.size(80), first = g.m.n.size(); lone--; ) { /* declarations nothing leads to, aliases among them */
        int t = c.below(g.m.n.size()), a = g.m.add(c.chance(1, 3) ? (unsigned)_decl_alias : 1 + (unsigned)c.draw(NTAGS - 2), gen_name(c, true)); auto &x = g.m.n[a];
        if (c.below(3)) x.link = t;
        if (x.tag == _decl_alias && x.link >= 0 && g.m.n[x.link].tag == _decl_alias) x.tag = _decl_typedef;
        if ((size_t)a > first && c.flip()) g.m.n[a - 1].next = a;
    }
    for (auto &x : g.m.n) { if (c.chance(1, 3)) x.name = text_name(c); if (c.chance(1, 4)) x.props ^= 1u << c.draw(24); if (c.chance(1, 6)) x.qty = c.interesting(); }
    for (auto &x : g.m.n) if (x.tag == _decl_alias && x.link >= 0) x.name = g.m.n[x.link].name;
    return g.m;
}
static std::string cell(const std::string &s, size_t w) { return s.size() < w ? s + std::string(w - s.size(), ' ') : s.substr(0, w - 1) + "\xe2\x80\xa6"; }
static std::string props_of(decl_node *d)
{
    static const struct { unsigned bit; const char *n; } pn[] = { { _decl_const, "const" }, { _decl_volatile, "volatile" }, { _decl_restrict, "restrict" }, { _decl_static, "static" }, { _decl_extern_c, "extern_c" }, { _decl_inline, "inline" },
        { _decl_noreturn, "noreturn" }, { _decl_local, "local" }, { _decl_global, "global" }, { _decl_weak, "weak" }, { _decl_default, "default" }, { _decl_hidden, "hidden" }, { _decl_in, "in" }, { _decl_out, "out" }, { _decl_vla, "vla" } };
    std::string s; auto put = [&](const std::string &x) { if (!s.empty()) s += ","; s += x; };
    for (auto &p : pn) if (d->_props & p.bit) put(p.n);
    switch (d->_tag) {
    case _decl_set: case _decl_enum: case _decl_pointer: case _decl_intrinsic: put("width=" + std::to_string(d->_quantity)); break;
    case _decl_array: put("size=" + std::to_string(d->_quantity)); break;
    case _decl_constant: case _decl_value: put("value=" + std::to_string(d->_quantity)); break;
    case _decl_function: put(strf("addr=0x%llx", (ull)d->_quantity)); break;
    case _decl_field: if (d->_props & _decl_bitfield) put("width=" + std::to_string(d->_quantity)); break;
    }
    return s;
}
static std::vector<std::string> lines(const std::string &s)
{
    std::vector<std::string> v; size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) { v.push_back(s.substr(p) + "<no newline>"); break; } v.push_back(s.substr(p, e - p)); p = e + 1; } return v;
}
static void check_dump(decl_db *db, const std::string &path, const char *mode, const std::vector<std::string> &cols)
{
    ToolRun t = run_tool({ "crefltool", mode, path }); VP_CHECK(t.status == 0, "%s ended with status %d", mode, t.status);
    std::vector<std::string> l = lines(t.out); VP_CHECK(l.size() >= 3, "%s printed %zu lines", mode, l.size());
    /* columns as the header names them */
    std::vector<size_t> pos; size_t p = 0;
    for (auto &n : cols) { size_t q = l[0].find(n, p); VP_CHECK(q != std::string::npos && (q == 0 || l[0][q - 1] == ' '), "%s: no column %s in the header '%s'", mode, n.c_str(), l[0].c_str()); pos.push_back(q); p = q + n.size(); }
    pos.push_back(l[0].size()); VP_CHECK(l[0].find_first_not_of(' ', p) == std::string::npos && pos[0] == 0, "%s: header '%s'", mode, l[0].c_str());
    VP_CHECK(l[1] == std::string(l[0].size(), '-') && l.back() == l[1], "%s: rules '%s' and '%s'", mode, l[1].c_str(), l.back().c_str());
    size_t n = db->decl_offset - db->root_element; VP_CHECK(l.size() == n + 3, "%s printed %zu rows for %zu declarations", mode, l.size() - 3, n);
    NameRef names(db); Idx ix; crefl_index_scan(ix.ix, db);
    for (size_t k = 0; k < n; k++) {
        size_t i = db->root_element + k; decl_node *d = db->decl + i; std::string want;
        for (size_t z = 0; z < cols.size(); z++) {
            const std::string &cn = cols[z]; std::string v;
            if (cn == "id") v = std::to_string(i); else if (cn == "attr") v = std::to_string(d->_attr); else if (cn == "next") v = std::to_string(d->_next); else if (cn == "link") v = std::to_string(d->_link);
            else if (cn == "type") v = tag_str(d->_tag); else if (cn == "name") v = d->_name ? db->name + d->_name : "(anonymous)"; else if (cn == "props") v = props_of(d);
            else if (cn == "detail") { decl_node *q = db->decl + d->_link; v = std::string(tag_str(q->_tag)) + "(\"" + (db->name[q->_name] ? db->name + q->_name : "anonymous") + "\")"; }
            else if (cn == "hash") v = hex(crefl_entry_ptr(crefl_entry_ref(ix.ix, crefl_lookup(db, i)))->hash.sum, sizeof(decl_hash));
            else { size_t q = d->_tag == _decl_alias ? d->_link : i; v = std::string(tag_str(db->decl[q]._tag)) + " " + names.fqn[q]; }
            want += cell(v, pos[z + 1] - pos[z]);
        }
        VP_CHECK(l[k + 2] == want, "%s: row of declaration %zu is\n'%s', expected\n'%s'", mode, i, l[k + 2].substr(0, 400).c_str(), want.substr(0, 400).c_str());
    }
    ToolRun again = run_tool({ "crefltool", mode, path }); VP_CHECK(again.status == 0 && again.out == t.out, "%s printed something else the second time", mode);
}
static const std::vector<std::string> base{ "id", "attr", "next", "link", "type", "name", "props", "detail" };
VP_PROP(dump, 5000, 100000)
{
    Model m = gen(c, c.chance(1, 15) ? 200 : 30); describe(c, m); std::vector<uint32_t> place; Db a(build_db(m, any_order(c, m), place, c.draw(3)));
    NameRef r(a.db); if (r.ambiguous) c.discard();
    Bytes b = image(a.db); c.nontrivial(hash_bytes(b.data(), b.size())); std::string path = scratch_file("c10"); put_file(path, b.data(), b.size());
    static const struct { const char *mode; int sum, fqn; } modes[] = { { "--dump", 0, 0 }, { "--dump-fqn", 0, 1 }, { "--dump-sum", 1, 0 }, { "--dump-all", 1, 1 }, { "--dump-ext", 0, 0 }, { "--dump-ext-fqn", 0, 1 }, { "--dump-ext-sum", 1, 0 }, { "--dump-ext-all", 1, 1 } };
    for (int k = 0; k < 3; k++) { auto &x = modes[c.below(8)]; std::vector<std::string> cols = base; if (x.sum) cols.push_back("hash"); if (x.fqn) cols.push_back("fqn"); check_dump(a.db, path, x.mode, cols); }
}
template <typename F> static std::string printed(F f)
{
    fflush(stdout); int so = dup(1), o = tool_fd("out"); dup2(o, 1); clearerr(stdout); f(); fflush(stdout); dup2(so, 1); close(so); std::string s = slurp_fd(o); close(o); return s;
}
/* the library's own printing: rows one by one, of several databases and in several formats, are those of the whole dump */
VP_PROP(rows, 3000, 60000)
{
    std::vector<Db> db; size_t n = 1 + c.below(2); uint64_t fp = 0;
    for (size_t i = 0; i < n; i++) { Model m = gen(c, 20); std::vector<uint32_t> place; db.emplace_back(build_db(m, any_order(c, m), place, c.draw(3))); NameRef r(db.back().db); if (r.ambiguous) c.discard(); Bytes b = image(db.back().db); fp = hash_bytes(b.data(), b.size(), fp); }
    std::vector<std::vector<std::string>> whole(n * 8); int fmt = -1; size_t ops = 2 + c.size(12); std::string told;
    struct Q { unsigned op, db, id; }; std::vector<Q> asked; std::vector<std::string> got; std::vector<int> in;
    for (size_t k = 0; k < ops; k++) {
        unsigned op = c.below(6), i = c.below(n); decl_db *d = db[i].db; unsigned id = d->root_element + c.below(d->decl_offset - d->root_element);
        if (fmt < 0 || op == 0) { fmt = c.below(8); crefl_db_set_dump_fmt((enum crefl_db_dump_fmt)fmt); }
        if (op == 1) { std::string t = printed([&] { crefl_db_dump(d); }); auto l = lines(t); auto &w = whole[i * 8 + fmt]; VP_CHECK(w.empty() || w == l, "dump in format %d differs the second time", fmt); w = l; continue; }
        if (op == 2) { got.push_back(printed([&] { crefl_db_header_names(); crefl_db_header_lines(); })); }
        else got.push_back(printed([&] { crefl_db_dump_row(d, crefl_lookup(d, id)); }));
        asked.push_back({ op, i, id }); in.push_back(fmt);
    }
    for (size_t k = 0; k < asked.size(); k++) {
        decl_db *d = db[asked[k].db].db; auto &w = whole[asked[k].db * 8 + in[k]];
        if (w.empty()) { crefl_db_set_dump_fmt((enum crefl_db_dump_fmt)in[k]); w = lines(printed([&] { crefl_db_dump(d); })); }
        VP_CHECK(w.size() == d->decl_offset - d->root_element + 3, "dump in format %d has %zu lines", in[k], w.size());
        if (asked[k].op == 2) VP_CHECK(got[k] == w[0] + "\n" + w[1] + "\n", "the header in format %d is\n'%s', in the dump\n'%s'", in[k], got[k].c_str(), w[0].c_str());
        else { auto &x = w[2 + asked[k].id - d->root_element]; VP_CHECK(got[k] == x + "\n", "the row of declaration %u alone in format %d is\n'%s', in the dump\n'%s'", asked[k].id, in[k], got[k].substr(0, 400).c_str(), x.substr(0, 400).c_str()); }
    }
    crefl_db_set_dump_fmt(crefl_db_dump_std); if (!asked.empty()) c.nontrivial(mix(fp ^ ops << 8 ^ asked.size()));
}
VP_PROP(stats, 5000, 100000)
{
    Model m = c.flip() ? any_graph(c, c.chance(1, 10) ? 3000 : 60) : gen(c, 60); std::vector<uint32_t> place; Db a(build_db(m, any_order(c, m), place, c.draw(3))); Bytes b = image(a.db); c.nontrivial(hash_bytes(b.data(), b.size())); c.note("%zu declarations, %zu octets", m.n.size(), b.size());
    std::string path = scratch_file("c10"); put_file(path, b.data(), b.size()); ToolRun t = run_tool({ "crefltool", "--stats", path }); VP_CHECK(t.status == 0, "status %d", t.status);
    ull v[7] = { 0 }; int n = sscanf(t.out.c_str(), "decl.builtin %llu bytes (%llu records)\ndecl.user %llu bytes (%llu records)\nname.builtin %llu bytes\nname.user %llu bytes\nfile.size %llu bytes", v, v + 1, v + 2, v + 3, v + 4, v + 5, v + 6);
    VP_CHECK(n == 7, "statistics are '%s'", t.out.c_str());
    uint32_t names; memcpy(&names, b.data() + 12, 4);
    VP_CHECK(v[3] == m.n.size() && v[2] == 32 * m.n.size(), "%llu user declarations of %llu octets, there are %zu", v[3], v[2], m.n.size());
    VP_CHECK((v[1] == nbuiltin() || v[1] == nbuiltin() + 1) && v[0] == 32 * v[1], "%llu built-in declarations of %llu octets", v[1], v[0]);
    VP_CHECK(v[5] == names && v[6] == b.size(), "%llu octets of names and %llu in the file, there are %u and %zu", v[5], v[6], names, b.size());
    size_t bn = 0; for (unsigned i = 1; i <= nbuiltin(); i++) bn += strlen(crefl_decl_name(crefl_lookup(a.db, i))) + 1;
    VP_CHECK(v[4] == bn || v[4] == bn + 1, "%llu octets of built-in names, there are %zu", v[4], bn);
}
VP_PROP(emit, 5000, 100000)
{
    Model m = c.flip() ? any_graph(c, c.chance(1, 10) ? 300 : 20) : gen(c, 30); std::vector<uint32_t> place; Db a(build_db(m, any_order(c, m), place, c.draw(3))); Bytes b = image(a.db); c.nontrivial(hash_bytes(b.data(), b.size())); c.note("%zu declarations, %zu octets", m.n.size(), b.size());
    std::string path = scratch_file("c10"), out = scratch_file("c10.c"); put_file(path, b.data(), b.size());
    ToolRun t = run_tool({ "crefltool", "--emit", out, path }); VP_CHECK(t.status == 0, "status %d", t.status);
    std::string s; { FILE *f = fopen(out.c_str(), "rb"); VP_CHECK(f, "no output"); char buf[8192]; size_t n; while ((n = fread(buf, 1, sizeof buf, f)) > 0) s.append(buf, n); fclose(f); }
    size_t o = s.find('{'), e = s.find('}'); VP_CHECK(o != std::string::npos && e != std::string::npos && e > o, "no array in '%s'", s.substr(0, 200).c_str());
    std::string head = s.substr(0, o), tail = s.substr(e + 1); 
    VP_CHECK(head.find("const unsigned char __crefl_main_data[] =") != std::string::npos && tail.find("const size_t __crefl_main_size = sizeof(__crefl_main_data);") != std::string::npos && tail[0] == ';', "emitted source is '%s ... %s'", head.c_str(), tail.c_str());
    Bytes got; size_t p = o + 1; bool comma = true;
    for (;;) {
        while (p < e && isspace((unsigned char)s[p])) p++;
        if (p >= e) break;
        if (s[p] == ',') { VP_CHECK(!comma, "two commas at %zu", p); comma = true; p++; continue; }
        VP_CHECK(comma, "no comma at octet %zu", got.size()); char *q; unsigned long v = strtoul(s.c_str() + p, &q, 0); VP_CHECK(q > s.c_str() + p && v < 256, "at octet %zu: '%s'", got.size(), s.substr(p, 10).c_str()); got.push_back((uint8_t)v); p = q - s.c_str(); comma = false;
    }
    VP_CHECK(got == b, "the emitted array of %zu octets is not the database of %zu", got.size(), b.size());
}
VP_PROP(merge, 4000, 80000)
{
    unsigned n = 1 + c.below(4); std::vector<Db> dbs; std::vector<decl_db *> in; std::vector<std::string> args; std::string out = scratch_file("merged.refl"); args = { "crefltool", "--merge", out }; std::vector<Model> ms; std::vector<uint32_t> place;
    for (unsigned i = 0; i < n; i++) { Model m; if (i && c.flip()) m = ms[c.below(i)]; else { SrcGen g(c, 24, true); g.start(); g.decls(1 + c.size(8)); m = g.m; } ms.push_back(m); c.note("\n input %u", i); describe(c, m); dbs.emplace_back(build_db(m, any_order(c, m), place, 0)); in.push_back(dbs.back().db);
        Bytes b = image(in.back()); std::string p = scratch_file(("in" + std::to_string(i)).c_str()); put_file(p, b.data(), b.size()); args.push_back(p); }
    if (c.flip()) put_file(out, args.data(), 3000 > sizeof(args) ? sizeof(args) : 0);
    ToolRun t = run_tool(args); VP_CHECK(t.status == 0, "status %d", t.status);
    Db want; VP_CHECK(crefl_link_merge(want.db, out.c_str(), in.data(), n) == 0, "merge"); Bytes w = image(want.db); c.nontrivial(hash_bytes(w.data(), w.size()));
    Bytes g; { FILE *f = fopen(out.c_str(), "rb"); VP_CHECK(f, "no output"); uint8_t buf[8192]; size_t k; while ((k = fread(buf, 1, sizeof buf, f)) > 0) g.insert(g.end(), buf, buf + k); fclose(f); }
    VP_CHECK(g == w, "the merged file of %zu octets differs from the library's result of %zu", g.size(), w.size());
    for (unsigned i = 0; i < n; i++) unlink(args[3 + i].c_str());
}
