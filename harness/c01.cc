/* C01: write / read round trips of databases */
#include "dbgen.h"

struct Mem { uint8_t *p; size_t n; Mem(size_t n) : p((uint8_t *)malloc(n)), n(n) {} Mem(const Bytes &b) : Mem(b.size()) { if (n) memcpy(p, b.data(), n); } ~Mem() { free(p); } };

static Model gen(Case &c)
{
    if (c.flip()) return any_graph(c, c.chance(1, 10) ? 400 : 40);
    SrcGen g(c, 60); g.start(); g.decls(1 + c.size(20)); return g.m;
}
static void check_model(decl_db *db, const Model &m, const std::vector<uint32_t> &place, const char *when)
{
    for (size_t i = 0; i < m.n.size(); i++) {
        const MNode &x = m.n[i]; decl_ref r = crefl_lookup(db, place[i]); decl_node *d = crefl_decl_ptr(r);
        VP_CHECK(d->_tag == x.tag && d->_props == x.props && d->_quantity == x.qty && d->_next == at(x.next, place) && d->_link == at(x.link, place) && d->_attr == at(x.attr, place),
            "%s: declaration %u differs: tag %u props %x quantity %llx next %u link %u attr %u", when, place[i], d->_tag, d->_props, (ull)d->_quantity, d->_next, d->_link, d->_attr);
        VP_CHECK(x.name == crefl_decl_name(r), "%s: name of declaration %u is %.60s, expected %.60s", when, place[i], crefl_decl_name(r), x.name.c_str());
    }
}
VP_PROP(memory, 60000, 1500000)
{
    Model m = gen(c); describe(c, m); std::vector<uint32_t> place; Db a(build_db(m, any_order(c, m), place, c.draw(3)));
    check_model(a.db, m, place, "built");
    size_t sz = crefl_db_size(a.db);
    Mem w(sz); memset(w.p, 0xEE, sz);
    VP_CHECK(crefl_db_write_mem(a.db, w.p, sz) == 0, "write into a buffer of the reported size %zu failed", sz);
    Bytes img(w.p, w.p + sz); if (m.n.size() > 1) c.nontrivial(hash_bytes(img.data(), img.size()));
    VP_CHECK(crefl_db_magic(img.data()) == 0, "no magic");
    {   /* every octet is written: a second write over other contents gives the same */
        Mem w2(sz); memset(w2.p, 0x11, sz); VP_CHECK(crefl_db_write_mem(a.db, w2.p, sz) == 0 && memcmp(w2.p, img.data(), sz) == 0, "a second write differs, or not all %zu octets are written", sz);
    }
    {   /* larger buffer: nothing behind the image is touched */
        size_t extra = 1 + c.draw(40); Mem w3(sz + extra); memset(w3.p, 0x77, w3.n);
        VP_CHECK(crefl_db_write_mem(a.db, w3.p, w3.n) == 0 && memcmp(w3.p, img.data(), sz) == 0, "write into a larger buffer differs");
        for (size_t i = sz; i < w3.n; i++) VP_CHECK(w3.p[i] == 0x77, "octet %zu behind the image of %zu octets was written", i, sz);
    }
    for (int k = 0; k < 3; k++) {   /* too small */
        size_t n = k == 0 ? sz - 1 : c.below(sz); Mem s(n);
        VP_CHECK(crefl_db_write_mem(a.db, s.p, n) < 0, "write into %zu octets succeeded, %zu are needed", n, sz);
    }
    Mem in(img); Db b; VP_CHECK(crefl_db_read_mem(b.db, in.p, in.n) == 0, "the written image was rejected");
    std::string d = db_diff(a.db, b.db); VP_CHECK(d.empty(), "read database differs: %s", d.c_str());
    check_model(b.db, m, place, "read");
    VP_CHECK(crefl_db_size(b.db) == sz, "size of the read database is %zu, not %zu", crefl_db_size(b.db), sz);
    Bytes img2 = image(b.db); VP_CHECK(img2 == img, "writing the read database gives another image");
    /* the read database can be extended like any other and round-trips again */
    if (c.flip()) {
        Model m2 = m; unsigned k = 1 + c.size(60);
        for (unsigned i = 0; i < k; i++) { decl_ref r = crefl_decl_new(b.db, c.draw(NTAGS - 1)); std::string nm = gen_name(c); decl_id id = crefl_name_new(b.db, nm.c_str()); crefl_decl_ptr(r)->_name = id; crefl_decl_ptr(r)->_link = (decl_id)c.below(b.db->decl_offset); crefl_decl_ptr(r)->_quantity = c.u64();
            MNode x; x.tag = crefl_decl_tag(r); x.name = nm; m2.n.push_back(x); }
        check_model(b.db, m, place, "extended");
        for (size_t i = m.n.size(); i < m2.n.size(); i++) VP_CHECK(m2.n[i].name == crefl_decl_name(crefl_lookup(b.db, nbuiltin() + 1 + i)), "name of an added declaration changed");
        Bytes i3 = image(b.db); Db e; Mem in3(i3); VP_CHECK(crefl_db_read_mem(e.db, in3.p, in3.n) == 0, "image of the extended database was rejected");
        d = db_diff(b.db, e.db); VP_CHECK(d.empty(), "extended database differs after reading: %s", d.c_str());
        VP_CHECK(image(e.db) == i3, "writing the extended database again gives another image");
    }
}
VP_PROP(file, 12000, 200000)
{
    Model m = gen(c); describe(c, m); std::vector<uint32_t> place; Db a(build_db(m, any_order(c, m), place, c.draw(3)));
    static std::string path = std::string(getenv("VP_SCRATCH") ? getenv("VP_SCRATCH") : "/tmp") + "/c01." + std::to_string(getpid());
    if (m.n.size() > 1) { Bytes i = image(a.db); c.nontrivial(hash_bytes(i.data(), i.size())); }
    if (c.chance(1, 4)) { FILE *f = fopen(path.c_str(), "wb"); std::string junk(c.draw(20000), 'j'); fwrite(junk.data(), 1, junk.size(), f); fclose(f); }   /* overwrites what was there */
    VP_CHECK(crefl_db_write_file(a.db, path.c_str()) == 0, "write failed");
    struct stat st; VP_CHECK(stat(path.c_str(), &st) == 0 && (size_t)st.st_size == crefl_db_size(a.db), "file has %lld octets, size reported %zu", (long long)st.st_size, crefl_db_size(a.db));
    Db b; VP_CHECK(crefl_db_read_file(b.db, path.c_str()) == 0, "read failed");
    std::string d = db_diff(a.db, b.db); VP_CHECK(d.empty(), "read database differs: %s", d.c_str());
    check_model(b.db, m, place, "read from a file");
    Bytes f; FILE *h = fopen(path.c_str(), "rb"); f.resize(st.st_size); VP_CHECK(fread(f.data(), 1, f.size(), h) == f.size(), "?"); fclose(h);
    VP_CHECK(f == image(a.db), "file and memory images differ");
    VP_CHECK(crefl_db_write_file(b.db, path.c_str()) == 0, "second write failed");
    h = fopen(path.c_str(), "rb"); Bytes f2(f.size() + 1); size_t n2 = fread(f2.data(), 1, f2.size(), h); fclose(h); f2.resize(n2);
    VP_CHECK(f2 == f, "writing again gives another file");
}
/* large databases: growth of both tables past many doublings */
VP_PROP(large, 40, 400)
{
    Model m; size_t n = c.chance(1, 5) ? 65400 + c.draw(9000) : 2000 + c.draw(20000); uint64_t s = c.u64();
    for (size_t i = 0; i < n; i++) { s = mix(s); int k = m.add(1 + s % 18, s % 7 ? "n" + std::to_string(s % 100000) : std::string(s % 3000 / (s % 50 + 1), 'k')); MNode &x = m.n[k]; x.qty = s; x.link = (int)(mix(s) % n); x.next = i + 1 < n ? (int)i + 1 : -1; x.props = (unsigned)(s >> 40); }
    c.nontrivial(s); c.note("%zu declarations", n);
    std::vector<uint32_t> place; Db a(build_db(m, plain_order(m), place, c.draw(3))); check_model(a.db, m, place, "built");
    Bytes img = image(a.db); Mem in(img); Db b; VP_CHECK(crefl_db_read_mem(b.db, in.p, in.n) == 0, "rejected");
    std::string d = db_diff(a.db, b.db); VP_CHECK(d.empty(), "read database differs: %s", d.c_str()); check_model(b.db, m, place, "read"); VP_CHECK(image(b.db) == img, "second image differs");
}
