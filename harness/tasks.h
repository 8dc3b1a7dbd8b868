/* tasks on objects of their own, step by step: used by C33 and C34 */
#pragma once
#include "dbgen.h"
#include <sys/stat.h>
#undef NZERO
#include "codec.h"
#include <crefl/sha256.h>
#include <crefl/hashmap.h>
#include <crefl/oid.h>

static uint64_t str_sum(uint64_t h, const char *s) { return hash_bytes(s, strlen(s) + 1, h); }
static uint64_t db_sum(decl_db *db)
{
    uint64_t h = mix(db->decl_offset ^ (uint64_t)db->root_element << 32);
    for (size_t i = 0; i < db->decl_offset; i++) { decl_node *p = db->decl + i; uint64_t v[] = { p->_tag, p->_props, p->_next, p->_link, p->_attr, p->_quantity }; h = hash_bytes(v, sizeof v, h); h = str_sum(h, db->name + p->_name); }
    return h;
}
static uint64_t index_sum(decl_index *ix, decl_db *db)
{
    uint64_t h = 5;
    for (size_t i = 1; i < db->decl_offset; i++) {
        if (i >= ix->entry_size) break;
        decl_entry_ref e = crefl_entry_ref(ix, crefl_lookup(db, i)); if (!crefl_entry_is_valid(e)) { h = mix(h); continue; }
        h = str_sum(h, crefl_entry_fqn(e)); h = hash_bytes(crefl_entry_ptr(e)->hash.sum, sizeof crefl_entry_ptr(e)->hash.sum, h);
    }
    return h;
}
/* everything that can be asked about a declaration */
static uint64_t ask(decl_ref d)
{
    typedef int (*list_fn)(decl_ref, decl_ref *, size_t *); typedef int (*is_fn)(decl_ref);
    static const list_fn lists[] = { crefl_enum_constants, crefl_set_constants, crefl_struct_fields, crefl_union_fields, crefl_function_params, crefl_source_decls, crefl_source_types, crefl_source_fields, crefl_source_functions, crefl_archive_sources };
    static const is_fn kinds[] = { crefl_is_any, crefl_is_none, crefl_is_type, crefl_is_intrinsic, crefl_is_typedef, crefl_is_set, crefl_is_enum, crefl_is_struct, crefl_is_union, crefl_is_field, crefl_is_array, crefl_is_pointer, crefl_is_constant, crefl_is_function, crefl_is_param, crefl_is_attribute, crefl_is_value, crefl_is_archive, crefl_is_source, crefl_is_alias };
    uint64_t h = str_sum(crefl_decl_idx(d), crefl_decl_name(d));
    for (auto f : kinds) h = mix(h * 2 + !!f(d));
    for (decl_ref r : { crefl_decl_next(d), crefl_decl_link(d), crefl_decl_attr(d), crefl_decl_void(d) }) h = mix(h ^ crefl_decl_idx(r));
    h = mix(h ^ crefl_decl_tag(d) ^ crefl_decl_props(d) ^ crefl_decl_qty(d)); h = str_sum(h, crefl_tag_name(crefl_decl_tag(d))); h = mix(h + crefl_decl_has_name(d));
    for (auto f : lists) { decl_ref r[7]; size_t n = 7; if (f(d, r, &n) != 0) { h = mix(h ^ 99); continue; } h = mix(h ^ n); for (size_t i = 0; i < n && i < 7; i++) h = mix(h ^ crefl_decl_idx(r[i])); }
    if (crefl_is_struct(d)) { decl_ref r[7]; size_t o[8] = {}, n = 7; if (crefl_struct_fields_offsets(d, r, o, &n) == 0) for (size_t i = 0; i < n && i < 7; i++) h = mix(h ^ o[i]); h = mix(h ^ crefl_struct_width(d)); }
    if (crefl_is_union(d)) h = mix(h ^ crefl_union_width(d));
    if (crefl_is_type(d)) h = mix(h ^ crefl_type_width(d));
    return h;
}

struct Shared33 { std::vector<Db> db; std::unique_ptr<Idx> ix; };

struct Task
{
    Case c; uint64_t h = 0; Shared33 *sh; size_t steps; std::string file;
    Task(uint64_t seed, size_t steps, Shared33 *sh, const std::string &file) : sh(sh), steps(steps), file(file) { c.rs = seed; h = seed; }
    virtual ~Task() {}
    virtual void step() = 0;
    void add(uint64_t v) { h = mix(h ^ v); }
    void add(const Bytes &b) { h = hash_bytes(b.data(), b.size(), h); }
};
struct Databases : Task
{
    using Task::Task; std::vector<std::unique_ptr<Db>> db; std::unique_ptr<Idx> ix;
    decl_db *some() { return db[c.below(db.size())]->db; }
    void step() override
    {
        switch (db.empty() ? 0 : c.below(10)) {
        case 0: { if (db.size() > 4) db.erase(db.begin()); SrcGen g(c, 3 + c.size(30)); g.start(); g.decls(1 + c.size(8)); std::vector<uint32_t> pl; db.emplace_back(new Db(build_db(g.m, any_order(c, g.m), pl, c.below(4)))); add(db_sum(db.back()->db)); break; }
        case 1: { decl_db *d = some(); ix.reset(new Idx); crefl_index_scan(ix->ix, d); add(index_sum(ix->ix, d)); break; }
        case 2: { decl_db *d = some(); Bytes b(crefl_db_size(d)); add(crefl_db_write_mem(d, b.data(), b.size()) == 0); add(b); Db e; add(crefl_db_read_mem(e.db, b.data(), b.size()) == 0); add(db_sum(e.db)); break; }
        case 3: { decl_db *d = some(); add(crefl_db_write_file(d, file.c_str()) == 0); Db e; add(crefl_db_read_file(e.db, file.c_str()) == 0); add(db_sum(e.db)); unlink(file.c_str()); break; }
        case 4: { decl_db *d = some(); for (int i = 0; i < 12; i++) add(ask(crefl_lookup(d, c.below(d->decl_offset)))); add(crefl_decl_idx(crefl_root(d))); break; }
        case 5: { Db d; if (c.flip()) crefl_db_defaults(d.db); for (int i = 0; i < 3; i++) add(crefl_decl_idx(crefl_intrinsic(d.db, c.flip() ? _decl_sint : _decl_uint, 8u << c.below(4)))); size_t n = c.size(120); for (size_t i = 0; i < n; i++) { decl_ref r = crefl_decl_new(d.db, c.below(NTAGS)); add(crefl_decl_idx(r)); decl_id id = crefl_name_new(d.db, gen_name(c).c_str()); crefl_decl_ptr(r)->_name = id; } add(db_sum(d.db)); break; }
        case 6: { std::vector<decl_db *> in; size_t n = c.below(4); for (size_t i = 0; i < n; i++) in.push_back(some()); Db out; add(crefl_link_merge(out.db, "own/merged", in.data(), n) == 0); add(db_sum(out.db)); for (auto d : in) add(db_sum(d)); break; }
        case 7: { decl_db *d = some(); for (int i = 0; i < 8; i++) { static const unsigned w[] = { 1, 8, 16, 32, 64, 128, 24 }, p[] = { _decl_sint, _decl_uint, _decl_float, _decl_cfloat, 0 }; add(crefl_decl_idx(crefl_intrinsic(d, p[c.below(5)], w[c.below(7)]))); } break; }
        case 8: {      /* files that are none, and files that cannot be */
            decl_db *d = some(); Db e; unsigned k = c.below(7);
            if (k < 5) {
                std::string in[] = { "/dev/null", "/", file + "-missing", "", file + "-no/at/all" }, out[] = { file + "-full", file + "-dir", file + "-full", "", file + "-no/at/all" };
                if (k == 0 || k == 2) { if (symlink("/dev/full", out[k].c_str())) {} } else if (k == 1) mkdir(out[k].c_str(), 0700);
                add(crefl_db_read_file(e.db, in[k].c_str()) == 0); add(crefl_db_write_file(d, out[k].c_str()) == 0); unlink(out[k].c_str()); rmdir(out[k].c_str()); break;
            }
            Bytes b(crefl_db_size(d)); crefl_db_write_mem(d, b.data(), b.size()); if (k == 5) b.resize(c.below(b.size() + 1)); else b[c.below(b.size())] ^= 1 + c.below(255);
            FILE *f = fopen(file.c_str(), "wb"); if (!f) break; fwrite(b.data(), 1, b.size(), f); fclose(f);
            add(crefl_db_read_file(e.db, file.c_str()) == 0); unlink(file.c_str()); break; }
        default: { decl_db *d = some(); Bytes b = c.bytes(c.size(200)); Db e; add(crefl_db_magic(b.size() >= 8 ? b.data() : (const uint8_t *)"12345678")); add(crefl_db_read_mem(e.db, b.data(), b.size()) == 0); b = Bytes(crefl_db_size(d)); crefl_db_write_mem(d, b.data(), b.size()); if (b.size() > 1) { b[c.below(b.size())] ^= 1 << c.below(8); Db f; add(crefl_db_read_mem(f.db, b.data(), b.size() - c.below(2)) == 0); } break; }
        }
    }
};
/* the shared databases are asked, written and merged, never changed */
struct Readers : Task
{
    using Task::Task;
    void step() override
    {
        size_t k = c.below(sh->db.size()); decl_db *d = sh->db[k].db;
        switch (c.below(7)) {
        case 0: { Bytes b(crefl_db_size(d)); add(crefl_db_write_mem(d, b.data(), b.size()) == 0); add(b); break; }
        case 1: { std::vector<decl_db *> in; size_t n = c.below(3); for (size_t i = 0; i < n; i++) in.push_back(sh->db[c.below(sh->db.size())].db); Db out; add(crefl_link_merge(out.db, "shared", in.data(), n) == 0); add(db_sum(out.db)); break; }
        case 2: { Idx i; crefl_index_scan(i.ix, d); add(index_sum(i.ix, d)); break; }
        case 3: add(index_sum(sh->ix->ix, sh->db[0].db)); break;
        case 4: { add(crefl_db_write_file(d, file.c_str()) == 0); Db e; add(crefl_db_read_file(e.db, file.c_str()) == 0); add(db_sum(e.db)); unlink(file.c_str()); break; }
        default: for (int i = 0; i < 12; i++) add(ask(crefl_lookup(d, c.below(d->decl_offset)))); add(crefl_decl_idx(crefl_intrinsic(d, _decl_sint, 8u << c.below(4)))); break;
        }
    }
};
struct Codecs : Task
{
    Buf b{ 256 }; using Task::Task;
    void res(int e) { add(e == 0); add(b.b.data_offset); }
    void step() override
    {
        uint64_t v = c.interesting(); size_t p = b.b.data_offset; if (p > 160) p = b.b.data_offset = 0;
        auto back = [&] { add(Bytes((uint8_t *)b.b.data + p, (uint8_t *)b.b.data + b.b.data_offset)); size_t e = b.b.data_offset - p; b.b.data_offset = p; return e; };
        switch (c.below(17)) {
        case 0: { u64 x = v, y = 0; res(crefl_asn1_der_integer_u64_write(&b, (asn1_tag)2, &x)); back(); res(crefl_asn1_der_integer_u64_read(&b, (asn1_tag)2, &y)); add(y); break; }
        case 1: { s64 x = (s64)v, y = 0; res(crefl_asn1_der_integer_s64_write(&b, (asn1_tag)2, &x)); back(); res(crefl_asn1_der_integer_s64_read(&b, (asn1_tag)2, &y)); add((uint64_t)y); break; }
        case 2: { double x = ref::bitsd(v), y = 0; res(crefl_asn1_der_real_f64_write(&b, (asn1_tag)9, &x)); back(); res(crefl_asn1_der_real_f64_read(&b, (asn1_tag)9, &y)); add(y != y ? 1 : ref::dbits(y)); break; }
        case 3: { double x = ref::bitsd(v), y = 0; res(crefl_vf_f64_write(&b, &x)); back(); res(crefl_vf_f64_read(&b, &y)); add(y != y ? 1 : ref::dbits(y)); break; }
        case 4: { float x = ref::bitsf((uint32_t)v), y = 0; res(crefl_vf_f32_write(&b, &x)); back(); res(crefl_vf_f32_read(&b, &y)); add(y != y ? 1 : ref::fbits(y)); break; }
        case 5: { u64 x = v >> 8, y = 0; res(crefl_leb_u64_write(&b, &x)); back(); res(crefl_leb_u64_read(&b, &y)); add(y); break; }
        case 6: { u64 x = v >> 8, y = 0; res(crefl_vlu_u64_write(&b, &x)); back(); res(crefl_vlu_u64_read(&b, &y)); add(y); break; }
        case 7: { u64 x = v >> 8, y = 0; res(crefl_asn1_ber_tag_write(&b, x)); back(); res(crefl_asn1_ber_tag_read(&b, &y)); add(y); break; }
        case 8: { asn1_id i = {}, j = {}; i._identifier = v >> 8; i._class = v & 3; i._constructed = v >> 2 & 1; add(crefl_asn1_ber_ident_length(i)); res(crefl_asn1_ber_ident_write(&b, i)); back(); res(crefl_asn1_ber_ident_read(&b, &j)); add(j._identifier); break; }
        case 9: { u64 y = 0; res(crefl_asn1_ber_length_write(&b, v)); back(); res(crefl_asn1_ber_length_read(&b, &y)); add(y); break; }
        case 10: { bool x = v & 1, y = false; res(crefl_asn1_der_boolean_write(&b, (asn1_tag)1, &x)); back(); res(crefl_asn1_der_boolean_read(&b, (asn1_tag)1, &y)); add(y); break; }
        case 11: case 12: {
            asn1_oid o = {}, q = {}; o.count = 2 + c.below(8); for (size_t i = 0; i < o.count; i++) o.oid[i] = i == 0 ? c.below(3) : i == 1 ? c.below(40) : c.interesting() >> 8;
            res(crefl_asn1_der_oid_write(&b, (asn1_tag)6, &o)); back(); res(crefl_asn1_der_oid_read(&b, (asn1_tag)6, &q)); add(q.count); for (size_t i = 0; i < q.count && i < 15; i++) add(q.oid[i]);
            char t[400]; size_t n = sizeof t; add((uint64_t)crefl_asn1_oid_to_string(t, &n, &o)); add(n); h = str_sum(h, t); asn1_oid r = {}; add((uint64_t)crefl_asn1_oid_from_string(&r, t, strlen(t))); add(r.count); for (size_t i = 0; i < r.count && i < 15; i++) add(r.oid[i]);
            if (c.chance(1, 3)) { t[c.below(n)] = ".x 9-"[c.below(5)]; asn1_oid u = {}; int e = crefl_asn1_oid_from_string(&u, t, n); add((uint64_t)e); if (e == 0) { add(u.count); for (size_t i = 0; i < u.count && i < 15; i++) add(u.oid[i]); } }
            break; }
        case 13: { Bytes s = c.bytes(c.size(60)), z(64); asn1_string x = { s.size(), s.data() }, y = { z.size(), z.data() }; res(crefl_asn1_der_octets_write(&b, (asn1_tag)4, &x)); back(); res(crefl_asn1_der_octets_read(&b, (asn1_tag)4, &y)); add(y.count); add(z); break; }
        case 14: { u64 x = v, y = 0; size_t n = crefl_le_ber_integer_u64_length(&x); res(crefl_le_ber_integer_u64_write(&b, n, &x)); back(); res(crefl_le_ber_integer_u64_read(&b, n, &y)); add(y); break; }
        case 15: { res(crefl_asn1_der_null_write(&b, (asn1_tag)5)); back(); res(crefl_asn1_der_null_read(&b, (asn1_tag)5)); h = str_sum(h, asn1_tag_name(v % 40)); break; }
        default: { static const unsigned char known[][5] = { { 0x55, 4, 3 }, { 0x55, 4, 0x29 }, { 0x55, 8, 3, 0x64 }, { 0x2b, 6, 1 }, { 1, 2 } }; unsigned k = c.below(5); h = str_sum(h, crefl_asn1_oid_desc((const char *)known[k], 1 + c.below(5))); break; }
        }
    }
};
struct Digests : Task
{
    sha256_ctx x[3]; bool on[3] = {}, is224[3]; using Task::Task;
    void step() override
    {
        unsigned k = c.below(3);
        if (!on[k]) { is224[k] = c.flip(); if (is224[k]) sha224_init(&x[k]); else sha256_init(&x[k]); on[k] = true; return; }
        if (c.below(4)) { Bytes m = c.block(c.draw(200)); sha256_update(&x[k], m.data(), m.size()); return; }
        unsigned char r[32] = {}; sha256_final(&x[k], r); h = hash_bytes(r, is224[k] ? 28 : 32, h); on[k] = false;
    }
};
struct MapHash { size_t operator()(uint64_t k) const { return k * 0x9e3779b97f4a7c15ull >> 7; } };
struct Maps : Task
{
    hashmap<uint64_t, uint64_t, MapHash> m; using Task::Task;
    void step() override
    {
        for (int i = 0; i < 5; i++) {
            uint64_t k = c.below(200);
            switch (c.below(5)) {
            case 0: case 1: m[k] = c.u64(); break;
            case 2: m.erase(k); break;
            case 3: { auto it = m.find(k); add(it == m.end() ? 0 : it->second); break; }
            default: if (c.chance(1, 30)) m.clear(); m.insert(k, k); break;
            }
        }
        uint64_t s = 0; for (auto it = m.begin(); it != m.end(); ++it) s += mix(it->first ^ mix(it->second)); add(s); add(m.size());
    }
};
enum { KINDS = 5 };
static const char *const kind_names[KINDS] = { "databases", "readers of shared databases", "codecs", "digests", "maps" };
struct Spec { unsigned kind; uint64_t seed; size_t steps; };
static std::unique_ptr<Task> make(const Spec &s, Shared33 *sh, const std::string &file)
{
    switch (s.kind) {
    case 0: return std::unique_ptr<Task>(new Databases(s.seed, s.steps, sh, file));
    case 1: return std::unique_ptr<Task>(new Readers(s.seed, s.steps, sh, file));
    case 2: return std::unique_ptr<Task>(new Codecs(s.seed, s.steps, sh, file));
    case 3: return std::unique_ptr<Task>(new Digests(s.seed, s.steps, sh, file));
    default: return std::unique_ptr<Task>(new Maps(s.seed, s.steps, sh, file));
    }
}
