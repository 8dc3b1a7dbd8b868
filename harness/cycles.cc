/* the two histories of the known findings of C05 and C07 (KNOWN_FINDINGS): prints the name of each that still fails */
#include <cstdio>
#include <cstring>
#include <string>
#include <crefl/model.h>
#include <crefl/db.h>
#include <crefl/link.h>

static decl_id node(decl_db *db, decl_tag tag, const char *name)
{
    decl_ref r = crefl_decl_new(db, tag);
    decl_id n = crefl_name_new(db, name);
    crefl_decl_ptr(r)->_name = n;
    return crefl_decl_idx(r);
}
static decl_node *at(decl_db *db, decl_id i) { return crefl_decl_ptr(crefl_lookup(db, i)); }

/* struct A { <first> x; struct B *b; }; struct B { struct A *a; }; in this order or the other */
static decl_db *make(size_t width, bool swapped, decl_id *a, decl_id *b)
{
    decl_db *db = crefl_db_new(); crefl_db_defaults(db);
    decl_id s = node(db, _decl_source, "s.c"); db->root_element = s;
    *a = node(db, _decl_struct, "A"); *b = node(db, _decl_struct, "B");
    decl_id x = node(db, _decl_field, "x"), fb = node(db, _decl_field, "b"), fa = node(db, _decl_field, "a"), pb = node(db, _decl_pointer, ""), pa = node(db, _decl_pointer, "");
    at(db, s)->_link = swapped ? *b : *a; at(db, swapped ? *b : *a)->_next = swapped ? *a : *b;
    at(db, *a)->_link = x; at(db, x)->_next = fb; at(db, *b)->_link = fa;
    at(db, x)->_link = crefl_decl_idx(crefl_intrinsic(db, _decl_sint, width));
    at(db, fb)->_link = pb; at(db, pb)->_link = *b; at(db, fa)->_link = pa; at(db, pa)->_link = *a;
    at(db, pa)->_quantity = at(db, pb)->_quantity = 64;
    return db;
}
static std::string hash(decl_db *db, decl_id i)
{
    decl_index *ix = crefl_index_new(); crefl_index_scan(ix, db);
    decl_hash h = crefl_entry_ptr(crefl_entry_ref(ix, crefl_lookup(db, i)))->hash;
    std::string s((const char *)&h, sizeof h);
    crefl_index_destroy(ix);
    return s;
}
int main()
{
    decl_id a1, b1, a2, b2;
    decl_db *d1 = make(32, false, &a1, &b1), *d2 = make(32, true, &a2, &b2), *d3 = make(64, false, &a2, &b2);
    decl_db *d4 = make(32, true, &a2, &b2);
    if (hash(d1, a1) != hash(d4, a2) || hash(d1, b1) != hash(d4, b2)) printf("cycle-order\n");
    decl_db *in[2] = { d1, d3 }, *out = crefl_db_new();
    if (crefl_link_merge(out, "m", in, 2)) { printf("failed\n"); return 0; }
    /* the second source's B must lead to the struct with the 64-bit member */
    decl_ref ss[2]; size_t n = 2;
    if (crefl_archive_sources(crefl_lookup(out, out->root_element), ss, &n) || n != 2) { printf("failed\n"); return 0; }
    decl_id k = at(out, crefl_decl_idx(ss[1]))->_link;
    for (; k; k = at(out, k)->_next) {
        decl_id t = at(out, k)->_tag == _decl_alias ? at(out, k)->_link : k;
        if (strcmp(crefl_decl_name(crefl_lookup(out, t)), "B")) continue;
        decl_id A = at(out, at(out, at(out, t)->_link)->_link)->_link;      /* field, pointer, struct */
        if (at(out, A)->_tag == _decl_alias) A = at(out, A)->_link;
        if (at(out, at(out, at(out, A)->_link)->_link)->_quantity != 64) printf("cycle-unify\n");
    }
    return 0;
}
