/* Reads live objects through the reflection that is linked into the same program, using the library's public functions only.
   The program's own account of the same objects is printed by generated code; vlib/embed.py compares the two. */
#include <stdio.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>

#include <crefl/model.h>
#include <crefl/db.h>
#include "walk.h"

FILE *vp_seen;          /* the reflection's account */
FILE *vp_true;          /* the program's account */

extern const unsigned char __crefl_main_data[];
extern const size_t __crefl_main_size;

static decl_db *db;
static uint64_t state;

void vp_fill(void *p, size_t n, uint64_t seed)
{
    unsigned char *c = p;
    state = seed * 0x9e3779b97f4a7c15ull + 1;
    for (size_t i = 0; i < n; i++) {
        state ^= state << 13; state ^= state >> 7; state ^= state << 17;
        c[i] = (unsigned char)(state >> 32);
    }
}

void *vp_new(size_t n)
{
    return aligned_alloc(64, (n + 63) & ~(size_t)63);
}

void vp_hex(const char *path, const void *p, size_t n)
{
    fprintf(vp_true, "%s =", path);
    for (size_t i = 0; i < n; i++) fprintf(vp_true, " %02x", ((const unsigned char*)p)[i]);
    fprintf(vp_true, "\n");
}
void vp_s(const char *path, long long v) { fprintf(vp_true, "%s = %lld\n", path, v); }
void vp_u(const char *path, unsigned long long v) { fprintf(vp_true, "%s = %llu\n", path, v); }
void vp_t(const char *text) { fprintf(vp_true, "%s\n", text); }

static void fail(const char *path, const char *what)
{
    fprintf(vp_seen, "%s: %s\n", path, what);
}

typedef struct { decl_ref *r; size_t *o; size_t n; } list;

static list get(int (*q)(decl_ref, decl_ref*, size_t*), decl_ref d)
{
    list l = { 0 };
    if (q(d, NULL, &l.n) != 0) { l.n = 0; return l; }
    l.r = calloc(l.n + 1, sizeof(decl_ref));
    size_t n = l.n;
    if (q(d, l.r, &n) != 0 || n != l.n) fail("query", "the second call tells another number");
    return l;
}

static decl_ref resolve(decl_ref r)
{
    while (crefl_is_alias(r)) r = crefl_decl_link(r);
    return r;
}

static void number(const char *path, const unsigned char *base, size_t bit, size_t width, int is_signed)
{
    uint64_t v = 0;
    for (size_t i = 0; i < width && i < 64; i++) {
        v |= (uint64_t)((base[(bit + i) >> 3] >> ((bit + i) & 7)) & 1) << i;
    }
    if (is_signed) {
        if (width < 64 && width && (v >> (width - 1) & 1)) v |= ~0ull << width;
        fprintf(vp_seen, "%s = %lld\n", path, (long long)v);
    } else {
        fprintf(vp_seen, "%s = %llu\n", path, (unsigned long long)v);
    }
}

static void octets(const char *path, const unsigned char *p, size_t n)
{
    fprintf(vp_seen, "%s =", path);
    for (size_t i = 0; i < n; i++) fprintf(vp_seen, " %02x", p[i]);
    fprintf(vp_seen, "\n");
}

static void show(const char *path, decl_ref r, const unsigned char *base, size_t bit, decl_ref field)
{
    char sub[4000];
    int bits = field.db && (crefl_decl_props(field) & _decl_bitfield);
    size_t width = bits ? crefl_decl_qty(field) : crefl_type_width(r);
    if (strlen(path) > 3900) { fail("path", "too long"); return; }
    r = resolve(r);
    switch (crefl_decl_tag(r)) {
    case _decl_typedef: show(path, crefl_typedef_type(r), base, bit, field); break;
    case _decl_qualifier: show(path, crefl_decl_link(r), base, bit, field); break;
    case _decl_intrinsic: {
        decl_set p = crefl_decl_props(r);
        if (crefl_decl_qty(r) == 1) number(path, base, bit, 1, 0);
        else if ((p & _decl_sint) == _decl_sint || (p & _decl_uint) == _decl_uint) {
            if (width > 64) octets(path, base + (bit >> 3), width >> 3);
            else number(path, base, bit, width, (p & _decl_sint) == _decl_sint);
        }
        else if ((p & _decl_cfloat) == _decl_cfloat && width == 256) {
            octets(path, base + (bit >> 3), 10);
            octets(path, base + (bit >> 3) + 16, 10);
        }
        else if ((p & _decl_float) == _decl_float && width == 128) octets(path, base + (bit >> 3), 10);
        else octets(path, base + (bit >> 3), width >> 3);
        break;
    }
    case _decl_pointer: number(path, base, bit, crefl_pointer_width(r), 0); break;
    case _decl_enum: {
        list l = get(crefl_enum_constants, r);
        int s = l.n && (crefl_decl_props(crefl_constant_type(l.r[0])) & _decl_sint) == _decl_sint;
        number(path, base, bit, width, s);
        free(l.r);
        break;
    }
    case _decl_array: {
        decl_ref t = crefl_array_type(r), none = { 0 };
        size_t n = crefl_array_count(r), w = crefl_type_width(t);
        for (size_t i = 0; i < n; i++) {
            snprintf(sub, sizeof sub, "%s[%zu]", path, i);
            show(sub, t, base, bit + i * w, none);
        }
        break;
    }
    case _decl_struct: {
        size_t n = 0;
        if (crefl_struct_fields_offsets(r, NULL, NULL, &n) != 0 || n == 0) { fail(path, "no offsets"); break; }
        decl_ref *f = calloc(n, sizeof *f);
        size_t *o = calloc(n, sizeof *o);
        size_t m = n;
        crefl_struct_fields_offsets(r, f, o, &m);
        if (m != n) fail(path, "the second call tells another number of offsets");
        if (o[n - 1] != crefl_type_width(r)) fail(path, "the offsets do not end with the size");
        for (size_t i = 0; i + 1 < n; i++) {
            int is_bits = (crefl_decl_props(f[i]) & _decl_bitfield) != 0;
            if (is_bits && !crefl_decl_has_name(f[i])) continue;
            snprintf(sub, sizeof sub, crefl_decl_has_name(f[i]) ? "%s.%s" : "%s", path, crefl_decl_name(f[i]));
            show(sub, crefl_field_type(f[i]), base, bit + o[i], f[i]);
        }
        free(f);
        free(o);
        break;
    }
    case _decl_union: {
        list l = get(crefl_union_fields, r);
        for (size_t i = 0; i < l.n; i++) {
            if ((crefl_decl_props(l.r[i]) & _decl_bitfield) && !crefl_decl_has_name(l.r[i])) continue;
            snprintf(sub, sizeof sub, crefl_decl_has_name(l.r[i]) ? "%s.%s" : "%s", path, crefl_decl_name(l.r[i]));
            show(sub, crefl_field_type(l.r[i]), base, bit, l.r[i]);
        }
        free(l.r);
        break;
    }
    default:
        fail(path, crefl_tag_name(crefl_decl_tag(r)));
        break;
    }
}

/* prints the object as the declaration of that kind and name of that source describes it */
void vp_walk(size_t source, const char *kind, const char *name, const void *obj, size_t size)
{
    list s = get(crefl_archive_sources, crefl_root(db));
    if (source >= s.n) { fail(name, "no such source"); free(s.r); return; }
    list d = get(crefl_source_decls, s.r[source]);
    int found = 0;
    for (size_t i = 0; i < d.n; i++) {
        decl_ref r = resolve(d.r[i]), none = { 0 };
        if (strcmp(crefl_decl_name(r), name) != 0) continue;
        if (strcmp(crefl_tag_name(crefl_decl_tag(r)), kind) != 0) continue;
        if (found++) { fail(name, "declared twice"); continue; }
        if (crefl_type_width(r) != size * 8) fprintf(vp_seen, "%s has %zu bits\n", name, crefl_type_width(r));
        show(name, crefl_is_field(r) ? crefl_field_type(r) : r, obj, 0, none);
    }
    if (!found) fail(name, "not found");
    free(d.r);
    free(s.r);
}

int main(int argc, char **argv)
{
    if (argc != 3) return 2;
    vp_true = fopen(argv[1], "w");
    vp_seen = fopen(argv[2], "w");
    db = crefl_db_new();
    if (crefl_db_read_mem(db, __crefl_main_data, __crefl_main_size) != 0) {
        fail("database", "not accepted");
    } else if (!crefl_is_archive(crefl_root(db))) {
        fail("database", "the root is not an archive");
    } else {
        list s = get(crefl_archive_sources, crefl_root(db));
        fprintf(vp_seen, "archive %s\n", crefl_decl_name(crefl_root(db)));
        for (size_t i = 0; i < s.n; i++) fprintf(vp_seen, "source %s\n", crefl_decl_name(s.r[i]));
        free(s.r);
    }
    vp_program();
    crefl_db_destroy(db);
    fclose(vp_true);
    fclose(vp_seen);
    return 0;
}
