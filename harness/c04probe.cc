/* C04: prints what the library says about the sizes and offsets of every declaration of the databases named on standard input
 *   "W id width" for every declaration, "O id field offset ..." for every structure with its closing entry,
 *   "X text" when the answers for other capacities differ from the full one */
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <vector>
#include <crefl/model.h>
#include <crefl/db.h>

struct Answer { int ret; size_t count; std::vector<std::pair<size_t, size_t>> items; };

/* arrays of exactly cap entries; -1: no count given */
static Answer ask(decl_ref d, long cap, bool wr, bool wo)
{
    size_t n = cap < 0 ? 0 : cap;
    std::unique_ptr<decl_ref[]> r(new decl_ref[n]); std::unique_ptr<size_t[]> o(new size_t[n]);
    for (size_t k = 0; k < n; k++) { r[k] = decl_ref{ nullptr, 0xdeadbeef }; o[k] = (size_t)-7; }
    Answer a; size_t s = n;
    a.ret = crefl_struct_fields_offsets(d, wr ? r.get() : nullptr, wo ? o.get() : nullptr, cap < 0 ? nullptr : &s);
    a.count = cap < 0 ? 0 : s;
    for (size_t k = 0; k < n; k++) a.items.push_back({ wr ? (size_t)crefl_decl_idx(r[k]) : 0, wo ? o[k] : 0 });
    return a;
}

int main()
{
    char line[4096];
    while (fgets(line, sizeof line, stdin)) {
        line[strcspn(line, "\n")] = 0;
        decl_db *db = crefl_db_new();
        if (crefl_db_read_file(db, line) != 0) { printf("X not readable\nEND\n"); fflush(stdout); crefl_db_destroy(db); continue; }
        for (size_t i = 1; i < db->decl_offset; i++) {
            decl_ref d = { db, (decl_id)i };
            printf("W %zu %zu\n", i, crefl_type_width(d));
            if (crefl_is_struct(d) && crefl_struct_width(d) != crefl_type_width(d)) printf("X crefl_struct_width(%zu) and crefl_type_width differ\n", i);
            if (crefl_is_union(d) && crefl_union_width(d) != crefl_type_width(d)) printf("X crefl_union_width(%zu) and crefl_type_width differ\n", i);
            if (crefl_is_pointer(d) && crefl_pointer_width(d) != crefl_type_width(d)) printf("X crefl_pointer_width(%zu) and crefl_type_width differ\n", i);
            if (crefl_is_intrinsic(d) && crefl_intrinsic_width(d) != crefl_type_width(d)) printf("X crefl_intrinsic_width(%zu) and crefl_type_width differ\n", i);
            if (!crefl_is_struct(d)) {
                size_t s = 3;
                if (crefl_struct_fields_offsets(d, nullptr, nullptr, &s) != -1) printf("X offsets of %zu, which is no structure\n", i);
                continue;
            }
            size_t n = 0, m = 0;
            crefl_struct_fields(d, nullptr, &m);
            std::unique_ptr<decl_ref[]> fs(new decl_ref[m]);
            crefl_struct_fields(d, fs.get(), &m);
            for (size_t k = 0; k < m; k++) n += !(crefl_decl_props(fs[k]) & _decl_static);      /* those of C++ are elsewhere */
            Answer q = ask(d, 0, true, true), full = ask(d, q.count, true, true);
            printf("O %zu", i);
            for (auto &e : full.items) printf(" %zu %zu", e.first, e.second);
            printf("\n");
            if (q.ret || full.ret || full.count != q.count || q.count != (n ? n + 1 : 0)) printf("X structure %zu with %zu fields: %zu and %zu entries\n", i, n, q.count, full.count);
            if (ask(d, -1, false, false).ret || ask(d, -1, true, true).ret) printf("X structure %zu: fails without a count\n", i);
            for (long c : { 1L, (long)q.count - 1, (long)q.count / 2, (long)q.count + 1, (long)q.count + 9 }) for (int m = 0; m < 4; m++) {
                if (c < 0) continue;
                Answer a = ask(d, c, m & 1, m & 2);
                if (a.ret || a.count != q.count) { printf("X structure %zu at capacity %ld: %d, %zu entries\n", i, c, a.ret, a.count); continue; }
                for (size_t k = 0; k < (size_t)c; k++) {
                    if (k >= full.items.size()) {
                        if (!q.count && !k) continue;        /* the end of a structure without fields */
                        if (((m & 1) && a.items[k].first != 0xdeadbeef) || ((m & 2) && a.items[k].second != (size_t)-7)) printf("X structure %zu at capacity %ld: entry %zu written\n", i, c, k);
                    } else if (((m & 1) && a.items[k].first != full.items[k].first) || ((m & 2) && a.items[k].second != full.items[k].second)) printf("X structure %zu at capacity %ld: entry %zu differs\n", i, c, k);
                }
            }
        }
        printf("END\n"); fflush(stdout);
        crefl_db_destroy(db);
    }
    return 0;
}
