/* C11: the library's file calls as a small program, so that they can be run under injected faults */
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <unistd.h>
#include <crefl/model.h>
#include <crefl/db.h>

static std::vector<uint8_t> all_of(int fd)
{
    std::vector<uint8_t> v; uint8_t b[65536]; ssize_t n;
    while ((n = read(fd, b, sizeof b)) > 0) v.insert(v.end(), b, b + n);
    return v;
}
/* info: first free identifier and name offset of a new database
 * read FILE: exit 0 and the database's image on standard output, or 1
 * write FILE: the image on standard input is loaded and written to FILE: exit 0 or 1 */
int main(int argc, char **argv)
{
    if (argc == 2 && !strcmp(argv[1], "info")) {
        decl_db *db = crefl_db_new(); crefl_db_defaults(db);
        decl_ref r = crefl_decl_new(db, 5); uint32_t n = crefl_name_new(db, "x");
        printf("%u %u\n", (unsigned)crefl_decl_idx(r), (unsigned)n); return 0;
    }
    if (argc != 3) return 7;
    decl_db *db = crefl_db_new();
    if (!strcmp(argv[1], "read")) {
        if (crefl_db_read_file(db, argv[2]) != 0) return 1;
        size_t n = crefl_db_size(db); uint8_t *p = (uint8_t *)malloc(n); if (crefl_db_write_mem(db, p, n) != 0) return 7;
        for (size_t k = 0; k < n;) { ssize_t w = write(1, p + k, n - k); if (w <= 0) return 7; k += w; }
        return 0;
    }
    std::vector<uint8_t> in = all_of(0); if (crefl_db_read_mem(db, in.data(), in.size()) != 0) return 7;
    return crefl_db_write_file(db, argv[2]) == 0 ? 0 : 1;
}
