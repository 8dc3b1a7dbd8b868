/* C34: what is made and destroyed leaves nothing behind */
#include "tasks.h"
#include <crefl/dump.h>
#include <dirent.h>
#include <fcntl.h>

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
/* the blocks that were allocated since the start and are not yet released; a table of its own, for the hooks must not allocate */
enum { SLOTS = 1 << 18 };
static struct { const void *p; size_t n; } live[SLOTS]; static bool counting, full; static size_t blocks;
static size_t slot(const void *p) { return (uintptr_t)p * 0x9e3779b97f4a7c15ull >> 46; }
static void on_malloc(const volatile void *q, size_t n)
{
    const void *p = (const void *)q; if (!counting || !p) return;
    size_t i = slot(p), k = 0; while (live[i].p && live[i].p != (void *)1 && live[i].p != p && k < SLOTS) i = (i + 1) % SLOTS, k++;
    if (k >= SLOTS / 2) { full = true; return; }
    live[i] = { p, n }; blocks++;
}
static void on_free(const volatile void *q)
{
    const void *p = (const void *)q; if (!counting || !p) return;
    for (size_t i = slot(p), k = 0; live[i].p && k < SLOTS; i = (i + 1) % SLOTS, k++) if (live[i].p == p) { live[i].p = (void *)1; blocks--; return; }
}
static void start() { static bool once = (__sanitizer_install_malloc_and_free_hooks(on_malloc, on_free), true); (void)once; memset(live, 0, sizeof live); blocks = 0; full = false; counting = true; }
static size_t stop(std::string &what)
{
    counting = false; size_t n = 0; for (auto &l : live) if (l.p && l.p != (void *)1 && n++ < 5) what += strf("%s%zu", n > 1 ? ", " : "", l.n);
    return n;
}
static int files() { int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return 0; while (readdir(d)) n++; closedir(d); return n; }

struct Left { size_t blocks; int files; std::string sizes; };
static Left run(const Spec &s, Shared33 *sh, const std::string &file)
{
    Left l; int f = files(); start();
    { auto t = make(s, sh, file); for (size_t i = 0; i < s.steps; i++) t->step(); }
    l.blocks = stop(l.sizes); l.files = files() - f; return l;
}
static void history(Case &c, unsigned kind)
{
    Shared33 sh; auto n = c.below(2) + 1; for (unsigned i = 0; i < n; i++) { SrcGen g(c, 3 + c.size(30)); g.start(); g.decls(1 + c.size(8)); std::vector<uint32_t> pl; sh.db.emplace_back(build_db(g.m, any_order(c, g.m), pl, 0)); }
    sh.ix.reset(new Idx); crefl_index_scan(sh.ix->ix, sh.db[0].db);
    Spec s{ kind, c.u64(), 1 + c.size(40) }; std::string f = tmpdir + "/c34-" + std::to_string(getpid());
    /* what the libraries below allocate once and keep is there after the first run */
    Left a = run(s, &sh, f); if (a.blocks || a.files) a = run(s, &sh, f);
    c.note("%s: %zu steps", kind_names[kind], s.steps); c.label(kind_names[kind]);
    VP_CHECK(full || a.blocks == 0, "%s, %zu steps: %zu blocks (of %s bytes) are never released", kind_names[kind], s.steps, a.blocks, a.sizes.c_str());
    VP_CHECK(a.files <= 0, "%s, %zu steps: %d files stay open", kind_names[kind], s.steps, a.files);
    if (s.steps > 1) c.nontrivial(mix(s.seed) ^ s.steps << 3 ^ kind);
}
/* all that prints, in every format */
static void prints(uint64_t seed, size_t steps, Shared33 &sh)
{
    Case c; c.rs = seed; Buf b(64); memset(b.b.data, 'x', 64); b.b.data_offset = c.below(65);
    for (size_t i = 0; i < steps; i++) {
        decl_db *d = sh.db[c.below(sh.db.size())].db;
        switch (c.below(6)) {
        case 0: crefl_db_set_dump_fmt((enum crefl_db_dump_fmt)c.below(8)); break;
        case 1: crefl_db_dump(d); break;
        case 2: crefl_db_dump_row(d, crefl_lookup(d, c.below(d->decl_offset))); break;
        case 3: crefl_db_dump_stats(d); break;
        case 4: crefl_db_header_names(); crefl_db_header_lines(); break;
        default: crefl_buf_dump(&b.b); break;
        }
    }
    crefl_db_set_dump_fmt(crefl_db_dump_std); fflush(stdout);
}
VP_PROP(printing, 600, 20000)
{
    Shared33 sh; auto n = c.below(2) + 1; for (unsigned i = 0; i < n; i++) { SrcGen g(c, 3 + c.size(20)); g.start(); g.decls(1 + c.size(6)); std::vector<uint32_t> pl; sh.db.emplace_back(build_db(g.m, any_order(c, g.m), pl, 0)); }
    uint64_t seed = c.u64(); size_t steps = 1 + c.size(12), blocks = 0; int more = 0; std::string sizes; fflush(stdout); int so = dup(1), nul = open("/dev/null", O_WRONLY); dup2(nul, 1); close(nul);
    for (int k = 0; k < 2; k++) { int f = files(); sizes.clear(); start(); prints(seed, steps, sh); blocks = stop(sizes); more = files() - f; if (!blocks && more <= 0) break; }
    dup2(so, 1); close(so); c.note("printing: %zu steps", steps);
    VP_CHECK(full || blocks == 0, "printing, %zu steps: %zu blocks (of %s bytes) are never released", steps, blocks, sizes.c_str()); VP_CHECK(more <= 0, "printing, %zu steps: %d files stay open", steps, more);
    if (steps > 1) c.nontrivial(mix(seed) ^ steps);
}
VP_PROP(databases, 1500, 60000) { history(c, c.chance(1, 4)); }
VP_PROP(others, 1500, 60000) { history(c, 2 + c.below(3)); }
