/* C33: work on separate objects is independent, in turns and in threads; questions about shared ones are only questions */
#include "tasks.h"
#include <thread>
#include <atomic>
#include <sched.h>

extern "C" const char *__tsan_default_options() { return "halt_on_error=1:exitcode=66:die_after_fork=0:report_thread_leaks=0:report_signal_unsafe=0:history_size=5"; }

/* what the task finds, step by step; the seeds belong to it alone */
static std::vector<uint64_t> alone(const Spec &s, Shared33 *sh, const std::string &file)
{
    std::vector<uint64_t> r; auto t = make(s, sh, file);
    for (size_t i = 0; i < s.steps; i++) { t->step(); r.push_back(t->h); }
    return r;
}
static std::vector<Spec> specs(Case &c, Shared33 &sh, size_t most)
{
    unsigned n = 1 + c.below(3);
    for (unsigned i = 0; i < n; i++) { SrcGen g(c, 3 + c.size(30)); g.start(); g.decls(1 + c.size(8)); std::vector<uint32_t> pl; sh.db.emplace_back(build_db(g.m, any_order(c, g.m), pl, 0)); }
    sh.ix.reset(new Idx); crefl_index_scan(sh.ix->ix, sh.db[0].db);
    std::vector<Spec> s; bool same = c.chance(1, 3); unsigned k0 = c.below(KINDS);
    if (c.chance(1, 3)) for (unsigned k = 0; k < 2 * KINDS; k++) s.push_back({ k % KINDS, c.u64(), 4 + c.size(40) });
    else { n = 2 + c.below(5); for (unsigned i = 0; i < n; i++) s.push_back({ same ? k0 : (unsigned)c.below(KINDS), c.u64(), 1 + c.size(most) }); }
    return s;
}
static void compare(Case &c, const std::vector<Spec> &s, const std::vector<std::vector<uint64_t>> &got, Shared33 &sh, const std::vector<uint64_t> &before, const char *how)
{
    std::string f = tmpdir + "/c33-alone-" + std::to_string(getpid()); uint64_t fp = 1; size_t kinds = 0, total = 0;
    for (size_t i = 0; i < sh.db.size(); i++) VP_CHECK(db_sum(sh.db[i].db) == before[i], "shared database %zu was changed", i);
    for (size_t i = 0; i < s.size(); i++) {
        auto want = alone(s[i], &sh, f);
        for (size_t k = 0; k < want.size(); k++) VP_CHECK(got[i][k] == want[k], "task %zu (%s) finds something else in step %zu of %zu %s than alone", i, kind_names[s[i].kind], k, want.size(), how);
        fp = mix(fp ^ (want.empty() ? 0 : want.back())); kinds |= 1u << s[i].kind; total += s[i].steps; c.label(kind_names[s[i].kind]); c.note("%s: %zu steps; ", kind_names[s[i].kind], s[i].steps);
    }
    if (s.size() > 1 && total > 3) c.nontrivial(fp);
}

/* first, so that every worker starts with a case that finds the library as a new process does */
VP_PROP(threads, 1500, 60000)
{
    crefl_asn1_oid_desc("", 0);      /* the first question is documented to be for one thread */
    Shared33 sh; auto s = specs(c, sh, 60); std::vector<uint64_t> before; for (auto &d : sh.db) before.push_back(db_sum(d.db));
    uint64_t sched = c.u64(); std::vector<std::vector<uint64_t>> got(s.size()); std::vector<std::thread> th; std::atomic<unsigned> ready{ 0 }; std::string base = tmpdir + "/c33-" + std::to_string(getpid()) + "-";
    for (size_t i = 0; i < s.size(); i++)
        th.emplace_back([&, i] {
            ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < s.size()) sched_yield();
            auto t = make(s[i], &sh, base + std::to_string(i)); uint64_t z = mix(sched ^ i);
            for (size_t k = 0; k < s[i].steps; k++) { t->step(); got[i].push_back(t->h); z = mix(z); if (z % 7 == 0) sched_yield(); else if (z % 31 == 1) usleep(z >> 40 & 63); }
        });
    for (auto &t : th) t.join();
    compare(c, s, got, sh, before, "among other threads");
}
/* one thread, in turns: what one task does must not show in another */
VP_PROP(turns, 4000, 150000)
{
    Shared33 sh; auto s = specs(c, sh, 60); std::vector<uint64_t> before; for (auto &d : sh.db) before.push_back(db_sum(d.db));
    std::vector<std::vector<uint64_t>> got(s.size()); std::vector<std::unique_ptr<Task>> t; std::vector<size_t> open; std::string base = tmpdir + "/c33-" + std::to_string(getpid()) + "-";
    for (size_t i = 0; i < s.size(); i++) { t.push_back(make(s[i], &sh, base + std::to_string(i))); open.push_back(i); }
    Case r; r.rs = c.u64();
    while (!open.empty()) {
        size_t k = r.below(open.size()), i = open[k], n = 1 + r.below(3);
        while (n-- && got[i].size() < s[i].steps) { t[i]->step(); got[i].push_back(t[i]->h); }
        if (got[i].size() == s[i].steps) { t[i].reset(); open.erase(open.begin() + k); }
    }
    compare(c, s, got, sh, before, "between the others");
}
