/*
 * vp.h - small property-based testing framework.
 *
 * A property is a function of a choice sequence: every random decision goes through Case::draw(), so a failing case is
 * stored, replayed and shrunk as its list of choices (integrated shrinking: a shrunk case is always one the generator
 * could have produced). Cases are run in forked workers so that crashes, sanitizer reports and hangs are attributed to
 * the case that caused them.
 */
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <ctime>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <initializer_list>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/time.h>

namespace vp {

static inline uint64_t mix(uint64_t z)
{
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 0x1234567)
{
    const uint8_t *b = (const uint8_t *)p;
    for (; n >= 8; n -= 8, b += 8) { uint64_t v; memcpy(&v, b, 8); h = mix(h ^ v); }
    uint64_t t = n; for (size_t i = 0; i < n; i++) t = (t << 8) | b[i];
    return mix(h ^ t);
}
static inline uint64_t hash_str(const std::string &s, uint64_t h = 77) { return hash_bytes(s.data(), s.size(), h); }

struct Failure { std::string msg; };
struct Discard {};

enum { mirror_cap = 1 << 20 };

struct Case
{
    uint64_t rs = 0;                 /* rng state */
    bool replay = false;
    uint64_t *mirror = nullptr;      /* shared copy of out, survives a crash: count, then choices */
    std::vector<uint64_t> in;        /* choices to replay */
    size_t pos = 0;
    bool var = false; std::vector<uint8_t> fz; /* coverage-guided mode: choices come from the fuzzer's bytes */
    std::vector<uint8_t> *enc = nullptr;       /* and the bytes that would give the choices made */
    std::vector<uint64_t> out;       /* choices made */
    bool nt = false; uint64_t fp = 0; bool has_fp = false;
    bool verbose = false;            /* describe the case */
    std::string desc;
    std::map<std::string, uint64_t> *labels = nullptr;

    uint64_t raw()
    {
        rs += 0x9e3779b97f4a7c15ull;
        uint64_t z = rs;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    /* 0..max inclusive */
    uint64_t draw(uint64_t max)
    {
        uint64_t v;
        if (var) {
            /* fuzzer bytes: as many as the range needs */
            v = 0; for (uint64_t m = max; m; m >>= 8) v = (v << 8) | (pos < fz.size() ? fz[pos++] : 0);
            if (max != UINT64_MAX) v %= max + 1;
        } else if (replay) {
            v = pos < in.size() ? in[pos] : 0;
            pos++;
            if (v > max) v = max == UINT64_MAX ? v : v % (max + 1);
        } else {
            v = raw();
            if (max != UINT64_MAX) v = (uint64_t)(((unsigned __int128)v * ((unsigned __int128)max + 1)) >> 64);
        }
        if (enc) { int k = 0; for (uint64_t m = max; m; m >>= 8) k++; while (k-- > 0) enc->push_back((uint8_t)(v >> (8 * k))); }
        out.push_back(v);
        if (mirror && out.size() < mirror_cap) { mirror[out.size()] = v; mirror[0] = out.size(); }
        return v;
    }
    uint64_t below(uint64_t n) { return n ? draw(n - 1) : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo)); }
    /* true with probability num/den; shrinks to false */
    bool chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; }
    bool flip() { return draw(1) != 0; }
    uint64_t u64() { return draw(UINT64_MAX); }
    /* size biased towards small, up to max; sometimes around boundaries */
    size_t size(size_t max)
    {
        switch (draw(7)) {
        case 0: case 1: return draw(max < 3 ? max : 3);
        case 2: case 3: case 4: return draw(max < 16 ? max : 16);
        case 5: return draw(max < 64 ? max : 64);
        default: return draw(max);
        }
    }
    /* integer dense at bit / byte boundaries */
    uint64_t interesting()
    {
        switch (draw(5)) {
        case 0: return draw(255);
        case 1: { unsigned b = draw(63); return (1ull << b) + (uint64_t)range(-2, 2); }
        case 2: { unsigned b = draw(63); uint64_t m = b == 63 ? UINT64_MAX : (1ull << (b + 1)) - 1; return draw(UINT64_MAX) & m; }
        case 3: { unsigned b = draw(63); return ~((1ull << b) + (uint64_t)range(-2, 2)); }
        case 4: { unsigned a = draw(63), b = draw(63); return ((draw(UINT64_MAX) >> a) << b); }
        default: return draw(UINT64_MAX);
        }
    }
    uint8_t byte()
    {
        static const uint8_t sp[] = { 0, 1, 0x7f, 0x80, 0x81, 0xff, 0xfe, 0x40, 0xc0, 0x3f, 0x1f, 0x3e };
        switch (draw(3)) {
        case 0: return sp[draw(sizeof(sp) - 1)];
        default: return (uint8_t)draw(255);
        }
    }
    std::vector<uint8_t> bytes(size_t n)
    {
        std::vector<uint8_t> v(n);
        for (auto &b : v) b = byte();
        return v;
    }
    /* large random blocks from few choices (not individually shrinkable) */
    std::vector<uint8_t> block(size_t n)
    {
        std::vector<uint8_t> v(n);
        uint64_t s = draw(UINT64_MAX);
        for (size_t i = 0; i < n; i++) { if (i % 8 == 0) s = mix(s); v[i] = (uint8_t)(s >> (8 * (i % 8))); }
        return v;
    }
    template <typename T> T pick(std::initializer_list<T> l) { return *(l.begin() + draw(l.size() - 1)); }
    template <typename T> const T &pick(const std::vector<T> &l) { return l[draw(l.size() - 1)]; }

    void nontrivial() { nt = true; }
    void nontrivial(uint64_t f) { nt = true; fp = f; has_fp = true; }
    void label(const char *l) { if (labels) (*labels)[l]++; }
    void label(const std::string &l) { if (labels) (*labels)[l]++; }
    void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)))
    {
        if (!verbose || desc.size() > 4000) return;
        char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
        desc += b;
    }
    void discard() { throw Discard(); }
};

static std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static std::string strf(const char *fmt, ...)
{
    char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b;
}
static inline std::string hex(const void *p, size_t n, size_t max = 96)
{
    std::string s; const uint8_t *b = (const uint8_t *)p;
    for (size_t i = 0; i < n && i < max; i++) { char t[4]; snprintf(t, 4, "%02x", b[i]); s += t; }
    if (n > max) s += strf("..(%zu bytes)", n);
    return s;
}
static inline std::string hex(const std::vector<uint8_t> &v) { return hex(v.data(), v.size()); }

#define VP_CHECK(cond, ...) do { if (!(cond)) throw vp::Failure{ vp::strf(__VA_ARGS__) }; } while (0)

typedef void (*prop_fn)(Case &c);
struct Prop { const char *name; uint64_t quick, thorough; prop_fn fn; };
static std::vector<Prop> &props() { static std::vector<Prop> p; return p; }
struct Reg { Reg(const char *n, uint64_t q, uint64_t t, prop_fn f) { props().push_back(Prop{ n, q, t, f }); } };
#define VP_PROP(name, quick, thorough) \
    static void vp_prop_##name(vp::Case &c); \
    static vp::Reg vp_reg_##name(#name, quick, thorough, vp_prop_##name); \
    static void vp_prop_##name(vp::Case &c)

/* what a worker is doing, visible to the parent */
struct Slot { volatile uint64_t prop, idx, busy; volatile double start; };

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

enum Outcome { OK, FAILED, CRASHED, HUNG, DISCARDED };


/* result area shared between a case's process and the parent */
struct Shared { int outcome; char msg[4096]; char desc[8192]; uint64_t mirror[mirror_cap + 8]; };
static Shared *shared;

static void put(char *dst, size_t cap, const std::string &s)
{
    size_t n = s.size() < cap - 1 ? s.size() : cap - 1;
    memcpy(dst, s.data(), n); dst[n] = 0;
}

static std::string tmpdir;
/* a single case that takes longer than this is taken for a hang (harnesses with heavy cases raise it) */
static double hang_limit = 20;

/* run one case in a child process; made gets the choices it used */
static Outcome run_child(const Prop &p, bool replay, const std::vector<uint64_t> &choices, uint64_t seed,
                         std::string &msg, std::vector<uint64_t> *made, double limit, std::string *desc = nullptr,
                         const std::vector<uint8_t> *fuzz = nullptr)
{
    shared->outcome = -1; shared->mirror[0] = 0; shared->msg[0] = 0; shared->desc[0] = 0;
    std::string e = tmpdir + "/child.err";
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        int fd = open(e.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(fd, 2);
        Case c; c.replay = replay; c.in = choices; c.rs = seed; c.verbose = true; c.mirror = shared->mirror;
        if (fuzz) { c.replay = true; c.var = true; c.fz = *fuzz; }
        Outcome o = OK; std::string m;
        try { p.fn(c); } catch (Failure &x) { o = FAILED; m = x.msg; } catch (Discard &) { o = DISCARDED; }
        put(shared->msg, sizeof shared->msg, m);
        put(shared->desc, sizeof shared->desc, c.desc);
        shared->outcome = o;
        _exit(0);
    }
    double t0 = now(); int st = 0; bool hung = false;
    for (;;) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (now() - t0 > limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hung = true; break; }
        usleep(now() - t0 < 0.05 ? 100 : 5000);
    }
    if (made) {
        size_t n = shared->mirror[0]; if (n > mirror_cap) n = mirror_cap;
        made->assign(shared->mirror + 1, shared->mirror + 1 + n);
    }
    if (desc) *desc = shared->desc;
    if (hung) { msg = "did not end"; return HUNG; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && shared->outcome >= 0) { msg = shared->msg; return (Outcome)shared->outcome; }
    msg = WIFSIGNALED(st) ? strf("killed by signal %d", WTERMSIG(st)) : strf("exit status %d", WEXITSTATUS(st));
    FILE *i = fopen(e.c_str(), "r");
    if (i) {
        char b[4096]; int keep = 0;
        while (fgets(b, sizeof b, i)) {
            if (strstr(b, "ERROR: AddressSanitizer") || strstr(b, "runtime error") || strstr(b, "WARNING: ThreadSanitizer")) { msg += std::string("; ") + b; keep = 8; }
            else if (keep-- > 0 && (strstr(b, " in ") || strstr(b, "    #"))) msg += b;
        }
        fclose(i);
    }
    return CRASHED;
}

static bool bad(Outcome o) { return o == FAILED || o == CRASHED || o == HUNG; }

/* smaller = fewer choices, then lexicographically smaller */
static std::vector<uint64_t> shrink(const Prop &p, std::vector<uint64_t> cur, Outcome kind, std::string &msg, double budget)
{
    double t0 = now(); double lim = kind == HUNG ? hang_limit / 2 : hang_limit;
    if (kind == HUNG) budget = 40;
    auto attempt = [&](const std::vector<uint64_t> &cand) -> bool {
        if (cand == cur || now() - t0 > budget) return false;
        std::string m; std::vector<uint64_t> made;
        Outcome o = run_child(p, true, cand, 0, m, &made, lim);
        if (o != kind) return false;
        /* keep the choices really used if they are simpler */
        std::vector<uint64_t> nw = made.size() <= cand.size() ? made : cand;
        if (nw.size() > cur.size() || (nw.size() == cur.size() && !(nw < cur))) return false;
        cur = nw; msg = m;
        return true;
    };
    bool progress = true;
    while (progress && now() - t0 < budget) {
        progress = false;
        for (size_t blk = cur.size() / 2 + 1; blk >= 1; blk /= 2) {
            for (size_t i = 0; i + blk <= cur.size() && now() - t0 < budget;) {
                std::vector<uint64_t> c(cur); c.erase(c.begin() + i, c.begin() + i + blk);
                if (attempt(c)) progress = true; else i += blk;
            }
            if (blk == 1) break;
        }
        for (size_t blk = 8; blk >= 1; blk /= 2) {
            for (size_t i = 0; i + blk <= cur.size() && now() - t0 < budget; i += blk) {
                std::vector<uint64_t> c(cur); bool any = false;
                for (size_t k = i; k < i + blk; k++) { any |= c[k] != 0; c[k] = 0; }
                if (any && attempt(c)) progress = true;
            }
        }
        for (size_t i = 0; i < cur.size() && now() - t0 < budget; i++) {
            if (cur[i] == 0) continue;
            uint64_t lo = 0;
            for (int k = 0; k < 64 && i < cur.size() && cur[i] > lo; k++) {
                std::vector<uint64_t> c(cur); uint64_t mid = lo + (cur[i] - lo) / 2;
                c[i] = mid;
                if (attempt(c)) { progress = true; } else lo = mid + 1;
            }
            if (i < cur.size() && cur[i] > 0) { std::vector<uint64_t> c(cur); c[i]--; if (attempt(c)) progress = true; }
            /* delete i+1 while lowering a length at i */
            if (i + 1 < cur.size() && cur[i] > 0) {
                std::vector<uint64_t> c(cur); c[i]--; c.erase(c.begin() + i + 1);
                if (attempt(c)) progress = true;
            }
        }
    }
    return cur;
}

static std::string jstr(const std::string &s)
{
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch < 0x20 || ch >= 0x7f) o += strf("\\u%04x", ch);
        else o += ch;
    }
    return o + "\"";
}

static int replay_file(const char *path, const char *id)
{
    FILE *f = fopen(path, "r"); if (!f) { fprintf(stderr, "cannot open %s\n", path); return 2; }
    char b[4096]; std::string sub; std::vector<uint64_t> ch;
    while (fgets(b, sizeof b, f)) {
        if (!strncmp(b, "sub ", 4)) { sub = b + 4; while (!sub.empty() && isspace((unsigned char)sub.back())) sub.pop_back(); }
        if (!strncmp(b, "choices ", 8)) {
            size_t n = strtoull(b + 8, nullptr, 10);
            for (size_t i = 0; i < n; i++) { unsigned long long v = 0; if (fscanf(f, "%llu", &v) != 1) break; ch.push_back(v); }
        }
    }
    fclose(f);
    for (auto &p : props()) if (sub == p.name) {
        std::string msg, desc;
        Outcome o = run_child(p, true, ch, 0, msg, nullptr, hang_limit, &desc);
        printf("replay %s: %s\n%s\n%s\n", sub.c_str(), bad(o) ? "FAILS" : "holds", msg.c_str(), desc.c_str());
        if (bad(o)) printf("VIOLATION property=%s replay=%s\n", id, path);
        return bad(o) ? 1 : 0;
    }
    fprintf(stderr, "no such sub-property %s\n", sub.c_str());
    return 2;
}

/*
 * main: --id C12 --seed N --tier quick|thorough --out stats.json --replays DIR --tmp DIR [--cap seconds] [--jobs n]
 *       [--only sub] | --replay FILE
 */
static int vp_main(int argc, char **argv)
{
    std::string id = "C00", out = "/dev/null", rdir = "/tmp", only, replay, fuzzcase, seeds; tmpdir = "/tmp";
    uint64_t seed = 1; bool thorough = false; double cap = 0; unsigned jobs = 8; double scale = 1;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; const char *v = i + 1 < argc ? argv[i + 1] : "";
        if (a == "--id") id = v; else if (a == "--seed") seed = strtoull(v, 0, 10);
        else if (a == "--tier") thorough = !strcmp(v, "thorough"); else if (a == "--out") out = v;
        else if (a == "--replays") rdir = v; else if (a == "--tmp") tmpdir = v; else if (a == "--cap") cap = atof(v);
        else if (a == "--jobs") jobs = atoi(v); else if (a == "--only") only = v; else if (a == "--replay") replay = v;
        else if (a == "--scale") scale = atof(v);
        else if (a == "--fuzzcase") fuzzcase = v; else if (a == "--seeds") seeds = v;
        else { fprintf(stderr, "bad argument %s\n", argv[i]); return 2; }
        i++;
    }
    shared = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (!replay.empty()) return replay_file(replay.c_str(), id.c_str());
    if (cap == 0) cap = thorough ? 600 : 150;
    double t0 = now();
    std::vector<Prop> &ps = props();
    std::vector<uint8_t> fz;         /* a failing input of the coverage-guided stage, to be confirmed and shrunk */
    if (!fuzzcase.empty()) {
        FILE *f = fopen(fuzzcase.c_str(), "rb"); if (!f) { fprintf(stderr, "cannot open %s\n", fuzzcase.c_str()); return 2; }
        int ch; while ((ch = fgetc(f)) != EOF) fz.push_back((uint8_t)ch);
        fclose(f); if (fz.empty()) return 2;
        jobs = 0;
    }
    Slot *slots = (Slot *)mmap(nullptr, sizeof(Slot) * (jobs + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    uint64_t idh = hash_str(id);
    auto case_seed = [&](size_t pi, uint64_t idx) { return mix(mix(seed ^ idh) ^ hash_str(ps[pi].name) ^ mix(idx)); };
    if (!seeds.empty()) {            /* first inputs for the coverage-guided stage */
        for (size_t pi = 0; pi < ps.size(); pi++) for (uint64_t idx = 0; idx < 48; idx++) {
            std::vector<uint8_t> e; e.push_back((uint8_t)pi); Case c; c.rs = case_seed(pi, idx); c.enc = &e;
            try { ps[pi].fn(c); } catch (Discard &) {} catch (Failure &) {}
            FILE *f = fopen((seeds + "/" + std::to_string(pi) + "-" + std::to_string(idx)).c_str(), "wb");
            if (f) { fwrite(e.data(), 1, e.size(), f); fclose(f); }
        }
        return 0;
    }
    std::vector<pid_t> pids(jobs);
    for (unsigned w = 0; w < jobs; w++) {
        fflush(stdout); fflush(stderr);
        pids[w] = fork();
        if (pids[w]) continue;
        /* worker */
        std::string e = tmpdir + "/worker.err." + std::to_string(w);
        int fd = open(e.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1); dup2(fd, 2);
        std::vector<uint64_t> ev(ps.size(), 0), disc(ps.size(), 0); std::vector<std::unordered_set<uint64_t>> nts(ps.size());
        std::map<std::string, uint64_t> labels; std::vector<std::string> samples;
        bool failed = false, capped = false;
        const unsigned rounds = 25;
        for (unsigned r = 0; r < rounds && !failed && !capped; r++)
            for (size_t pi = 0; pi < ps.size() && !failed && !capped; pi++) {
                if (!only.empty() && only != ps[pi].name) continue;
                uint64_t total = (uint64_t)((thorough ? ps[pi].thorough : ps[pi].quick) * scale);
                uint64_t lo = total * r / rounds, hi = total * (r + 1) / rounds;
                for (uint64_t idx = lo; idx < hi; idx++) {
                    if (idx % jobs != w) continue;
                    if ((ev[pi] & 15) == 0 && now() - t0 > cap) { capped = true; break; }
                    Case c; c.rs = case_seed(pi, idx); c.labels = &labels;
                    /* the first cases of every sub-property are sampled in writing by worker 0 */
                    c.verbose = w == 0 && r >= 1 && r <= 4 && idx < lo + jobs;
                    slots[w].prop = pi; slots[w].idx = idx; slots[w].start = now(); slots[w].busy = 1;
                    try { ps[pi].fn(c); ev[pi]++; }
                    catch (Discard &) { disc[pi]++; }
                    catch (Failure &f) { ev[pi]++; failed = true; }
                    if (failed) break;
                    slots[w].busy = 0;
                    if (c.nt && nts[pi].size() < 3000000)
                        nts[pi].insert(c.has_fp ? c.fp : hash_bytes(c.out.data(), c.out.size() * 8));
                    if (c.verbose && samples.size() < 60) samples.push_back(std::string(ps[pi].name) + ": " + c.desc.substr(0, 700));
                }
            }
        FILE *o = fopen((tmpdir + "/stats." + std::to_string(w)).c_str(), "w");
        for (size_t pi = 0; pi < ps.size(); pi++) {
            fprintf(o, "P %zu %llu %llu %zu\n", pi, (unsigned long long)ev[pi], (unsigned long long)disc[pi], nts[pi].size());
            for (auto h : nts[pi]) fprintf(o, "%llx\n", (unsigned long long)h);
        }
        for (auto &l : labels) fprintf(o, "L %llu %s\n", (unsigned long long)l.second, l.first.c_str());
        for (auto &s : samples) { fprintf(o, "S %zu ", s.size()); fwrite(s.data(), 1, s.size(), o); fputc('\n', o); }
        fprintf(o, "C %d\n", (int)capped);
        fclose(o);
        _exit(failed ? 42 : 0);
    }
    /* parent: wait for workers, watch for hangs */
    struct Cand { size_t pi; uint64_t idx; };
    std::vector<Cand> cands; std::vector<bool> done(jobs, false); unsigned left = jobs;
    while (left) {
        for (unsigned w = 0; w < jobs; w++) {
            if (done[w]) continue;
            int st; pid_t r = waitpid(pids[w], &st, WNOHANG);
            if (r == pids[w]) {
                done[w] = true; left--;
                if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) cands.push_back({ (size_t)slots[w].prop, slots[w].idx });
                continue;
            }
            if (slots[w].busy && slots[w].start > 0 && now() - slots[w].start > hang_limit * 1.5) {
                kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); done[w] = true; left--;
                cands.push_back({ (size_t)slots[w].prop, slots[w].idx });
            }
        }
        if (!cands.empty() && left) {
            /* one failure is enough: stop the others */
            double tk = now();
            for (;;) { /* give the others a moment to end by themselves */
                if (now() - tk > 0.5) break;
                usleep(20000);
            }
            for (unsigned w = 0; w < jobs; w++) if (!done[w]) {
                int st; if (waitpid(pids[w], &st, WNOHANG) == pids[w]) {
                    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) cands.push_back({ (size_t)slots[w].prop, slots[w].idx });
                } else { kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); }
                done[w] = true; left--;
            }
        }
        if (left) usleep(2000);
    }
    if (!fz.empty()) { size_t pi = fz[0] % ps.size(); fz.erase(fz.begin()); cands.push_back({ pi, hash_bytes(fz.data(), fz.size()) }); }
    /* confirm, shrink, report */
    struct Viol { std::string sub, msg, path, desc; };
    std::vector<Viol> viols; std::vector<std::string> flaky;
    std::sort(cands.begin(), cands.end(), [](const Cand &a, const Cand &b) { return a.pi != b.pi ? a.pi < b.pi : a.idx < b.idx; });
    for (auto &cd : cands) {
        bool dup = false; for (auto &v : viols) if (v.sub == ps[cd.pi].name) dup = true;
        if (dup || viols.size() >= 3) continue;
        std::string msg, desc; std::vector<uint64_t> made, none;
        Outcome kind = run_child(ps[cd.pi], false, none, case_seed(cd.pi, cd.idx), msg, &made, hang_limit, &desc, fuzzcase.empty() ? nullptr : &fz);
        if (!bad(kind)) { flaky.push_back(strf("%s #%llu not reproduced", ps[cd.pi].name, (unsigned long long)cd.idx)); continue; }
        std::vector<uint64_t> sm = shrink(ps[cd.pi], made, kind, msg, 25);
        int n = 0; Outcome o2 = OK;
        for (int k = 0; k < 3; k++) { std::string m; o2 = run_child(ps[cd.pi], true, sm, 0, m, nullptr, hang_limit, &desc); if (o2 == kind) { n++; msg = m; } }
        if (n < 3) { sm = made; n = 0; for (int k = 0; k < 3; k++) { std::string m; if (run_child(ps[cd.pi], true, sm, 0, m, nullptr, hang_limit, &desc) == kind) { n++; msg = m; } } }
        if (n < 3) { flaky.push_back(strf("%s #%llu reproduced %d of 3 times", ps[cd.pi].name, (unsigned long long)cd.idx, n)); continue; }
        std::string path = rdir + "/" + id + "-" + ps[cd.pi].name + "-" + std::to_string(cd.idx) + ".replay";
        FILE *f = fopen(path.c_str(), "w");
        if (f) {
            fprintf(f, "property %s\nsub %s\nseed %llu index %llu\nkind %s\nmessage %s\ncase %s\nchoices %zu\n", id.c_str(), ps[cd.pi].name,
                    (unsigned long long)seed, (unsigned long long)cd.idx, kind == FAILED ? "mismatch" : kind == CRASHED ? "crash" : "hang",
                    jstr(msg).c_str(), jstr(desc).c_str(), sm.size());
            for (auto v : sm) fprintf(f, "%llu\n", (unsigned long long)v);
            fclose(f);
        }
        viols.push_back({ ps[cd.pi].name, msg, path, desc });
        printf("FAIL %s: %s\n  case: %s\n", ps[cd.pi].name, msg.c_str(), desc.c_str());
        printf("VIOLATION property=%s replay=%s\n", id.c_str(), path.c_str());
        fflush(stdout);
    }
    /* statistics */
    std::vector<uint64_t> ev(ps.size(), 0), disc(ps.size(), 0); std::vector<std::unordered_set<uint64_t>> nts(ps.size());
    std::map<std::string, uint64_t> labels; std::vector<std::string> samples; bool capped = false;
    for (unsigned w = 0; w < jobs; w++) {
        std::string fn = tmpdir + "/stats." + std::to_string(w);
        FILE *i = fopen(fn.c_str(), "r"); if (!i) continue;
        char t[8];
        while (fscanf(i, "%1s", t) == 1) {
            if (*t == 'P') {
                size_t pi, n; unsigned long long a, b; if (fscanf(i, "%zu %llu %llu %zu", &pi, &a, &b, &n) != 4) break;
                ev[pi] += a; disc[pi] += b;
                for (size_t k = 0; k < n; k++) { unsigned long long h; if (fscanf(i, "%llx", &h) != 1) break; nts[pi].insert(h); }
            } else if (*t == 'L') {
                unsigned long long n; char nm[256]; if (fscanf(i, "%llu %255[^\n]", &n, nm) != 2) break; labels[nm] += n;
            } else if (*t == 'S') {
                size_t n; if (fscanf(i, "%zu", &n) != 1) break; fgetc(i); std::string s(n, 0); if (n && fread(&s[0], 1, n, i) != n) break; samples.push_back(s);
            } else if (*t == 'C') { int k; if (fscanf(i, "%d", &k) == 1 && k) capped = true; }
        }
        fclose(i); unlink(fn.c_str());
    }
    FILE *o = fopen(out.c_str(), "w");
    if (!o) return 2;
    uint64_t E = 0, N = 0; for (size_t i = 0; i < ps.size(); i++) { E += ev[i]; N += nts[i].size(); }
    fprintf(o, "{\"evaluations\": %llu, \"distinct_nontrivial\": %llu, \"capped\": %s, \"wall\": %.2f,\n \"sub\": {", (unsigned long long)E, (unsigned long long)N, capped ? "true" : "false", now() - t0);
    for (size_t i = 0; i < ps.size(); i++)
        fprintf(o, "%s%s: {\"evaluations\": %llu, \"discarded\": %llu, \"distinct_nontrivial\": %zu}", i ? ", " : "", jstr(ps[i].name).c_str(), (unsigned long long)ev[i], (unsigned long long)disc[i], nts[i].size());
    fprintf(o, "},\n \"labels\": {"); bool first = true;
    for (auto &l : labels) { fprintf(o, "%s%s: %llu", first ? "" : ", ", jstr(l.first).c_str(), (unsigned long long)l.second); first = false; }
    fprintf(o, "},\n \"samples\": ["); first = true; 
    std::map<std::string, int> per;
    for (auto &s : samples) { if (per[s.substr(0, s.find(':'))]++ >= 2) continue; fprintf(o, "%s%s", first ? "" : ",\n  ", jstr(s).c_str()); first = false; }
    fprintf(o, "],\n \"violations\": ["); first = true;
    for (auto &v : viols) { fprintf(o, "%s{\"sub\": %s, \"message\": %s, \"replay\": %s}", first ? "" : ", ", jstr(v.sub).c_str(), jstr(v.msg).c_str(), jstr(v.path).c_str()); first = false; }
    fprintf(o, "],\n \"flaky\": ["); first = true;
    for (auto &s : flaky) { fprintf(o, "%s%s", first ? "" : ", ", jstr(s).c_str()); first = false; }
    fprintf(o, "]}\n");
    fclose(o);
    for (auto &s : flaky) printf("UNCONFIRMED %s\n", s.c_str());
    return viols.empty() ? 0 : 1;
}

} /* namespace vp */

#ifdef VP_LIBFUZZER
/* coverage-guided driving of the same properties: the first byte picks the property, the others are its choices */
static std::unordered_set<uint64_t> fuzz_set[64]; static uint64_t fuzz_runs[64];
static void fuzz_stats()
{
    const char *fn = getenv("VP_FUZZ_STATS"); if (!fn) return;
    FILE *f = fopen(fn, "w"); if (!f) return;
    for (size_t i = 0; i < vp::props().size() && i < 64; i++) {
        fprintf(f, "%s %llu %zu\n", vp::props()[i].name, (unsigned long long)fuzz_runs[i], fuzz_set[i].size());
        for (auto h : fuzz_set[i]) fprintf(f, "%llx\n", (unsigned long long)h);
    }
    fclose(f);
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
    if (size < 1) return 0;
    auto &ps = vp::props(); size_t pi = data[0] % ps.size();
    static bool once = (atexit(fuzz_stats), true); (void)once;
    vp::Case c; c.replay = true; c.var = true; c.fz.assign(data + 1, data + size);
    try { ps[pi].fn(c); } catch (vp::Discard &) { return -1; } catch (vp::Failure &f) {
        fprintf(stderr, "PROPERTY %s: %s\n", ps[pi].name, f.msg.c_str()); abort();
    }
    if (pi < 64) {
        fuzz_runs[pi]++;
        if (c.nt && fuzz_set[pi].size() < 400000) fuzz_set[pi].insert(c.has_fp ? c.fp : vp::hash_bytes(c.out.data(), c.out.size() * 8));
    }
    return 0;
}
#else
int main(int argc, char **argv) { return vp::vp_main(argc, argv); }
#endif
