/* C21: SHA-224/256 against an independent implementation, all chunkings, interleaved and reused contexts */
#include "vp.h"
#include "refsha.h"
#include <memory>
#include <crefl/sha256.h>
using namespace vp;

static size_t msg_size(Case &c)
{
    switch (c.draw(4)) {
    case 0: return c.draw(140);
    case 1: return c.pick({ 55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 129, 191, 192, 247, 248 }) + c.draw(2) ;
    case 2: return 64 * c.draw(20) + c.pick({ 0, 1, 54, 55, 56, 57, 62, 63 });
    case 3: return c.draw(4200);
    default: return c.draw(700);
    }
}

static std::vector<size_t> chunks(Case &c, size_t n)
{
    std::vector<size_t> r; size_t left = n;
    unsigned mode = c.draw(4);
    if (mode == 0) { r.push_back(n); return r; }
    while (left && r.size() < 200) {
        size_t k;
        switch (mode) {
        case 1: k = c.draw(80); break;
        case 2: k = c.pick({ 1, 63, 64, 65, 128, 0 }); break;
        case 3: k = c.draw(left); break;
        default: k = 1 + c.draw(9); break;
        }
        if (k > left) k = left;
        r.push_back(k); left -= k;
    }
    if (left) r.push_back(left);
    if (c.chance(1, 4)) r.push_back(0);
    return r;
}

struct Ctx {
    bool b224; sha256_ctx *x; std::vector<uint8_t> m; std::vector<size_t> ch; size_t ci = 0, off = 0; bool fin = false;
    std::vector<uint8_t> got;
    Ctx() { x = (sha256_ctx *)malloc(sizeof *x); }
    ~Ctx() { free(x); }
    void init() { if (b224) sha224_init(x); else sha256_init(x); }
    /* the chunk is handed over in a heap block of its exact size, at any alignment, and freed at once */
    void step(Case &c)
    {
        size_t k = ch[ci++]; unsigned al = c.draw(7);
        uint8_t *p = (uint8_t *)malloc(k + al); memcpy(p + al, m.data() + off, k);
        if (b224) sha224_update(x, p + al, k); else sha256_update(x, p + al, k);
        for (size_t i = 0; i < k; i++) VP_CHECK(p[al + i] == m[off + i], "update modified its input");
        free(p); off += k;
    }
    void final()
    {
        size_t n = b224 ? 28 : 32; uint8_t *r = (uint8_t *)malloc(n);
        if (b224) sha224_final(x, r); else sha256_final(x, r);
        got.assign(r, r + n); free(r); fin = true;
    }
    void check() { auto w = refsha::digest(b224, m); VP_CHECK(got == w, "SHA-%d of %zu bytes (%s): got %s, expected %s", b224 ? 224 : 256, m.size(), hex(m).c_str(), hex(got).c_str(), hex(w).c_str()); }
};

VP_PROP(single, 60000, 1500000)
{
    Ctx x; x.b224 = c.flip(); size_t n = msg_size(c);
    x.m = n <= 48 ? c.bytes(n) : c.block(n);
    x.ch = chunks(c, n);
    c.note("SHA-%d, %zu bytes %s in %zu updates", x.b224 ? 224 : 256, n, hex(x.m.data(), n, 24).c_str(), x.ch.size());
    if (n > 55 || x.ch.size() > 1) c.nontrivial(hash_bytes(x.m.data(), n, x.b224) ^ hash_bytes(x.ch.data(), x.ch.size() * 8));
    c.label(n <= 55 ? "one block" : n <= 64 ? "padding spills" : "multi-block");
    x.init(); while (x.ci < x.ch.size()) x.step(c);
    x.final(); x.check();
}

/* several contexts advancing in a random interleaving, contexts reused for a second message after finishing */
VP_PROP(interleaved, 15000, 300000)
{
    size_t k = 2 + c.draw(3); std::vector<std::unique_ptr<Ctx>> v; int reused = 0;
    auto fresh = [&](Ctx &x) {
        x.b224 = c.flip(); size_t n = msg_size(c); x.m = c.block(n); x.ch = chunks(c, n); x.ci = 0; x.off = 0; x.fin = false; x.init();
    };
    for (size_t i = 0; i < k; i++) { v.emplace_back(new Ctx); fresh(*v.back()); }
    for (int steps = 0; steps < 400; steps++) {
        Ctx &x = *v[c.draw(k - 1)];
        if (x.fin) { if (reused < 4) { fresh(x); reused++; } else { bool all = true; for (auto &y : v) all &= y->fin; if (all) break; } continue; }
        /* abandoning a context midway and starting over is allowed as well */
        if (c.chance(1, 60)) { fresh(x); continue; }
        if (x.ci < x.ch.size()) x.step(c); else { x.final(); x.check(); }
    }
    for (auto &x : v) { while (x->ci < x->ch.size()) x->step(c); if (!x->fin) { x->final(); x->check(); } }
    c.note("%zu contexts, %d reuses", k, reused);
    c.nontrivial();
}
