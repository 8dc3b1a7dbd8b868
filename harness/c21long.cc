/* C21: long messages (bit counts beyond 32 bits, byte counts beyond 32 bits in the thorough tier); built without sanitizers for speed */
#include "vp.h"
#include "refsha.h"
#include <crefl/sha256.h>
using namespace vp;
static bool init_ = (hang_limit = 200, true);

/* long messages: bit counts beyond 32 bits */
VP_PROP(long_messages, 16, 64)
{
    static const uint64_t sizes[] = { (1ull << 29) - 3, 1ull << 29, (1ull << 29) + 61, (1ull << 28) + 7, (1ull << 29) + 1, 16u << 20, (1ull << 32) - 60, (1ull << 32) + 5 };
    uint64_t n = sizes[c.draw(getenv("VP_HUGE") ? 7 : 5)] + (c.flip() ? 0 : c.draw(127)); bool b224 = c.flip();
    std::vector<uint8_t> blk = c.block(1 << 20); size_t ck = (1 << 20) - c.draw(100);
    c.note("SHA-%d of a %llu byte message in %zu byte updates", b224 ? 224 : 256, (unsigned long long)n, ck);
    c.nontrivial();
    sha256_ctx x; if (b224) sha224_init(&x); else sha256_init(&x); refsha::Sha r(b224);
    for (uint64_t left = n; left;) { size_t k = left < ck ? left : ck; sha256_update(&x, blk.data(), k); r.update(blk.data(), k); left -= k; }
    uint8_t out[32]; sha256_final(&x, out); auto w = r.final();
    VP_CHECK(!memcmp(out, w.data(), w.size()), "SHA-%d of a %llu byte message: got %s, expected %s", b224 ? 224 : 256, (unsigned long long)n, hex(out, w.size()).c_str(), hex(w).c_str());
}
