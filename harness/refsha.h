/* independent SHA-224/256 (FIPS 180-4); round constants derived by integer cube roots */
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
#include <string>
namespace refsha {
struct Sha {
    uint32_t h[8]; uint8_t buf[64]; uint64_t total = 0; unsigned have = 0; bool is224;
    static const uint32_t *K()
    {
        static uint32_t k[64]; static bool done = false;
        if (!done) {
            int n = 0;
            for (int p = 2; n < 64; p++) {
                bool prime = true; for (int d = 2; d * d <= p; d++) if (p % d == 0) prime = false;
                if (!prime) continue;
                /* floor(cbrt(p) * 2^32): largest r with r^3 <= p * 2^96, by bisection in 128-bit pieces */
                unsigned __int128 lo = 0, hi = (unsigned __int128)8 << 32;
                while (hi - lo > 1) {
                    unsigned __int128 m = (lo + hi) / 2;
                    /* compare m^3 with p<<96: m < 2^35, m^2 < 2^70, m^3 < 2^105 */
                    unsigned __int128 c = m * m * m, t = (unsigned __int128)p << 96;
                    if (c <= t) lo = m; else hi = m;
                }
                k[n++] = (uint32_t)lo;
            }
            done = true;
        }
        return k;
    }
    explicit Sha(bool b224) : is224(b224)
    {
        static const uint32_t a[8] = { 0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19 };
        static const uint32_t b[8] = { 0xc1059ed8, 0x367cd507, 0x3070dd17, 0xf70e5939, 0xffc00b31, 0x68581511, 0x64f98fa7, 0xbefa4fa4 };
        memcpy(h, b224 ? b : a, 32);
    }
    static uint32_t rr(uint32_t x, unsigned n) { return (x >> n) | (x << (32 - n)); }
    __attribute__((no_sanitize("address", "undefined"))) void block(const uint8_t *p)
    {
        const uint32_t *k = K(); uint32_t w[64];
        for (int i = 0; i < 16; i++) w[i] = (uint32_t)p[4*i] << 24 | (uint32_t)p[4*i+1] << 16 | (uint32_t)p[4*i+2] << 8 | p[4*i+3];
        for (int i = 16; i < 64; i++) {
            uint32_t s0 = rr(w[i-15], 7) ^ rr(w[i-15], 18) ^ (w[i-15] >> 3), s1 = rr(w[i-2], 17) ^ rr(w[i-2], 19) ^ (w[i-2] >> 10);
            w[i] = w[i-16] + s0 + w[i-7] + s1;
        }
        uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4], f = h[5], g = h[6], hh = h[7];
        for (int i = 0; i < 64; i++) {
            uint32_t t1 = hh + (rr(e,6) ^ rr(e,11) ^ rr(e,25)) + ((e & f) ^ (~e & g)) + k[i] + w[i];
            uint32_t t2 = (rr(a,2) ^ rr(a,13) ^ rr(a,22)) + ((a & b) ^ (a & c) ^ (b & c));
            hh = g; g = f; f = e; e = d + t1; d = c; c = b; b = a; a = t1 + t2;
        }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; h[5] += f; h[6] += g; h[7] += hh;
    }
    void update(const void *v, size_t n)
    {
        const uint8_t *p = (const uint8_t *)v; total += n;
        while (n && have) { buf[have++] = *p++; n--; if (have == 64) { block(buf); have = 0; } }
        while (n >= 64) { block(p); p += 64; n -= 64; }
        while (n) { buf[have++] = *p++; n--; }
    }
    std::vector<uint8_t> final()
    {
        uint64_t bits = total * 8; uint8_t z = 0x80; update(&z, 1); z = 0;
        while (have != 56) update(&z, 1);
        uint8_t l[8]; for (int i = 0; i < 8; i++) l[i] = (uint8_t)(bits >> (56 - 8 * i));
        update(l, 8);
        std::vector<uint8_t> r; for (int i = 0; i < (is224 ? 7 : 8); i++) for (int j = 3; j >= 0; j--) r.push_back((uint8_t)(h[i] >> (8 * j)));
        return r;
    }
};
static inline std::vector<uint8_t> digest(bool b224, const std::vector<uint8_t> &m) { Sha s(b224); s.update(m.data(), m.size()); return s.final(); }
}
