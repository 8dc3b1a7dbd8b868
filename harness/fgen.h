/* floating point generators dense in exponents, mantissa lengths, subnormals and special values */
#pragma once
#include "codec.h"
static inline uint64_t gen_f64_bits(vp::Case &c)
{
    uint64_t s = c.draw(1) << 63, e, m;
    switch (c.draw(7)) {
    case 0: return s;                                                        /* zero */
    case 1: return s | 0x7ffull << 52 | (c.flip() ? 0 : 1 + c.draw((1ull << 52) - 2)); /* inf, nan */
    case 2: e = 0; break;                                                    /* subnormal */
    case 3: e = 1023 + (uint64_t)c.range(-12, 12); break;
    case 4: e = c.pick({ 1, 2, 1023, 1022, 1024, 2046, 2045, 1023 + 127, 1023 + 128, 1023 - 128, 1023 - 129, 1023 - 126, 1023 - 127, 1023 - 149, 1023 - 150, 1023 + 52, 1023 + 63, 1023 + 64 }); break;
    default: e = c.draw(2046); break;
    }
    switch (c.draw(4)) {
    case 0: m = 0; break;
    case 1: { unsigned w = 1 + c.draw(51); m = (c.draw((1ull << w) - 1) | 1) << (52 - w); if (c.chance(1, 3)) m = c.draw((1ull << w) - 1); } break;   /* w leading bits / w trailing bits */
    case 2: m = 1ull << c.draw(51); break;
    case 3: m = ((1ull << 52) - 1) << c.draw(51); m &= (1ull << 52) - 1; break;
    default: m = c.draw((1ull << 52) - 1); break;
    }
    if (e == 0 && m == 0) m = 1;
    return s | e << 52 | m;
}
static inline uint32_t gen_f32_bits(vp::Case &c)
{
    uint32_t s = (uint32_t)c.draw(1) << 31, e, m;
    switch (c.draw(7)) {
    case 0: return s;
    case 1: return s | 0xffu << 23 | (c.flip() ? 0 : 1 + (uint32_t)c.draw((1u << 23) - 2));
    case 2: e = 0; break;
    case 3: e = 127 + (uint32_t)c.range(-12, 12); break;
    case 4: e = c.pick({ 1, 2, 126, 127, 128, 253, 254 }); break;
    default: e = (uint32_t)c.draw(254); break;
    }
    switch (c.draw(4)) {
    case 0: m = 0; break;
    case 1: { unsigned w = 1 + c.draw(22); m = (uint32_t)((c.draw((1u << w) - 1) | 1) << (23 - w)); if (c.chance(1, 3)) m = (uint32_t)c.draw((1u << w) - 1); } break;
    case 2: m = 1u << c.draw(22); break;
    case 3: m = ((1u << 23) - 1) << c.draw(22); m &= (1u << 23) - 1; break;
    default: m = (uint32_t)c.draw((1u << 23) - 1); break;
    }
    if (e == 0 && m == 0) m = 1;
    return s | e << 23 | m;
}
