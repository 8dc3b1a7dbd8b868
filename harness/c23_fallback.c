/* the algorithms used where the compiler has no intrinsics */
#undef __GNUC__
#undef __STDC_VERSION__
#include <crefl/bits.h>
unsigned c23f_clz32(unsigned v) { return clz_u32(v); } unsigned c23f_clz64(unsigned long long v) { return clz_u64(v); }
unsigned c23f_ctz32(unsigned v) { return ctz_u32(v); } unsigned c23f_ctz64(unsigned long long v) { return ctz_u64(v); }
unsigned c23f_pop32(unsigned v) { return popcnt_u32(v); } unsigned c23f_pop64(unsigned long long v) { return popcnt_u64(v); }
