/* the C11 generic macros */
#include <stdint.h>
#include <crefl/bits.h>
unsigned c23_clz_u(unsigned v) { return clz(v); } unsigned c23_clz_i(int v) { return clz(v); } unsigned c23_clz_ull(unsigned long long v) { return clz(v); } unsigned c23_clz_ll(long long v) { return clz(v); }
unsigned c23_ctz_u(unsigned v) { return ctz(v); } unsigned c23_ctz_i(int v) { return ctz(v); } unsigned c23_ctz_ull(unsigned long long v) { return ctz(v); } unsigned c23_ctz_ll(long long v) { return ctz(v); }
unsigned c23_pop_u(unsigned v) { return popcnt(v); } unsigned c23_pop_i(int v) { return popcnt(v); } unsigned c23_pop_ull(unsigned long long v) { return popcnt(v); } unsigned c23_pop_ll(long long v) { return popcnt(v); }
