/* C23: buffer, byte order and bit primitives */
#include "codec.h"
#include <memory>
#include <crefl/endian.h>
#include <crefl/bits.h>
#include <unistd.h>
#include <sys/mman.h>
using namespace vp;
typedef unsigned long long ull;
extern "C" {
unsigned c23_clz_u(unsigned), c23_clz_i(int), c23_clz_ull(unsigned long long), c23_clz_ll(long long), c23_ctz_u(unsigned), c23_ctz_i(int), c23_ctz_ull(unsigned long long), c23_ctz_ll(long long), c23_pop_u(unsigned), c23_pop_i(int), c23_pop_ull(unsigned long long), c23_pop_ll(long long);
#define D(x) uint16_t c23e_##x##16(uint16_t); uint32_t c23e_##x##32(uint32_t); uint64_t c23e_##x##64(uint64_t);
#define DH(x) uint16_t c23e_##x##16toh(uint16_t); uint32_t c23e_##x##32toh(uint32_t); uint64_t c23e_##x##64toh(uint64_t);
D(be) D(le) D(sw) D(htobe) D(htole) DH(be) DH(le)
unsigned c23f_clz32(unsigned), c23f_clz64(unsigned long long), c23f_ctz32(unsigned), c23f_ctz64(unsigned long long), c23f_pop32(unsigned), c23f_pop64(unsigned long long);
}
static unsigned rclz(uint64_t v, unsigned w) { unsigned n = 0; while (n < w && !(v >> (w - 1 - n) & 1)) n++; return n; }
static unsigned rctz(uint64_t v, unsigned w) { unsigned n = 0; while (n < w && !(v >> n & 1)) n++; return n; }
static unsigned rpop(uint64_t v, unsigned w) { unsigned n = 0; for (unsigned i = 0; i < w; i++) n += v >> i & 1; return n; }

VP_PROP(bits, 400000, 16000000)
{
    uint64_t v = c.chance(1, 40) ? 0 : c.interesting(); uint32_t u = (uint32_t)v; c.note("%llx", (ull)v); c.nontrivial(v);
#define E(x, y) VP_CHECK((x) == (y), "%s of %llx is %u, expected %u", #x, (ull)v, (unsigned)(x), (unsigned)(y))
    E(clz(u), rclz(u, 32)); E(clz((int)u), rclz(u, 32)); E(clz((unsigned long)v), rclz(v, 64)); E(clz((long)v), rclz(v, 64)); E(clz((unsigned long long)v), rclz(v, 64)); E(clz((long long)v), rclz(v, 64));
    E(ctz(u), rctz(u, 32)); E(ctz((int)u), rctz(u, 32)); E(ctz((unsigned long)v), rctz(v, 64)); E(ctz((long)v), rctz(v, 64)); E(ctz((unsigned long long)v), rctz(v, 64)); E(ctz((long long)v), rctz(v, 64));
    E(popcnt(u), rpop(u, 32)); E(popcnt((int)u), rpop(u, 32)); E(popcnt((unsigned long)v), rpop(v, 64)); E(popcnt((long)v), rpop(v, 64)); E(popcnt((unsigned long long)v), rpop(v, 64)); E(popcnt((long long)v), rpop(v, 64));
    E(clz_u32(u), rclz(u, 32)); E(clz_u64(v), rclz(v, 64)); E(ctz_u32(u), rctz(u, 32)); E(ctz_u64(v), rctz(v, 64)); E(popcnt_u32(u), rpop(u, 32)); E(popcnt_u64(v), rpop(v, 64));
    E(c23_clz_u(u), rclz(u, 32)); E(c23_clz_i((int)u), rclz(u, 32)); E(c23_clz_ull(v), rclz(v, 64)); E(c23_clz_ll((long long)v), rclz(v, 64));
    E(c23_ctz_u(u), rctz(u, 32)); E(c23_ctz_i((int)u), rctz(u, 32)); E(c23_ctz_ull(v), rctz(v, 64)); E(c23_ctz_ll((long long)v), rctz(v, 64));
    E(c23_pop_u(u), rpop(u, 32)); E(c23_pop_i((int)u), rpop(u, 32)); E(c23_pop_ull(v), rpop(v, 64)); E(c23_pop_ll((long long)v), rpop(v, 64));
    E(c23f_clz32(u), rclz(u, 32)); E(c23f_clz64(v), rclz(v, 64)); E(c23f_ctz32(u), rctz(u, 32)); E(c23f_ctz64(v), rctz(v, 64)); E(c23f_pop32(u), rpop(u, 32)); E(c23f_pop64(v), rpop(v, 64));
}
/* the representation in memory is the definition of a byte order */
template <typename T> static T big(T v) { uint8_t b[sizeof(T)]; for (size_t i = 0; i < sizeof(T); i++) b[i] = (uint8_t)(v >> (8 * (sizeof(T) - 1 - i))); T r; memcpy(&r, b, sizeof r); return r; }
template <typename T> static T lit(T v) { uint8_t b[sizeof(T)]; for (size_t i = 0; i < sizeof(T); i++) b[i] = (uint8_t)(v >> (8 * i)); T r; memcpy(&r, b, sizeof r); return r; }
template <typename T> static T rev(T v) { T r = 0; for (size_t i = 0; i < sizeof(T); i++) r = (T)(r << 8 | (v >> (8 * i) & 0xff)); return r; }
VP_PROP(byte_order, 400000, 16000000)
{
    uint64_t v = c.interesting(); uint32_t u = (uint32_t)v; uint16_t h = (uint16_t)v; uint8_t o = (uint8_t)v; c.note("%llx", (ull)v); c.nontrivial(v);
#define F(x, y) VP_CHECK((uint64_t)(x) == (uint64_t)(y), "%s of %llx is %llx, expected %llx", #x, (ull)v, (ull)(x), (ull)(y))
    F(be16(h), big(h)); F(be32(u), big(u)); F(be64(v), big(v)); F(le16(h), lit(h)); F(le32(u), lit(u)); F(le64(v), lit(v)); F(be8(o), o); F(le8(o), o);
    F(bswap16(h), rev(h)); F(bswap32(u), rev(u)); F(bswap64(v), rev(v));
    F(htobe16(h), big(h)); F(htobe32(u), big(u)); F(htobe64(v), big(v)); F(htole16(h), lit(h)); F(htole32(u), lit(u)); F(htole64(v), lit(v));
    F(be16toh(h), big(h)); F(be32toh(u), big(u)); F(be64toh(v), big(v)); F(le16toh(h), lit(h)); F(le32toh(u), lit(u)); F(le64toh(v), lit(v));
#define G(f, e) F((uint16_t)f<short>((short)h), e(h)); F(f<unsigned short>(h), e(h)); F((uint32_t)f<int>((int)u), e(u)); F(f<unsigned>(u), e(u)); F((uint64_t)f<long>((long)v), e(v)); F(f<unsigned long>(v), e(v)); F((uint64_t)f<long long>((long long)v), e(v)); F(f<unsigned long long>(v), e(v));
    G(htobe, big) G(betoh, big) G(htole, lit) G(letoh, lit)
#define H(x, e) F(c23e_##x##16(h), e(h)); F(c23e_##x##32(u), e(u)); F(c23e_##x##64(v), e(v));
#define K(x, e) F(c23e_##x##16toh(h), e(h)); F(c23e_##x##32toh(u), e(u)); F(c23e_##x##64toh(v), e(v));
    H(be, big) H(le, lit) H(sw, rev) H(htobe, big) H(htole, lit) K(be, big) K(le, lit)
}
VP_PROP(buffer, 150000, 5000000)
{
    size_t cap = c.size(80), ops = 1 + c.size(60); crefl_buf *b; bool own = c.flip(); std::unique_ptr<Buf> sb; Bytes m(cap, own ? 0 : 0xA5);
    if (own) b = crefl_buf_new(cap); else { sb.reset(new Buf(cap)); b = &sb->b; }
    struct Own { crefl_buf *b; ~Own() { if (b) crefl_buf_destroy(b); } } ow{ own ? b : nullptr };
    if (own && cap) { VP_CHECK(b->data_size == cap && b->data_offset == 0, "new buffer: size %zu, offset %zu", (size_t)b->data_size, (size_t)b->data_offset); for (size_t i = 0; i < cap; i++) VP_CHECK(b->data[i] == 0, "new buffer not cleared"); }
    size_t pos = 0; uint64_t fp = cap; size_t moved = 0;
    for (size_t o = 0; o < ops; o++) {
        unsigned op = c.draw(13); uint64_t v = c.interesting(); size_t r = 0, w = 0; char what[80]; bool room;
        auto wrote = [&](size_t n) { room = pos + n <= cap; VP_CHECK(r == (room ? n : 0), "%s at %zu of %zu returned %zu", what, pos, cap, r); if (room) { for (size_t i = 0; i < n; i++) m[pos + i] = (uint8_t)(v >> (8 * i)); pos += n; moved++; } };
        auto read = [&](size_t n, uint64_t g) { room = pos + n <= cap; VP_CHECK(r == (room ? n : 0), "%s at %zu of %zu returned %zu", what, pos, cap, r); if (room) { uint64_t e = 0; for (size_t i = 0; i < n; i++) e |= (uint64_t)m[pos + i] << (8 * i); uint64_t mask = n == 8 ? ~0ull : (1ull << 8 * n) - 1; VP_CHECK((g & mask) == e, "%s at %zu read %llx, expected %llx", what, pos, (ull)(g & mask), (ull)e); pos += n; moved++; } else VP_CHECK(g == 0x5a5a5a5a5a5a5a5aull, "%s failed but stored a value", what); };
        bool unch = c.flip(); size_t left = pos <= cap ? cap - pos : 0;
        union { int8_t a; int16_t h; int32_t u; int64_t l; uint64_t x; } g; g.x = 0x5a5a5a5a5a5a5a5aull;
        switch (op) {
        case 0: snprintf(what, 80, "write_i8"); r = unch && left >= 1 ? crefl_buf_write_unchecked_i8(b, (int8_t)v) : crefl_buf_write_i8(b, (int8_t)v); wrote(1); break;
        case 1: snprintf(what, 80, "write_i16"); r = unch && left >= 2 ? crefl_buf_write_unchecked_i16(b, (int16_t)v) : crefl_buf_write_i16(b, (int16_t)v); wrote(2); break;
        case 2: snprintf(what, 80, "write_i32"); r = unch && left >= 4 ? crefl_buf_write_unchecked_i32(b, (int32_t)v) : crefl_buf_write_i32(b, (int32_t)v); wrote(4); break;
        case 3: snprintf(what, 80, "write_i64"); r = unch && left >= 8 ? crefl_buf_write_unchecked_i64(b, (int64_t)v) : crefl_buf_write_i64(b, (int64_t)v); wrote(8); break;
        case 4: snprintf(what, 80, "read_i8"); r = unch && left >= 1 ? crefl_buf_read_unchecked_i8(b, &g.a) : crefl_buf_read_i8(b, &g.a); read(1, g.x); break;
        case 5: snprintf(what, 80, "read_i16"); r = unch && left >= 2 ? crefl_buf_read_unchecked_i16(b, &g.h) : crefl_buf_read_i16(b, &g.h); read(2, g.x); break;
        case 6: snprintf(what, 80, "read_i32"); r = unch && left >= 4 ? crefl_buf_read_unchecked_i32(b, &g.u) : crefl_buf_read_i32(b, &g.u); read(4, g.x); break;
        case 7: snprintf(what, 80, "read_i64"); r = unch && left >= 8 ? crefl_buf_read_unchecked_i64(b, &g.l) : crefl_buf_read_i64(b, &g.l); read(8, g.x); break;
        case 8: { Bytes d = c.bytes(c.size(40)); w = d.size(); Bytes ex(d); ex.shrink_to_fit(); snprintf(what, 80, "write_bytes %zu", w); room = pos + w <= cap; r = unch && room ? crefl_buf_write_bytes_unchecked(b, (const char *)ex.data(), w) : crefl_buf_write_bytes(b, (const char *)ex.data(), w); VP_CHECK(r == (room ? w : 0), "%s at %zu of %zu returned %zu", what, pos, cap, r); if (room) { std::copy(d.begin(), d.end(), m.begin() + pos); pos += w; moved++; } break; }
        case 9: { w = c.size(40); Bytes d(w, 0x77); snprintf(what, 80, "read_bytes %zu", w); room = pos + w <= cap; r = unch && room ? crefl_buf_read_bytes_unchecked(b, (char *)d.data(), w) : crefl_buf_read_bytes(b, (char *)d.data(), w); VP_CHECK(r == (room ? w : 0), "%s at %zu of %zu returned %zu", what, pos, cap, r); if (room) { VP_CHECK(std::equal(d.begin(), d.end(), m.begin() + pos), "%s at %zu read other octets", what, pos); pos += w; moved++; } break; }
        case 10: { w = v; if (w <= cap) break; char d[1] = { 0 }; snprintf(what, 80, "bytes of impossible length %zu", w); r = c.flip() ? crefl_buf_write_bytes(b, d, w) : crefl_buf_read_bytes(b, d, w); VP_CHECK(r == 0, "%s returned %zu", what, r); break; }
        case 11: snprintf(what, 80, "reset"); crefl_buf_reset(b); pos = 0; break;
        case 12: pos = c.draw(cap); if (c.chance(1, 10)) pos = cap + c.draw(8); snprintf(what, 80, "seek %zu", pos); crefl_buf_seek(b, pos); break;
        default: { w = c.draw(cap + 3); snprintf(what, 80, "check_capacity %zu", w); bool ok = crefl_buf_check_capacity(b, w) >= 0; VP_CHECK(ok == (pos + w <= cap), "%s at %zu of %zu says %d", what, pos, cap, (int)ok); break; }
        }
        fp = mix(fp ^ op * 131 ^ v);
        VP_CHECK(crefl_buf_offset(b) == pos && b->data_size == cap, "after %s: offset %zu, expected %zu", what, crefl_buf_offset(b), pos);
        if (pos <= cap) { crefl_span s = crefl_buf_remaining(b); VP_CHECK(s.data == crefl_buf_data(b) + pos && s.length == cap - pos, "after %s: %zu octets remain at +%td, expected %zu at %zu", what, s.length, (char *)s.data - crefl_buf_data(b), cap - pos, pos); }
        VP_CHECK(cap == 0 || memcmp(crefl_buf_data(b), m.data(), cap) == 0, "after %s: contents %s, expected %s", what, hex(Bytes((uint8_t *)b->data, (uint8_t *)b->data + cap)).c_str(), hex(m).c_str());
    }
    c.note("capacity %zu, %zu operations", cap, ops); if (moved > 1) c.nontrivial(fp); if (moved < ops) c.label("with refused operations");
}
static std::string fmt_of(uint8_t v) { char s[32]; memset(s, 0x55, sizeof s); crefl_format_byte(s, sizeof s, v); return s; }
VP_PROP(format_byte, 60000, 2000000)
{
    uint8_t v = (uint8_t)c.draw(255), u = (uint8_t)c.draw(255); size_t n = c.draw(20); c.note("octets %02x and %02x, room %zu", v, u, n); c.nontrivial(v | u << 8 | n << 16);
    std::string s = fmt_of(v), t = fmt_of(u); VP_CHECK((s == t) == (v == u), "octets %02x and %02x are shown as %s and %s", v, u, s.c_str(), t.c_str());
    size_t chars = 0; for (uint8_t ch : s) if ((ch & 0xc0) != 0x80) chars++; VP_CHECK(chars == 4, "octet %02x is shown with %zu characters", v, chars); for (uint8_t ch : s) VP_CHECK(ch >= 0x20 && ch != 0x7f, "unprintable output");
    std::unique_ptr<char[]> d(new char[n]); memset(d.get(), 0x55, n); int r = crefl_format_byte(d.get(), n, v);
    if (n) { VP_CHECK(memchr(d.get(), 0, n) != nullptr, "octet %02x in %zu bytes: not terminated", v, n); VP_CHECK(s.compare(0, strlen(d.get()), d.get()) == 0, "octet %02x in %zu bytes: %s is not the beginning of %s", v, n, d.get(), s.c_str()); }
    if (n > s.size()) VP_CHECK(d.get() == s && r == (int)s.size(), "octet %02x in %zu bytes: %s (%d), expected %s", v, n, d.get(), r, s.c_str());
}

/* the dump of a buffer shows every octet before the position, in rows of sixteen with the first one at the right, in hexadecimal and formatted */
static std::string dump_of(crefl_buf *b)
{
    fflush(stdout); int fd = memfd_create("dump", 0), so = dup(1); dup2(fd, 1); crefl_buf_dump(b); fflush(stdout); dup2(so, 1); close(so);
    std::string s((size_t)lseek(fd, 0, SEEK_END), 0); if (pread(fd, &s[0], s.size(), 0) != (ssize_t)s.size()) abort(); close(fd); return s;
}
VP_PROP(dump, 12000, 400000)
{
    Bytes in = c.bytes(c.draw(70)); size_t pos = c.chance(1, 3) ? c.draw(in.size()) : in.size(); Buf b(in, pos); std::string o = dump_of(&b.b);
    c.note("dump of %zu of %zu octets %s", pos, in.size(), hex(in).c_str()); c.nontrivial(hash_bytes(in.data(), in.size(), pos)); c.label(strf("%zu rows", (pos + 15) / 16));
    std::vector<std::string> lines; for (size_t i = 0; i < o.size();) { size_t e = o.find('\n', i); if (e == std::string::npos) e = o.size(); lines.push_back(o.substr(i, e - i)); i = e + 1; }
    Bytes got; std::vector<std::string> glyphs;
    for (auto &l : lines) {
        Bytes row; for (size_t i = 0; (i = l.find("0x", i)) != std::string::npos; i += 2) row.push_back((uint8_t)strtoul(l.substr(i + 2, 2).c_str(), nullptr, 16));
        got.insert(got.end(), row.rbegin(), row.rend());
    }
    VP_CHECK(got == Bytes(in.begin(), in.begin() + pos), "dump shows %s, expected %s", hex(got).c_str(), hex(Bytes(in.begin(), in.begin() + pos)).c_str());
    size_t at = 0; for (size_t r = 0; r * 16 < pos; r++) for (size_t j = std::min(pos, r * 16 + 16); j-- > r * 16;) { size_t p = o.find(fmt_of(in[j]), at); VP_CHECK(p != std::string::npos, "octet %zu, %02x, is not shown as %s in its place", j, in[j], fmt_of(in[j]).c_str()); at = p + fmt_of(in[j]).size(); }
    VP_CHECK(b.pos() == pos && b.all() == in, "dump changed the buffer");
}
