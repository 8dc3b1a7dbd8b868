/* the byte order header as a platform without swap functions of its own sees it */
#include <stdint.h>
#undef __linux__
#undef __GLIBC__
#undef __APPLE__
#include <crefl/endian.h>
uint16_t c23e_be16(uint16_t v) { return be16(v); } uint32_t c23e_be32(uint32_t v) { return be32(v); } uint64_t c23e_be64(uint64_t v) { return be64(v); }
uint16_t c23e_le16(uint16_t v) { return le16(v); } uint32_t c23e_le32(uint32_t v) { return le32(v); } uint64_t c23e_le64(uint64_t v) { return le64(v); }
uint16_t c23e_sw16(uint16_t v) { return bswap16(v); } uint32_t c23e_sw32(uint32_t v) { return bswap32(v); } uint64_t c23e_sw64(uint64_t v) { return bswap64(v); }
uint16_t c23e_htobe16(uint16_t v) { return htobe16(v); } uint32_t c23e_htobe32(uint32_t v) { return htobe32(v); } uint64_t c23e_htobe64(uint64_t v) { return htobe64(v); }
uint16_t c23e_htole16(uint16_t v) { return htole16(v); } uint32_t c23e_htole32(uint32_t v) { return htole32(v); } uint64_t c23e_htole64(uint64_t v) { return htole64(v); }
uint16_t c23e_be16toh(uint16_t v) { return be16toh(v); } uint32_t c23e_be32toh(uint32_t v) { return be32toh(v); } uint64_t c23e_be64toh(uint64_t v) { return be64toh(v); }
uint16_t c23e_le16toh(uint16_t v) { return le16toh(v); } uint32_t c23e_le32toh(uint32_t v) { return le32toh(v); } uint64_t c23e_le64toh(uint64_t v) { return le64toh(v); }
