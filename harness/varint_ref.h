// Independent reference for C04/C05: 128-bit base-128 arithmetic.
#pragma once
#include "vf.h"
extern "C" {
#include "futils/varint.h"
}
#include <errno.h>
#include <stdlib.h>
#include <string.h>
namespace vr {
typedef unsigned __int128 u128;
struct Type { const char *name; unsigned bits; bool sgn; size_t maxlen; };
static const Type types[6] = {
	{"u16", 16, false, 3}, {"i16", 16, true, 3}, {"u32", 32, false, 5},
	{"i32", 32, true, 5}, {"u64", 64, false, 10}, {"i64", 64, true, 10},
};
// value is carried as the raw two's complement bits of the type
static inline int lib_read(int t, const uint8_t *s, size_t n, uint64_t *raw, size_t *len)
{
	int r;
	switch (t) {
	case 0: { uint16_t v = 0x5a5a; r = futils_varint_read_u16(s, n, &v, len); *raw = v; break; }
	case 1: { int16_t v = 0x5a5a; r = futils_varint_read_i16(s, n, &v, len); *raw = (uint16_t)v; break; }
	case 2: { uint32_t v = 0x5a5a5a5a; r = futils_varint_read_u32(s, n, &v, len); *raw = v; break; }
	case 3: { int32_t v = 0x5a5a5a5a; r = futils_varint_read_i32(s, n, &v, len); *raw = (uint32_t)v; break; }
	case 4: { uint64_t v = 0x5a5a5a5a5a; r = futils_varint_read_u64(s, n, &v, len); *raw = v; break; }
	default: { int64_t v = 0x5a5a5a5a5a; r = futils_varint_read_i64(s, n, &v, len); *raw = (uint64_t)v; break; }
	}
	return r;
}
static inline int lib_read_null(int t, const uint8_t *s, size_t n, size_t *len)
{
	switch (t) {
	case 0: return futils_varint_read_u16(s, n, nullptr, len);
	case 1: return futils_varint_read_i16(s, n, nullptr, len);
	case 2: return futils_varint_read_u32(s, n, nullptr, len);
	case 3: return futils_varint_read_i32(s, n, nullptr, len);
	case 4: return futils_varint_read_u64(s, n, nullptr, len);
	default: return futils_varint_read_i64(s, n, nullptr, len);
	}
}
static inline int lib_write(int t, uint8_t *d, size_t n, uint64_t raw, size_t *len)
{
	switch (t) {
	case 0: return futils_varint_write_u16(d, n, (uint16_t)raw, len);
	case 1: return futils_varint_write_i16(d, n, (int16_t)(uint16_t)raw, len);
	case 2: return futils_varint_write_u32(d, n, (uint32_t)raw, len);
	case 3: return futils_varint_write_i32(d, n, (int32_t)(uint32_t)raw, len);
	case 4: return futils_varint_write_u64(d, n, raw, len);
	default: return futils_varint_write_i64(d, n, (int64_t)raw, len);
	}
}
static inline uint64_t mask(int t) { return types[t].bits == 64 ? ~0ull : (1ull << types[t].bits) - 1; }
static inline uint64_t zigzag(int t, uint64_t raw)
{
	// non-negative v -> 2v, negative v -> -2v-1
	uint64_t m = mask(t);
	if (!types[t].sgn)
		return raw;
	bool neg = (raw >> (types[t].bits - 1)) & 1;
	if (!neg)
		return (raw * 2) & m;
	uint64_t mag_minus1 = (~raw) & m; // -v-1
	return (mag_minus1 * 2 + 1) & m;
}
static inline uint64_t unzigzag(int t, uint64_t z)
{
	if (!types[t].sgn)
		return z;
	return (z & 1) ? ~(z / 2) & mask(t) : z / 2;
}
static inline std::string encode(uint64_t z)
{
	std::string s;
	for (;;) {
		uint8_t b = z % 128;
		z /= 128;
		if (!z) {
			s += (char)b;
			return s;
		}
		s += (char)(b + 128);
	}
}
// reference decoder: 0, -EPROTO, -EINVAL
static inline int decode(int t, const std::string &s, uint64_t *raw, size_t *len)
{
	if (s.empty())
		return -EINVAL;
	size_t n = 0;
	while (n < s.size() && (uint8_t)s[n] >= 128)
		n++;
	if (n == s.size())
		return -EPROTO;
	n++;
	if (n > types[t].maxlen)
		return -EPROTO;
	u128 v = 0, w = 1;
	for (size_t i = 0; i < n; i++, w *= 128)
		v += w * ((uint8_t)s[i] & 127);
	if (v > mask(t))
		return -EPROTO;
	*raw = unzigzag(t, (uint64_t)v);
	*len = n;
	return 0;
}
} // namespace vr
