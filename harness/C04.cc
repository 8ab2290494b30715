// VF variant: asan
#include "varint_ref.h"
using namespace vf;
using namespace vr;
VF_PROPERTY("C04", "exploration",
	    "a value needing at least two bytes, or a boundary value of its width; trailing data or a foreign destination size drawn");
VF_ASSUME("heap buffers are exact-size AddressSanitizer allocations, so any access outside them is observed");

static void one(int t, uint64_t raw, const std::string &trail, size_t room)
{
	const Type &T = types[t];
	std::string ref = encode(zigzag(t, raw));
	uint8_t *d = (uint8_t *)malloc(room ? room : 1);
	memset(d, 0xa5, room);
	size_t len = 12345;
	int r = lib_write(t, d, room, raw, &len);
	if (room < T.maxlen) {
		VF_CHECK(r < 0, "write_%s(0x%lx) into %zu bytes (max length %zu) returned %d, expected refusal", T.name, raw, room, T.maxlen, r);
		for (size_t i = 0; i < room; i++)
			VF_CHECK(d[i] == 0xa5, "refused write_%s touched byte %zu", T.name, i);
		free(d);
		return;
	}
	VF_CHECK(r == 0, "write_%s(0x%lx) into %zu bytes returned %d", T.name, raw, room, r);
	VF_CHECK(len == ref.size() && len <= T.maxlen, "write_%s(0x%lx) length %zu, expected %zu", T.name, raw, len, ref.size());
	VF_CHECK(!memcmp(d, ref.data(), len), "write_%s(0x%lx) gives %s, expected %s", T.name, raw, hex(d, len).c_str(), hex(ref.data(), ref.size()).c_str());
	for (size_t i = len; i < room; i++)
		VF_CHECK(d[i] == 0xa5, "write_%s(0x%lx) touched byte %zu after its %zu-byte encoding", T.name, raw, i, len);
	// decode, followed by anything (also by nothing)
	size_t n = len + trail.size();
	uint8_t *s = (uint8_t *)malloc(n);
	memcpy(s, d, len);
	memcpy(s + len, trail.data(), trail.size());
	uint64_t back = 0;
	size_t used = 777;
	r = lib_read(t, s, n, &back, &used);
	VF_CHECK(r == 0 && back == raw && used == len, "read_%s(%s + %zu trailing bytes %s): ret %d value 0x%lx length %zu; expected 0x%lx length %zu",
		 T.name, hex(s, len).c_str(), trail.size(), hex(trail.data(), trail.size()).c_str(), r, back, used, raw, len);
	free(s);
	free(d);
}

// room for far more than the encoding, at sizes which narrower types do not hold
VF_FACET(huge_destinations, 40000, 400000)
{
	int t = (int)draw(5);
	uint64_t raw = anyint(64) & mask(t);
	size_t room = wrapping(12);
	note("write_%s value 0x%lx into %zu bytes", types[t].name, raw, room);
	nontrivial();
	std::string ref = encode(zigzag(t, raw));
	uint8_t *d = huge();
	memset(d, 0xa5, 64);
	size_t len = 12345;
	int r = lib_write(t, d, room, raw, &len);
	VF_CHECK(r == 0 && len == ref.size() && !memcmp(d, ref.data(), len), "write_%s(0x%lx) into %zu bytes returned %d length %zu: %s, expected %s", types[t].name, raw, room, r, len, hex(d, 10).c_str(), hex(ref.data(), ref.size()).c_str());
	for (size_t i = len; i < 64; i++)
		VF_CHECK(d[i] == 0xa5, "write_%s(0x%lx) touched byte %zu after its %zu-byte encoding", types[t].name, raw, i, len);
	uint64_t back = 0;
	size_t used = 777;
	r = lib_read(t, d, room, &back, &used);
	VF_CHECK(r == 0 && back == raw && used == len, "read_%s of the encoding with %zu bytes given: ret %d value 0x%lx length %zu; expected 0x%lx length %zu", types[t].name, room, r, back, used, raw, len);
}
VF_FACET(roundtrip, 3000000, 60000000)
{
	int t = (int)draw(5);
	uint64_t raw = anyint(64) & mask(t);
	if (chance(1, 4)) {
		// around a power of 128 of the mapped value
		unsigned k = (unsigned)draw(9);
		uint64_t z = (k ? (1ull << (7 * k)) : 0) + draw(4) - 2;
		raw = unzigzag(t, z & mask(t));
	}
	std::string trail = bytes(weighted({3, 2, 1, 1, 1}) * 2);
	size_t room = types[t].maxlen;
	switch (weighted({6, 2, 2})) {
	case 1: room += 1 + draw(8); break;
	case 2: room = draw(types[t].maxlen - 1); break;
	}
	note("write_%s value 0x%lx into %zu bytes; read with trailing %s", types[t].name, raw, room, hex(trail.data(), trail.size()).c_str());
	if (zigzag(t, raw) >= 128 || raw == 0 || raw == mask(t))
		nontrivial();
	one(t, raw, trail, room);
}

// a stream of mixed encodings laid end to end decodes to the same sequence
VF_FACET(stream, 200000, 3000000)
{
	size_t n = 1 + smallish(30);
	std::vector<std::pair<int, uint64_t>> seq;
	uint8_t *buf = (uint8_t *)malloc(n * 10);
	size_t off = 0;
	for (size_t i = 0; i < n; i++) {
		int t = (int)draw(5);
		uint64_t raw = anyint(64) & mask(t);
		size_t len = 0;
		int r = lib_write(t, buf + off, n * 10 - off, raw, &len);
		VF_CHECK(r == 0 && len >= 1 && len <= types[t].maxlen, "write_%s(0x%lx) returned %d, length %zu", types[t].name, raw, r, len);
		note("%s 0x%lx", types[t].name, raw);
		off += len;
		seq.push_back({t, raw});
	}
	uint8_t *s = (uint8_t *)malloc(off);
	memcpy(s, buf, off);
	free(buf);
	size_t p = 0;
	for (auto &x : seq) {
		uint64_t v = 0;
		size_t len = 0;
		int r = lib_read(x.first, s + p, off - p, &v, &len);
		VF_CHECK(r == 0 && v == x.second && len <= off - p, "stream offset %zu: read_%s returned %d value 0x%lx, written 0x%lx", p, types[x.first].name, r, v, x.second);
		p += len;
	}
	VF_CHECK(p == off, "stream of %zu bytes decoded into %zu", off, p);
	if (n > 1)
		nontrivial();
	free(s);
}

// all 2^16 values of the narrow types
VF_FACET(all16, 32, 64, NOMUT, 120)
{
	uint64_t part = cycle(15);
	std::string trail = bytes(draw(2));
	note("all 16-bit values with low nibble %lu, trailing %zu bytes", part, trail.size());
	for (uint64_t v = part; v < 65536; v += 16)
		for (int t = 0; t < 2; t++)
			one(t, v, trail, 3);
	nontrivial();
}
