// VF variant: asan
#include "varint_ref.h"
using namespace vf;
using namespace vr;
VF_PROPERTY("C05", "exploration",
	    "the input has at least two bytes of which the first continues, or is exactly at a length or range limit");
VF_ASSUME("heap buffers are exact-size AddressSanitizer allocations, so any access outside them is observed");

static void one(int t, const std::string &in)
{
	uint8_t *s = (uint8_t *)malloc(in.size());
	memcpy(s, in.data(), in.size());
	uint64_t raw = 0, eraw = 0;
	size_t len = 4242, elen = 0;
	int e = decode(t, in, &eraw, &elen);
	int r = lib_read(t, s, in.size(), &raw, &len);
	VF_CHECK(r == e, "read_%s(%s) returned %d, expected %d", types[t].name, hex(in.data(), in.size()).c_str(), r, e);
	if (e == 0)
		VF_CHECK(raw == eraw && len == elen, "read_%s(%s) gave 0x%lx length %zu, expected 0x%lx length %zu",
			 types[t].name, hex(in.data(), in.size()).c_str(), raw, len, eraw, elen);
	classify(e == 0 ? "accepted" : e == -EPROTO ? "protocol error" : "invalid");
	free(s);
}

// the source goes on for sizes which narrower types do not hold
VF_FACET(huge_sources, 40000, 400000)
{
	int t = (int)draw(5);
	size_t k = draw(types[t].maxlen + 2);
	std::string in;
	for (size_t i = 0; i < k; i++)
		in += (char)(draw(127) | 0x80);
	in += (char)draw(127);
	size_t n = wrapping(12);
	in.resize(64);
	note("read_%s of %s, %zu bytes given", types[t].name, hex(in.data(), k + 1).c_str(), n);
	nontrivial();
	uint8_t *s = huge();
	memcpy(s, in.data(), 64);
	uint64_t raw = 0, eraw = 0;
	size_t len = 4242, elen = 0;
	int e = decode(t, in, &eraw, &elen), r = lib_read(t, s, n, &raw, &len);
	VF_CHECK(r == e && (e || (raw == eraw && len == elen)), "read_%s(%s), %zu bytes given, returned %d 0x%lx length %zu, expected %d 0x%lx length %zu", types[t].name, hex(in.data(), k + 1).c_str(), n, r, raw, len, e, eraw, elen);
}
VF_FACET(structured, 3000000, 60000000)
{
	int t = (int)draw(5);
	size_t m = types[t].maxlen;
	// k continuation bytes, then a final byte, then trailing data; biased around the limits
	size_t k = weighted({2, 1, 1}) == 0 ? draw(m + 3) : m - 1;
	std::string in;
	unsigned style = (unsigned)weighted({3, 1, 1, 1});
	for (size_t i = 0; i < k; i++) {
		uint8_t b = style == 0 ? (uint8_t)draw(127) : style == 1 ? 0 : style == 2 ? 127 : (uint8_t)(1u << draw(6));
		in += (char)(b | 0x80);
	}
	switch (weighted({3, 2, 1, 1})) {
	case 0: in += (char)draw(127); break;
	case 1: in += (char)draw(31); break;
	case 2: in += (char)(1u << draw(6)); break;
	case 3: break; // no terminator
	}
	in += bytes(weighted({4, 3, 1, 1}));
	note("read_%s of %s", types[t].name, hex(in.data(), in.size()).c_str());
	if (in.size() >= 2 && (in[0] & 0x80))
		nontrivial();
	one(t, in);
}

VF_FACET(arbitrary, 1500000, 20000000)
{
	int t = (int)draw(5);
	std::string in = bytes(smallish(24));
	note("read_%s of %s", types[t].name, hex(in.data(), in.size()).c_str());
	if (in.size() >= 2 && (in[0] & 0x80))
		nontrivial();
	one(t, in);
}

// the same with sources of any length after it
VF_FACET(long_sources, 40000, 1000000)
{
	int t = (int)draw(5);
	std::string in;
	size_t k = draw(types[t].maxlen + 2);
	for (size_t i = 0; i < k; i++)
		in += (char)(draw(127) | 0x80);
	if (chance(5, 6))
		in += (char)draw(chance(1, 2) ? 3 : 127);
	size_t tot;
	switch (weighted({4, 3, 1})) {
	case 0: tot = (256u << draw(8)) + draw(14) - (chance(1, 4) ? 8 : 0); break;
	case 1: tot = smallish(5000); break;
	default: tot = 65536u * (1 + draw(2)) + draw(14);
	}
	if (tot > in.size()) {
		std::string tail(tot - in.size(), 0);
		fill(draw(UINT64_MAX), tail.data(), tail.size());
		in += tail;
	}
	note("read_%s of %zu bytes from %s", types[t].name, in.size(), hex(in.data(), in.size() < 16 ? in.size() : 16).c_str());
	if (in.empty())
		return;
	if (in[0] & 0x80)
		nontrivial();
	one(t, in);
}
// every 1- and 2-byte input, every 3-byte input with continuing prefix (2^16 blocks), all types
VF_FACET(short_inputs, 256, 1024, NOMUT, 120)
{
	uint64_t first = cycle(255);
	note("all inputs of at most 3 bytes starting with 0x%02lx", first);
	for (int t = 0; t < 6; t++) {
		one(t, std::string(1, (char)first));
		for (int b = 0; b < 256; b++) {
			std::string s{(char)first, (char)b};
			one(t, s);
			if (t < 2 && (first & 0x80))
				for (int c = 0; c < 256; c += 3 - (b & 1))
					one(t, s + (char)c);
		}
	}
	nontrivial();
}

VF_FACET(bad_arguments, 2000, 20000)
{
	int t = (int)draw(5);
	uint8_t *s = (uint8_t *)malloc(16);
	fill(draw(~0ull), s, 16);
	size_t n = draw(16), len = 0;
	uint64_t raw;
	int r;
	switch (draw(3)) {
	case 0: r = lib_read(t, nullptr, n, &raw, &len); note("null source"); break;
	case 1: r = lib_read(t, s, 0, &raw, &len); note("zero length"); break;
	case 2: r = lib_read_null(t, s, n, &len); note("null value"); break;
	default: r = lib_read(t, s, n, &raw, nullptr); note("null length"); break;
	}
	VF_CHECK(r == -EINVAL, "missing argument: read_%s returned %d", types[t].name, r);
	nontrivial();
	free(s);
}
