// VF variant: asan
// VF locale: yes
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include "utf8_ref.h"
extern "C" {
#include "futils/string.h"
}
using namespace vf;
VF_PROPERTY("C24", "exploration", "a limit within two of the actual size, a forbidden character, or malformed text");
VF_ASSUME("valid UTF-8 means RFC 3629; when text is malformed and a limit is also exceeded either error is accepted");

static void run(size_t maxch)
{
	some_locale();
	bool usef = chance(3, 4);
	std::vector<uint32_t> f;
	if (usef)
		f = u8::gen_forbidden();
	bool clean = chance(1, 2);
	std::string in = u8::gen_text(clean ? std::vector<uint32_t>() : f, maxch);
	std::vector<uint32_t> ch;
	bool valid = u8::decode(in, &ch);
	size_t mb = 0, mc = 0;
	bool near = false;
	switch (weighted({3, 4, 2})) {
	case 0: break;
	case 1: mb = in.size() + draw(4); mb = mb > 2 ? mb - 2 + 1 : mb; near = true; break;
	case 2: mb = chance(1, 2) ? interesting(UINT64_MAX) : wrapping(60); break;
	}
	switch (weighted({3, 4, 2})) {
	case 0: break;
	case 1: mc = ch.size() + draw(4); mc = mc > 2 ? mc - 2 : mc; near = true; break;
	case 2: mc = chance(1, 2) ? interesting(UINT64_MAX) : wrapping(60); break;
	}
	bool hit = false;
	if (usef)
		for (uint32_t c : ch)
			hit |= u8::has(f, c);
	bool bigb = mb && in.size() + 1 > mb, bigc = mc && valid && ch.size() > mc;
	note("check %s: max bytes %zu, max characters %zu, %zu forbidden%s", quote(in).c_str(), mb, mc, f.size(), usef ? "" : " (none given)");
	u8::CStr ci(in);
	u8::WStr wf(f);
	int r = futils_string_check_utf8(ci.p, mb, mc, usef ? wf.p : nullptr);
	VF_CHECK(!strcmp(ci.p, in.c_str()), "the input was modified");
	if (near || hit || !valid)
		nontrivial();
	if (!valid) {
		classify("malformed");
		VF_CHECK(r < 0 && r != -EPROTO && (r != -E2BIG || mb || mc), "malformed text %s: returned %d", quote(in).c_str(), r);
		if (!bigb && !mc)
			VF_CHECK(r != -E2BIG, "malformed text %s within the limit: returned too big", quote(in).c_str());
	} else if (bigb || bigc) {
		classify("too big");
		VF_CHECK(r == -E2BIG, "%zu bytes, %zu characters, limits %zu and %zu: returned %d", in.size() + 1, ch.size(), mb, mc, r);
	} else if (hit) {
		classify("forbidden");
		VF_CHECK(r == -EPROTO, "text with a forbidden character: returned %d", r);
	} else {
		classify("acceptable");
		VF_CHECK(r == 0, "acceptable text %s (%zu bytes, %zu characters, limits %zu and %zu): returned %d", quote(in).c_str(), in.size() + 1, ch.size(), mb, mc, r);
	}
}
VF_FACET(texts, 1000000, 6000000) { run(40); }
VF_FACET(long_texts, 10000, 150000) { run(12000); }
// every code point on its own, and every lead/continuation byte pair
VF_FACET(code_points, 2176, 8704, NOMUT)
{
	uint32_t blk = (uint32_t)cycle(2175); // 0x110000/512 = 2176 blocks
	note("code points U+%04X..U+%04X", blk * 512, blk * 512 + 511);
	for (uint32_t c = blk * 512; c < blk * 512 + 512; c++) {
		if (!c)
			continue;
		std::string s;
		u8::put(s, c); // encodes surrogates too
		int r = futils_string_check_utf8(s.c_str(), s.size() + 1, 1, nullptr);
		VF_CHECK(u8::scalar(c) ? r == 0 : r < 0, "U+%04X: returned %d", c, r);
		if (u8::scalar(c) && c % 8 == blk % 8) {
			r = futils_string_check_utf8(s.c_str(), s.size(), 1, nullptr);
			VF_CHECK(r == -E2BIG, "U+%04X with a limit one byte short: returned %d", c, r);
			wchar_t w[2] = {(wchar_t)c, 0};
			r = futils_string_check_utf8(s.c_str(), 0, 0, w);
			VF_CHECK(r == -EPROTO, "U+%04X forbidden: returned %d", c, r);
		}
	}
	nontrivial();
}
VF_FACET(byte_pairs, 255, 1020, NOMUT)
{
	uint32_t a = 1 + (uint32_t)cycle(254);
	note("texts starting with byte %02x", a);
	for (uint32_t b = 0; b < 256; b++)
		for (uint32_t c = 0; c < 4; c++) {
			static const uint8_t tail[4][3] = {{0, 0, 0}, {0x80, 0, 0}, {0xbf, 0xbf, 0}, {'a', 0, 0}};
			std::string s(1, (char)a);
			if (b)
				s += (char)b;
			if (b)
				s += (const char *)tail[c];
			std::vector<uint32_t> ch;
			bool valid = u8::decode(s, &ch);
			int r = futils_string_check_utf8(s.c_str(), 0, 0, L"\x1");
			bool hit = valid && u8::has(ch, 1);
			VF_CHECK(valid ? (hit ? r == -EPROTO : r == 0) : r < 0 && r != -EPROTO && r != -E2BIG, "text %s: returned %d", hex(s.data(), s.size()).c_str(), r);
		}
	nontrivial();
}
VF_FACET(missing_arguments, 100, 1000)
{
	nontrivial();
	VF_CHECK(futils_string_check_utf8(nullptr, draw(3), draw(3), draw(1) ? L"*" : nullptr) < 0, "null input accepted");
}
