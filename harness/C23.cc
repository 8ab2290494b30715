// VF variant: asan
// VF locale: yes
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include "utf8_ref.h"
extern "C" {
#include "futils/string.h"
}
using namespace vf;
VF_PROPERTY("C23", "exploration", "the text has a multi-byte or forbidden character or is malformed, or does not fit the output");
VF_ASSUME("heap buffers are exact-size AddressSanitizer allocations, so any access outside them is observed");
VF_ASSUME("valid UTF-8 means RFC 3629; a replacement that is not a Unicode scalar value may be refused or never reached");

static void run(size_t maxch)
{
	some_locale();
	bool usef = chance(4, 5);
	std::vector<uint32_t> f;
	if (usef)
		f = u8::gen_forbidden();
	std::string in = u8::gen_text(f, maxch);
	uint32_t rep;
	switch (weighted({5, 3, 2, 1})) {
	case 0: rep = '_'; break;
	case 1: rep = u8::gen_char({}); break;
	case 2: rep = f.empty() ? '_' : f[draw(f.size() - 1)]; break;
	default: rep = (uint32_t)(draw(1) ? range(0xd800, 0xdfff) : range(0x110000, 0x7fffffff)); break;
	}
	std::vector<uint32_t> ch;
	bool valid = u8::decode(in, &ch);
	// expected full text
	std::string full;
	std::vector<size_t> cut{0};
	bool hit = false;
	if (valid)
		for (uint32_t c : ch) {
			bool b = usef && u8::has(f, c);
			hit |= b;
			if (b && !u8::scalar(rep))
				continue;
			u8::put(full, b ? rep : c);
			cut.push_back(full.size());
		}
	size_t room;
	switch (weighted({3, 4, 3})) {
	case 0: room = full.size() + 1 + draw(20); break;
	case 1: room = full.size() + 1 - (full.size() ? draw(full.size() < 8 ? full.size() : 8) : 0); break;
	default: room = full.size() ? 1 + draw(full.size()) : 2; break;
	}
	if (room < 2)
		room = 2;
	bool large = chance(1, 12);
	if (large) { // room which narrower types do not hold
		size_t k = wrapping(20);
		large = k > full.size() && k > 1;
		if (large)
			room = k;
	}
	note("sanitize %s into %zu bytes, %zu forbidden%s, replacement U+%04X", quote(in).c_str(), room, f.size(), usef ? "" : " (none given)", rep);
	u8::CStr ci(in);
	u8::WStr wf(f);
	char *out = large ? (char *)huge() : (char *)malloc(room);
	memset(out, 0x5a, large ? full.size() + 16 : room);
	int r = futils_string_sanitize_utf8(ci.p, out, room, usef ? wf.p : nullptr, (wchar_t)rep);
	VF_CHECK(!strcmp(ci.p, in.c_str()), "the input was modified");
	if (!valid || hit || in.size() != ch.size() || full.size() + 1 > room)
		nontrivial();
	if (!valid) {
		classify("malformed");
		VF_CHECK(r < 0, "malformed text %s accepted: returned %d", quote(in).c_str(), r);
	} else if (hit && !u8::scalar(rep)) {
		classify("impossible replacement");
		if (r >= 0) {
			std::vector<uint32_t> d;
			size_t n = strnlen(out, room);
			VF_CHECK(n < room && u8::decode(std::string(out, n), &d), "invalid text written for replacement U+%X: %s", rep, hex(out, n).c_str());
			// there is no right text if the room goes as far as the character to replace
			size_t reach = 0;
			for (uint32_t c : ch) {
				if (u8::has(f, c))
					break;
				std::string t;
				u8::put(t, c);
				reach += t.size();
			}
			VF_CHECK(reach + 4 >= room, "sanitize(%s) into %zu bytes gives %s though U+%X cannot be written", quote(in).c_str(), room, quote(std::string(out, n)).c_str(), rep);
		}
	} else {
		size_t best = 0;
		for (size_t x : cut)
			if (x < room)
				best = x;
		classify(best < full.size() ? "truncated" : "whole");
		VF_CHECK(r >= 0, "valid text %s refused: returned %d", quote(in).c_str(), r);
		size_t n = strnlen(out, room);
		VF_CHECK(n < room, "output of %zu bytes is not terminated", room);
		VF_CHECK((size_t)r == n, "returned %d, output has %zu bytes", r, n);
		VF_CHECK(n == best && !memcmp(out, full.data(), n), "sanitize(%s) into %zu bytes gives %s, expected %s", quote(in).c_str(), room,
			 quote(std::string(out, n)).c_str(), quote(full.substr(0, best)).c_str());
		// idempotence
		if (!(usef && u8::has(f, rep))) {
			char *out2 = large ? (char *)huge() + (1 << 20) : (char *)malloc(room);
			u8::CStr again(std::string(out, n));
			int r2 = futils_string_sanitize_utf8(again.p, out2, room, usef ? wf.p : nullptr, (wchar_t)rep);
			VF_CHECK(r2 == r && !strcmp(out2, out), "sanitising the result again changes it: %s", quote(out2).c_str());
			if (!large)
				free(out2);
		}
	}
	if (!large)
		free(out);
}
VF_FACET(texts, 900000, 4000000) { run(40); }
VF_FACET(long_texts, 6000, 100000) { run(12000); }
// every code point, forbidden and not, between neighbours of every kind
VF_FACET(code_points, 2176, 8704, NOMUT)
{
	uint32_t blk = (uint32_t)cycle(2175); // 0x110000/512 = 2176 blocks
	uint32_t before = u8::gen_char({}), after = u8::gen_char({}), rep = chance(1, 2) ? '_' : u8::gen_char({});
	note("code points U+%04X..U+%04X between U+%04X and U+%04X, replaced by U+%04X", blk * 512, blk * 512 + 511, before, after, rep);
	nontrivial();
	std::string pre, post, rp;
	u8::put(pre, before);
	u8::put(post, after);
	u8::put(rp, rep);
	for (uint32_t c = blk * 512; c < blk * 512 + 512; c++) {
		if (!c)
			continue;
		std::string me, out;
		u8::put(me, c);
		std::string in = pre + me + post + me;
		wchar_t w[3] = {L'\x1', (wchar_t)c, 0};
		char o[64];
		memset(o, 0x5a, sizeof o);
		int r = futils_string_sanitize_utf8(in.c_str(), o, sizeof o, L"\x1", (wchar_t)rep);
		auto ctl = [&](const std::string &s) { return s == "\x1" ? rp : s; };
		std::string want = ctl(pre) + ctl(me) + ctl(post) + ctl(me);
		if (!u8::scalar(c)) {
			VF_CHECK(r < 0, "surrogate U+%04X accepted: returned %d", c, r);
			continue;
		}
		VF_CHECK(r == (int)want.size() && !memcmp(o, want.c_str(), want.size() + 1), "sanitize(%s) gives %s (returned %d)", quote(in).c_str(), quote(o).c_str(), r);
		r = futils_string_sanitize_utf8(in.c_str(), o, sizeof o, w, (wchar_t)rep);
		auto bad = [&](const std::string &s) { return s == "\x1" || s == me ? rp : s; };
		want = bad(pre) + bad(me) + bad(post) + bad(me);
		VF_CHECK(r == (int)want.size() && !memcmp(o, want.c_str(), want.size() + 1), "sanitize(%s) with U+%04X forbidden gives %s (returned %d)", quote(in).c_str(), c, quote(o).c_str(), r);
	}
}
VF_FACET(missing_arguments, 1000, 10000)
{
	char o[8];
	nontrivial();
	switch (draw(2)) {
	case 0: VF_CHECK(futils_string_sanitize_utf8(nullptr, o, 8, L"*", L'_') < 0, "null input accepted"); break;
	case 1: VF_CHECK(futils_string_sanitize_utf8("a", nullptr, 8, L"*", L'_') < 0, "null output accepted"); break;
	case 2: {
		char *p = (char *)malloc(1);
		size_t n = draw(1);
		VF_CHECK(futils_string_sanitize_utf8("abc", p, n, L"*", L'_') < 0, "output of %zu bytes accepted", n);
		free(p);
		break;
	}
	}
}
