// Independent UTF-8 (RFC 3629) model and generators for C23/C24.
#pragma once
#include "vf.h"
#include <wchar.h>
namespace u8 {
using namespace vf;
static inline bool scalar(uint32_t c) { return c <= 0x10ffff && !(c >= 0xd800 && c <= 0xdfff); }
static inline void put(std::string &s, uint32_t c)
{
	if (c < 0x80)
		s += (char)c;
	else if (c < 0x800) {
		s += (char)(0xc0 + c / 64);
		s += (char)(0x80 + c % 64);
	} else if (c < 0x10000) {
		s += (char)(0xe0 + c / 4096);
		s += (char)(0x80 + c / 64 % 64);
		s += (char)(0x80 + c % 64);
	} else {
		s += (char)(0xf0 + c / 262144);
		s += (char)(0x80 + c / 4096 % 64);
		s += (char)(0x80 + c / 64 % 64);
		s += (char)(0x80 + c % 64);
	}
}
// decodes s; false when it is not valid UTF-8
static inline bool decode(const std::string &s, std::vector<uint32_t> *out)
{
	out->clear();
	size_t i = 0;
	while (i < s.size()) {
		uint32_t b = (uint8_t)s[i], c, n, min;
		if (b < 0x80) { c = b; n = 0; min = 0; }
		else if (b >= 0xc0 && b < 0xe0) { c = b & 31; n = 1; min = 0x80; }
		else if (b >= 0xe0 && b < 0xf0) { c = b & 15; n = 2; min = 0x800; }
		else if (b >= 0xf0 && b < 0xf8) { c = b & 7; n = 3; min = 0x10000; }
		else return false;
		if (i + n >= s.size())
			return false;
		for (uint32_t k = 1; k <= n; k++) {
			uint32_t x = (uint8_t)s[i + k];
			if ((x & 0xc0) != 0x80)
				return false;
			c = c * 64 + (x & 63);
		}
		if (c < min || !scalar(c))
			return false;
		out->push_back(c);
		i += n + 1;
	}
	return true;
}
static inline uint32_t gen_char(const std::vector<uint32_t> &favour)
{
	static const uint32_t edge[] = {0x1, 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff,
					0x10000, 0x1ffff, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff};
	// characters which text processing tends to single out: joiners, marks, spaces, direction, emoji, full-width
	static const uint32_t known[] = {0x85, 0xa0, 0xad, 0x301, 0x34f, 0x600, 0x200b, 0x200c, 0x200d, 0x200e, 0x200f, 0x2028, 0x2029, 0x202a, 0x202e, 0x2044, 0x2060, 0x2066, 0x2215, 0x20e3,
					 0x3000, 0xfb01, 0xfe0e, 0xfe0f, 0xff0f, 0xff1a, 0xfff9, 0xfffc, 0x1d173, 0x1f1eb, 0x1f3fb, 0x1f468, 0x1f600, 0xe0001, 0xe0020, 0xe0100};
	uint32_t c;
	switch (weighted({5, 3, 3, 2, 2, 2, 2})) {
	case 0: return (uint32_t)range('a', 'z');
	case 1: return favour.empty() ? '*' : favour[draw(favour.size() - 1)];
	case 2: return edge[draw(sizeof edge / sizeof *edge - 1)];
	case 3: return (uint32_t)range(1, 0x7f);
	case 4: return (uint32_t)range(0x80, 0xfff);
	case 5: return known[draw(sizeof known / sizeof *known - 1)];
	default: c = (uint32_t)range(0x1000, 0x10ffff); return scalar(c) ? c : 0x20ac;
	}
}
static inline void damage(std::string &s)
{
	static const char *bad[] = {"\x80", "\xbf", "\xc0\x80", "\xc1\xbf", "\xe0\x80\x80", "\xe0\x9f\xbf", "\xed\xa0\x80", "\xed\xbf\xbf",
		"\xf0\x80\x80\x80", "\xf0\x8f\xbf\xbf", "\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\xf7\xbf\xbf\xbf", "\xf8\x88\x80\x80\x80",
		"\xfc\x84\x80\x80\x80\x80", "\xfe", "\xff", "\xc3", "\xe2\x82", "\xf0\x9f\x98", "\xe2", "\xf0\x9f", "\xed\xa0\xbd\xed\xb8\x80"};
	size_t p = draw(s.size());
	switch (weighted({4, 2, 2, 2})) {
	case 0: s.insert(p, bad[draw(sizeof bad / sizeof *bad - 1)]); break;
	case 1: if (p < s.size()) s.erase(p, 1); break;
	case 2: if (p < s.size()) s[p] = (char)range(1, 255); break;
	case 3: s.resize(p); break;
	}
}
// text with no NUL; sometimes not valid UTF-8
static inline std::string gen_text(const std::vector<uint32_t> &favour, size_t maxch)
{
	std::string s;
	size_t n = smallish(maxch);
	if (n > 64) { // long: a repeated block, so that shrinking stays cheap
		std::vector<uint32_t> blk;
		size_t k = range(1, 12);
		for (size_t i = 0; i < k; i++)
			blk.push_back(gen_char(favour));
		std::string lead;
		for (size_t i = 0, m = draw(6); i < m; i++)
			put(lead, gen_char(favour));
		s = lead;
		for (size_t i = 0; i < n; i++)
			put(s, blk[i % k]);
	} else
		for (size_t i = 0; i < n; i++)
			put(s, gen_char(favour));
	if (chance(1, 4))
		for (size_t k = range(1, 3); k; k--)
			damage(s);
	std::string o;
	for (char c : s)
		if (c)
			o += c;
	return o;
}
static inline std::vector<uint32_t> gen_forbidden()
{
	std::vector<uint32_t> f;
	switch (weighted({3, 2, 1})) {
	case 0:
		for (size_t i = 0, n = draw(5); i < n; i++)
			f.push_back(gen_char({}));
		break;
	case 1: // exFAT
		for (uint32_t c = 1; c < 32; c++)
			f.push_back(c);
		for (char c : std::string("\"*/:<>?\\|"))
			f.push_back((uint32_t)c);
		break;
	case 2: f.push_back((uint32_t)range(1, 0x7f)); break;
	}
	return f;
}
struct WStr { // exact-size wide string
	wchar_t *p;
	explicit WStr(const std::vector<uint32_t> &v) : p((wchar_t *)malloc((v.size() + 1) * sizeof(wchar_t)))
	{
		for (size_t i = 0; i < v.size(); i++)
			p[i] = (wchar_t)v[i];
		p[v.size()] = 0;
	}
	~WStr() { free(p); }
	WStr(const WStr &) = delete;
};
struct CStr {
	char *p;
	explicit CStr(const std::string &s) : p((char *)malloc(s.size() + 1)) { memcpy(p, s.c_str(), s.size() + 1); }
	~CStr() { free(p); }
	CStr(const CStr &) = delete;
};
static inline bool has(const std::vector<uint32_t> &v, uint32_t c)
{
	for (uint32_t x : v)
		if (x == c)
			return true;
	return false;
}
}
