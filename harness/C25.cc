// VF variant: asan
#include "vf.h"
#include "futils/futils.hpp"
#include <string.h>
#include <algorithm>
using namespace vf;
VF_PROPERTY("C25", "exploration", "strings share a common part or contain a zero or high byte; paths contain a slash");
VF_ASSUME("C locale; paths have no embedded zero byte; exactly two leading slashes may be kept or collapsed, as POSIX allows");

static std::string small(size_t n, const std::string &alpha)
{
	std::string s;
	for (size_t i = 0, m = draw(n); i < m; i++)
		s += alpha[draw(alpha.size() - 1)];
	return s;
}
VF_FACET(affixes, 400000, 8000000)
{
	std::string alpha("ab\0\xff" "A", 5);
	std::string full = small(12, alpha), x;
	switch (weighted({3, 2, 2, 2, 1})) {
	case 0: x = full.substr(0, draw(full.size())); break;
	case 1: x = full.substr(draw(full.size())); break;
	case 2: x = small(12, alpha); break;
	case 3: x = full + small(2, alpha); break;
	case 4: x = small(2, alpha) + full; break;
	}
	if (!x.empty() && chance(1, 4))
		x[draw(x.size() - 1)] ^= (char)(1 << draw(7));
	note("full %s part %s", quote(full).c_str(), quote(x).c_str());
	bool p = true, s = true;
	if (x.size() > full.size())
		p = s = false;
	else
		for (size_t i = 0; i < x.size(); i++) {
			p &= full[i] == x[i];
			s &= full[full.size() - x.size() + i] == x[i];
		}
	if (!x.empty() && (p || s || full.find('\0') != full.npos))
		nontrivial();
	std::string f0 = full, x0 = x;
	VF_CHECK(futils::string::startsWith(full, x) == p, "startsWith(%s, %s) is not %d", quote(full).c_str(), quote(x).c_str(), p);
	VF_CHECK(futils::string::endsWith(full, x) == s, "endsWith(%s, %s) is not %d", quote(full).c_str(), quote(x).c_str(), s);
	VF_CHECK(f0 == full && x0 == x, "argument modified");
}
// strings of lengths which narrower types do not hold
VF_FACET(long_strings, 4000, 80000)
{
	size_t n = chance(1, 8) ? 65536 + draw(200) : chance(1, 2) ? 256 + draw(100) : 128 + draw(3000);
	std::string full(n, 'a'), x;
	fill(draw(UINT64_MAX), &full[0], n);
	size_t m = chance(1, 3) ? draw(20) : chance(1, 2) ? n - draw(n < 300 ? n : 300) : draw(n);
	int kind = (int)draw(3);
	x = kind == 0 ? full.substr(0, m) : kind == 1 ? full.substr(n - m) : kind == 2 ? full + full.substr(0, 256) : std::string(256 * range(1, 2), 'q') + full;
	bool bent = chance(1, 2) && !x.empty();
	size_t at = 0;
	if (bent) {
		at = chance(1, 3) ? x.size() - 1 : chance(1, 2) ? 0 : draw(x.size() - 1);
		x[at] ^= (char)(1 << draw(7));
	}
	bool p = x.size() <= n && full.compare(0, x.size(), x) == 0, s = x.size() <= n && full.compare(n - x.size(), x.size(), x) == 0;
	note("string of %zu bytes, part of %zu, kind %d%s at %zu", n, x.size(), kind, bent ? ", changed" : "", at);
	nontrivial();
	VF_CHECK(futils::string::startsWith(full, x) == p, "startsWith with %zu and %zu bytes is not %d", n, x.size(), p);
	VF_CHECK(futils::string::endsWith(full, x) == s, "endsWith with %zu and %zu bytes is not %d", n, x.size(), s);
	std::string w = full, r = futils::string::convertToLowerCase(full);
	for (char &c : w)
		if (c >= 'A' && c <= 'Z')
			c = (char)(c + 32);
	VF_CHECK(r == w, "lower case of %zu bytes: %zu bytes, differs at %td", n, r.size(), std::mismatch(w.begin(), w.begin() + (ptrdiff_t)std::min(w.size(), r.size()), r.begin()).first - w.begin());
}
VF_FACET(lower_case, 200000, 3000000)
{
	std::string s = bytes(smallish(40)), w = s;
	bool up = false;
	for (char &c : w)
		if (c >= 'A' && c <= 'Z') {
			c = (char)(c + 32);
			up = true;
		}
	if (up)
		nontrivial();
	note("lower case of %s", quote(s).c_str());
	std::string s0 = s, r = futils::string::convertToLowerCase(s);
	VF_CHECK(s0 == s, "argument modified");
	VF_CHECK(r == w, "lower case of %s is %s", quote(s).c_str(), quote(r).c_str());
}
VF_FACET(all_bytes, 1, 4, NOMUT)
{
	for (int c = 0; c < 256; c++) {
		std::string s(1, (char)c), r = futils::string::convertToLowerCase(s);
		VF_CHECK(r.size() == 1 && (uint8_t)r[0] == (c >= 'A' && c <= 'Z' ? c + 32 : c), "lower case of byte %02x", c);
	}
	nontrivial();
}
// POSIX, written from the text of basename() and dirname()
static std::string strip(std::string s)
{
	while (s.size() > 1 && s.back() == '/')
		s.pop_back();
	return s;
}
static std::string ref_base(const std::string &p)
{
	if (p.empty())
		return ".";
	std::string s = strip(p);
	if (s == "/")
		return s;
	size_t k = s.rfind('/');
	return k == s.npos ? s : s.substr(k + 1);
}
static std::string ref_dir(const std::string &p)
{
	if (p.empty())
		return ".";
	std::string s = strip(p);
	if (s == "/")
		return s;
	size_t k = s.rfind('/');
	if (k == s.npos)
		return ".";
	return strip(s.substr(0, k + 1));
}
VF_FACET(paths, 400000, 8000000)
{
	static const char *part[] = {"/", "a", "//", ".", "..", "///", "usr", "x y", ".hid", "f.c", "\xc3\xa9", "-"};
	std::string p;
	for (size_t i = 0, n = draw(8); i < n; i++)
		p += part[draw(sizeof part / sizeof *part - 1)];
	if (chance(1, 20))
		p += std::string(chance(1, 20) ? 60000 + draw(10000) : chance(1, 3) ? 3900 + draw(400) : draw(300), 'n') + (draw(1) ? "/" : "") + std::string(draw(3), 'm');
	note("path %s", quote(p).c_str());
	std::string p0 = p, d = futils::fs::dirname(p), b = futils::fs::basename(p);
	VF_CHECK(p0 == p, "argument modified");
	if (p.find('/') != p.npos)
		nontrivial();
	std::string wd = ref_dir(p), wb = ref_base(p);
	bool two = p.size() >= 2 && p[0] == '/' && p[1] == '/' && (p.size() == 2 || p[2] != '/');
	bool okd = d == wd || (two && wd == "/" && d == "//");
	bool okb = b == wb || (p == "//" && b == "//");
	VF_CHECK(okd, "dirname(%s) is %s, expected %s", quote(p).c_str(), quote(d).c_str(), quote(wd).c_str());
	VF_CHECK(okb, "basename(%s) is %s, expected %s", quote(p).c_str(), quote(b).c_str(), quote(wb).c_str());
}
