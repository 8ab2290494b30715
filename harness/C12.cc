// VF variant: asan
// VF use: sysfault
#include <stdio.h>
#include <stdlib.h>
#include "disk.h"
#include "safew_pair.h"
using namespace vf;
using namespace disk;
VF_PROPERTY("C12", "exploration", "at least two of the four files exist and one of them is corrupted, truncated, or the pair to keep is not the one already in place");
VF_ASSUME("checksum files longer than the library writes are not generated");

enum { P = 1, TP = 2, C = 4, TC = 8 };
static bool valid(const std::string &p, const std::string &c) { return c == crc_of(p); }
struct Files { std::string p, tp, c, tc; unsigned mask; };
static std::string show(const Files &f)
{
	std::string s;
	if (f.mask & P)
		s += " payload=" + quote(f.p, 16);
	if (f.mask & TP)
		s += " payload.tmp=" + quote(f.tp, 16);
	if (f.mask & C)
		s += " crc=" + quote(f.c, 8);
	if (f.mask & TC)
		s += " crc.tmp=" + quote(f.tc, 8);
	return s.empty() ? " none" : s;
}
// the documented recovery table: which payload and checksum are kept, if any
static bool table(const Files &f, std::string *keep)
{
	switch (f.mask) {
	case P | C:
	case P | TP | C:
		if (valid(f.p, f.c))
			return *keep = f.p, true;
		break;
	case P | TC:
		if (valid(f.p, f.tc))
			return *keep = f.p, true;
		break;
	case TP | TC:
	case P | TP | TC:
	case TP | C | TC:
		if (valid(f.tp, f.tc))
			return *keep = f.tp, true;
		break;
	case P | C | TC:
		if (valid(f.p, f.c) || valid(f.p, f.tc))
			return *keep = f.p, true;
		break;
	case P | TP | C | TC:
		if (valid(f.tp, f.tc))
			return *keep = f.tp, true;
		if (valid(f.p, f.c))
			return *keep = f.p, true;
		break;
	}
	return false;
}
static const char *bystanders[] = {"other", "f.crc.tmp.x", "f.crcx", "f.tm", "tmp", ".crc"};
static void check(Dir &d, const std::string &name, const Files &f)
{
	note("files:%s", show(f).c_str());
	size_t nb = draw(3);
	for (size_t i = 0; i < nb; i++)
		d.put(bystanders[i], "by");
	if (f.mask & P)
		d.put(name, f.p);
	if (f.mask & TP)
		d.put(name + ".tmp", f.tp);
	if (f.mask & C)
		d.put(name + ".crc", f.c);
	if (f.mask & TC)
		d.put(name + ".crc.tmp", f.tc);
	std::string keep, now, crc;
	bool k = table(f, &keep);
	unsigned n = (unsigned)__builtin_popcount(f.mask);
	if (n >= 2) {
		bool inplace = (f.mask & P) && (f.mask & C) && valid(f.p, f.c);
		if (!k || !inplace || keep != f.p)
			nontrivial();
		classify(!k ? "everything erased" : keep == f.p && inplace ? "pair in place kept" : "pair recovered from temporary files");
	}
	for (int round = 0; round < 2; round++) {
		int r = futils_safew_file_check(d.file(name).c_str());
		const char *when = round ? "second check" : "check";
		VF_CHECK(r == (k ? 0 : -1), "%s returned %d, expected %d; left %s", when, r, k ? 0 : -1, d.show().c_str());
		if (k) {
			VF_CHECK(d.get(name, &now) && now == keep, "%s: the payload is %s, expected %s", when, quote(now, 16).c_str(), quote(keep, 16).c_str());
			VF_CHECK(d.get(name + ".crc", &crc) && crc == crc_of(keep), "%s: the checksum does not match the kept payload: %s", when, d.show().c_str());
		}
		VF_CHECK(d.list().size() == nb + (k ? 2 : 0), "%s: files left: %s", when, d.show().c_str());
		for (size_t i = 0; i < nb; i++)
			VF_CHECK(d.get(bystanders[i], &now) && now == "by", "%s changed or removed the unrelated file %s", when, bystanders[i]);
	}
}
static std::string bad_crc(const std::string &right)
{
	std::string c = right;
	switch (draw(4)) {
	case 0: c[draw(c.size() - 1)] ^= (char)(1 << draw(7)); break;
	case 1: c.resize(draw(c.size() - 1)); break;
	case 2: c.clear(); break;
	case 3: std::swap(c[0], c[c.size() - 1]); break;
	default: c = std::string(c.size(), (char)(chance(1, 2) ? 0 : 0xff));
	}
	return c;
}
VF_FACET(every_combination, 81000, 520000)
{
	// payload files: absent, one of two contents; checksum files: absent, of either content, wrong, cut, empty
	uint64_t k = cycle(323);
	Dir d("d");
	std::string a = content(), b = content(&a);
	if (a == b)
		b += "x";
	Files f;
	f.mask = 0;
	auto pay = [&](unsigned s, unsigned bit, std::string *o) {
		if (s) {
			f.mask |= bit;
			*o = s == 1 ? a : b;
		}
	};
	auto sum = [&](unsigned s, unsigned bit, std::string *o) {
		if (!s)
			return;
		f.mask |= bit;
		std::string ca = crc_of(a), cb = crc_of(b);
		switch (s) {
		case 1: *o = ca; break;
		case 2: *o = cb; break;
		case 3: *o = ca; (*o)[draw(ca.size() - 1)] ^= (char)(1 << draw(7)); break;
		case 4: *o = ca.substr(0, 1 + draw(ca.size() - 2)); break;
		default: o->clear();
		}
	};
	pay((unsigned)(k % 3), P, &f.p);
	pay((unsigned)(k / 3 % 3), TP, &f.tp);
	sum((unsigned)(k / 9 % 6), C, &f.c);
	sum((unsigned)(k / 54 % 6), TC, &f.tc);
	check(d, "f", f);
}
VF_FACET(any_files, 80000, 520000)
{
	Dir d("d");
	Files f;
	f.mask = (unsigned)draw(15);
	std::vector<std::string> pool = {content()};
	pool.push_back(content(&pool[0]));
	pool.push_back(content(&pool[0]));
	f.p = pick(pool);
	f.tp = pick(pool);
	f.c = chance(2, 3) ? crc_of(pick(pool)) : bad_crc(crc_of(pick(pool)));
	f.tc = chance(2, 3) ? crc_of(pick(pool)) : bad_crc(crc_of(pick(pool)));
	std::string name = file_name();
	if (chance(1, 6))
		name = "n" + std::string(draw(20), 'n') + (chance(1, 2) ? ".crc" : ".tmp");
	check(d, name, f);
}
// a content one of whose bytes differs from what was committed is not accepted, in any of the places
VF_FACET(one_byte_differs, 20000, 400000)
{
	Dir d("d");
	std::string c = content();
	if (c.empty())
		c = "x";
	Files f;
	static const unsigned masks[] = {P | C, P | TP | C, P | TC, TP | TC, P | TP | TC, TP | C | TC, P | C | TC, P | TP | C | TC};
	f.mask = masks[draw(7)];
	std::string x = c;
	size_t at = chance(1, 3) ? x.size() - 1 - smallish(x.size() - 1) : draw(x.size() - 1);
	x[at] = (char)(x[at] + 1 + draw(254));
	f.c = f.tc = crc_of(c);
	f.p = f.tp = x;
	note("byte %zu of %zu differs", at, c.size());
	VF_CHECK(!valid(x, f.c), "contents differing in byte %zu of %zu only have the same checksum", at, c.size());
	check(d, "f", f);
}
// contents of 4096 bytes, and one byte whose change changes one bit of the checksum only (each bit once); with another
// checksum these are changes like any other
static const struct { uint64_t seed; unsigned at; unsigned char to; } near_misses[] = {
	{30, 768, 232}, {333, 3629, 135}, {350, 3878, 99}, {351, 3688, 26}, {418, 742, 227}, {731, 2384, 203},
	{1009, 3638, 91}, {1109, 1148, 100}, {1127, 2081, 225}, {1209, 1338, 109}, {1217, 3668, 244}, {1353, 1207, 96},
	{1555, 2902, 52}, {1674, 1681, 78}, {1843, 951, 201}, {2281, 3284, 233}, {2316, 3738, 178}, {2367, 3925, 80},
	{3290, 3407, 239}, {3694, 2707, 251}, {3730, 1292, 49}, {3740, 3710, 74}, {3958, 1927, 68}, {4050, 724, 239},
	{4269, 472, 183}, {4463, 3161, 55}, {4717, 659, 39}, {4851, 3081, 171}, {5263, 838, 100}, {6939, 3434, 217},
	{6988, 2370, 237}, {8768, 1434, 201},
};
VF_FACET(nearly_the_same_checksum, 256, 256)
{
	Dir d("d");
	auto &m = near_misses[draw(31)];
	static const unsigned masks[] = {P | C, P | TP | C, P | TC, TP | TC, P | TP | TC, TP | C | TC, P | C | TC, P | TP | C | TC};
	Files f;
	f.mask = masks[draw(7)];
	std::string c(4096, 0);
	fill(m.seed, &c[0], c.size());
	f.c = f.tc = crc_of(c);
	c[m.at] = (char)m.to;
	f.p = f.tp = c;
	nontrivial();
	note("byte %u of 4096 differs", m.at);
	VF_CHECK(!valid(c, f.c), "contents differing in byte %u of 4096 only have the same checksum", m.at);
	check(d, "f", f);
}
// more bytes than 16 or 20 bits count: what is committed is accepted, and not with one byte changed, wherever
VF_FACET(large_files, 160, 3000)
{
	Dir d("d");
	std::string path = d.file("f"), c = large_content(3 << 20), now;
	bool tmp = chance(1, 2); // recovered from the temporary files
	size_t at = chance(1, 3) ? c.size() - 1 - smallish(c.size() - 1) : draw(c.size() - 1);
	note("%zu bytes, byte %zu changed", c.size(), at);
	nontrivial();
	futils_safew_file *f = futils_safew_fopen(path.c_str());
	size_t k = chance(1, 2) ? c.size() : 1 + draw(70000), o = 0;
	VF_CHECK(f, "opening failed");
	for (; o < c.size(); o += k)
		VF_CHECK(futils_safew_fwrite(c.data() + o, 1, std::min(k, c.size() - o), f) == std::min(k, c.size() - o), "an undisturbed write failed");
	VF_CHECK(futils_safew_fclose_commit_with_crc(f) == 0, "an undisturbed checksummed commit failed");
	VF_CHECK(d.get("f", &now) && now == c, "%zu bytes were committed, the file has %zu", c.size(), now.size());
	auto move = [&] {
		VF_CHECK(!rename(path.c_str(), (path + ".tmp").c_str()) && !rename((path + ".crc").c_str(), (path + ".crc.tmp").c_str()), "harness");
	};
	if (tmp)
		move();
	VF_CHECK(futils_safew_file_check(path.c_str()) == 0 && d.list().size() == 2 && d.get("f", &now) && now == c, "the check did not accept the committed pair%s", tmp ? " under temporary names" : "");
	c[at] = (char)(c[at] + 1 + draw(254));
	d.put("f", c, false);
	if (tmp)
		move();
	VF_CHECK(futils_safew_file_check(path.c_str()) == -1 && d.list().empty(), "a payload of %zu bytes with byte %zu changed was accepted", c.size(), at);
}
// what commits of the library leave is accepted
VF_FACET(committed_pairs, 10000, 200000)
{
	Dir d("d");
	std::string path = d.file("f"), now;
	int n = 1 + (int)draw(3);
	for (int i = 0; i < n; i++) {
		std::string c = content();
		futils_safew_file *f = futils_safew_fopen(path.c_str());
		VF_CHECK(f && futils_safew_fwrite(c.data(), 1, c.size(), f) == c.size() && futils_safew_fclose_commit_with_crc(f) == 0, "an undisturbed checksummed write failed");
		if (chance(1, 2))
			d.put("f.tmp", content());
		VF_CHECK(futils_safew_file_check(path.c_str()) == 0 && d.get("f", &now) && now == c && d.list().size() == 2, "the check did not accept a committed pair; left %s", d.show().c_str());
		std::string sum;
		d.get("f.crc", &sum);
		if (chance(1, 3) && !c.empty()) { // and not once damaged
			nontrivial();
			std::string x = c;
			size_t at = draw(x.size() - 1);
			x[at] = (char)(x[at] ^ (1 << draw(7)));
			d.put("f", x);
			VF_CHECK(futils_safew_file_check(path.c_str()) == -1 && d.list().empty(), "a damaged payload (byte %zu of %zu) was accepted; left %s", at, x.size(), d.show().c_str());
		}
	}
}
VF_FACET(path_lengths, 3000, 30000)
{
	Dir d("d");
	size_t base = d.path.size() + 1;
	size_t n = chance(3, 4) && base < 110 ? 118 + draw(20) - base : 1 + draw(200);
	std::string name(n, 'p'), now;
	std::string c = content();
	d.put(name, c);
	d.put(name + ".crc", crc_of(c));
	// names which a cut path would have
	std::string cut = name.substr(0, name.size() - 1);
	if (!cut.empty())
		d.put(cut, "cut");
	size_t files = d.list().size();
	note("path of %zu characters", base + n);
	int r = futils_safew_file_check(d.file(name).c_str());
	VF_CHECK(r == 0 || base + n > 100, "a path of %zu characters was refused", base + n);
	VF_CHECK(r == 0 || r == -1, "returned %d", r);
	nontrivial();
	VF_CHECK(d.list().size() == files && d.get(name, &now) && now == c, "the check of a path of %zu characters returned %d and left %zu of %zu files", base + n, r, d.list().size(), files);
}
