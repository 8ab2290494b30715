// VF variant: asan
// VF use: sysfault entropy
// VF solib: fast
#include <dlfcn.h>
#include <errno.h>
#include <limits.h>
#include <stdlib.h>
#include <string.h>
#include "entropy.h"
#include "stats.h"
#include "futils/random.h"
using namespace vf;
VF_PROPERTY("C19", "exploration", "the text has at least one character, or the count is within 8 of the largest representable one");
VF_ASSUME("operating-system entropy is replaced by a reproducible uniform stream; distribution tests reject at a false-alarm probability below 1e-13 each");
VF_ASSUME("base32 and base64 are those of RFC 4648: 'the padding and unused trailing bits that encoding requires' means '=' padding and zero unused bits");

static void start()
{
	ent_start(draw(UINT64_MAX));
	VF_CHECK(futils_random_reseed() == 0, "reseeding failed");
}
enum Kind { STRING, B16, B32, B64 };
static const char A16[] = "0123456789abcdef", A32[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567",
		  A64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static const char *const KN[] = {"string", "base16", "base32", "base64"};
static int call(Kind k, char *b, size_t len, size_t count, const char *al)
{
	switch (k) {
	case STRING: return futils_random_string(b, len, count, al);
	case B16: return futils_random_base16(b, len, count);
	case B32: return futils_random_base32(b, len, count);
	default: return futils_random_base64(b, len, count);
	}
}
static unsigned __int128 full_len(Kind k, size_t count)
{
	unsigned __int128 c = count;
	switch (k) {
	case STRING: return c;
	case B16: return c * 2;
	case B32: return (c + 4) / 5 * 8;
	default: return (c + 2) / 3 * 4;
	}
}
// number of characters carrying data and the number of data bits in the last of them
static void data_chars(Kind k, size_t count, const std::string &al, size_t *n, unsigned *last)
{
	unsigned b = k == B16 ? 4 : k == B32 ? 5 : 6;
	if (k == STRING) {
		*n = count;
		*last = 0;
		return;
	}
	*n = (count * 8 + b - 1) / b;
	*last = (unsigned)(count * 8 % b ? count * 8 % b : b);
}
// the visible text of a result: alphabet, padding, unused bits
static void check_text(Kind k, size_t count, const std::string &al, const char *s, size_t vis)
{
	size_t nd;
	unsigned last;
	data_chars(k, count, al, &nd, &last);
	const char *a = k == STRING ? al.c_str() : k == B16 ? A16 : k == B32 ? A32 : A64;
	unsigned b = k == B16 ? 4 : k == B32 ? 5 : 6;
	for (size_t i = 0; i < vis; i++) {
		if (i < nd) {
			const char *p = s[i] ? strchr(a, s[i]) : nullptr;
			VF_CHECK(p, "%s of %zu: character %zu is \\x%02x, not in the alphabet", KN[k], count, i, (uint8_t)s[i]);
			if (k != STRING && i == nd - 1)
				VF_CHECK(((p - a) & ((1 << (b - last)) - 1)) == 0, "%s of %zu bytes: last character '%c' has unused bits set", KN[k], count, s[i]);
		} else
			VF_CHECK(s[i] == '=', "%s of %zu bytes: character %zu is \\x%02x, not padding", KN[k], count, i, (uint8_t)s[i]);
	}
}
static std::string gen_alphabet()
{
	std::string al;
	switch (weighted({3, 2, 2, 2, 1})) {
	case 0: { // distinct printable
		size_t n = range(1, 94);
		for (size_t i = 0; i < n; i++)
			al += (char)('!' + i);
		break;
	}
	case 1: { // any distinct bytes
		size_t n = range(1, 255);
		for (size_t i = 0; i < n; i++)
			al += (char)(1 + (i * 101 + 7) % 255);
		break;
	}
	case 2: al = std::string(1 + draw(3), 'x') + std::string(draw(3), 'y'); break; // repeated characters
	case 3: {
		static const size_t k[] = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255};
		size_t n = k[draw(20)];
		for (size_t i = 0; i < n; i++)
			al += (char)(1 + i);
		break;
	}
	default: { // longer than a byte can index
		size_t n = 250 + draw(20) + (chance(1, 4) ? draw(70000) : 0);
		for (size_t i = 0; i < n; i++)
			al += (char)(1 + i % 255);
	}
	}
	return al;
}
VF_FACET(sizes, 400000, 8000000)
{
	start();
	Kind k = (Kind)draw(3);
	size_t count = weighted({4, 2, 1}) == 0 ? draw(40) : smallish(3000);
	unsigned __int128 fl = full_len(k, count);
	size_t full = (size_t)fl, len;
	switch (weighted({3, 3, 2, 1})) {
	case 0: len = full + 1; break;
	case 1: len = full + draw(3); len -= len ? 1 : 0; break;
	case 2: len = draw(full + 3); break;
	default: len = draw(3);
	}
	std::string al = k == STRING ? gen_alphabet() : "";
	bool noal = k == STRING && chance(1, 40);
	if (noal)
		al = "";
	note("%s, count %zu, buffer %zu%s%s", KN[k], count, len, k == STRING ? ", alphabet " : "", k == STRING ? quote(al, 30).c_str() : "");
	size_t pre = draw(1) ? draw(500) : 0;
	if (pre) {
		char junk[512];
		futils_random(junk, pre);
	}
	char *ca = strdup(al.c_str());
	char *b = len ? (char *)malloc(len) : nullptr;
	if (len)
		memset(b, 0x7f, len);
	int r = call(k, b, len, count, ca);
	size_t want = noal ? 0 : full;
	VF_CHECK(r >= 0 && (size_t)r == want, "%s of %zu into %zu bytes: returned %d, expected %zu", KN[k], count, len, r, want);
	if (len) {
		size_t vis = want < len - 1 ? want : len - 1;
		if (vis)
			nontrivial();
		const char *z = (const char *)memchr(b, 0, len);
		VF_CHECK(z, "%s of %zu into %zu bytes: no terminator", KN[k], count, len);
		VF_CHECK((size_t)(z - b) == vis, "%s of %zu into %zu bytes: text has %zu characters, expected %zu", KN[k], count, len, (size_t)(z - b), vis);
		check_text(k, count, al, b, vis);
		classify(vis < want ? "truncated" : "whole");
	}
	free(b);
	VF_CHECK(!strcmp(ca, al.c_str()), "the alphabet was modified");
	free(ca);
}
// buffers of sizes which narrower types do not hold
VF_FACET(large_buffers, 40000, 400000)
{
	start();
	Kind k = (Kind)draw(3);
	size_t count = draw(60), len = wrapping(80);
	size_t full = (size_t)full_len(k, count), want = full < len - 1 ? full : len - 1;
	note("%s, count %zu, buffer %zu", KN[k], count, len);
	nontrivial();
	char *b = (char *)huge();
	memset(b, 0x7f, 256);
	int r = call(k, b, len, count, "abcdefghij");
	VF_CHECK(r >= 0 && (size_t)r == full, "%s of %zu into %zu bytes: returned %d, expected %zu", KN[k], count, len, r, full);
	const char *z = (const char *)memchr(b, 0, 256);
	VF_CHECK(z && (size_t)(z - b) == want, "%s of %zu into %zu bytes: terminator at %zd, expected %zu", KN[k], count, len, z ? z - b : -1, want);
	check_text(k, count, "abcdefghij", b, want);
}
// counts near and beyond what an int can report
VF_FACET(huge_counts, 60000, 600000)
{
	start();
	Kind k = (Kind)draw(3);
	size_t lim = k == STRING ? INT_MAX : k == B16 ? INT_MAX / 2 : k == B32 ? (size_t)INT_MAX / 8 * 5 : (size_t)INT_MAX / 4 * 3;
	size_t count;
	switch (weighted({3, 2, 2, 1})) {
	case 0: count = lim + draw(16) - 8; break;
	case 1: count = interesting(SIZE_MAX); break;
	case 2: count = SIZE_MAX - draw(10); break;
	default: count = (size_t)1 << range(28, 63);
		count += draw(4) - 2;
	}
	size_t len = draw(40);
	note("%s, count %zu, buffer %zu", KN[k], count, len);
	if (count > lim - 9)
		nontrivial();
	if (count > 20000 && len > 100)
		return;
	char *b = len ? (char *)malloc(len) : nullptr;
	if (len)
		memset(b, 0x7f, len);
	int r = call(k, b, len, count, "abc");
	unsigned __int128 fl = full_len(k, count);
	if (fl > INT_MAX) {
		classify("refused");
		VF_CHECK(r == -EINVAL, "%s of %zu: returned %d", KN[k], count, r);
	} else {
		classify("accepted");
		VF_CHECK(r >= 0 && (unsigned __int128)r == fl, "%s of %zu: returned %d", KN[k], count, r);
		if (len) {
			size_t vis = fl < len - 1 ? (size_t)fl : len - 1;
			const char *z = (const char *)memchr(b, 0, len);
			VF_CHECK(z && (size_t)(z - b) == vis, "%s of %zu into %zu bytes: terminator at %zd, expected %zu", KN[k], count, len, z ? z - b : -1, vis);
			check_text(k, count, "abc", b, vis);
		}
	}
	free(b);
}
// all data bits of encoded text are balanced and pairwise independent
VF_FACET(encoded_entropy, 240, 6000, NOMUT)
{
	start();
	Kind k = (Kind)(1 + cycle(2));
	unsigned b = k == B16 ? 4 : k == B32 ? 5 : 6;
	size_t count = chance(3, 4) ? range(1, 24) : range(25, 90);
	size_t full = (size_t)full_len(k, count), n = count <= 24 ? 8192 : 2048;
	size_t nd;
	unsigned last;
	data_chars(k, count, "", &nd, &last);
	// also through truncation to a random visible part
	size_t vis = chance(1, 3) ? draw(full) : full;
	note("%zu samples of %s of %zu bytes, %zu of %zu characters visible", n, KN[k], count, vis, full);
	if (vis)
		nontrivial();
	size_t seen = vis < nd ? vis : nd;
	size_t nb = seen ? (seen - 1) * b + (seen == nd ? last : b) : 0;
	const char *a = k == B16 ? A16 : k == B32 ? A32 : A64;
	int8_t inv[256];
	memset(inv, -1, sizeof inv);
	for (int i = 0; a[i]; i++)
		inv[(uint8_t)a[i]] = (int8_t)i;
	stats::Bits m(nb ? nb : 1, n);
	std::vector<std::vector<uint64_t>> hist(seen, std::vector<uint64_t>(1u << b));
	std::vector<char> buf(vis + 1);
	for (size_t s = 0; s < n; s++) {
		int r = call(k, buf.data(), vis + 1, count, nullptr);
		VF_CHECK(r == (int)full, "returned %d, expected %zu", r, full);
		if (s % 64 == 0)
			check_text(k, count, "", buf.data(), vis);
		for (size_t i = 0; i < seen; i++) {
			int v = inv[(uint8_t)buf[i]];
			VF_CHECK(v >= 0, "character %zu is \\x%02x", i, (uint8_t)buf[i]);
			hist[i][v]++;
			unsigned bits = i == nd - 1 ? last : b;
			for (unsigned j = 0; j < bits; j++) // most significant first
				m.set(i * b + j, v >> (b - 1 - j) & 1);
		}
		m.next();
	}
	if (nb)
		m.check("data bits of the text", count <= 24 ? 1u << 30 : 140);
	for (size_t i = 0; i < seen; i++) {
		std::vector<uint64_t> h;
		unsigned bits = i == nd - 1 ? last : b;
		for (size_t v = 0; v < hist[i].size(); v++) {
			if (v & ((1u << (b - bits)) - 1))
				VF_CHECK(!hist[i][v], "last character has unused bits set");
			else
				h.push_back(hist[i][v]);
		}
		char w[64];
		snprintf(w, sizeof w, "character %zu of %zu", i, nd);
		stats::chi2_flat(h, w);
	}
}
VF_FACET(string_entropy, 300, 8000, NOMUT)
{
	start();
	std::string al = gen_alphabet();
	if (al.size() > 600)
		al.resize(600);
	size_t count = range(1, 24), n = al.size() * 60 > 6000 ? al.size() * 60 : 6000;
	size_t vis = chance(1, 3) ? range(1, count) : count;
	note("%zu samples of %zu (%zu visible) characters of %zu", n, count, vis, al.size());
	nontrivial();
	double w[256] = {};
	for (char c : al)
		w[(uint8_t)c] += 1.0 / (double)al.size();
	std::vector<std::vector<uint64_t>> hist(vis, std::vector<uint64_t>(256));
	std::vector<uint64_t> pairs(65536);
	std::vector<char> buf(vis + 1);
	// equality of characters at each two positions
	std::vector<uint64_t> eq(vis * vis), eqn(vis);
	std::vector<char> prev(vis + 1);
	double peq = 0;
	for (double x : w)
		peq += x * x;
	for (size_t s = 0; s < n; s++) {
		int r = futils_random_string(buf.data(), vis + 1, count, al.c_str());
		VF_CHECK(r == (int)count, "returned %d, expected %zu", r, count);
		for (size_t i = 0; i < vis; i++) {
			hist[i][(uint8_t)buf[i]]++;
			for (size_t j = i + 1; j < vis; j++)
				eq[i * vis + j] += buf[i] == buf[j];
			if (s)
				eqn[i] += buf[i] == prev[i];
		}
		prev = buf;
	}
	for (size_t i = 0; i < vis; i++) {
		std::vector<double> e(256);
		for (int c = 0; c < 256; c++)
			e[c] = w[c] * (double)n;
		char t[64];
		snprintf(t, sizeof t, "character %zu of the string", i);
		stats::chi2(hist[i], e, t);
		if (peq < 0.999) {
			for (size_t j = i + 1; j < vis; j++)
				stats::binom(eq[i * vis + j], n, peq, "equal characters at positions", (long)i, (long)j);
			stats::binom(eqn[i], n - 1, peq, "equal characters in successive strings at position", (long)i, 0);
		}
	}
}
// deviations of a fraction of a percent, by large alphabets and very many characters (the library compiled for speed)
VF_FACET(small_bias, 8, 100, NOMUT, 120)
{
	static const unsigned len[] = {192, 224, 240, 150, 96, 175, 200, 210};
	unsigned m = len[cycle(7)];
	std::string al;
	for (unsigned i = 0; i < m; i++)
		al += (char)(i + 1);
	start();
	static void *so = dlopen(VF_SOLIB, RTLD_NOW | RTLD_LOCAL);
	VF_CHECK(so, "harness: %s", dlerror());
	VF_CHECK(((int (*)())dlsym(so, "futils_random_reseed"))() == 0, "reseeding failed");
	auto f = (int (*)(char *, size_t, size_t, const char *))dlsym(so, "futils_random_string");
	VF_CHECK(f, "harness: no futils_random_string");
	const size_t n = (size_t)1 << 26, blk = 4096;
	note("%zu characters out of %u", n, m);
	nontrivial();
	std::vector<uint64_t> o(256);
	std::vector<char> b(blk + 1);
	for (size_t i = 0; i < n; i += blk) {
		int r = f(b.data(), blk + 1, blk, al.c_str());
		VF_CHECK(r == (int)blk, "returned %d, expected %zu", r, blk);
		for (size_t k = 0; k < blk; k++)
			o[(uint8_t)b[k]]++;
	}
	VF_CHECK(!o[0], "short text");
	double cum = 0, res[3] = {};
	for (unsigned i = 0; i < m; i++) {
		cum += (double)o[i + 1];
		res[i % 3] += (double)o[i + 1];
		double d = fabs(cum / (double)n - (i + 1.0) / m);
		// P(sup |F - E| > t) <= 2 exp(-2 n t^2)
		VF_CHECK(d * sqrt((double)n) < 4.05, "the share of the first %u of %u characters is off by %.6f in %zu characters", i + 1, m, d, n);
	}
	for (unsigned c = 0; m % 3 == 0 && c < 3; c++) {
		double z = (res[c] - (double)n / 3) / sqrt((double)n * 2 / 9);
		VF_CHECK(fabs(z) < 7.5, "every third of %u characters from number %u on: %.0f of %zu, %.1f standard deviations off", m, c, res[c], n, z);
	}
}
// alphabets of any length: each of its characters is as likely as any other
VF_FACET(long_alphabets, 150, 3000, NOMUT)
{
	ent_start(draw(UINT64_MAX));
	VF_CHECK(futils_random_reseed() == 0, "reseeding failed");
	size_t unit = (1u << (6 + cycle(12))) + draw(40) - 20;
	static const char four[] = "pqrs";
	std::string al;
	for (int i = 0; i < 4; i++)
		al += std::string(unit, four[i]);
	note("4 times %zu characters", unit);
	nontrivial();
	char b[1601];
	VF_CHECK(futils_random_string(b, sizeof b, 1600, al.c_str()) == 1600, "wrong length with %zu characters", al.size());
	int n[4] = {};
	for (int i = 0; i < 1600; i++) {
		const char *q = b[i] ? strchr(four, b[i]) : nullptr;
		VF_CHECK(q, "character %02x is not in the alphabet", (uint8_t)b[i]);
		n[q - four]++;
	}
	// mean 400, standard deviation 17
	for (int i = 0; i < 4; i++)
		VF_CHECK(n[i] > 250 && n[i] < 550, "of 1600 characters from four times %zu, the four came %d, %d, %d and %d times", unit, n[0], n[1], n[2], n[3]);
}
