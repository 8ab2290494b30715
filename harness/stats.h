// Statistical oracles. Every test rejects at a false-alarm probability far below what all cases of all runs add up to.
#pragma once
#include "vf.h"
#include <math.h>
#include <string.h>
#include <string>
#include <unordered_set>
#include <vector>
namespace stats {
// log of the upper (or lower) regularised incomplete gamma function, good enough for tails
inline double gamma_q(double a, double x) // Q(a,x)
{
	if (x <= 0)
		return 1;
	double gln = lgamma(a);
	if (x < a + 1) {
		double ap = a, sum = 1 / a, del = sum;
		for (int n = 0; n < 10000; n++) {
			ap += 1;
			del *= x / ap;
			sum += del;
			if (fabs(del) < fabs(sum) * 1e-16)
				break;
		}
		return 1 - sum * exp(-x + a * log(x) - gln);
	}
	double b = x + 1 - a, c = 1 / 1e-300, d = 1 / b, h = d;
	for (int i = 1; i < 10000; i++) {
		double an = -i * (i - a);
		b += 2;
		d = an * d + b;
		if (fabs(d) < 1e-300)
			d = 1e-300;
		c = b + an / c;
		if (fabs(c) < 1e-300)
			c = 1e-300;
		d = 1 / d;
		double del = d * c;
		h *= del;
		if (fabs(del - 1) < 1e-15)
			break;
	}
	return exp(-x + a * log(x) - gln) * h;
}
inline double gamma_p(double a, double x) // P(a,x), accurate when small
{
	if (x <= 0)
		return 0;
	if (x >= a + 1)
		return 1 - gamma_q(a, x);
	double ap = a, sum = 1 / a, del = sum;
	for (int n = 0; n < 10000; n++) {
		ap += 1;
		del *= x / ap;
		sum += del;
		if (fabs(del) < fabs(sum) * 1e-16)
			break;
	}
	return sum * exp(-x + a * log(x) - lgamma(a));
}
const double P = 1e-13;
// observed counts against expected counts; bins expected below 8 are merged
inline void chi2(const std::vector<uint64_t> &obs, const std::vector<double> &expct, const char *what, int lost_dof = 1, double scale = 1)
{
	double x = 0, eo = 0, ee = 0;
	int k = 0;
	for (size_t i = 0; i < obs.size(); i++) {
		if (expct[i] == 0) {
			if (obs[i])
				vf::fail("%s: impossible value seen (bin %zu)", what, i);
			continue;
		}
		eo += (double)obs[i];
		ee += expct[i];
		if (ee >= 8) {
			x += (eo - ee) * (eo - ee) / ee;
			k++;
			eo = ee = 0;
		}
	}
	if (ee > 0 && k) {
		if (ee >= 1) {
			x += (eo - ee) * (eo - ee) / ee;
			k++;
		}
	}
	int dof = k - lost_dof;
	x *= scale;
	if (dof < 1)
		return;
	double q = gamma_q(dof / 2.0, x / 2), p = gamma_p(dof / 2.0, x / 2);
	if (q < P) {
		// name the worst bin
		size_t w = 0;
		double wd = 0;
		for (size_t i = 0; i < obs.size(); i++)
			if (expct[i] > 0) {
				double d = fabs((double)obs[i] - expct[i]) / sqrt(expct[i]);
				if (d > wd)
					wd = d, w = i;
			}
		vf::fail("%s: not uniform, chi-square %.1f with %d degrees of freedom (p %.2g); worst bin %zu seen %llu times, expected %.1f", what, x, dof, q, w, (unsigned long long)obs[w], expct[w]);
	}
	if (p < P && dof >= 8)
		vf::fail("%s: too regular, chi-square %.3f with %d degrees of freedom", what, x, dof);
}
inline void chi2_flat(const std::vector<uint64_t> &obs, const char *what)
{
	uint64_t n = 0;
	for (uint64_t o : obs)
		n += o;
	chi2(obs, std::vector<double>(obs.size(), (double)n / (double)obs.size()), what);
}
// count out of n with success probability p
inline void binom(uint64_t count, uint64_t n, double p, const char *what, long a, long b)
{
	double m = (double)n * p, sd = sqrt((double)n * p * (1 - p));
	// 9 sigma plus slack for the skewed, near-Poisson case
	if (fabs((double)count - m) > 9 * sd + 12)
		vf::fail("%s %ld/%ld: %llu of %llu, expected %.1f (standard deviation %.1f)", what, a, b, (unsigned long long)count, (unsigned long long)n, m, sd);
}
// sum of many rare counts, nearly independent
inline void poisson(uint64_t count, double e, const char *what, long a, long b)
{
	double sd = sqrt(e);
	if (fabs((double)count - e) > 9 * sd + 12)
		vf::fail("%s %ld/%ld: %llu, expected %.1f (standard deviation %.1f)", what, a, b, (unsigned long long)count, e, sd);
}
// bit matrix: one row per bit position, one column per sample
struct Bits {
	size_t nb, n = 0, words;
	std::vector<uint64_t> v;
	Bits(size_t nbits, size_t samples) : nb(nbits), words((samples + 63) / 64), v(nbits * words) {}
	void set(size_t bit, bool x)
	{
		if (x)
			v[bit * words + n / 64] |= 1ull << (n % 64);
	}
	void next() { n++; }
	// each bit balanced, each pair of bits (within reach) independent, also against the following sample
	void check(const char *what, size_t reach = 1u << 30)
	{
		size_t full = n / 64;
		uint64_t N = full * 64;
		if (!N)
			return;
		for (size_t i = 0; i < nb; i++) {
			uint64_t c = 0;
			for (size_t w = 0; w < full; w++)
				c += (uint64_t)__builtin_popcountll(v[i * words + w]);
			z(c, N, what, (long)i, -1);
		}
		for (size_t i = 0; i < nb; i++)
			for (size_t j = i + 1; j < nb && j - i <= reach; j++) {
				uint64_t c = 0;
				const uint64_t *a = &v[i * words], *b = &v[j * words];
				for (size_t w = 0; w < full; w++)
					c += (uint64_t)__builtin_popcountll(a[w] ^ b[w]);
				z(c, N, what, (long)i, (long)j);
			}
		if (full < 2)
			return;
		for (size_t i = 0; i < nb; i++)
			for (size_t j = i > reach ? i - reach : 0; j < nb && j <= i + reach; j++) {
				uint64_t c = 0;
				const uint64_t *a = &v[i * words], *b = &v[j * words];
				for (size_t w = 0; w + 1 < full; w++)
					c += (uint64_t)__builtin_popcountll(a[w] ^ (b[w] >> 1 | b[w + 1] << 63));
				z(c, N - 64, what, (long)i, (long)(1000000 + j));
			}
	}
	static void z(uint64_t c, uint64_t N, const char *what, long i, long j)
	{
		double d = fabs((double)c - (double)N / 2) / (sqrt((double)N) / 2);
		if (d > 9) {
			if (j < 0)
				vf::fail("%s: bit %ld is set in %llu of %llu samples", what, i, (unsigned long long)c, (unsigned long long)N);
			vf::fail("%s: bits %ld and %ld%s differ in %llu of %llu samples", what, i, j % 1000000, j >= 1000000 ? " of the next sample" : "", (unsigned long long)c, (unsigned long long)N);
		}
	}
};
// no stretch of 12 bytes occurs twice
struct Windows {
	std::unordered_set<uint64_t> s;
	size_t reserve_hint;
	static uint64_t key(const uint8_t *p)
	{
		uint64_t a;
		uint32_t b;
		memcpy(&a, p, 8);
		memcpy(&b, p + 8, 4);
		a *= 0x9e3779b97f4a7c15ull;
		a ^= a >> 29;
		a = (a + b) * 0xbf58476d1ce4e5b9ull;
		a ^= a >> 32;
		return a * 0x94d049bb133111ebull;
	}
};
// all 12-byte windows of the streams are distinct; compares the full 12 bytes
inline void no_repeats(const std::vector<std::string> &streams, const char *what)
{
	struct Ref { uint32_t st, off; };
	size_t tot = 0;
	for (auto &s : streams)
		tot += s.size();
	size_t sz = 64;
	while (sz < tot * 2)
		sz *= 2;
	std::vector<Ref> tab(sz, Ref{~0u, 0});
	for (uint32_t st = 0; st < streams.size(); st++) {
		auto &s = streams[st];
		for (uint32_t o = 0; o + 12 <= s.size(); o++) {
			size_t h = Windows::key((const uint8_t *)s.data() + o) & (sz - 1);
			while (tab[h].st != ~0u) {
				if (!memcmp(streams[tab[h].st].data() + tab[h].off, s.data() + o, 12))
					vf::fail("%s: the 12 bytes %s occur at offset %u of stream %u and at offset %u of stream %u", what, vf::hex(s.data() + o, 12).c_str(), tab[h].off, tab[h].st, o, st);
				h = (h + 1) & (sz - 1);
			}
			tab[h] = Ref{st, o};
		}
	}
}
} // namespace stats
