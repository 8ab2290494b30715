// VF variant: asan
// VF wrap: malloc,calloc,realloc,reallocarray,free,strdup,strndup
// VF use: sysfault entropy alloc
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include "alloc.h"
#include "entropy.h"
#include "stats.h"
#include "futils/random.h"
using namespace vf;
VF_PROPERTY("C20", "exploration", "at least two items of at least one byte");
VF_ASSUME("operating-system entropy is replaced by a reproducible uniform stream; distribution tests reject at a false-alarm probability below 1e-13 each");
VF_ASSUME("uniformity is tested over all permutations up to 6 items and by position for longer arrays");

static void start()
{
	ent_start(draw(UINT64_MAX));
	VF_CHECK(futils_random_reseed() == 0, "reseeding failed");
}
static void put_item(uint8_t *p, size_t size, uint64_t id)
{
	fill(id * 0x9e3779b97f4a7c15ull + size, p, size);
}
VF_FACET(items_kept, 60000, 1500000)
{
	start();
	size_t n, size;
	switch (weighted({4, 2, 1})) {
	case 0: n = draw(12); break;
	case 1: n = draw(300); break;
	default: n = smallish(3000);
	}
	switch (weighted({4, 2, 1})) {
	case 0: size = draw(20); break;
	case 1: size = (size_t[]){0, 1, 2, 3, 4, 7, 8, 9, 12, 16, 24, 31, 32, 33, 63, 64, 65, 128, 256, 257}[draw(19)]; break;
	default: size = draw(1200);
	}
	if (n * size > 200000)
		size = 200000 / n;
	if (chance(1, 400)) { // sizes which narrower types do not hold
		n = range(2, 5);
		size = 65536 * range(1, 2) + draw(12);
	}
	bool oom = chance(1, 4);
	note("%zu items of %zu bytes%s", n, size, oom ? ", no memory" : "");
	if (n > 1 && size)
		nontrivial();
	size_t bytes = n * size;
	uint8_t *p = (uint8_t *)malloc(bytes ? bytes : 1);
	p[0] = 0x77;
	std::vector<std::string> want(n), got(n);
	for (size_t i = 0; i < n; i++) {
		put_item(p + i * size, size, size <= 1 && chance(1, 2) ? i % 3 : i);
		want[i].assign((char *)p + i * size, size);
	}
	std::string before((char *)p, bytes);
	alloc_reset();
	alloc_enter(oom ? 1 : 0, oom ? 1 << 30 : 0);
	int r = futils_random_shuffle(p, n, size);
	alloc_leave();
	VF_CHECK(alloc_live() == 0, "%ld blocks leaked", alloc_live());
	if (alloc_failed()) {
		classify("allocation refused");
		// an implementation may do without the memory
		if (r != 0) {
			VF_CHECK(r < 0, "returned %d", r);
			VF_CHECK(!memcmp(p, before.data(), bytes), "failed shuffle changed the array");
			free(p);
			return;
		}
	}
	VF_CHECK(r == 0, "%zu items of %zu bytes: returned %d", n, size, r);
	for (size_t i = 0; i < n; i++)
		got[i].assign((char *)p + i * size, size);
	if (!bytes)
		VF_CHECK(p[0] == 0x77, "an empty array was written to");
	free(p);
	if (n > 30 && size >= 4) {
		bool same = want == got;
		VF_CHECK(!same, "%zu items were left in place", n);
	}
	std::sort(want.begin(), want.end());
	std::sort(got.begin(), got.end());
	for (size_t i = 0; i < n; i++)
		VF_CHECK(want[i] == got[i], "%zu items of %zu bytes: an item was lost, duplicated or torn: have %s where %s is expected in sorted order", n, size, hex(got[i].data(), size).c_str(), hex(want[i].data(), size).c_str());
}
static size_t rank_of(const uint8_t *p, size_t n)
{
	size_t r = 0;
	for (size_t i = 0; i < n; i++) {
		size_t c = 0;
		for (size_t j = i + 1; j < n; j++)
			c += p[j] < p[i];
		r = r * (n - i) + c;
	}
	return r;
}
VF_FACET(all_permutations, 160, 4000, NOMUT)
{
	start();
	size_t n = 2 + cycle(4), f = 1;
	for (size_t i = 2; i <= n; i++)
		f *= i;
	size_t size = chance(1, 2) ? 1 : range(2, 40);
	size_t N = std::max<size_t>(f * 60, 6000);
	note("all orders of %zu items of %zu bytes in %zu shuffles", n, size, N);
	nontrivial();
	std::vector<uint64_t> o(f);
	uint8_t *p = (uint8_t *)malloc(n * size), q[8];
	std::vector<uint64_t> pairs(f <= 24 ? f * f : 0);
	size_t prev = 0;
	for (size_t k = 0; k < N; k++) {
		for (size_t i = 0; i < n; i++)
			memset(p + i * size, (int)i, size);
		VF_CHECK(futils_random_shuffle(p, n, size) == 0, "failed");
		for (size_t i = 0; i < n; i++)
			q[i] = p[i * size];
		size_t r = rank_of(q, n);
		o[r]++;
		if (!pairs.empty() && k & 1)
			pairs[prev * f + r]++;
		prev = r;
	}
	stats::chi2_flat(o, "orders");
	if (!pairs.empty() && N / 2 >= f * f * 8)
		stats::chi2_flat(pairs, "successive orders");
	free(p);
}
// which item ends up where
VF_FACET(positions, 120, 3000, NOMUT)
{
	start();
	size_t n = chance(1, 2) ? range(7, 40) : range(41, 1200);
	size_t size = chance(1, 2) ? 2 : range(3, 24);
	size_t g = n < 16 ? n : 16, N = n <= 40 ? 4000 : 60 + 100000 / n;
	note("positions of %zu items of %zu bytes in %zu shuffles", n, size, N);
	nontrivial();
	std::vector<uint64_t> o(g * g), neigh(n <= 40 ? n * n : 0);
	std::vector<double> w(g), e(g * g);
	for (size_t i = 0; i < n; i++)
		w[i * g / n] += 1;
	uint8_t *p = (uint8_t *)malloc(n * size);
	for (size_t k = 0; k < N; k++) {
		for (size_t i = 0; i < n; i++) {
			memset(p + i * size, 0, size);
			p[i * size] = (uint8_t)i;
			p[i * size + size - 1] = (uint8_t)(i >> 8);
		}
		VF_CHECK(futils_random_shuffle(p, n, size) == 0, "failed");
		size_t last = 0;
		for (size_t i = 0; i < n; i++) {
			size_t v = p[i * size] | p[i * size + size - 1] << 8;
			VF_CHECK(v < n, "torn item");
			o[(i * g / n) * g + v * g / n]++;
			if (!neigh.empty() && i)
				neigh[last * n + v]++;
			last = v;
		}
	}
	for (size_t i = 0; i < g; i++)
		for (size_t j = 0; j < g; j++)
			e[i * g + j] = (double)N * w[i] * w[j] / (double)n;
	stats::chi2(o, e, "item (part) against position (part)", (int)(2 * g - 1), (double)(n - 1) / (double)n);
	for (size_t i = 0; i < neigh.size(); i++)
		if (i / n != i % n)
			stats::binom(neigh[i], N, 1.0 / (double)n, "item directly after item", (long)(i / n), (long)(i % n));
	free(p);
}
// arrays longer than an 8- or 16-bit index
VF_FACET(long_arrays, 16, 200, NOMUT)
{
	start();
	size_t n = chance(1, 3) ? range(250, 270) : range(65000, 150000), size = chance(1, 2) ? 4 : range(4, 12);
	size_t N = n < 1000 ? 400 : 2, g = 16;
	note("%zu items of %zu bytes", n, size);
	nontrivial();
	std::vector<uint64_t> o(g * g);
	std::vector<double> w(g), e(g * g);
	for (size_t i = 0; i < n; i++)
		w[i * g / n] += 1;
	uint8_t *p = (uint8_t *)malloc(n * size);
	std::vector<char> seen(n);
	for (size_t k = 0; k < N; k++) {
		memset(p, 0, n * size);
		for (uint32_t i = 0; i < n; i++)
			memcpy(p + i * size, &i, 4);
		VF_CHECK(futils_random_shuffle(p, n, size) == 0, "failed");
		std::fill(seen.begin(), seen.end(), 0);
		for (size_t i = 0; i < n; i++) {
			uint32_t v;
			memcpy(&v, p + i * size, 4);
			VF_CHECK(v < n && !seen[v], "item lost or torn");
			seen[v] = 1;
			o[(i * g / n) * g + v * g / n]++;
		}
	}
	for (size_t i = 0; i < g; i++)
		for (size_t j = 0; j < g; j++)
			e[i * g + j] = (double)N * w[i] * w[j] / (double)n;
	stats::chi2(o, e, "item (part) against position (part)", (int)(2 * g - 1), (double)(n - 1) / (double)n);
	free(p);
}
// items which stay where they were, or move little
VF_FACET(small_moves, 64, 1600, NOMUT)
{
	start();
	size_t n = chance(1, 2) ? range(200, 700) : range(20, 200), size = chance(1, 2) ? 2 : range(3, 12);
	enum { G = 8, NEAR = 7 };
	size_t N = 6000;
	note("items which move less than %d places among %zu of %zu bytes in %zu shuffles", NEAR / 2 + 1, n, size, N);
	nontrivial();
	std::vector<uint64_t> o(G * NEAR);
	std::vector<double> e(G * NEAR);
	for (size_t i = 0; i < n; i++)
		for (int d = 0; d < NEAR; d++)
			if (i + d >= NEAR / 2 && i + d - NEAR / 2 < n)
				e[(i * G / n) * NEAR + d] += (double)N / (double)n;
	uint8_t *p = (uint8_t *)malloc(n * size);
	for (size_t k = 0; k < N; k++) {
		memset(p, 0, n * size);
		for (uint32_t i = 0; i < n; i++)
			memcpy(p + i * size, &i, 2);
		VF_CHECK(futils_random_shuffle(p, n, size) == 0, "failed");
		for (size_t i = 0; i < n; i++) {
			uint16_t v;
			memcpy(&v, p + i * size, 2);
			long d = (long)v - (long)i + NEAR / 2;
			if (d >= 0 && d < NEAR)
				o[(i * G / n) * NEAR + (size_t)d]++;
		}
	}
	for (size_t i = 0; i < G; i++)
		for (int d = 0; d < NEAR; d++)
			stats::poisson(o[i * NEAR + d], e[i * NEAR + d], "moves of an item", (long)i, (long)d - NEAR / 2);
	free(p);
}
VF_FACET(missing_arguments, 20, 200)
{
	start();
	nontrivial();
	VF_CHECK(futils_random_shuffle(nullptr, draw(5), draw(5)) == -EINVAL, "null array accepted");
}
