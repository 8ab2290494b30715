// VF variant: asan
// VF use: sysfault entropy
// VF solib: fast
#include <algorithm>
#include <dlfcn.h>
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include "entropy.h"
#include "stats.h"
#include "futils/random.h"
using namespace vf;
VF_PROPERTY("C18", "exploration", "a sample of at least 256 draws was tested for range and distribution, or a fill of at least two bytes for coverage of every bit");
VF_ASSUME("operating-system entropy is replaced by a reproducible uniform stream");
VF_ASSUME("distribution tests reject at a false-alarm probability below 1e-13 each (1e-10 for small_bias); biases below a tenth of a percent are out of reach");

static void start()
{
	ent_start(draw(UINT64_MAX));
	VF_CHECK(futils_random_reseed() == 0, "reseeding failed");
}
// values in [0,max] whose 8-bit digit at shift s is r
static double digit_count(uint64_t max, unsigned s, uint64_t r)
{
	unsigned __int128 m = (unsigned __int128)max + 1;
	unsigned __int128 per = (unsigned __int128)1 << (s + 8), unit = (unsigned __int128)1 << s;
	unsigned __int128 full = (m / per) * unit, rem = m % per, lo = unit * r;
	unsigned __int128 part = rem > lo ? rem - lo : 0;
	if (part > unit)
		part = unit;
	return (double)(full + part);
}
static uint64_t draw_max(int width, uint64_t max, bool wrapper)
{
	uint8_t a;
	uint16_t b;
	uint32_t c;
	uint64_t d;
	int r = 0;
	switch (width) {
	case 8:
		if (!wrapper)
			return futils_randomr8_maximum((uint8_t)max);
		r = futils_random8_maximum(&a, (uint8_t)max);
		d = a;
		break;
	case 16:
		if (!wrapper)
			return futils_randomr16_maximum((uint16_t)max);
		r = futils_random16_maximum(&b, (uint16_t)max);
		d = b;
		break;
	case 32:
		if (!wrapper)
			return futils_randomr32_maximum((uint32_t)max);
		r = futils_random32_maximum(&c, (uint32_t)max);
		d = c;
		break;
	default:
		if (!wrapper)
			return futils_randomr64_maximum(max);
		r = futils_random64_maximum(&d, max);
	}
	VF_CHECK(r == 0, "returned %d", r);
	return d;
}
static void test_bounded(int width, uint64_t max, size_t n, bool wrapper)
{
	std::vector<uint64_t> v(n);
	for (auto &x : v) {
		x = draw_max(width, max, wrapper);
		VF_CHECK(x <= max, "a %d-bit draw up to %llu gave %llu", width, (unsigned long long)max, (unsigned long long)x);
	}
	double N = (double)n, tot = (double)((unsigned __int128)max + 1);
	if (max < n / 16) { // every value
		std::vector<uint64_t> o((size_t)max + 1);
		for (uint64_t x : v)
			o[(size_t)x]++;
		if (max)
			stats::chi2_flat(o, "values");
	} else { // leading part of the interval
		std::vector<uint64_t> o(256);
		std::vector<double> e(256);
		unsigned __int128 m = (unsigned __int128)max + 1;
		for (uint64_t x : v)
			o[(size_t)((unsigned __int128)x * 256 / m)]++;
		for (unsigned i = 0; i < 256; i++) {
			unsigned __int128 a = (m * i + 255) / 256, b = (m * (i + 1) + 255) / 256;
			e[i] = N * (double)(b - a) / tot;
		}
		stats::chi2(o, e, "256 equal parts of the interval");
	}
	unsigned nd = 0;
	while (nd < 8 && (nd == 0 || max >> (8 * nd)))
		nd++;
	for (unsigned k = 0; k < nd; k++) {
		std::vector<uint64_t> o(256);
		std::vector<double> e(256);
		for (uint64_t x : v)
			o[(x >> (8 * k)) & 255]++;
		for (unsigned r = 0; r < 256; r++)
			e[r] = N * digit_count(max, 8 * k, r) / tot;
		stats::chi2(o, e, k == 0 ? "lowest byte of the values" : "a byte of the values");
	}
	if (max) { // successive draws
		uint64_t up = 0, odd = 0;
		std::vector<uint64_t> o(64);
		std::vector<double> e(64), p(8);
		unsigned __int128 m = (unsigned __int128)max + 1;
		auto part = [&](uint64_t x) { return (size_t)((unsigned __int128)x * 8 / m); };
		for (unsigned i = 0; i < 8; i++)
			p[i] = (double)((m * (i + 1) + 7) / 8 - (m * i + 7) / 8) / tot;
		for (size_t i = 0; i + 1 < n; i += 2)
			o[part(v[i]) * 8 + part(v[i + 1])]++;
		for (unsigned i = 0; i < 64; i++)
			e[i] = (double)(n / 2) * p[i / 8] * p[i % 8];
		stats::chi2(o, e, "successive values");
		(void)up;
		(void)odd;
	}
	if (max && (max & (max + 1)) == 0) {
		unsigned nb = (unsigned)__builtin_popcountll(max);
		stats::Bits b(nb, n);
		for (uint64_t x : v) {
			for (unsigned i = 0; i < nb; i++)
				b.set(i, x >> i & 1);
			b.next();
		}
		b.check("bits of the values");
	}
}
VF_FACET(all_8bit_maxima, 512, 5120, NOMUT)
{
	uint64_t k = cycle(511);
	start();
	note("8-bit draws up to %llu", (unsigned long long)(k & 255));
	nontrivial();
	test_bounded(8, k & 255, 20000, k >= 256);
}
VF_FACET(all_16bit_maxima_in_range, 1024, 4096, NOMUT)
{
	uint64_t blk = cycle(1023);
	start();
	note("16-bit draws up to %llu..%llu", (unsigned long long)blk * 64, (unsigned long long)blk * 64 + 63);
	nontrivial();
	for (uint64_t max = blk * 64; max < blk * 64 + 64; max++) {
		uint64_t hi = 0, lo = max;
		for (int i = 0; i < 256; i++) {
			uint64_t x = draw_max(16, max, i & 1);
			VF_CHECK(x <= max, "a 16-bit draw up to %llu gave %llu", (unsigned long long)max, (unsigned long long)x);
			hi = x > hi ? x : hi;
			lo = x < lo ? x : lo;
		}
		// the largest and smallest of 256 draws: each tail has probability below (7/8)^256 < 2e-15
		VF_CHECK(hi >= max - max / 8 && lo <= max / 8 + 1, "256 16-bit draws up to %llu all lie in %llu..%llu", (unsigned long long)max, (unsigned long long)lo, (unsigned long long)hi);
	}
}
static uint64_t gen_max(int width)
{
	uint64_t top = width == 64 ? UINT64_MAX : (1ull << width) - 1, m;
	switch (weighted({3, 2, 2, 1, 1})) {
	case 0: { // anywhere between two powers of two
		unsigned k = (unsigned)draw(width - 1);
		m = (1ull << k) + draw((1ull << k) - 1);
		break;
	}
	case 1: { // around a power of two
		unsigned k = (unsigned)range(1, width);
		m = (k == 64 ? 0 : 1ull << k) + draw(2) - 2;
		break;
	}
	case 2: { // around a power of two from above
		unsigned k = (unsigned)draw(width - 1);
		m = (1ull << k) + draw(2);
		break;
	}
	case 3: m = draw(300); break;
	default: m = interesting(top);
	}
	return m & top;
}
VF_FACET(bounded_draws, 8000, 60000, NOMUT)
{
	start();
	int w = 16 << draw(2);
	uint64_t max = gen_max(w);
	size_t n = max < 1500 ? 16 * ((size_t)max + 40) * 2 : 12000;
	if (n < 6000)
		n = 6000;
	bool wr = chance(1, 4);
	note("%zu %d-bit draws up to %llu (%#llx)%s", n, w, (unsigned long long)max, (unsigned long long)max, wr ? " by the checking wrapper" : "");
	classify(max == 0 ? "maximum 0" : max < 256 ? "maximum of 8 bits" : max < 65536 ? "maximum of 16 bits" : max < 1ull << 32 ? "maximum of 17..32 bits" : "maximum of 33..64 bits");
	nontrivial();
	test_bounded(w, max, n, wr);
}
// every value of larger intervals, with a deep sample
VF_FACET(every_value, 256, 2000, NOMUT)
{
	start();
	int w = 16 << draw(2);
	uint64_t max = range(200, 6000);
	note("every value of %d-bit draws up to %llu", w, (unsigned long long)max);
	nontrivial();
	test_bounded(w, max, ((size_t)max + 1) * 60, false);
}
// deviations of a fraction of a percent, which a wider draw scaled or reduced to the interval leaves: few intervals, very
// many draws, a cumulative and a residue statistic
template <class F> static void fine(F f, unsigned __int128 m, unsigned c, size_t n, int width)
{
	unsigned s = 0;
	while ((uint64_t)((m - 1) >> s) >= 4096)
		s++;
	std::vector<uint64_t> o(4096), res(c ? c : 1);
	uint64_t top = 0;
	for (size_t i = 0; i < n; i++) {
		uint64_t x = f();
		top = x > top ? x : top;
		o[(x >> s) & 4095]++;
		if (c)
			res[x % c]++;
	}
	VF_CHECK(top < m, "a %d-bit draw up to %llu gave %llu", width, (unsigned long long)(m - 1), (unsigned long long)top);
	double cum = 0, worst = 0;
	size_t at = 0;
	for (size_t i = 0; i < 4096; i++) {
		unsigned __int128 edge = (unsigned __int128)(i + 1) << s;
		cum += (double)o[i];
		double d = fabs(cum / (double)n - (edge >= m ? 1 : (double)edge / (double)m));
		if (d > worst) {
			worst = d;
			at = i;
		}
	}
	// P(sup |F - E| > t) <= 2 exp(-2 n t^2)
	VF_CHECK(worst * sqrt((double)n) < 4.05, "the share of values below %llu is off by %.6f in %zu draws", (unsigned long long)(at + 1) << s, worst, n);
	for (unsigned r = 0; r < c; r++) {
		double z = ((double)res[r] - (double)n / c) / sqrt((double)n / c * (1 - 1.0 / c));
		VF_CHECK(fabs(z) < 6.5, "values which are %u modulo %u: %llu of %zu, %.1f standard deviations off", r, c, (unsigned long long)res[r], n, z);
	}
}
VF_FACET(small_bias, 30, 300, NOMUT, 120)
{
	static const struct { int w, bytes; } kind[] = {{8, 1}, {16, 1}, {16, 2}, {32, 1}, {32, 2}, {32, 3}, {32, 4}, {64, 1}, {64, 2}, {64, 3}, {64, 4}, {64, 5}, {64, 6}, {64, 7}, {64, 8}};
	uint64_t k = cycle(29);
	int w = kind[k / 2].w, by = kind[k / 2].bytes;
	start();
	unsigned __int128 m;
	unsigned c = 0;
	if (k & 1) { // a multiple of three just below the power of 256
		c = 3;
		m = (unsigned __int128)3 << (8 * by - 2);
	} else { // 256 times the power of 256 leaves about half of it
		unsigned q = (unsigned)range(257, 300);
		m = ((unsigned __int128)1 << (8 * by)) * 512 / (2 * q + 1);
	}
	size_t n = (size_t)1 << 25;
	note("%zu %d-bit draws up to %#llx", n, w, (unsigned long long)(m - 1));
	nontrivial();
	uint64_t max = (uint64_t)(m - 1);
	// the library compiled for speed
	static void *so = dlopen(VF_SOLIB, RTLD_NOW | RTLD_LOCAL);
	VF_CHECK(so, "harness: %s", dlerror());
	VF_CHECK(((int (*)())dlsym(so, "futils_random_reseed"))() == 0, "reseeding failed");
	std::string name = "futils_randomr" + std::to_string(w) + "_maximum";
	void *f = dlsym(so, name.c_str());
	VF_CHECK(f, "harness: no %s", name.c_str());
	auto f8 = (uint8_t (*)(uint8_t))f;
	auto f16 = (uint16_t (*)(uint16_t))f;
	auto f32 = (uint32_t (*)(uint32_t))f;
	auto f64 = (uint64_t (*)(uint64_t))f;
	switch (w) {
	case 8: fine([=] { return f8((uint8_t)max); }, m, c, n, w); break;
	case 16: fine([=] { return f16((uint16_t)max); }, m, c, n, w); break;
	case 32: fine([=] { return f32((uint32_t)max); }, m, c, n, w); break;
	default: fine([=] { return f64(max); }, m, c, n, w);
	}
}
// megabytes from one request, or from very many: no stretch comes twice, and every megabyte has balanced bits
VF_FACET(long_streams, 44, 600, NOMUT, 120)
{
	start();
	static void *so = dlopen(VF_SOLIB, RTLD_NOW | RTLD_LOCAL);
	VF_CHECK(so, "harness: %s", dlerror());
	VF_CHECK(((int (*)())dlsym(so, "futils_random_reseed"))() == 0, "reseeding failed");
	auto fill = (void (*)(void *, size_t))dlsym(so, "futils_random");
	VF_CHECK(fill, "harness: no futils_random");
	// every power of two up to 64 MiB is passed by some case
	size_t n = (1u << (16 + cycle(10))) + draw(1 << 14) + 4096;
	bool one = chance(2, 3);
	size_t piece = one ? n : chance(1, 2) ? range(1, 440) : range(440, 70000);
	note("%zu bytes, %zu at a time", n, piece);
	nontrivial();
	static std::vector<uint8_t> b;
	b.assign(n + 16, 0xa5);
	for (size_t at = 0; at < n; at += piece) {
		fill(&b[at], std::min(piece, n - at));
	}
	for (size_t i = 0; i < 16; i++)
		VF_CHECK(b[n + i] == 0xa5, "written beyond the buffer");
	// bits of every 64 KiB: 524288 of them, standard deviation 362
	for (size_t at = 0; at + 65536 <= n; at += 65536) {
		long ones = 0;
		for (size_t i = at; i < at + 65536; i += 8) {
			uint64_t w;
			memcpy(&w, &b[i], 8);
			ones += __builtin_popcountll(w);
		}
		VF_CHECK(labs(ones - 262144) < 3300, "bytes %zu to %zu: %ld of 524288 bits are set", at, at + 65535, ones);
	}
	// the words at multiples of 64 all differ (two random ones of a million are equal with probability 3e-8)
	std::vector<uint64_t> w;
	w.reserve(n / 64 + 1);
	for (size_t i = 0; i + 8 <= n; i += 64) {
		uint64_t x;
		memcpy(&x, &b[i], 8);
		w.push_back(x);
	}
	std::sort(w.begin(), w.end());
	for (size_t i = 1; i < w.size(); i++)
		if (w[i] == w[i - 1]) {
			size_t first = 0, second = 0;
			for (size_t j = 0; j + 8 <= n; j += 64)
				if (!memcmp(&b[j], &w[i], 8)) {
					first = second;
					second = j;
				}
			fail("the bytes at %zu are those at %zu again", second, first);
		}
}
VF_FACET(unbounded_draws, 120, 3000, NOMUT)
{
	start();
	int w = 8 << draw(3);
	bool wr = chance(1, 4);
	size_t n = 16384;
	note("%zu unbounded %d-bit draws%s", n, w, wr ? " by the checking wrapper" : "");
	nontrivial();
	stats::Bits b(w, n);
	std::vector<std::vector<uint64_t>> o(w / 8, std::vector<uint64_t>(256));
	for (size_t i = 0; i < n; i++) {
		uint64_t x = 0;
		int r = 0;
		uint8_t a;
		uint16_t c;
		uint32_t d;
		switch (w) {
		case 8: if (wr) { r = futils_random8(&a); x = a; } else x = futils_randomr8(); break;
		case 16: if (wr) { r = futils_random16(&c); x = c; } else x = futils_randomr16(); break;
		case 32: if (wr) { r = futils_random32(&d); x = d; } else x = futils_randomr32(); break;
		default: if (wr) r = futils_random64(&x); else x = futils_randomr64();
		}
		VF_CHECK(r == 0, "returned %d", r);
		for (int k = 0; k < w; k++)
			b.set(k, x >> k & 1);
		for (int k = 0; k < w / 8; k++)
			o[k][x >> (8 * k) & 255]++;
		b.next();
	}
	b.check("bits of unbounded draws");
	for (auto &x : o)
		stats::chi2_flat(x, "bytes of unbounded draws");
}
VF_FACET(unit_interval, 80, 2000, NOMUT)
{
	start();
	bool dbl = chance(1, 2);
	size_t n = 16384;
	int nb = dbl ? 53 : 24;
	note("%zu random %s", n, dbl ? "doubles" : "floats");
	nontrivial();
	stats::Bits b(nb, n);
	std::vector<uint64_t> o(256);
	for (size_t i = 0; i < n; i++) {
		double x = dbl ? futils_randomrd() : (double)futils_randomrf();
		VF_CHECK(x >= 0 && x < 1, "value %a outside [0,1)", x);
		double m = ldexp(x, nb);
		VF_CHECK(m == floor(m), "value %a is not a multiple of 2^-%d", x, nb);
		uint64_t v = (uint64_t)m;
		for (int k = 0; k < nb; k++)
			b.set(k, v >> k & 1);
		b.next();
		o[v >> (nb - 8)]++;
	}
	b.check("bits of unit-interval values");
	stats::chi2_flat(o, "256 equal parts of the unit interval");
}
// every bit of a buffer of any length takes both values; nothing outside is touched (exact-size allocation)
VF_FACET(buffers_filled, 3000, 60000)
{
	start();
	size_t n;
	switch (weighted({4, 3, 2, 1})) {
	case 0: n = draw(80); break;
	case 1: n = draw(1100); break;
	case 2: { // around the internal thresholds of any block-wise generator
		static const size_t k[] = {32, 44, 64, 128, 256, 424, 468, 472, 480, 512, 576, 1024, 2048, 4096};
		n = k[draw(13)] + draw(4) - 2;
		break;
	}
	default: n = draw(9000);
	}
	int api = (int)draw(2);
	note("%zu bytes by %s", n, api == 0 ? "futils_random" : api == 1 ? "futils_random_bytes" : "futils_random_strong");
	if (n > 1)
		nontrivial();
	uint8_t *p = (uint8_t *)malloc(n ? n : 1);
	std::string one(n, 0), zero(n, (char)0xff);
	size_t pre = draw(500);
	uint8_t junk[512];
	if (pre)
		futils_random(junk, pre); // generator at any fill level
	for (int i = 0; i < 96; i++) {
		memset(p, i & 1 ? 0 : 0xff, n ? n : 1);
		int r = 0;
		if (api == 0)
			futils_random(p, n);
		else
			r = api == 1 ? futils_random_bytes(p, n) : futils_random_strong(p, n);
		if (!n) {
			VF_CHECK(api == 0 || r == -EINVAL, "no bytes requested: returned %d", r);
			VF_CHECK(p[0] == (i & 1 ? 0 : 0xff), "a byte was written though none was requested");
			continue;
		}
		VF_CHECK(r == 0, "returned %d", r);
		for (size_t k = 0; k < n; k++) {
			one[k] = (char)(one[k] | p[k]);
			zero[k] = (char)(zero[k] & p[k]);
		}
	}
	for (size_t k = 0; k < n; k++)
		VF_CHECK((uint8_t)one[k] == 0xff && zero[k] == 0, "byte %zu of %zu: bits %02x were never set, bits %02x always, in 96 fills", k, n, (uint8_t)~one[k], (uint8_t)zero[k]);
	free(p);
	VF_CHECK(futils_random_bytes(nullptr, 5) == -EINVAL && futils_random_strong(nullptr, 5) == -EINVAL, "null buffer accepted");
}
// lengths which narrower types do not hold: the filling goes on beyond the first 64 KiB (all memory from there on is
// inaccessible, so that going on shows at once)
static uint8_t *fence_at;
static size_t fence_len;
static void beyond(int, siginfo_t *si, void *)
{
	uint8_t *a = (uint8_t *)si->si_addr;
	_exit(a >= fence_at && a < fence_at + fence_len ? 40 : 41);
}
VF_FACET(huge_buffers, 200, 3000)
{
	static uint8_t *p;
	const size_t edge = 1 << 16;
	const size_t whole = (1ull << 32) + (1 << 21);
	if (!p) {
		p = (uint8_t *)mmap(nullptr, whole, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		VF_CHECK(p != MAP_FAILED, "harness: mmap");
	}
	static const size_t base[] = {1ull << 32, 1ull << 31, (1ull << 31) + (1ull << 30), 1ull << 24};
	size_t n = base[draw(3)] + draw(600), end = (n - edge) & ~(size_t)4095;
	int api = (int)draw(2);
	note("%zu bytes by %s", n, api == 0 ? "futils_random" : api == 1 ? "futils_random_bytes" : "futils_random_strong");
	nontrivial();
	mprotect(p, whole, PROT_NONE);
	mprotect(p, edge, PROT_READ | PROT_WRITE);
	mprotect(p + end, whole - end, PROT_READ | PROT_WRITE);
	fence_at = p + edge;
	fence_len = end - edge;
	start();
	pid_t pid = fork();
	VF_CHECK(pid >= 0, "harness: fork");
	if (!pid) {
		struct sigaction sa = {};
		sa.sa_sigaction = beyond;
		sa.sa_flags = SA_SIGINFO | SA_NODEFER;
		sigaction(SIGSEGV, &sa, nullptr);
		sigaction(SIGBUS, &sa, nullptr);
		int r = 0;
		if (api == 0)
			futils_random(p, n);
		else
			r = api == 1 ? futils_random_bytes(p, n) : futils_random_strong(p, n);
		_exit(r == 0 ? 42 : 43);
	}
	int st;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
		;
	VF_CHECK(WIFEXITED(st) && WEXITSTATUS(st) != 41, "%zu bytes: crashed outside of the buffer (status %x)", n, st);
	VF_CHECK(WEXITSTATUS(st) == 40, "%zu bytes: reported %s without having touched more than the first and last bytes of the buffer", n, WEXITSTATUS(st) == 42 ? "done" : "failure");
}
// the same few requests over and over: whatever state each leaves behind, the next ones are filled as well
VF_FACET(cycles_of_requests, 4000, 80000)
{
	start();
	size_t k = 1 + draw(3);
	std::vector<size_t> sz;
	for (size_t i = 0; i < k; i++)
		switch (weighted({4, 3, 3, 1})) {
		case 0: sz.push_back(range(1, 24)); break;
		case 1: sz.push_back(range(25, 400)); break;
		case 2: sz.push_back(range(400, 530)); break;
		default: sz.push_back(range(1, 1500));
		}
	std::string txt;
	size_t tot = 0;
	for (size_t n : sz) {
		txt += " " + std::to_string(n);
		tot += n;
	}
	size_t pre = draw(500);
	note("requests of%s bytes over and over, after %zu bytes", txt.c_str(), pre);
	if (k > 1)
		nontrivial();
	const unsigned ROUNDS = 96;
	std::string all(tot * ROUNDS, 0);
	uint8_t junk[512];
	futils_random(junk, pre);
	size_t at = 0;
	for (unsigned r = 0; r < ROUNDS; r++)
		for (size_t n : sz) {
			uint8_t *p = (uint8_t *)malloc(n);
			memset(p, r & 1 ? 0 : 0xff, n);
			futils_random(p, n);
			memcpy(&all[at], p, n);
			free(p);
			at += n;
		}
	auto byte = [&](unsigned r, size_t i) { return (uint8_t)all[r * tot + i]; };
	size_t slot = 0, off = 0;
	for (size_t i = 0; i < tot; i++, off++) {
		if (off == sz[slot])
			slot++, off = 0;
		unsigned one = 0, zero = 255, same = 0;
		for (unsigned r = 0; r < ROUNDS; r++) {
			one |= byte(r, i);
			zero &= byte(r, i);
			same += r && byte(r, i) == byte(r - 1, i);
		}
		VF_CHECK(one == 255 && !zero, "byte %zu of %zu: bits %02x were never set, bits %02x always, in %u rounds", off, sz[slot], ~one & 255, zero, ROUNDS);
		VF_CHECK(same < 20, "byte %zu of %zu is the same as a round before in %u of %u rounds", off, sz[slot], same, ROUNDS);
		if (off)
			continue;
		size_t len = sz[slot ? slot - 1 : k - 1];
		for (size_t d = 1; d <= len; d++) {
			unsigned c = 0;
			for (unsigned r = 1; r < ROUNDS; r++)
				c += all[r * tot + i] == all[r * tot + i - d];
			VF_CHECK(c < 20, "the first of %zu bytes is the one %zu bytes before the end of the request before, in %u of %u rounds", sz[slot], d, c, ROUNDS);
		}
	}
	stats::no_repeats({all}, "output of one generator");
}
// a history of requests of any sizes: all bytes uniform and unrelated
VF_FACET(request_histories, 300, 4000)
{
	start();
	size_t cap = 30000;
	std::string s;
	unsigned style = (unsigned)draw(3);
	size_t fixed = 1 + draw(600);
	uint64_t seed = draw(UINT64_MAX);
	Rng g{seed};
	note("requests: %s, first size %zu", style == 0 ? "one size" : style == 1 ? "small" : style == 2 ? "mixed" : "large and small", fixed);
	nontrivial();
	std::vector<uint8_t> buf(5000);
	std::vector<size_t> cut; // where requests begin
	while (s.size() < cap) {
		cut.push_back(s.size());
		size_t n;
		switch (style) {
		case 0: n = fixed; break;
		case 1: n = 1 + g.next() % 20; break;
		case 2: n = 1 + g.next() % 600; break;
		default: n = g.next() % 2 ? 1 + g.next() % 16 : 400 + g.next() % 1500;
		}
		if (n == 8) {
			uint64_t x = futils_randomr64();
			s.append((char *)&x, 8);
		} else if (n == 4) {
			uint32_t x = futils_randomr32();
			s.append((char *)&x, 4);
		} else {
			futils_random(buf.data(), n);
			s.append((char *)buf.data(), n);
		}
	}
	std::vector<uint64_t> o(256);
	for (char c : s)
		o[(uint8_t)c]++;
	stats::chi2_flat(o, "byte values");
	stats::no_repeats({s}, "output of one generator");
	// a byte equal to the one a few places before
	for (size_t lag = 1; lag <= 600; lag++) {
		uint64_t c = 0;
		const char *a = s.data(), *b = a + lag;
		size_t n = s.size() - lag;
		for (size_t i = 0; i < n; i++)
			c += a[i] == b[i];
		stats::binom(c, n, 1.0 / 256, "bytes equal to the byte before at distance", (long)lag, 0);
	}
	// what a request begins with and what the one before gave in its last bytes
	cut.push_back(s.size());
	for (size_t d = 1; d <= 128; d++) {
		size_t L = std::min(d, (size_t)4);
		uint64_t c = 0, n = 0;
		for (size_t i = 1; i + 1 < cut.size(); i++)
			if (cut[i] - cut[i - 1] >= d && cut[i + 1] - cut[i] >= L) {
				n++;
				c += !memcmp(&s[cut[i]], &s[cut[i] - d], L);
			}
		stats::binom(c, n, ldexp(1, -8 * (int)L), "requests beginning with what the request before gave at distance from its end", (long)d, 0);
	}
	stats::Bits b(64, s.size() / 8);
	for (size_t i = 0; i + 8 <= s.size(); i += 8) {
		uint64_t x;
		memcpy(&x, &s[i], 8);
		for (int k = 0; k < 64; k++)
			b.set(k, x >> k & 1);
		b.next();
	}
	b.check("bits of the output taken as 64-bit words");
}
VF_FACET(missing_arguments, 50, 500)
{
	start();
	nontrivial();
	VF_CHECK(futils_random8(nullptr) == -EINVAL && futils_random16(nullptr) == -EINVAL && futils_random32(nullptr) == -EINVAL && futils_random64(nullptr) == -EINVAL, "null output accepted");
	VF_CHECK(futils_random8_maximum(nullptr, 1) == -EINVAL && futils_random16_maximum(nullptr, 1) == -EINVAL && futils_random32_maximum(nullptr, 1) == -EINVAL && futils_random64_maximum(nullptr, 1) == -EINVAL, "null output accepted");
}
