// VF variant: fast
// VF use: sysfault entropy
// VF libs: -lpthread
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <pthread.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include "entropy.h"
#include "sysfault.h"
#include "vf.h"
#include "futils/random.h"
using namespace vf;
VF_PROPERTY("C22", "exploration", "at least 8 consecutive delivered bytes were searched for in the process's memory");
VF_ASSUME("memory kept by the generator: thread-local, static and heap memory of the process after the call returned; stacks and registers are not searched");
VF_ASSUME("key material is recognised as a ChaCha20 state or as key and nonce bytes that reproduce delivered output");

// Delivered bytes are kept only masked, and as hashes of their 8-byte windows.
enum { MAXB = 1 << 15, TAB = 1 << 17 };
struct Kept {
	uint32_t n, gap;
	uint8_t masked[MAXB];
	uint64_t hash[TAB];
	uint32_t at[TAB];
	uint64_t bloom[TAB / 8];
};
static Kept *K;
static inline uint8_t mask_at(uint32_t i) { return (uint8_t)((i * 2654435761u) >> 13 | 1); }
static inline uint64_t hash8(uint64_t w)
{
	w ^= w >> 31;
	w *= 0x9e3779b97f4a7c15ull;
	w ^= w >> 29;
	w *= 0xbf58476d1ce4e5b9ull;
	return w ^ (w >> 32);
}
static uint64_t window(uint32_t i)
{
	uint64_t w = 0;
	for (int k = 0; k < 8; k++)
		w |= (uint64_t)(uint8_t)(K->masked[i + k] ^ mask_at(i + k)) << (8 * k);
	return w;
}
static void keep(const uint8_t *p, size_t n)
{
	for (size_t i = 0; i < n && K->n < MAXB; i++, K->n++)
		K->masked[K->n] = p[i] ^ mask_at(K->n);
}
static void build()
{
	memset(K->hash, 0, sizeof K->hash);
	memset(K->bloom, 0, sizeof K->bloom);
	for (uint32_t i = 0; i + 8 <= K->n; i++) {
		uint64_t h = hash8(window(i));
		if (!h)
			h = 1;
		K->bloom[(h >> 6) % (TAB / 8)] |= 1ull << (h & 63);
		uint32_t j = (uint32_t)(h % TAB);
		while (K->hash[j])
			j = (j + 1) % TAB;
		K->hash[j] = h;
		K->at[j] = i;
	}
}
static long find8(uint64_t w)
{
	uint64_t h = hash8(w);
	if (!h)
		h = 1;
	if (!(K->bloom[(h >> 6) % (TAB / 8)] >> (h & 63) & 1))
		return -1;
	uint32_t j = (uint32_t)(h % TAB);
	while (K->hash[j]) {
		if (K->hash[j] == h)
			return (long)K->at[j];
		j = (j + 1) % TAB;
	}
	return -1;
}
// ---- ChaCha20 block function, for judging key material only
static inline uint32_t rl(uint32_t x, int k) { return x << k | x >> (32 - k); }
static void block(const uint32_t in[16], uint8_t out[64])
{
	uint32_t x[16];
	memcpy(x, in, 64);
	auto q = [&](int a, int b, int c, int d) {
		x[a] += x[b]; x[d] = rl(x[d] ^ x[a], 16);
		x[c] += x[d]; x[b] = rl(x[b] ^ x[c], 12);
		x[a] += x[b]; x[d] = rl(x[d] ^ x[a], 8);
		x[c] += x[d]; x[b] = rl(x[b] ^ x[c], 7);
	};
	for (int i = 0; i < 10; i++) {
		q(0, 4, 8, 12); q(1, 5, 9, 13); q(2, 6, 10, 14); q(3, 7, 11, 15);
		q(0, 5, 10, 15); q(1, 6, 11, 12); q(2, 7, 8, 13); q(3, 4, 9, 14);
	}
	for (int i = 0; i < 16; i++)
		x[i] += in[i];
	memcpy(out, x, 64);
	memset(x, 0, sizeof x);
}
static long reproduces(uint32_t st[16], uint32_t lo, uint32_t hi)
{
	uint8_t o[64];
	for (uint32_t c = lo; c != hi; c++) {
		st[12] = c;
		block(st, o);
		for (int i = 0; i + 8 <= 64; i++) {
			uint64_t w;
			memcpy(&w, o + i, 8);
			long at = find8(w);
			if (at >= 0) {
				memset(o, 0, sizeof o);
				return at;
			}
		}
	}
	memset(o, 0, sizeof o);
	return -1;
}
struct Range { const uint8_t *a, *b; bool deep; const char *what; };
static Range ranges[512];
static int nranges;
static void add_range(const uint8_t *a, const uint8_t *b, bool deep, const char *what)
{
	if (nranges < 512)
		ranges[nranges++] = {a, b, deep, what};
}
static int tls_cb(struct dl_phdr_info *i, size_t, void *)
{
	if (!i->dlpi_tls_data)
		return 0;
	for (int k = 0; k < i->dlpi_phnum; k++)
		if (i->dlpi_phdr[k].p_type == PT_TLS)
			add_range((uint8_t *)i->dlpi_tls_data, (uint8_t *)i->dlpi_tls_data + i->dlpi_phdr[k].p_memsz, true, "thread-local memory");
	return 0;
}
static char mapbuf[1 << 17];
static void collect()
{
	nranges = 0;
	dl_iterate_phdr(tls_cb, nullptr);
	int fd = open("/proc/self/maps", O_RDONLY);
	VF_CHECK(fd >= 0, "harness: maps");
	size_t n = 0;
	ssize_t r;
	while (n + 1 < sizeof mapbuf && (r = read(fd, mapbuf + n, sizeof mapbuf - 1 - n)) > 0)
		n += (size_t)r;
	close(fd);
	mapbuf[n] = 0;
	uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
	for (char *l = mapbuf; *l;) {
		char *e = strchr(l, '\n');
		if (e)
			*e = 0;
		unsigned long a, b;
		char perm[8], name[256] = "";
		if (sscanf(l, "%lx-%lx %7s %*s %*s %*s %255s", &a, &b, perm, name) >= 3 && perm[0] == 'r' && perm[1] == 'w' && perm[3] == 'p' && !strstr(name, "stack") && !(sp >= a && sp < b)) {
			// our own module's static data gets the deeper search
			bool own = (uintptr_t)&K >= a && (uintptr_t)&K < b;
			if (b - a <= 64u << 20)
				add_range((uint8_t *)a, (uint8_t *)b, own, *name ? (strstr(name, "heap") ? "heap memory" : "static memory") : "anonymous memory");
		}
		l = e ? e + 1 : l + strlen(l);
	}
}
static const uint8_t *skip_a, *skip_b;
static void search(unsigned after)
{
	build();
	collect();
	for (int r = 0; r < nranges; r++) {
		const uint8_t *a = ranges[r].a, *b = ranges[r].b;
		for (const uint8_t *p = a; p + 8 <= b; p++) {
			uint64_t w;
			memcpy(&w, p, 8);
			if (!w) {
				// skip zero runs quickly
				while (p + 16 <= b && !*(const uint64_t *)(p + 8))
					p += 8;
				continue;
			}
			long at = find8(w);
			if (at >= 0)
				fail("after %u requests 8 bytes delivered at offset %ld of %u are still in %s (%zu bytes into it)", after, at, K->n, ranges[r].what, (size_t)(p - a));
			// a key stream state
			if ((uint32_t)w == 0x61707865u && w >> 32 == 0x3320646eu && p + 64 <= b) {
				uint32_t st[16];
				memcpy(st, p, 64);
				if (st[2] == 0x79622d32u && st[3] == 0x6b206574u) {
					uint32_t c = st[12];
					long x = reproduces(st, c > 64 ? c - 64 : 0, c + 4);
					if (x < 0 && c > 64)
						x = reproduces(st, 0, 64);
					memset(st, 0, sizeof st);
					if (x >= 0)
						fail("after %u requests a key stream state in %s (%zu bytes into it) reproduces the bytes delivered at offset %ld of %u", after, ranges[r].what, (size_t)(p - a), x, K->n);
				}
			}
			// bare key and nonce
			if (ranges[r].deep && p + 44 <= b) {
				uint64_t f[5];
				memcpy(f, p, 40);
				bool dense = true;
				for (int i = 0; i < 5 && dense; i++) {
					// random words have neither zero nor repeated halves and both high and low bits
					uint32_t h = (uint32_t)(f[i] >> 32), l = (uint32_t)f[i];
					dense = h && l && h != l && h >> 20 && l >> 20 && ~h >> 20 && ~l >> 20 && __builtin_popcountll(f[i]) > 12 && __builtin_popcountll(f[i]) < 52;
				}
				if (dense) {
					uint32_t st[16] = {0x61707865u, 0x3320646eu, 0x79622d32u, 0x6b206574u};
					memcpy(st + 4, p, 32);
					memcpy(st + 13, p + 32, 12);
					long x = reproduces(st, 0, 1);
					memset(st, 0, sizeof st);
					if (x >= 0)
						fail("after %u requests a key in %s (%zu bytes into it) reproduces the bytes delivered at offset %ld of %u", after, ranges[r].what, (size_t)(p - a), x, K->n);
				}
			}
		}
	}
}
// scattered residue: bytes of the latest output at their places relative to each other, with holes between them
static void residue(unsigned after)
{
	static uint8_t tail[1536];
	uint32_t n = K->n < sizeof tail ? K->n : (uint32_t)sizeof tail, from = K->n - n;
	for (int r = 0; r < nranges; r++) {
		if (strcmp(ranges[r].what, "thread-local memory") || ranges[r].b - ranges[r].a > 8192)
			continue;
		long size = ranges[r].b - ranges[r].a;
		const uint8_t *p = ranges[r].a;
		for (uint32_t i = 0; i < n; i++)
			tail[i] = K->masked[from + i] ^ mask_at(from + i);
		for (long k = -size; k < (long)n; k++) {
			long lo = k < 0 ? -k : 0, hi = (long)n - k < size ? (long)n - k : size;
			unsigned eq = 0;
			for (long i = lo; i < hi; i++)
				eq += p[i] == tail[i + k] && p[i];
			if (eq >= 24) {
				memset(tail, 0, sizeof tail);
				fail("after %u requests %u bytes of the last %u delivered are still in thread-local memory, at their places relative to each other", after, eq, n);
			}
		}
		memset(tail, 0, sizeof tail);
	}
}
static uint8_t *buf; // in its own mapping, wiped after each request
struct Plan { unsigned n, style; uint64_t seed; unsigned searches; };
static void requests(const Plan &pl)
{
	Rng g{pl.seed};
	unsigned every = pl.n / pl.searches + 1;
	for (unsigned i = 1; i <= pl.n; i++) {
		size_t n;
		switch (pl.style) {
		case 0: n = 1 + g.next() % 16; break;
		case 1: n = 1 + g.next() % 300; break;
		case 2: n = 300 + g.next() % 700; break;
		case 3: n = (size_t[]){8, 44, 64, 424, 467, 468, 469, 470, 512, 100, 300, 1}[g.next() % 12]; break;
		default: n = g.next() % 3 ? 1 + g.next() % 60 : 400 + g.next() % 200;
		}
		if (g.next() % 50 == 0 && pl.style == 4) {
			futils_random_reseed();
			note("reseed");
		}
		if (g.next() % 12 == 0) {
			uint64_t v = futils_randomr64();
			memcpy(buf, &v, 8);
			v = 0;
			n = 8;
		} else
			futils_random(buf, n);
		note("request %u: %zu bytes", i, n);
		keep(buf, n);
		memset(buf, 0, n);
		asm volatile("" : : "r"(buf) : "memory");
		if (i % every == 0 || i == pl.n)
			search(i), residue(i);
	}
}
static void setup()
{
	if (!K) {
		// shared mappings are not searched
		K = (Kept *)mmap(nullptr, sizeof(Kept), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		buf = (uint8_t *)mmap(nullptr, 1 << 16, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	}
	memset(K, 0, sizeof *K);
}
static Plan gen(unsigned maxn)
{
	Plan p;
	p.n = 1 + (unsigned)smallish(maxn - 1);
	p.style = (unsigned)draw(4);
	p.seed = draw(UINT64_MAX);
	p.searches = 1 + (unsigned)draw(3);
	note("%u requests, %s sizes, %u searches", p.n, (const char *[]){"small", "medium", "large", "edge", "mixed"}[p.style], p.searches);
	return p;
}
VF_FACET(main_thread, 15000, 300000)
{
	setup();
	ent_start(draw(UINT64_MAX));
	if (chance(1, 2))
		futils_random_reseed();
	Plan p = gen(120);
	requests(p);
	if (K->n >= 8)
		nontrivial();
}
VF_FACET(one_request, 15000, 300000)
{
	setup();
	ent_start(draw(UINT64_MAX));
	unsigned k = (unsigned)draw(2);
	futils_random_reseed();
	size_t pre = draw(600), n = range(8, 2000);
	note("%zu bytes, then %zu", pre, n);
	nontrivial();
	if (k && pre) {
		futils_random(buf, pre);
		keep(buf, pre);
		memset(buf, 0, pre);
	}
	if (k == 2) {
		VF_CHECK(futils_random_strong(buf, n) == 0, "strong failed");
	} else
		futils_random(buf, n);
	keep(buf, n);
	memset(buf, 0, n);
	asm volatile("" : : "r"(buf) : "memory");
	search(2);
	residue(2);
}
static Plan tplan;
VF_FACET(other_thread, 2000, 40000)
{
	setup();
	ent_start(draw(UINT64_MAX));
	tplan = gen(60);
	pthread_t t;
	pthread_create(&t, nullptr, [](void *) -> void * { requests(tplan); return nullptr; }, nullptr);
	pthread_join(t, nullptr);
	if (K->n >= 8)
		nontrivial();
}
