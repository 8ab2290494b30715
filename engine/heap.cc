// The whole process's heap, libc's and the C++ runtime's own calls included, under the interface of alloc.h: the malloc
// family is defined here on top of glibc's implementation. Only for variants without AddressSanitizer.
// Harness header line:  // VF variant: plain   // VF use: heap
#include "alloc.h"
#include "vf.h"
#include <errno.h>
#include <stdlib.h>
#include <string.h>
extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void __libc_free(void *);
void *__libc_memalign(size_t, size_t);
}
namespace vf {
static __thread bool on __attribute__((tls_model("initial-exec")));
static long seen, ffrom, fto, nfail, live;
enum { TAB = 1 << 16 };
static void *tab[TAB];
static unsigned used;
static size_t slot(void *p) { return ((uintptr_t)p * 0x9e3779b97f4a7c15ull) >> 48; }
static void add(void *p)
{
	if (!p)
		return;
	for (size_t k = 0; k < TAB; k++) {
		size_t i = (slot(p) + k) & (TAB - 1);
		if (!tab[i] || tab[i] == (void *)1) {
			used += !tab[i];
			tab[i] = p;
			live++;
			return;
		}
	}
	abort();
}
static void del(void *p)
{
	if (!p || !live)
		return;
	for (size_t k = 0; k < TAB; k++) {
		size_t i = (slot(p) + k) & (TAB - 1);
		if (!tab[i])
			return;
		if (tab[i] == p) {
			tab[i] = (void *)1;
			live--;
			return;
		}
	}
}
static bool refuse()
{
	seen++;
	if (ffrom && seen >= ffrom && seen <= fto) {
		nfail++;
		errno = ENOMEM;
		return true;
	}
	return false;
}
void alloc_enter(long f, long t)
{
	seen = nfail = 0;
	ffrom = f;
	fto = t < f ? f : t;
	on = true;
}
long alloc_leave()
{
	on = false;
	return seen;
}
long alloc_failed() { return nfail; }
long alloc_live() { return live; }
void alloc_reset()
{
	if (used)
		memset(tab, 0, sizeof tab);
	used = 0;
	live = 0;
}
AllocPause::AllocPause() : was(on) { on = false; }
AllocPause::~AllocPause() { on = was; }
} // namespace vf
using namespace vf;
extern "C" {
void *malloc(size_t n)
{
	if (!on)
		return __libc_malloc(n);
	if (refuse())
		return nullptr;
	void *p = __libc_malloc(n);
	add(p);
	return p;
}
void *calloc(size_t n, size_t m)
{
	if (!on)
		return __libc_calloc(n, m);
	if (refuse())
		return nullptr;
	void *p = __libc_calloc(n, m);
	add(p);
	return p;
}
void *realloc(void *q, size_t n)
{
	if (on && n && refuse())
		return nullptr;
	del(q);
	void *p = __libc_realloc(q, n);
	if (on)
		add(p);
	return p;
}
void *reallocarray(void *q, size_t n, size_t m)
{
	size_t t;
	if (__builtin_mul_overflow(n, m, &t)) {
		errno = ENOMEM;
		return nullptr;
	}
	return realloc(q, t);
}
void free(void *p)
{
	del(p);
	__libc_free(p);
}
void cfree(void *p) { free(p); }
void *memalign(size_t a, size_t n)
{
	if (on && refuse())
		return nullptr;
	void *p = __libc_memalign(a, n);
	if (on)
		add(p);
	return p;
}
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
void *valloc(size_t n) { return memalign(4096, n); }
void *pvalloc(size_t n) { return memalign(4096, (n + 4095) & ~4095ul); }
int posix_memalign(void **r, size_t a, size_t n)
{
	if (a % sizeof(void *) || (a & (a - 1)) || !a)
		return EINVAL;
	void *p = memalign(a, n);
	if (!p)
		return ENOMEM;
	*r = p;
	return 0;
}
}
