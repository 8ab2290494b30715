#include "alloc.h"
#include "vf.h"
#include <errno.h>
#include <stdlib.h>
#include <string.h>
extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void *__real_reallocarray(void *, size_t, size_t);
void __real_free(void *);
char *__real_strdup(const char *);
char *__real_strndup(const char *, size_t);
}
namespace vf {
static thread_local bool on;
static long seen, ffrom, fto, nfail, live;
enum { TAB = 1 << 16 };
static void *tab[TAB];
static size_t slot(void *p) { return ((uintptr_t)p * 0x9e3779b97f4a7c15ull) >> 48; }
static void add(void *p)
{
	if (!p)
		return;
	for (size_t k = 0; k < TAB; k++) {
		size_t i = (slot(p) + k) & (TAB - 1);
		if (!tab[i] || tab[i] == (void *)1) {
			tab[i] = p;
			live++;
			return;
		}
	}
	fail("alloc table full");
}
static bool del(void *p)
{
	if (!p)
		return false;
	for (size_t k = 0; k < TAB; k++) {
		size_t i = (slot(p) + k) & (TAB - 1);
		if (!tab[i])
			return false;
		if (tab[i] == p) {
			tab[i] = (void *)1;
			live--;
			return true;
		}
	}
	return false;
}
static bool refuse()
{
	seen++;
	if (ffrom && seen >= ffrom && seen <= fto) {
		nfail++;
		errno = ENOMEM;
		return true;
	}
	return false;
}
void alloc_enter(long f, long t)
{
	seen = nfail = 0;
	ffrom = f;
	fto = t < f ? f : t;
	on = true;
}
long alloc_leave()
{
	on = false;
	return seen;
}
long alloc_failed() { return nfail; }
long alloc_live() { return live; }
void alloc_reset()
{
	memset(tab, 0, sizeof tab);
	live = 0;
}
AllocPause::AllocPause() : was(on) { on = false; }
AllocPause::~AllocPause() { on = was; }
} // namespace vf
using namespace vf;
extern "C" {
void *__wrap_malloc(size_t n)
{
	if (!on)
		return __real_malloc(n);
	if (refuse())
		return nullptr;
	void *p = __real_malloc(n);
	add(p);
	return p;
}
void *__wrap_calloc(size_t n, size_t m)
{
	if (!on)
		return __real_calloc(n, m);
	if (refuse())
		return nullptr;
	void *p = __real_calloc(n, m);
	add(p);
	return p;
}
void *__wrap_realloc(void *q, size_t n)
{
	if (!on)
		return __real_realloc(q, n);
	if (n && refuse())
		return nullptr;
	del(q);
	void *p = __real_realloc(q, n);
	add(p);
	return p;
}
void *__wrap_reallocarray(void *q, size_t n, size_t m)
{
	size_t t;
	if (__builtin_mul_overflow(n, m, &t)) {
		errno = ENOMEM;
		return nullptr;
	}
	return __wrap_realloc(q, t);
}
void __wrap_free(void *p)
{
	del(p);
	__real_free(p);
}
char *__wrap_strdup(const char *s)
{
	size_t n = strlen(s) + 1;
	char *p = (char *)__wrap_malloc(n);
	if (p)
		memcpy(p, s, n);
	return p;
}
char *__wrap_strndup(const char *s, size_t m)
{
	size_t n = strnlen(s, m);
	char *p = (char *)__wrap_malloc(n + 1);
	if (p) {
		memcpy(p, s, n);
		p[n] = 0;
	}
	return p;
}
}
