#include "entropy.h"
#include "sysfault.h"
#include "vf.h"
#include <atomic>
#include <errno.h>
#include <fcntl.h>
#include <string.h>
namespace vf {
static uint64_t seed1, seed2, fork_at, flip_at;
static std::atomic<uint64_t> total;
static thread_local uint64_t here;
static std::atomic<unsigned> calls;
enum { NFD = 1024, NSTEP = 64 };
static uint8_t dev[NFD];
struct List { EntStep s[NSTEP]; std::atomic<unsigned> n, i; };
static List lg, lo, lr;
static uint8_t byte_at(uint64_t pos)
{
	uint64_t z = (pos >= fork_at ? seed2 : seed1) ^ (pos + 1) * 0x9e3779b97f4a7c15ull;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	z ^= z >> 31;
	return (uint8_t)((z >> 40) ^ (pos == flip_at ? 0x41 : 0));
}
static bool bulk;
void ent_bulk(bool on) { bulk = on; }
static long give(void *p, size_t n)
{
	if (bulk) {
		if (n > 33554431)
			n = 33554431;
		total.fetch_add(n);
		here += n;
		return (long)n;
	}
	uint64_t at = total.fetch_add(n);
	for (size_t i = 0; i < n; i++)
		((uint8_t *)p)[i] = byte_at(at + i);
	here += n;
	return (long)n;
}
static EntStep next(List &l)
{
	unsigned n = l.n;
	if (!n)
		return {ENT_OK, 0};
	unsigned i = l.i.fetch_add(1);
	return l.s[i < n ? i : n - 1];
}
void (*ent_around)(bool after);
static long answer1(List &l, void *p, size_t n)
{
	calls++;
	EntStep s = next(l);
	switch (s.kind) {
	case ENT_ERR: return -(long)s.n;
	case ENT_ZERO: return 0;
	case ENT_SHORT:
		if (n > s.n)
			n = s.n ? s.n : 1;
		break;
	default: break;
	}
	return give(p, n);
}
static long answer(List &l, void *p, size_t n)
{
	if (ent_around)
		ent_around(false);
	long r = answer1(l, p, n);
	if (ent_around)
		ent_around(true);
	return r;
}
static bool is_dev(const char *p) { return p && (!strcmp(p, "/dev/random") || !strcmp(p, "/dev/urandom")); }
static bool ent_hook(Sys &s, long *ret)
{
	if (s.nr == SYS_getrandom) {
		*ret = answer(lg, (void *)s.a[0], (size_t)s.a[1]);
		return true;
	}
	if (sys_opens(s.nr)) {
		if (!is_dev(s.str(sys_path_arg(s.nr))))
			return false;
		EntStep e = next(lo);
		if (e.kind == ENT_ERR) {
			*ret = -(long)e.n;
			return true;
		}
		long fd = sys_raw(SYS_openat, AT_FDCWD, (long)"/dev/null", O_RDONLY);
		if (fd >= 0 && fd < NFD)
			dev[fd] = 1;
		*ret = fd;
		return true;
	}
	if ((s.nr == SYS_read) && s.a[0] >= 0 && s.a[0] < NFD && dev[s.a[0]]) {
		*ret = answer(lr, (void *)s.a[1], (size_t)s.a[2]);
		return true;
	}
	if (s.nr == SYS_close && s.a[0] >= 0 && s.a[0] < NFD)
		dev[s.a[0]] = 0;
	return false;
}
void ent_start(uint64_t seed)
{
	seed1 = seed2 = seed;
	fork_at = flip_at = UINT64_MAX;
	total = 0;
	here = 0;
	calls = 0;
	lg.n = lo.n = lr.n = 0;
	ent_around = nullptr;
	bulk = false;
	sys_arm(ent_hook);
}
void ent_stop() { sys_disarm(); }
static void set(List &l, const std::vector<EntStep> &v)
{
	l.i = 0;
	l.n = (unsigned)(v.size() < NSTEP ? v.size() : NSTEP);
	for (unsigned i = 0; i < l.n; i++)
		l.s[i] = v[i];
}
void ent_plan(const std::vector<EntStep> &g, const std::vector<EntStep> &o, const std::vector<EntStep> &r)
{
	set(lg, g);
	set(lo, o);
	set(lr, r);
}
uint64_t ent_delivered() { return total; }
uint64_t ent_delivered_here() { return here; }
std::string ent_log(uint64_t from)
{
	std::string s;
	for (uint64_t i = from; i < total; i++)
		s += (char)byte_at(i);
	return s;
}
void ent_flip(uint64_t pos) { flip_at = pos; }
void ent_fork_stream(uint64_t pos, uint64_t s2)
{
	fork_at = pos;
	seed2 = s2;
}
int ent_open_devices()
{
	int n = 0;
	for (int i = 0; i < NFD; i++)
		n += dev[i];
	return n;
}
unsigned ent_calls() { return calls; }
}
