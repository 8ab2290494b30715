#include "clock.h"
#include "vf.h"
#include <errno.h>
#include <string.h>
#include <sys/time.h>
#include <unistd.h>
namespace vf {
Clk clk;
static bool armed;
void clk_reset()
{
	clk.now = 0;
	for (auto &o : clk.off)
		o = 0;
	clk.lat_max = clk.lat_seed = 0;
	clk.fail_at = -1;
	clk.fail_err = 0;
	clk.sleep_err = 0;
	clk.sleep_part = clk.sleep_over = 0;
	clk.hook = nullptr;
	clk.sleeper = nullptr;
	clk.reads = clk.failed = clk.sleeps = 0;
	clk.log.clear();
}
void clk_arm() { armed = true; }
void clk_disarm() { armed = false; }
static void lag()
{
	if (!clk.lat_max)
		return;
	Rng r{clk.lat_seed};
	clk.now += (ns_t)(r.next() % (clk.lat_max + 1));
	clk.lat_seed = r.next();
}
static bool rd(int id, ns_t *t)
{
	lag();
	if (clk.hook)
		clk.hook();
	long i = clk.reads++;
	if (i == clk.fail_at) {
		clk.failed++;
		lag();
		errno = clk.fail_err;
		return false;
	}
	if (id < 0 || id >= 12 || id == 10) {
		errno = EINVAL;
		return false;
	}
	*t = clk.now + clk.off[id];
	if (id == CLOCK_REALTIME_COARSE || id == CLOCK_MONOTONIC_COARSE)
		*t -= *t % 4000000;
	clk.log.push_back({id, *t});
	lag();
	return true;
}
static bool dosleep(ns_t dur, ns_t *left)
{
	clk.sleeps++;
	if (clk.sleep_err == EINTR) {
		ns_t d = dur * clk.sleep_part / 256;
		clk.now += d;
		*left = dur - d;
		errno = EINTR;
		return false;
	}
	if (clk.sleep_err) {
		errno = clk.sleep_err;
		return false;
	}
	if (!clk.sleeper || !clk.sleeper(dur + clk.sleep_over))
		clk.now += dur + clk.sleep_over;
	return true;
}
static bool valid(const timespec *ts) { return ts->tv_sec >= 0 && ts->tv_nsec >= 0 && ts->tv_nsec < 1000000000; }
static ns_t ns(const timespec *ts) { return (ns_t)ts->tv_sec * 1000000000 + ts->tv_nsec; }
static void put(timespec *ts, ns_t t) { ts->tv_sec = (time_t)(t / 1000000000); ts->tv_nsec = (long)(t % 1000000000); }
}
using namespace vf;
extern "C" {
int __real_clock_gettime(clockid_t, timespec *);
int __real_clock_getres(clockid_t, timespec *);
int __real_gettimeofday(timeval *, void *);
time_t __real_time(time_t *);
int __real_timespec_get(timespec *, int);
int __real_nanosleep(const timespec *, timespec *);
int __real_clock_nanosleep(clockid_t, int, const timespec *, timespec *);
int __real_usleep(useconds_t);
unsigned __real_sleep(unsigned);
int __wrap_clock_gettime(clockid_t id, timespec *ts)
{
	if (!armed)
		return __real_clock_gettime(id, ts);
	ns_t t;
	if (!rd(id, &t))
		return -1;
	put(ts, t);
	return 0;
}
int __wrap_clock_getres(clockid_t id, timespec *ts)
{
	if (!armed)
		return __real_clock_getres(id, ts);
	if (ts)
		put(ts, 1);
	return 0;
}
int __wrap_gettimeofday(timeval *tv, void *tz)
{
	if (!armed)
		return __real_gettimeofday(tv, tz);
	ns_t t;
	if (!rd(CLOCK_REALTIME, &t))
		return -1;
	if (tv) {
		tv->tv_sec = (time_t)(t / 1000000000);
		tv->tv_usec = (long)(t % 1000000000) / 1000;
	}
	return 0;
}
time_t __wrap_time(time_t *p)
{
	if (!armed)
		return __real_time(p);
	long f = clk.fail_at; // never fails
	clk.fail_at = -1;
	clk.reads--;
	ns_t t = 0;
	rd(CLOCK_REALTIME, &t);
	clk.fail_at = f;
	time_t r = (time_t)(t / 1000000000);
	if (p)
		*p = r;
	return r;
}
int __wrap_timespec_get(timespec *ts, int base)
{
	if (!armed)
		return __real_timespec_get(ts, base);
	ns_t t;
	if (base != TIME_UTC || !rd(CLOCK_REALTIME, &t))
		return 0;
	put(ts, t);
	return base;
}
int __wrap_nanosleep(const timespec *q, timespec *rem)
{
	if (!armed)
		return __real_nanosleep(q, rem);
	if (!valid(q)) {
		clk.sleeps++;
		errno = EINVAL;
		return -1;
	}
	ns_t left = 0;
	lag();
	if (dosleep(ns(q), &left))
		return 0;
	if (rem && errno == EINTR)
		put(rem, left);
	return -1;
}
int __wrap_clock_nanosleep(clockid_t id, int flags, const timespec *q, timespec *rem)
{
	if (!armed)
		return __real_clock_nanosleep(id, flags, q, rem);
	if (!valid(q) || id < 0 || id >= 10) {
		clk.sleeps++;
		return EINVAL;
	}
	int e = errno;
	ns_t left = 0, d = ns(q);
	lag();
	if (flags & TIMER_ABSTIME) {
		d -= clk.now + clk.off[id];
		if (d < 0)
			d = 0;
	}
	if (dosleep(d, &left))
		return 0;
	int r = errno;
	errno = e;
	if (rem && r == EINTR && !(flags & TIMER_ABSTIME))
		put(rem, left);
	return r;
}
int __wrap_usleep(useconds_t us)
{
	if (!armed)
		return __real_usleep(us);
	ns_t left;
	lag();
	return dosleep((ns_t)us * 1000, &left) ? 0 : -1;
}
unsigned __wrap_sleep(unsigned s)
{
	if (!armed)
		return __real_sleep(s);
	ns_t left = 0;
	lag();
	return dosleep((ns_t)s * 1000000000, &left) ? 0 : (unsigned)(left / 1000000000);
}
}
