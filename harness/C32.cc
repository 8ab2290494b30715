// VF variant: asan
// VF use: clock sysfault
// VF wrap: clock_gettime,clock_getres,gettimeofday,time,timespec_get,nanosleep,clock_nanosleep,usleep,sleep
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>
#include "clock.h"
#include "sysfault.h"
#include "vf.h"
extern "C" {
#include "futils/systimetools.h"
}
using namespace vf;
VF_PROPERTY("C32", "exploration", "the system refuses, the clock crosses a second or is set during the call, or an output is omitted");
VF_ASSUME("clock settings are recorded at the system-call boundary and never carried out; the time is read through clock_gettime, gettimeofday, time or timespec_get");

static const int64_t G = 1000000000;
static int refuse;
static unsigned sets;
static bool is_set;
static ns_t set_to;
static bool hook(Sys &s, long *ret)
{
	if (s.nr != SYS_settimeofday && s.nr != SYS_clock_settime && s.nr != SYS_adjtimex && s.nr != SYS_clock_adjtime)
		return false;
	sets++;
	if (refuse) {
		*ret = -refuse;
		return true;
	}
	*ret = 0;
	int64_t sec, nsec;
	if (s.nr == SYS_settimeofday) {
		if (!s.a[0])
			return true; // time zone only
		const timeval *tv = (const timeval *)s.a[0];
		sec = tv->tv_sec;
		nsec = tv->tv_usec * 1000;
		if (tv->tv_usec < 0 || tv->tv_usec > 999999)
			sec = -1;
	} else if (s.nr == SYS_clock_settime) {
		const timespec *ts = (const timespec *)s.a[1];
		sec = ts->tv_sec;
		nsec = ts->tv_nsec;
		if (s.a[0] != CLOCK_REALTIME)
			sec = -1;
	} else {
		*ret = -EPERM;
		return true;
	}
	if (sec < 0 || nsec < 0 || nsec >= G) {
		*ret = -EINVAL;
		return true;
	}
	is_set = true;
	set_to = (ns_t)sec * G + nsec;
	return true;
}
VF_FACET(set, 400000, 2000000)
{
	uint64_t sec = chance(1, 2) ? anyint(64) : draw(253402300799ull);
	int32_t off = chance(1, 2) ? 0 : (int32_t)anyint(32);
	static const int errs[] = {EPERM, EINVAL, EACCES, ENOSYS};
	refuse = chance(1, 3) ? errs[draw(3)] : 0;
	sets = 0;
	is_set = false;
	// what the clock shows before: often that very second already
	clk_reset();
	ns_t before = chance(1, 3) && sec < INT64_MAX ? (ns_t)sec * G + (ns_t)draw(G - 1) : (ns_t)draw(253402300799ull) * G + (ns_t)draw(G - 1);
	clk.now = (ns_t)draw(86400) * G;
	clk.off[CLOCK_REALTIME] = clk.off[CLOCK_REALTIME_COARSE] = before - clk.now;
	clk_arm();
	sys_arm(hook);
	int r = time_local_set(sec, off);
	sys_disarm();
	clk_disarm();
	note("set %llu, offset %d, %s -> %d, clock %s", (unsigned long long)sec, off, refuse ? strerror(refuse) : "allowed", r, is_set ? "set" : "not set");
	if (refuse || sec > INT64_MAX) {
		nontrivial();
		classify(refuse ? "refused" : "not a possible instant");
		VF_CHECK(r < 0, "returns %d although the system refuses", r);
		VF_CHECK(!is_set, "sets the clock to something else");
		return;
	}
	if (sec > 1)
		nontrivial();
	VF_CHECK(r == 0, "returns %d although the system accepts (%u calls)", r, sets);
	VF_CHECK(is_set, "the clock is not set");
	VF_CHECK(set_to == (ns_t)sec * G, "the clock is set to %llu s %llu ns", (unsigned long long)(set_to / G), (unsigned long long)(set_to % G));
}
static uint64_t step_seed;
static unsigned step_kind;
static void steps() // the clock is set by somebody else in between
{
	Rng r{step_seed};
	uint64_t v = r.next();
	step_seed = r.next();
	if (step_kind && v % 3 == 0)
		clk.off[CLOCK_REALTIME] += (ns_t)(v % 7200000) * 1000000 - (step_kind == 2 ? 3600000000000 : 0);
}
VF_FACET(get, 800000, 3000000)
{
	static bool tz;
	if (!tz) {
		setenv("TZ", "UTC", 1);
		tzset();
		tz = true;
	}
	clk_reset();
	clk.now = (ns_t)draw(86400) * G;
	ns_t frac = chance(1, 2) ? (ns_t)draw(G - 1) : chance(1, 2) ? G - 1 - (ns_t)draw(3000000) : (ns_t)interesting(999) * 1000000 + (ns_t)draw(999999);
	ns_t rt = (ns_t)range(7200, chance(1, 4) ? 253402300799ull : 5000000000ull) * G + frac;
	for (int i = 0; i < 12; i++)
		clk.off[i] = (ns_t)(i + 1) * 12345678901;
	clk.off[CLOCK_MONOTONIC] = 0;
	clk.off[CLOCK_REALTIME] = clk.off[CLOCK_REALTIME_COARSE] = rt - clk.now;
	static const uint64_t lats[] = {0, 1000, 1000000, 700000000, 1500000000};
	clk.lat_max = lats[draw(4)];
	clk.lat_seed = draw(UINT64_MAX);
	step_kind = (unsigned)draw(2);
	step_seed = draw(UINT64_MAX);
	clk.hook = steps;
	if (chance(1, 5)) {
		clk.fail_at = 0;
		clk.fail_err = chance(1, 2) ? EINVAL : EFAULT;
	}
	uint64_t sec = 0xdeadbeef;
	uint16_t ms = 0xffff;
	int32_t off = 0x7777;
	bool with_ms = chance(2, 3);
	int omit = (int)draw(with_ms ? 4 : 3); // 0 none, 1 sec, 2 offset, 3 both, 4 ms
	bool no_sec = omit == 1 || omit == 3, no_off = omit == 2 || omit == 3, no_ms = !with_ms || omit == 4;
	ns_t from = clk.now + clk.off[CLOCK_REALTIME];
	clk_arm();
	int r = with_ms ? time_local_ms_get(no_sec ? nullptr : &sec, no_ms ? nullptr : &ms, no_off ? nullptr : &off)
			: time_local_get(no_sec ? nullptr : &sec, no_off ? nullptr : &off);
	clk_disarm();
	ns_t to = clk.now + clk.off[CLOCK_REALTIME];
	note("get(%s%s%s) from %lld ms, %zu readings -> %d sec %llu ms %u offset %d", no_sec ? "" : "sec ", no_ms ? "" : "ms ", no_off ? "" : "offset", (long long)(from / 1000000), clk.log.size(), r, (unsigned long long)sec, ms, off);
	if (omit || to / G != from / G)
		nontrivial();
	if (no_sec && no_off) {
		if (no_ms)
			VF_CHECK(r < 0, "returns %d with no output to fill", r);
		return;
	}
	if (clk.failed) {
		nontrivial();
		classify("clock failure");
		VF_CHECK(r < 0, "returns %d although the clock can't be read", r);
		return;
	}
	VF_CHECK(r == 0, "returns %d", r);
	if (!no_ms)
		VF_CHECK(ms <= 999, "%u milliseconds", ms);
	if (!no_off)
		VF_CHECK(off == 0, "offset %d in UTC", off);
	if (no_sec && no_ms)
		return;
	for (auto &l : clk.log)
		if ((l.clock == CLOCK_REALTIME || l.clock == CLOCK_REALTIME_COARSE) && (no_sec || (uint64_t)(l.t / G) == sec) && (no_ms || (unsigned)(l.t % G / 1000000) == ms))
			return;
	fail("no reading of the real-time clock shows %s%llu s %u ms (%zu readings, the first at %lld ms)", no_sec ? "(any) " : "", (unsigned long long)sec, ms, clk.log.size(), clk.log.empty() ? -1ll : (long long)(clk.log[0].t / 1000000));
}
