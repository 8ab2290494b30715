// VF variant: asan
// VF use: clock
// VF wrap: clock_gettime,clock_getres,gettimeofday,time,timespec_get,nanosleep,clock_nanosleep,usleep,sleep
#include <errno.h>
#include <string.h>
#include <sys/time.h>
#include <unistd.h>
#include <sys/syscall.h>
#include "clock.h"
#include "vf.h"
extern "C" {
#include "futils/timetools.h"
}
using namespace vf;
VF_PROPERTY("C14", "exploration", "slow clock reads, a timestamp away from now, a sleep of a second or more, or a failing or interrupted call");
VF_ASSUME("the library reads the time and sleeps through clock_gettime, gettimeofday, time, timespec_get, nanosleep, clock_nanosleep, usleep or sleep");

static const uint64_t G = 1000000000;
static void setup()
{
	clk_reset();
	clk.now = (ns_t)(weighted({3, 1, 1}) ? draw(400ull * 86400 * G) : draw(1000) * G + interesting(G - 1));
	ns_t rt = (ns_t)draw(chance(1, 4) ? 253402300799ull : 4000000000ull) * G + (ns_t)interesting(G - 1);
	for (int i = 0; i < 12; i++)
		clk.off[i] = (ns_t)(draw(1000) + 1) * 777777777 * (i + 1); // every clock different
	clk.off[CLOCK_MONOTONIC] = 0;
	clk.off[CLOCK_MONOTONIC_COARSE] = 0;
	clk.off[CLOCK_REALTIME] = clk.off[CLOCK_REALTIME_COARSE] = rt - clk.now;
	static const uint64_t lats[] = {0, 0, 300, 2000, 100000, 5000000, 2000000000, 3600000000000};
	clk.lat_max = lats[draw(7)];
	clk.lat_seed = draw(UINT64_MAX);
	if (clk.lat_max >= 100000)
		nontrivial();
}
static void plan_failure(int n)
{
	static const int errs[] = {EINVAL, EFAULT, ENOSYS, EPERM};
	if (!chance(1, 3))
		return;
	clk.fail_at = (long)draw((uint64_t)n - 1);
	clk.fail_err = errs[draw(3)];
}
static ns_t val(const timespec &t) { return (ns_t)t.tv_sec * 1000000000 + t.tv_nsec; }
static bool norm(const timespec &t) { return t.tv_nsec >= 0 && t.tv_nsec < (long)G; }
static bool failed(int r, const char *what)
{
	if (!clk.failed)
		return false;
	nontrivial();
	classify("clock failure");
	VF_CHECK(r < 0, "%s returns %d although a clock read failed (%s)", what, r, strerror(clk.fail_err));
	return true;
}
VF_FACET(reads, 300000, 1500000)
{
	setup();
	plan_failure(1);
	timespec t = {-7, -7};
	bool mono = chance(1, 2);
	ns_t from = clk.now;
	clk_arm();
	int r = mono ? time_get_monotonic(&t) : time_get_realtime(&t);
	clk_disarm();
	ns_t to = clk.now, off = mono ? 0 : clk.off[CLOCK_REALTIME];
	note("%s read, %llu ns long -> %d %lld.%09ld", mono ? "monotonic" : "real-time", (unsigned long long)(to - from), r, (long long)t.tv_sec, t.tv_nsec);
	if (failed(r, mono ? "time_get_monotonic" : "time_get_realtime"))
		return;
	VF_CHECK(r == 0, "returns %d on a working clock", r);
	VF_CHECK(norm(t), "not a normalised time: %ld ns", t.tv_nsec);
	// microsecond sources are within one microsecond
	VF_CHECK(val(t) >= from + off - (mono ? 0 : 999) && val(t) <= to + off, "reads %lld.%09ld, the clock shows %lld.%09lld", (long long)t.tv_sec, t.tv_nsec, (long long)((from + off) / (ns_t)G), (long long)((from + off) % (ns_t)G));
	if (chance(1, 2))
		nontrivial();
}
VF_FACET(elapsed, 400000, 1500000)
{
	setup();
	plan_failure(1);
	ns_t since = clk.now;
	bool future = false;
	switch (draw(3)) {
	case 0: since -= (ns_t)interesting((uint64_t)clk.now); break;
	case 1: since -= (ns_t)draw(std::min<uint64_t>((uint64_t)clk.now, 3 * G)); break;
	case 2: since -= since % G - (ns_t)interesting(G - 1); break;
	default: since += (ns_t)(clk.lat_max * 4 + 1 + draw(5 * G));
	}
	timespec v = {(time_t)(since / (ns_t)G), (long)(since % (ns_t)G)}, d = {-7, -7};
	int k = (int)weighted({30, 1, 1});
	ns_t from = clk.now;
	clk_arm();
	int r = time_timespec_diff_now(k == 1 ? nullptr : &v, k == 2 ? nullptr : &d);
	clk_disarm();
	ns_t to = clk.now;
	note("elapsed since %lld.%09ld at %lld ns -> %d %lld.%09ld", (long long)v.tv_sec, v.tv_nsec, (long long)from, r, (long long)d.tv_sec, d.tv_nsec);
	nontrivial();
	if (k) {
		VF_CHECK(r < 0, "accepts a missing argument");
		return;
	}
	if (failed(r, "time_timespec_diff_now"))
		return;
	if (since > to) {
		classify("timestamp in the future");
		VF_CHECK(r < 0, "gives an elapsed time since the future");
		return;
	}
	if (since > from) // became past during the call
		return;
	VF_CHECK(r == 0, "returns %d", r);
	VF_CHECK(norm(d), "not a normalised time: %ld ns", d.tv_nsec);
	VF_CHECK(val(d) >= from - since && val(d) <= to - since, "gives %lld.%09ld, %lld to %lld ns have elapsed", (long long)d.tv_sec, d.tv_nsec, (long long)(from - since), (long long)(to - since));
	if (clk.lat_max == 0)
		classify("exact");
}
VF_FACET(conversion, 1000000, 3000000)
{
	setup();
	plan_failure(3);
	bool ms = chance(1, 2);
	uint64_t unit = ms ? 1000000 : 1000;
	ns_t off = clk.off[CLOCK_REALTIME];
	// any timestamp whose real time is representable
	ns_t t;
	switch (draw(4)) {
	case 0: t = clk.now + (ns_t)irange(-2000000000, 2000000000); break;
	case 1: t = (ns_t)interesting((uint64_t)clk.now); break;
	case 2: t = clk.now + (ns_t)draw(1000) * 86400 * G; break;
	case 3: t = (ns_t)anyint(62) * 1000; break;
	default: t = clk.now + (ns_t)range(0, 1000000);
	}
	if (t < 0)
		t = 0;
	uint64_t m = (uint64_t)(t / (ns_t)unit);
	ns_t exact = (ns_t)m * (ns_t)unit + off;
	if (exact < 10 * (ns_t)clk.lat_max + 10000000) { // before 1970, or so close to it that the allowed error is: not representable
		classify("not representable");
		return;
	}
	uint64_t out = 0xdeadbeef;
	int k = (int)weighted({40, 1});
	ns_t from = clk.now;
	clk_arm();
	int r = ms ? time_monotonic_to_realtime_ms(m, k ? nullptr : &out) : time_monotonic_to_realtime_us(m, k ? nullptr : &out);
	clk_disarm();
	ns_t took = clk.now - from;
	note("monotonic %llu %s at %lld ns, conversion takes %lld ns, real-time ahead by %lld s -> %d %llu", (unsigned long long)m, ms ? "ms" : "us", (long long)from, (long long)took, (long long)(off / (ns_t)G), r, (unsigned long long)out);
	nontrivial();
	if (k) {
		VF_CHECK(r < 0, "accepts a missing output");
		return;
	}
	if (failed(r, "the conversion"))
		return;
	if (t > from)
		classify("timestamp in the future");
	else
		classify("timestamp in the past");
	VF_CHECK(r == 0, "returns %d on working clocks", r);
	ns_t got = (ns_t)out * (ns_t)unit, err = got > exact ? got - exact : exact - got;
	ns_t tol = took + 2000 + (ms ? 1000000 : 0);
	VF_CHECK(err <= tol, "is %lld ns from the right instant; the conversion took %lld ns", (long long)err, (long long)took);
}
VF_FACET(sleep_, 400000, 2000000)
{
	setup();
	uint32_t ms = chance(1, 4) ? (uint32_t)anyint(32) : chance(1, 2) ? (uint32_t)(draw(100) * 1000 + interesting(999)) : (uint32_t)smallish(5000);
	clk.sleep_over = chance(1, 2) ? 0 : (unsigned)draw(1000000);
	static const int errs[] = {0, EINTR, EINVAL, EFAULT};
	clk.sleep_err = errs[weighted({4, 2, 1, 1})];
	clk.sleep_part = (unsigned)draw(255);
	ns_t from = clk.now;
	clk_arm();
	int r = time_msleep(ms);
	clk_disarm();
	ns_t took = clk.now - from;
	note("sleep %u ms (%s) -> %d after %lld ns, %ld calls", ms, clk.sleep_err ? strerror(clk.sleep_err) : "undisturbed", r, (long long)took, clk.sleeps);
	if (clk.sleep_err && clk.sleeps) {
		nontrivial();
		classify(clk.sleep_err == EINTR ? "interrupted" : "failing sleep");
		VF_CHECK(r < 0 || (r == 0 && took >= (ns_t)ms * 1000000), "returns %d although the sleep ended with: %s", r, strerror(clk.sleep_err));
		return;
	}
	if (ms >= 1000)
		nontrivial();
	VF_CHECK(r <= 0, "returns %d", r);
	VF_CHECK(r == 0, "fails (%d) undisturbed", r);
	VF_CHECK(took >= (ns_t)ms * 1000000, "lasted %lld ns only", (long long)took);
}
// the same functions with the real clocks
static ns_t raw(int id)
{
	timespec t;
	syscall(SYS_clock_gettime, id, &t);
	return val(t);
}
VF_FACET(real, 300, 3000)
{
	nontrivial();
	timespec t;
	ns_t a = raw(CLOCK_MONOTONIC);
	VF_CHECK(!time_get_monotonic(&t), "monotonic read fails");
	ns_t b = raw(CLOCK_MONOTONIC);
	VF_CHECK(val(t) >= a && val(t) <= b, "monotonic time %lld not within %lld..%lld", (long long)val(t), (long long)a, (long long)b);
	uint32_t ms = (uint32_t)draw(12);
	a = raw(CLOCK_MONOTONIC);
	int r = time_msleep(ms);
	b = raw(CLOCK_MONOTONIC);
	note("sleep %u ms: %lld ns", ms, (long long)(b - a));
	VF_CHECK(r == 0 && b - a >= (ns_t)ms * 1000000, "sleep of %u ms returns %d after %lld ns", ms, r, (long long)(b - a));
}
