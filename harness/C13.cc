// VF variant: asan
#include "vf.h"
extern "C" {
#include "futils/timetools.h"
}
#include <errno.h>
#include <string.h>
using namespace vf;
typedef __int128 i128;
VF_PROPERTY("C13", "exploration", "the operands differ, and a carry, borrow, truncation, large amount or equal-nanoseconds case is involved");
VF_ASSUME("64-bit time_t; the order reported for the sign of a zero difference and a zero range on equal times are left open");

static const int64_t G = 1000000000;
static timespec ts_of(i128 ns)
{
	i128 s = ns / G, r = ns % G;
	if (r < 0) {
		r += G;
		s--;
	}
	timespec t;
	t.tv_sec = (time_t)s;
	t.tv_nsec = (long)r;
	return t;
}
static i128 ns_of(const timespec &t) { return (i128)t.tv_sec * G + t.tv_nsec; }
static bool fits_sec(i128 ns)
{
	i128 s = ns / G - (ns % G < 0);
	return s >= INT64_MIN && s <= INT64_MAX;
}
static long gen_nsec()
{
	switch (weighted({3, 2, 2, 2})) {
	case 0: return (long)draw(G - 1);
	case 1: return (long)draw(2);
	case 2: return G - 1 - (long)draw(2);
	default: return (long)draw(999) * 1000000 + (long)draw(2) * 1000 + (long)draw(1);
	}
}
static timespec gen_ts(bool nonneg)
{
	timespec t;
	uint64_t v = interesting(nonneg ? INT64_MAX : UINT64_MAX);
	if (chance(1, 2))
		v = smallish(4000000000u);
	t.tv_sec = (time_t)v;
	t.tv_nsec = gen_nsec();
	return t;
}
static timespec near(const timespec &a)
{
	// b close to a, or with the same seconds or nanoseconds
	timespec b = gen_ts(false);
	switch (weighted({2, 2, 2, 2, 1})) {
	case 0: break;
	case 1: b.tv_sec = a.tv_sec; break;
	case 2: b.tv_nsec = a.tv_nsec; break;
	case 3: b.tv_sec = (time_t)((uint64_t)a.tv_sec + (uint64_t)irange(-2, 2)); break;
	case 4: b = a; break;
	}
	return b;
}
#define P(t) (long)(t).tv_sec, (long)(t).tv_nsec
static bool norm(const timespec &t) { return t.tv_nsec >= 0 && t.tv_nsec < G; }

VF_FACET(compare_and_difference, 1500000, 30000000)
{
	timespec a = gen_ts(false), b = near(a), d = {77, 77};
	if (chance(1, 2))
		std::swap(a, b);
	i128 na = ns_of(a), nb = ns_of(b), diff = nb - na;
	note("a=%ld.%09ld b=%ld.%09ld", P(a), P(b));
	int c = time_timespec_cmp(&a, &b), c2 = time_timespec_cmp(&b, &a);
	int want = na > nb ? 1 : na < nb ? -1 : 0;
	VF_CHECK(c == want && c2 == -want, "cmp(%ld.%09ld, %ld.%09ld) = %d, reversed %d", P(a), P(b), c, c2);
	if (na != nb && (a.tv_nsec == b.tv_nsec || (a.tv_sec != b.tv_sec && (a.tv_nsec > b.tv_nsec) != (na > nb))))
		nontrivial();
	// durations beyond 64 bits of seconds are not representable
	i128 whole = (i128)b.tv_sec - a.tv_sec;
	if (whole > INT64_MAX || whole < -(i128)INT64_MAX)
		return;
	int r = time_timespec_diff(&a, &b, &d);
	if (diff < 0)
		VF_CHECK(r < 0, "diff of a later start returned %d", r);
	else
		VF_CHECK(r == 0 && norm(d) && ns_of(d) == diff, "diff(%ld.%09ld, %ld.%09ld) returned %d, %ld.%09ld", P(a), P(b), r, P(d));
	if (diff >= 0) { // in place of one of the operands
		timespec x = a, y = b;
		r = time_timespec_diff(&x, &b, &x);
		VF_CHECK(r == 0 && norm(x) && ns_of(x) == diff, "diff(%ld.%09ld, %ld.%09ld) in place of the first returned %d, %ld.%09ld", P(a), P(b), r, P(x));
		r = time_timespec_diff(&a, &y, &y);
		VF_CHECK(r == 0 && norm(y) && ns_of(y) == diff, "diff(%ld.%09ld, %ld.%09ld) in place of the second returned %d, %ld.%09ld", P(a), P(b), r, P(y));
	}
	i128 mag = diff < 0 ? -diff : diff;
	i128 us = mag / 1000;
	if (us > (i128)UINT64_MAX)
		return;
	uint64_t o = 4242;
	int sg = 99;
	r = time_timespec_diff_us(&a, &b, &o, &sg);
	VF_CHECK(r == 0 && o == (uint64_t)us, "diff_us(%ld.%09ld, %ld.%09ld) returned %d, %lu", P(a), P(b), r, o);
	if (diff)
		VF_CHECK(sg == (diff < 0 ? 1 : -1), "diff_us(%ld.%09ld, %ld.%09ld) sign %d", P(a), P(b), sg);
	else
		VF_CHECK(sg >= -1 && sg <= 1, "sign %d", sg);
	o = 4242;
	r = time_timespec_diff_us(&a, &b, &o, nullptr);
	VF_CHECK(r == 0 && o == (uint64_t)us, "diff_us without sign returned %d, %lu", r, o);
	uint64_t range;
	switch (weighted({2, 2, 1})) {
	case 0: range = interesting(UINT64_MAX); break;
	case 1: range = (uint64_t)us + draw(4) - 2; break;
	default: range = draw(3); break;
	}
	o = 4242;
	r = time_timespec_diff_in_range(&a, &b, range, &o);
	VF_CHECK(o == (uint64_t)us, "diff_in_range(%ld.%09ld, %ld.%09ld) reported difference %lu, exact %lu us", P(a), P(b), o, (uint64_t)us);
	if (diff || range)
		VF_CHECK(r == ((uint64_t)us < range), "diff_in_range(%ld.%09ld, %ld.%09ld, %lu us) = %d", P(a), P(b), range, r);
	int r2 = time_timespec_diff_in_range(&a, &b, range, nullptr);
	VF_CHECK(r2 == r, "diff_in_range without output = %d, with %d", r2, r);
}

VF_FACET(add, 1500000, 30000000)
{
	timespec a = gen_ts(false), res = {55, 55};
	bool us = draw(1);
	int64_t delta = (int64_t)anyint(64);
	i128 u = us ? 1000 : 1;
	if (chance(1, 3)) // to just around a second boundary
		delta = (int64_t)(((i128)irange(-3, 3) * G - (chance(1, 2) ? a.tv_nsec : 0)) / u) + irange(-2, 2);
	i128 want = ns_of(a) + (i128)delta * u;
	note("%ld.%09ld + %ld %s", P(a), delta, us ? "us" : "ns");
	if (!fits_sec(want))
		return;
	timespec w = ts_of(want);
	if (w.tv_sec != a.tv_sec && delta % G != 0)
		nontrivial();
	int r = us ? time_timespec_add_us(&a, delta, &res) : time_timespec_add_ns(&a, delta, &res);
	VF_CHECK(r == 0 && res.tv_sec == w.tv_sec && res.tv_nsec == w.tv_nsec, "%ld.%09ld + %ld %s = %ld.%09ld (returned %d), exact %ld.%09ld",
		 P(a), delta, us ? "us" : "ns", P(res), r, P(w));
	timespec x = a;
	r = us ? time_timespec_add_us(&x, delta, &x) : time_timespec_add_ns(&x, delta, &x);
	VF_CHECK(r == 0 && x.tv_sec == w.tv_sec && x.tv_nsec == w.tv_nsec, "%ld.%09ld + %ld %s in place = %ld.%09ld (returned %d), exact %ld.%09ld",
		 P(a), delta, us ? "us" : "ns", P(x), r, P(w));
	// adding the opposite amount comes back
	if (delta != INT64_MIN) {
		timespec back = {5, 5};
		r = us ? time_timespec_add_us(&res, -delta, &back) : time_timespec_add_ns(&res, -delta, &back);
		VF_CHECK(r == 0 && back.tv_sec == a.tv_sec && back.tv_nsec == a.tv_nsec, "subtracting what was added: %ld.%09ld", P(back));
	}
}

VF_FACET(convert, 1500000, 30000000)
{
	// to unsigned counts and back
	static const uint64_t unit[3] = {1, 1000, 1000000};
	static const char *nm[3] = {"ns", "us", "ms"};
	unsigned k = (unsigned)draw(2);
	auto to = k == 0 ? time_timespec_to_ns : k == 1 ? time_timespec_to_us : time_timespec_to_ms;
	auto from = k == 0 ? time_ns_to_timespec : k == 1 ? time_us_to_timespec : time_ms_to_timespec;
	uint64_t v = anyint(64), o = 999;
	timespec t = {9, 9};
	note("%lu %s", v, nm[k]);
	int r = from(&v, &t);
	VF_CHECK(r == 0 && norm(t) && ns_of(t) == (i128)v * unit[k], "%lu %s gives %ld.%09ld (returned %d)", v, nm[k], P(t), r);
	r = to(&t, &o);
	VF_CHECK(r == 0 && o == v, "%lu %s converts back to %lu (returned %d)", v, nm[k], o, r);
	timespec a = gen_ts(true);
	i128 w = ns_of(a) / (i128)unit[k];
	if (w <= (i128)UINT64_MAX) {
		note("%ld.%09ld to %s", P(a), nm[k]);
		o = 999;
		r = to(&a, &o);
		VF_CHECK(r == 0 && o == (uint64_t)w, "%ld.%09ld is %lu %s (returned %d), exact %lu", P(a), o, nm[k], r, (uint64_t)w);
		if (a.tv_nsec % (long)unit[k] || k == 0)
			nontrivial();
	}
	timeval tv;
	tv.tv_sec = a.tv_sec;
	tv.tv_usec = (suseconds_t)(a.tv_nsec / 1000);
	timespec c = {9, 9};
	r = time_timeval_to_timespec(&tv, &c);
	VF_CHECK(r == 0 && c.tv_sec == tv.tv_sec && c.tv_nsec == tv.tv_usec * 1000, "timeval %ld.%06ld gives %ld.%09ld", (long)tv.tv_sec, (long)tv.tv_usec, P(c));
	tv.tv_sec = (time_t)smallish(4294967);
	i128 ms = (i128)tv.tv_sec * 1000 + tv.tv_usec / 1000;
	uint32_t m = 999;
	if (ms <= (i128)UINT32_MAX) {
		r = time_timeval_to_ms(&tv, &m);
		VF_CHECK(r == 0 && m == (uint32_t)ms, "timeval %ld.%06ld is %u ms", (long)tv.tv_sec, (long)tv.tv_usec, m);
	}
}

VF_FACET(order_laws, 300000, 5000000)
{
	timespec a = gen_ts(false), b = near(a), c = near(b);
	note("%ld.%09ld %ld.%09ld %ld.%09ld", P(a), P(b), P(c));
	int ab = time_timespec_cmp(&a, &b), bc = time_timespec_cmp(&b, &c), ac = time_timespec_cmp(&a, &c);
	VF_CHECK(time_timespec_cmp(&a, &a) == 0, "not reflexive");
	if (ab <= 0 && bc <= 0)
		VF_CHECK(ac <= 0 && (ac < 0 || (ab == 0 && bc == 0)), "not transitive");
	if (ab == 0)
		VF_CHECK(ac == bc, "equal values compare differently");
	if (ab && bc && ac)
		nontrivial();
}

VF_FACET(missing_arguments, 2000, 20000)
{
	timespec a = gen_ts(true), o;
	uint64_t u = 1;
	unsigned m = (unsigned)draw(2);
	nontrivial();
	note("missing argument %u", m);
	VF_CHECK(time_timespec_diff(m == 0 ? nullptr : &a, m == 1 ? nullptr : &a, m == 2 ? nullptr : &o) < 0, "diff");
	VF_CHECK(time_timespec_cmp(m == 0 ? nullptr : &a, m == 0 && draw(1) ? &a : nullptr) == 0, "cmp");
	const timespec *in = m & 1 ? nullptr : &a;
	timespec *out = m & 1 ? &o : nullptr;
	VF_CHECK(time_timespec_add_ns(in, 5, out) < 0 && time_timespec_add_us(in, 5, out) < 0, "add");
	VF_CHECK(time_timespec_to_ns(in, in ? nullptr : &u) < 0 && time_timespec_to_us(in, in ? nullptr : &u) < 0 && time_timespec_to_ms(in, in ? nullptr : &u) < 0, "to");
	VF_CHECK(time_ns_to_timespec(in ? &u : nullptr, out) < 0 && time_us_to_timespec(in ? &u : nullptr, out) < 0 && time_ms_to_timespec(in ? &u : nullptr, out) < 0, "from");
}
