// VF variant: asan
// VF locale: yes
#include <errno.h>
#include <time.h>
#include "time_ref.h"
#include "futils/systimetools.h"
using namespace vf;
VF_PROPERTY("C15", "exploration", "a non-zero offset, or a day within two seconds of a month, year, leap-day or century turn, or a spelling other than the library's own");
VF_ASSUME("the reference calendar counts years one at a time with the Gregorian leap rule, 1970-01-01 being a Thursday");
VF_ASSUME("local times up to 9999-12-31T23:59:59; the process time zone takes several values and must not matter");

static const enum time_fmt F[3] = {TIME_FMT_SHORT, TIME_FMT_LONG, TIME_FMT_RFC1123};

static void one(uint64_t e, int32_t off, int which, bool exact)
{
	tr::Civil c = tr::from_local((int64_t)e + off);
	std::string want = tr::fmt(which, c, off);
	size_t n = exact ? want.size() + 1 : 128;
	char buf[128], *b = exact ? (char *)malloc(n) : buf;
	memset(b, 0x5a, n);
	int r = time_local_format(e, off, F[which], b, n);
	VF_CHECK(r == 0, "format %d of %llu%+d: returned %d", which, (unsigned long long)e, off, r);
	VF_CHECK(!strncmp(b, want.c_str(), n), "format %d of %llu offset %d: \"%.*s\", expected \"%s\"", which, (unsigned long long)e, off, (int)n, b, want.c_str());
	uint64_t e2 = ~0ull;
	int32_t o2 = 12345;
	r = time_local_parse(b, &e2, &o2);
	VF_CHECK(r == 0 && e2 == e && o2 == off, "parsing \"%s\" back: returned %d, instant %llu offset %d, expected %llu and %d", b, r, (unsigned long long)e2, o2, (unsigned long long)e, off);
	if (exact)
		free(b);
}
static void broken_down(uint64_t e, int32_t off, bool partial)
{
	tr::Civil c = tr::from_local((int64_t)e + off);
	struct tm tm;
	memset(&tm, 0x5a, sizeof tm);
	int r = time_local_to_tm(e, off, &tm);
	VF_CHECK(r == 0, "to_tm of %llu%+d: returned %d", (unsigned long long)e, off, r);
	VF_CHECK(tm.tm_year == c.y - 1900 && tm.tm_mon == c.mo - 1 && tm.tm_mday == c.d && tm.tm_hour == c.h && tm.tm_min == c.mi && tm.tm_sec == c.s && tm.tm_gmtoff == off,
		"to_tm of %llu offset %d: %d-%d-%d %d:%d:%d offset %ld, expected %d-%d-%d %d:%d:%d", (unsigned long long)e, off, tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec, tm.tm_gmtoff, c.y, c.mo, c.d, c.h, c.mi, c.s);
	VF_CHECK(tm.tm_wday == c.wday && tm.tm_yday == c.yday, "to_tm of %llu offset %d: weekday %d and day of year %d, expected %d and %d", (unsigned long long)e, off, tm.tm_wday, tm.tm_yday, c.wday, c.yday);
	struct tm in = tm;
	if (partial) { // only the date, time and offset are needed to get the instant back
		in.tm_wday = (int)draw(6);
		in.tm_yday = (int)draw(365);
		in.tm_isdst = (int)draw(2) - 1;
		in.tm_zone = nullptr;
	}
	uint64_t e2 = ~0ull;
	int32_t o2 = 12345;
	unsigned w = partial ? (unsigned)draw(2) : 0;
	r = time_local_from_tm(&in, w == 1 ? nullptr : &e2, w == 2 ? nullptr : &o2);
	VF_CHECK(r == 0 && (w == 1 || e2 == e) && (w == 2 || o2 == off), "from_tm of %llu offset %d: returned %d, instant %llu offset %d", (unsigned long long)e, off, r, (unsigned long long)e2, o2);
}
static bool edge(uint64_t e, int32_t off)
{
	tr::Civil a = tr::from_local((int64_t)e + off - 2), b = tr::from_local((int64_t)e + off + 2);
	return a.mo != b.mo || ((a.mo == 2 || b.mo == 2) && a.d != b.d);
}

VF_FACET(instants, 400000, 8000000)
{
	tr::some_timezone();
	some_locale();
	uint64_t e;
	int32_t off;
	tr::gen_instant(&e, &off);
	int which = (int)draw(2);
	note("instant %llu, offset %d s: %s", (unsigned long long)e, off, tr::fmt(which, tr::from_local((int64_t)e + off), off).c_str());
	if (off || edge(e, off))
		nontrivial();
	classify(which == 0 ? "ISO short" : which == 1 ? "ISO long" : "RFC 1123");
	one(e, off, which, true);
	broken_down(e, off, true);
}
VF_FACET(spellings, 400000, 8000000)
{
	tr::some_timezone();
	some_locale();
	uint64_t e, e2 = ~0ull;
	int32_t off, o2 = 12345;
	tr::gen_instant(&e, &off);
	tr::Civil c = tr::from_local((int64_t)e + off);
	std::string s = tr::spell_full(c, off);
	note("instant %llu, offset %d s spelled \"%s\"", (unsigned long long)e, off, s.c_str());
	nontrivial();
	tr::Text t(s);
	int r = time_local_parse(t.p, &e2, &o2);
	VF_CHECK(r == 0 && e2 == e && o2 == off, "\"%s\": returned %d, instant %llu offset %d, expected %llu and %d", s.c_str(), r, (unsigned long long)e2, o2, (unsigned long long)e, off);
	struct time_ctx ctx;
	VF_CHECK(time_ctx_init(&ctx) == 0, "init failed");
	r = time_ctx_set_time(&ctx, t.p);
	e2 = ~0ull;
	o2 = 12345;
	int g = time_ctx_get_local(&ctx, &e2, &o2);
	VF_CHECK(r == 0 && g == 0 && e2 == e && o2 == off, "context set to \"%s\": returned %d, get returned %d, instant %llu offset %d, expected %llu and %d", s.c_str(), r, g, (unsigned long long)e2, o2, (unsigned long long)e, off);
}
// every day of one year, all formats and the broken-down form
VF_FACET(every_day, 8030, 32120, NOMUT)
{
	int y = 1970 + (int)cycle(8029);
	int64_t d0 = tr::to_days(y, 1, 1);
	int n = tr::leap(y) ? 366 : 365;
	uint64_t seed = draw(UINT64_MAX);
	note("every day of year %d", y);
	nontrivial();
	Rng g{seed};
	for (int i = 0; i < n; i++) {
		uint64_t k = g.next();
		int32_t off = k & 1 ? 0 : (int32_t)((k >> 8) % 2879 - 1439) * 60;
		int sod = (k >> 2 & 3) == 0 ? 0 : (k >> 2 & 3) == 1 ? 86399 : (int)((k >> 24) % 86400);
		int64_t e = (d0 + i) * 86400 + sod - off;
		if (e < 0)
			continue;
		one((uint64_t)e, off, i % 3, false);
		broken_down((uint64_t)e, off, false);
	}
}
// every whole-minute offset
VF_FACET(every_offset, 2879, 28790, NOMUT)
{
	int32_t off = ((int32_t)cycle(2878) - 1439) * 60;
	uint64_t e = 86400 + draw(tr::MAX_LOCAL - 3 * 86400);
	note("instant %llu, offset %d s", (unsigned long long)e, off);
	nontrivial();
	for (int w = 0; w < 3; w++)
		one(e, off, w, true);
	broken_down(e, off, true);
	tr::Civil c = tr::from_local((int64_t)e + off);
	std::string s = tr::spell_full(c, off);
	uint64_t e2 = 0;
	int32_t o2 = 12345;
	int r = time_local_parse(s.c_str(), &e2, &o2);
	VF_CHECK(r == 0 && e2 == e && o2 == off, "\"%s\": returned %d, instant %llu offset %d", s.c_str(), r, (unsigned long long)e2, o2);
}
VF_FACET(small_buffers_and_bad_arguments, 20000, 200000)
{
	uint64_t e;
	int32_t off;
	tr::gen_instant(&e, &off);
	int which = (int)draw(2);
	size_t n = draw(40);
	note("format %d of %llu%+d into %zu bytes", which, (unsigned long long)e, off, n);
	std::string want = tr::fmt(which, tr::from_local((int64_t)e + off), off);
	if (n <= want.size())
		nontrivial();
	char *b = (char *)malloc(n ? n : 1);
	int r = time_local_format(e, off, F[which], b, n);
	if (n == 0)
		VF_CHECK(r < 0, "a buffer of no bytes: returned %d", r);
	else if (n > want.size())
		VF_CHECK(r == 0 && want == b, "returned %d", r);
	free(b);
	size_t large = wrapping(40);
	b = (char *)huge();
	memset(b, 0x5a, 64);
	r = time_local_format(e, off, F[which], b, large);
	VF_CHECK(r == 0 && want == b, "a buffer of %zu bytes: returned %d and wrote %s, expected %s", large, r, hex(b, 40).c_str(), want.c_str());
	char o[64];
	uint64_t u;
	int32_t v;
	struct tm tm = {};
	VF_CHECK(time_local_format(e, off, F[which], nullptr, 10) < 0, "null buffer accepted");
	VF_CHECK(time_local_format(e, off, (enum time_fmt)(3 + draw(1000)), o, sizeof o) < 0, "unknown format accepted");
	VF_CHECK(time_local_to_tm(e, off, nullptr) < 0, "null tm accepted");
	VF_CHECK(time_local_from_tm(nullptr, &u, &v) < 0, "null tm accepted");
	VF_CHECK(time_local_from_tm(&tm, nullptr, nullptr) < 0, "no output accepted");
}
