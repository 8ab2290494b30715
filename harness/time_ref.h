// Independent reference of the proleptic Gregorian calendar and of the accepted
// date / hour / time spellings (C15, C16, C17).
#pragma once
#include "vf.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include <time.h>

namespace tr {
static const char *const WD[7] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"};
static const char *const MO[12] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};

inline bool leap(int y) { return y % 400 == 0 || (y % 4 == 0 && y % 100 != 0); }
inline int mdays(int y, int m)
{
	static const int d[13] = {0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
	return d[m] + (m == 2 && leap(y));
}
// days from 1970-01-01 to the first of January of year y, counted one year at a time
struct Table {
	int64_t start[10003]; // index: year
	Table()
	{
		start[1970] = 0;
		for (int y = 1971; y < 10003; y++)
			start[y] = start[y - 1] + (leap(y - 1) ? 366 : 365);
		for (int y = 1969; y >= 0; y--)
			start[y] = start[y + 1] - (leap(y) ? 366 : 365);
	}
};
inline const Table &tab()
{
	static Table t;
	return t;
}
struct Civil { int y, mo, d, h, mi, s, wday, yday; };
inline int64_t to_days(int y, int mo, int d)
{
	int64_t n = tab().start[y] + d - 1;
	for (int m = 1; m < mo; m++)
		n += mdays(y, m);
	return n;
}
inline int64_t to_local(const Civil &c)
{
	return to_days(c.y, c.mo, c.d) * 86400 + c.h * 3600 + c.mi * 60 + c.s;
}
inline Civil from_local(int64_t t)
{
	Civil c;
	int64_t day = t / 86400, sec = t % 86400;
	if (sec < 0) {
		sec += 86400;
		day--;
	}
	int lo = 0, hi = 10001;
	while (hi - lo > 1) {
		int m = (lo + hi) / 2;
		if (tab().start[m] <= day)
			lo = m;
		else
			hi = m;
	}
	c.y = lo;
	int64_t r = day - tab().start[lo];
	c.yday = (int)r;
	c.mo = 1;
	while (r >= mdays(c.y, c.mo))
		r -= mdays(c.y, c.mo++);
	c.d = (int)r + 1;
	c.h = (int)(sec / 3600);
	c.mi = (int)(sec / 60 % 60);
	c.s = (int)(sec % 60);
	c.wday = (int)(((day % 7) + 7 + 4) % 7); // 1970-01-01 was a Thursday
	return c;
}
const int64_t MAX_LOCAL = 253402300799; // 9999-12-31T23:59:59

// an instant whose local time lies in 1970..9999 (or just before 1970 with a non-negative instant)
inline void gen_instant(uint64_t *epoch, int32_t *off)
{
	int64_t o;
	switch (vf::weighted({2, 3, 2})) {
	case 0: o = 0; break;
	case 1: o = vf::irange(-1439, 1439) * 60; break;
	default: {
		static const int k[] = {1, 59, 60, 61, 719, 720, 721, 1380, 1439, 30, 345, 570};
		o = k[vf::draw(11)] * 60;
		if (vf::chance(1, 2))
			o = -o;
	}
	}
	int64_t e;
	switch (vf::weighted({3, 3, 3, 2, 1})) {
	case 0: e = (int64_t)vf::draw(MAX_LOCAL); break;
	case 1: { // around the turn of a day, month, year, leap day or century, in local time
		int y = (int)vf::range(1970, 9999);
		if (vf::chance(1, 2))
			y = y / 100 * 100 < 1970 ? 2000 : y / 100 * 100;
		if (vf::chance(1, 4))
			y = vf::chance(1, 2) ? 1972 : 2400;
		int mo = (int)vf::range(1, 12);
		if (vf::chance(1, 2))
			mo = vf::chance(1, 2) ? 2 : 3;
		int d = vf::chance(1, 2) ? 1 : mdays(y, mo);
		e = to_days(y, mo, d) * 86400 + (vf::chance(1, 2) ? vf::irange(-2, 2) : vf::irange(0, 86399)) - o;
		break;
	}
	case 2: e = (int64_t)vf::draw(4102444800ull); break;  // 1970..2100
	case 3: e = (int64_t)vf::interesting(MAX_LOCAL); break;
	default: e = vf::chance(1, 2) ? vf::irange(0, 172800) : MAX_LOCAL - vf::irange(0, 172800);
	}
	if (e < 0)
		e = 0;
	if (e + o > MAX_LOCAL)
		e = MAX_LOCAL - o;
	if (e > MAX_LOCAL)
		e = MAX_LOCAL;
	*epoch = (uint64_t)e;
	*off = (int32_t)o;
}
inline std::string fmt(int which, const Civil &c, int off)
{
	char b[96];
	int a = off < 0 ? -off : off;
	char sg = off < 0 ? '-' : '+';
	if (which == 0)
		snprintf(b, sizeof b, "%04d%02d%02dT%02d%02d%02d%c%02d%02d", c.y, c.mo, c.d, c.h, c.mi, c.s, sg, a / 3600, a / 60 % 60);
	else if (which == 1)
		snprintf(b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02d%c%02d:%02d", c.y, c.mo, c.d, c.h, c.mi, c.s, sg, a / 3600, a / 60 % 60);
	else if (off == 0)
		snprintf(b, sizeof b, "%s, %d %s %d %02d:%02d:%02d GMT", WD[c.wday], c.d, MO[c.mo - 1], c.y, c.h, c.mi, c.s);
	else
		snprintf(b, sizeof b, "%s, %d %s %d %02d:%02d:%02d %c%02d%02d", WD[c.wday], c.d, MO[c.mo - 1], c.y, c.h, c.mi, c.s, sg, a / 3600, a / 60 % 60);
	return b;
}

// a permitted spelling of the parts; which: 0..1 ISO short/long, 2..3 RFC normal/inverted
inline std::string spell_date(const Civil &c, int which)
{
	char b[64], d[8];
	snprintf(d, sizeof d, c.d < 10 && vf::chance(1, 2) ? "%d" : "%02d", c.d);
	switch (which) {
	case 0: snprintf(b, sizeof b, "%04d%02d%02d", c.y, c.mo, c.d); break;
	case 1: snprintf(b, sizeof b, "%04d-%02d-%02d", c.y, c.mo, c.d); break;
	case 2: snprintf(b, sizeof b, "%s, %s %s %04d", WD[c.wday], d, MO[c.mo - 1], c.y); break;
	default: snprintf(b, sizeof b, "%s, %s %s %04d", WD[c.wday], MO[c.mo - 1], d, c.y); break;
	}
	return b;
}
inline std::string spell_zone(int off)
{
	char b[16];
	int a = off < 0 ? -off : off;
	if (off == 0 && vf::chance(2, 3)) {
		static const char *const z[] = {"Z", "GMT", "UT", "UTC"};
		return z[vf::draw(3)];
	}
	bool neg = off < 0 || (off == 0 && vf::chance(1, 2));
	snprintf(b, sizeof b, vf::chance(1, 2) ? "%c%02d:%02d" : "%c%02d%02d", neg ? '-' : '+', a / 3600, a / 60 % 60);
	return b;
}
inline std::string spell_hour(const Civil &c, int off)
{
	char b[32];
	snprintf(b, sizeof b, vf::chance(1, 2) ? "%02d:%02d:%02d" : "%02d%02d%02d", c.h, c.mi, c.s);
	return std::string(b) + (vf::chance(1, 3) ? " " : "") + spell_zone(off);
}
inline std::string spell_full(const Civil &c, int off)
{
	int w = (int)vf::weighted({2, 2, 2, 2});
	return spell_date(c, w) + (w < 2 && vf::chance(2, 3) ? "T" : " ") + spell_hour(c, off);
}

// ---- what a text means
enum Verdict { REJECT, ACCEPT, EITHER };
struct Meaning {
	Verdict v = REJECT;
	Civil c = {};
	int off = 0;
	int64_t instant() const { return to_local(c) - off; }
};
struct Cur {
	const char *p;
	bool digits(int n, int *v)
	{
		*v = 0;
		for (int i = 0; i < n; i++) {
			if (p[i] < '0' || p[i] > '9')
				return false;
			*v = *v * 10 + (p[i] - '0');
		}
		p += n;
		return true;
	}
	bool lit(const char *s)
	{
		size_t n = strlen(s);
		if (strncmp(p, s, n))
			return false;
		p += n;
		return true;
	}
	int name(const char *const *t, int n)
	{
		for (int i = 0; i < n; i++)
			if (lit(t[i]))
				return i;
		return -1;
	}
};
inline bool date_ok(const Civil &c) { return c.mo >= 1 && c.mo <= 12 && c.d >= 1 && c.d <= mdays(c.y, c.mo); }
inline bool m_iso(Cur &u, Civil *c)
{
	Cur k = u;
	if (k.digits(4, &c->y)) {
		bool lng = k.lit("-");
		if (k.digits(2, &c->mo) && (!lng || k.lit("-")) && k.digits(2, &c->d)) {
			u = k;
			return true;
		}
	}
	return false;
}
inline bool m_day(Cur &u, int *d)
{
	Cur k = u;
	if (k.digits(2, d)) {
		u = k;
		return true;
	}
	return u.digits(1, d);
}
// sets *odd when the weekday is not that of the date
inline bool m_rfc(Cur &u, Civil *c, bool *odd)
{
	Cur k = u;
	int w = k.name(WD, 7), m;
	if (w < 0 || !k.lit(", "))
		return false;
	if (isdigit((unsigned char)*k.p)) {
		if (!m_day(k, &c->d) || !k.lit(" ") || (m = k.name(MO, 12)) < 0)
			return false;
	} else {
		if ((m = k.name(MO, 12)) < 0 || !k.lit(" ") || !m_day(k, &c->d))
			return false;
	}
	if (!k.lit(" ") || !k.digits(4, &c->y))
		return false;
	c->mo = m + 1;
	*odd = date_ok(*c) && from_local(to_days(c->y, c->mo, c->d) * 86400).wday != w;
	u = k;
	return true;
}
// hour and zone up to the end of the text; *odd: unspecified whether accepted
inline bool m_hour(Cur u, Civil *c, int *off, bool *odd)
{
	if (!u.digits(2, &c->h))
		return false;
	bool lng = u.lit(":");
	if (!u.digits(2, &c->mi) || (lng && !u.lit(":")) || !u.digits(2, &c->s))
		return false;
	u.lit(" ");
	if (c->h > 23 || c->mi > 59 || c->s > 60)
		return false;
	if (c->s == 60)
		*odd = true;
	if (!strcmp(u.p, "Z") || !strcmp(u.p, "GMT") || !strcmp(u.p, "UT") || !strcmp(u.p, "UTC")) {
		*off = 0;
		return true;
	}
	bool neg = *u.p == '-';
	int oh, om;
	if (!(u.lit("-") || u.lit("+")) || !u.digits(2, &oh))
		return false;
	u.lit(":");
	if (!u.digits(2, &om) || *u.p)
		return false;
	if (oh > 23 || om > 59)
		*odd = true;
	*off = (oh * 60 + om) * 60 * (neg ? -1 : 1);
	return true;
}
inline void finish(Meaning *m, bool odd)
{
	// years before 1970 have no representation in the unsigned result
	m->v = odd || (m->instant() < 0) ? EITHER : ACCEPT;
}
inline Meaning full(const char *s)
{
	Meaning m;
	Cur u{s};
	bool odd = false, rfc = false;
	if (m_rfc(u, &m.c, &odd))
		rfc = true;
	else if (!m_iso(u, &m.c))
		return m;
	if (!date_ok(m.c))
		return m;
	if (u.lit(" ")) {
		if (u.lit("T"))
			odd = true;
	} else if (u.lit("T")) {
		if (rfc)
			odd = true;
	} else
		odd = true;
	if (!m_hour(u, &m.c, &m.off, &odd))
		return m;
	finish(&m, odd);
	return m;
}
inline Meaning date(const char *s)
{
	Meaning m;
	Cur u{s};
	if (m_iso(u, &m.c) && !*u.p && date_ok(m.c))
		m.v = m.c.y < 1970 ? EITHER : ACCEPT;
	return m;
}
inline Meaning hour(const char *s)
{
	Meaning m;
	Cur u{s};
	bool odd = false;
	u.lit("T");
	if (m_hour(u, &m.c, &m.off, &odd))
		m.v = odd ? EITHER : ACCEPT;
	return m;
}

// ---- a text near a permitted one
inline std::string mutate(std::string s)
{
	static const char al[] = "0123456789:-+ TZGMUC,.SJanuFebMrApyJlgSOctNovDWdhi\t\n/x\xff\x80";
	unsigned n = 1 + (unsigned)vf::smallish(4);
	for (unsigned i = 0; i < n; i++) {
		size_t at = s.empty() ? 0 : vf::draw(s.size() - 1);
		char ch = al[vf::draw(sizeof al - 2)];
		switch (vf::weighted({5, 2, 2, 1, 1, 2, 1})) {
		case 0: if (!s.empty()) s[at] = ch; break;
		case 1: s.insert(at, 1, ch); break;
		case 2: if (!s.empty()) s.erase(at, 1); break;
		case 3: s.resize(at); break;
		case 4: s += ch; break;
		case 5: // another digit for a digit
			if (!s.empty()) {
				size_t j = at;
				while (j < s.size() && !isdigit((unsigned char)s[j]))
					j++;
				if (j < s.size())
					s[j] = (char)('0' + vf::draw(9));
			}
			break;
		case 6: // sign or space in place of a leading digit
			if (!s.empty())
				s[at] = " +-"[vf::draw(2)];
			break;
		}
	}
	size_t z = s.find('\0');
	if (z != std::string::npos)
		s.resize(z);
	return s;
}
// fields out of calendar range, or just at its edge
inline void bend(Civil *c)
{
	switch (vf::draw(5)) {
	case 0: c->mo = (int)(vf::chance(1, 2) ? 0 : vf::range(13, 99)); break;
	case 1: c->d = vf::chance(1, 3) ? 0 : (int)vf::range(mdays(c->y, c->mo) + 1, vf::chance(1, 2) ? 32 : 99); break;
	case 2: c->h = (int)vf::range(24, 99); break;
	case 3: c->mi = (int)vf::range(60, 99); break;
	case 4: c->s = (int)vf::range(60, 99); break;
	default: c->d = mdays(c->y, c->mo) + 1;
	}
}
// exact-size copy so that a read past the terminator is seen
struct Text {
	char *p;
	explicit Text(const std::string &s) : p((char *)malloc(s.size() + 1)) { memcpy(p, s.c_str(), s.size() + 1); }
	~Text() { free(p); }
};
inline void some_timezone()
{
	static const char *const z[] = {"UTC", "EST5EDT,M3.2.0,M11.1.0", "<+1245>-12:45", "CET-1CEST,M3.5.0,M10.5.0/3"};
	static size_t cur = 99;
	size_t i = vf::weighted({6, 1, 1, 1});
	if (i != cur) {
		setenv("TZ", z[i], 1);
		tzset();
		cur = i;
	}
}
} // namespace tr
