// VF variant: asan
// VF locale: yes
#include <errno.h>
#include "time_ref.h"
#include "futils/systimetools.h"
using namespace vf;
VF_PROPERTY("C16", "exploration", "the text is malformed or impossible, mostly by few characters or by one field");
VF_ASSUME("left unspecified, either answer accepted: second 60, results before 1970, zone offsets of a day or more or with 60 or more minutes, a weekday which is not the date's, no separator or ' T' between date and hour, 'T' after an RFC 1123 date");

static void judge(const std::string &s, int form)
{
	tr::Text t(s);
	tr::Meaning m;
	int r, g = 0;
	uint64_t e = ~0ull;
	int32_t off = 12345;
	int64_t want;
	int32_t woff;
	struct time_ctx ctx;
	time_ctx_init(&ctx);
	const char *what;
	switch (form) {
	case 0:
		what = "time";
		m = tr::full(t.p);
		r = time_local_parse(t.p, &e, &off);
		{
			int r2 = time_ctx_set_time(&ctx, t.p);
			VF_CHECK((r2 < 0) == (r < 0) && (r2 < 0 || r2 == r), "\"%s\": parsing returned %d but setting a context to it %d", quote(s).c_str(), r, r2);
			if (r < 0) {
				uint64_t x;
				int32_t y;
				VF_CHECK(time_ctx_get_local(&ctx, &x, &y) < 0, "the context is complete after \"%s\" was refused", quote(s).c_str());
			}
		}
		want = m.v == tr::ACCEPT ? m.instant() : 0;
		woff = m.off;
		break;
	case 1:
		what = "date";
		m = tr::date(t.p);
		r = time_ctx_set_date(&ctx, t.p);
		if (r == -EINPROGRESS) {
			r = time_ctx_set_hour(&ctx, "00:00:00Z");
			VF_CHECK(r == 0, "setting the hour after the date \"%s\": returned %d", quote(s).c_str(), r);
			g = time_ctx_get_local(&ctx, &e, &off);
		} else
			VF_CHECK(r < 0, "date \"%s\" alone: returned %d", quote(s).c_str(), r);
		want = m.v == tr::ACCEPT ? m.instant() : 0;
		woff = 0;
		break;
	default:
		what = "hour";
		m = tr::hour(t.p);
		r = time_ctx_set_hour(&ctx, t.p);
		if (r == -EINPROGRESS) {
			r = time_ctx_set_date(&ctx, "2000-03-01");
			VF_CHECK(r == 0, "setting the date after the hour \"%s\": returned %d", quote(s).c_str(), r);
			g = time_ctx_get_local(&ctx, &e, &off);
		} else
			VF_CHECK(r < 0, "hour \"%s\" alone: returned %d", quote(s).c_str(), r);
		m.c.y = 2000;
		m.c.mo = 3;
		m.c.d = 1;
		want = m.v == tr::ACCEPT ? m.instant() : 0;
		woff = m.off;
	}
	VF_CHECK(r <= 0, "%s \"%s\": returned %d", what, quote(s).c_str(), r);
	if (m.v == tr::ACCEPT) {
		classify("acceptable");
		VF_CHECK(r == 0 && g == 0 && (int64_t)e == want && off == woff, "%s \"%s\": returned %d, instant %llu offset %d, expected %lld and %d", what, quote(s).c_str(), r, (unsigned long long)e, off, (long long)want, woff);
	} else if (m.v == tr::REJECT) {
		classify("malformed or impossible");
		nontrivial();
		VF_CHECK(r < 0, "%s \"%s\" is malformed or impossible but was accepted (instant %llu offset %d)", what, quote(s).c_str(), (unsigned long long)e, off);
	} else
		classify("unspecified");
}
static std::string spell(int form, const tr::Civil &c, int off)
{
	if (form == 0)
		return tr::spell_full(c, off);
	if (form == 1)
		return tr::spell_date(c, (int)draw(1));
	return (chance(1, 4) ? "T" : "") + tr::spell_hour(c, off);
}

VF_FACET(near_texts, 1500000, 30000000)
{
	tr::some_timezone();
	some_locale();
	uint64_t e;
	int32_t off;
	tr::gen_instant(&e, &off);
	tr::Civil c = tr::from_local((int64_t)e + off);
	int form = (int)weighted({3, 1, 1});
	std::string s = spell(form, c, off);
	s = tr::mutate(s);
	note("%s %s", form == 0 ? "time" : form == 1 ? "date" : "hour", quote(s).c_str());
	judge(s, form);
}
VF_FACET(impossible_fields, 300000, 5000000)
{
	tr::some_timezone();
	some_locale();
	uint64_t e;
	int32_t off;
	tr::gen_instant(&e, &off);
	tr::Civil c = tr::from_local((int64_t)e + off);
	if (chance(1, 4))
		c.mo = 2, c.d = 28;
	bool bent = chance(7, 8);
	int form = (int)weighted({3, 1, 1});
	if (bent)
		tr::bend(&c);
	if (c.mo < 1 || c.mo > 12) { // has no name
		char b[64];
		snprintf(b, sizeof b, chance(1, 2) ? "%04d-%02d-%02d" : "%04d%02d%02d", c.y, c.mo, c.d);
		std::string s = b;
		if (form != 1)
			s += "T" + tr::spell_hour(c, off);
		form = form == 2 ? 0 : form;
		note("%s", quote(s).c_str());
		judge(s, form);
		return;
	}
	std::string s = spell(form, c, off);
	note("%s %s", form == 0 ? "time" : form == 1 ? "date" : "hour", quote(s).c_str());
	if (bent)
		judge(s, form);
}
// one character of a permitted spelling replaced by each byte value in turn
VF_FACET(one_byte_changed, 6000, 60000)
{
	uint64_t e;
	int32_t off;
	tr::gen_instant(&e, &off);
	tr::Civil c = tr::from_local((int64_t)e + off);
	int form = (int)weighted({3, 1, 1});
	std::string s = spell(form, c, off);
	size_t at = draw(s.size() - 1);
	note("%s with every byte at %zu", quote(s).c_str(), at);
	for (int b = 0; b < 256; b++) {
		std::string t = s;
		t[at] = (char)b;
		judge(b ? t : t.substr(0, at), form);
	}
}
// two-digit fields exhaustively: signs, spaces, letters and digits
VF_FACET(two_byte_fields, 3000, 30000)
{
	uint64_t e;
	int32_t off;
	tr::gen_instant(&e, &off);
	tr::Civil c = tr::from_local((int64_t)e + off);
	int form = (int)weighted({3, 1, 1});
	std::string s = spell(form, c, off);
	size_t at = draw(s.size() - 2);
	note("%s with every pair at %zu", quote(s).c_str(), at);
	static const char al[] = "0123456789 +-:.xTZ";
	for (const char *a = al; *a; a++)
		for (const char *b = al; *b; b++) {
			s[at] = *a;
			s[at + 1] = *b;
			judge(s, form);
		}
}
VF_FACET(any_text, 300000, 6000000)
{
	size_t n = draw(1) ? smallish(60) : draw(40);
	std::string s;
	static const char al[] = "0123456789:-+ TZGMUC,JanFebMarAprMayJunJulAugSepOctNovDecSunMonTueWedThuFriSat";
	bool any = chance(1, 3);
	for (size_t i = 0; i < n; i++)
		s += any ? (char)range(1, 255) : al[draw(sizeof al - 2)];
	if (chance(1, 3))
		s = std::string(tr::WD[draw(6)]) + (chance(1, 2) ? ", " : "") + s;
	if (chance(1, 20))
		s += std::string(draw(5000), '0');
	note("%s", quote(s).c_str());
	judge(s, (int)draw(2));
}
// a permitted text continued to a length which is a multiple of 256 or 65536, or a permitted length more
VF_FACET(long_texts, 4000, 60000)
{
	uint64_t e;
	int32_t off;
	tr::gen_instant(&e, &off);
	tr::Civil c = tr::from_local((int64_t)e + off);
	int form = (int)weighted({3, 1, 1});
	std::string s = spell(form, c, off), t;
	size_t extra = chance(1, 8) ? 65536 * range(1, 2) : 256 * range(1, 8);
	if (chance(1, 4))
		extra += draw(2) - 1;
	switch (draw(4)) {
	case 0: // zeros behind
		t = s + std::string(extra, '0');
		break;
	case 1: // spaces behind
		t = s + std::string(extra, ' ');
		break;
	case 2: // the text again and again
		while (t.size() < s.size() + extra)
			t += s;
		t.resize(s.size() + extra);
		break;
	case 3: // digits within
	{
		size_t at = draw(s.size());
		t = s.substr(0, at) + std::string(extra, chance(1, 2) ? '0' : s[at ? at - 1 : 0]) + s.substr(at);
		break;
	}
	default: // before
		t = std::string(extra, chance(1, 2) ? ' ' : '0') + s;
	}
	note("%s made %zu long: %s", quote(s).c_str(), t.size(), quote(t).c_str());
	judge(t, form);
}
VF_FACET(missing_arguments, 50, 500)
{
	uint64_t e;
	int32_t o;
	struct time_ctx c;
	nontrivial();
	VF_CHECK(time_local_parse(nullptr, &e, &o) < 0 && time_local_parse("2000-01-01T00:00:00Z", nullptr, &o) < 0 && time_local_parse("2000-01-01T00:00:00Z", &e, nullptr) < 0, "missing argument accepted");
	time_ctx_init(&c);
	VF_CHECK(time_ctx_set_date(&c, nullptr) < 0 && time_ctx_set_hour(&c, nullptr) < 0 && time_ctx_set_time(&c, nullptr) < 0, "missing text accepted");
	VF_CHECK(time_ctx_set_date(nullptr, "2000-01-01") < 0 && time_ctx_set_hour(nullptr, "00:00:00Z") < 0 && time_ctx_set_time(nullptr, "2000-01-01T00:00:00Z") < 0 && time_ctx_init(nullptr) < 0, "missing context accepted");
	judge("", (int)draw(2));
}
