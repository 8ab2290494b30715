// VF variant: asan
// VF locale: yes
#include <errno.h>
#include "time_ref.h"
#include "futils/systimetools.h"
using namespace vf;
VF_PROPERTY("C17", "exploration", "both parts get set, with at least one refused or repeated attempt in between or around");
VF_ASSUME("texts whose acceptance is left unspecified (see C16) are not offered; a refused attempt may give any negative error other than in-progress");

static void run(unsigned maxops)
{
	tr::some_timezone();
	some_locale();
	struct time_ctx ctx;
	memset(&ctx, 0x5a, sizeof ctx);
	VF_CHECK(time_ctx_init(&ctx) == 0, "init failed");
	bool hd = false, hh = false;
	tr::Civil cur = {};
	int off = 0;
	unsigned refused = 0;
	unsigned n = 2 + (unsigned)draw(maxops - 2);
	for (unsigned i = 0; i < n; i++) {
		uint64_t e;
		int32_t o;
		tr::gen_instant(&e, &o);
		tr::Civil c = tr::from_local((int64_t)e + o);
		if (c.y < 1971)
			c.y = 1972, c.wday = tr::from_local(tr::to_days(c.y, c.mo, c.d) * 86400).wday;
		int op = (int)weighted({4, 4, 2, 3, 1});
		bool bad = chance(1, 3);
		std::string s;
		tr::Meaning m;
		int r, want;
		switch (op) {
		case 0:
		case 1:
		case 2:
			if (bad && chance(1, 3))
				tr::bend(&c);
			if (c.mo < 1 || c.mo > 12)
				c.mo = 1, c.d = 32;
			s = op == 0 ? tr::spell_date(c, (int)draw(1)) : op == 1 ? (chance(1, 4) ? "T" : "") + tr::spell_hour(c, o) : tr::spell_full(c, o);
			if (bad && chance(1, 2))
				s = tr::mutate(s);
			if (bad && chance(1, 8))
				s = op == 0 ? tr::spell_hour(c, o) : tr::spell_date(c, 1);
			m = op == 0 ? tr::date(s.c_str()) : op == 1 ? tr::hour(s.c_str()) : tr::full(s.c_str());
			if (m.v == tr::EITHER)
				continue;
			{
				tr::Text t(s);
				note("set %s \"%s\"", op == 0 ? "date" : op == 1 ? "hour" : "time", quote(s).c_str());
				r = op == 0 ? time_ctx_set_date(&ctx, t.p) : op == 1 ? time_ctx_set_hour(&ctx, t.p) : time_ctx_set_time(&ctx, t.p);
			}
			if ((op == 0 && hd) || (op == 1 && hh) || (op == 2 && (hd || hh))) {
				// already set; malformed text may be reported as such instead
				if (m.v == tr::ACCEPT)
					VF_CHECK(r == -EEXIST, "already set: returned %d", r);
				else
					VF_CHECK(r < 0 && r != -EINPROGRESS, "already set and malformed: returned %d", r);
				refused++;
				classify("already set");
			} else if (m.v == tr::REJECT) {
				VF_CHECK(r < 0 && r != -EINPROGRESS && r != -EEXIST, "malformed \"%s\": returned %d", quote(s).c_str(), r);
				refused++;
				classify("malformed");
			} else {
				if (op != 1) {
					hd = true;
					cur.y = m.c.y;
					cur.mo = m.c.mo;
					cur.d = m.c.d;
				}
				if (op != 0) {
					hh = true;
					cur.h = m.c.h;
					cur.mi = m.c.mi;
					cur.s = m.c.s;
					off = m.off;
				}
				want = hd && hh ? 0 : -EINPROGRESS;
				VF_CHECK(r == want, "set %s \"%s\": returned %d, expected %d", op == 0 ? "date" : op == 1 ? "hour" : "time", quote(s).c_str(), r, want);
			}
			break;
		case 3:
			break;
		case 4:
			if (chance(1, 4)) {
				note("init again");
				time_ctx_init(&ctx);
				hd = hh = false;
			} else {
				note("missing argument");
				r = draw(1) ? time_ctx_set_date(&ctx, nullptr) : time_ctx_set_hour(&ctx, nullptr);
				VF_CHECK(r < 0 && r != -EINPROGRESS, "missing text: returned %d", r);
			}
			break;
		}
		if (op == 3 || chance(1, 2)) {
			uint64_t e2 = 777;
			int32_t o2 = 777;
			r = time_ctx_get_local(&ctx, &e2, &o2);
			if (hd && hh) {
				int64_t w = tr::to_local(cur) - off;
				VF_CHECK(r == 0 && (int64_t)e2 == w && o2 == off, "get: returned %d, instant %lld offset %d, expected %lld and %d", r, (long long)e2, o2, (long long)w, off);
			} else
				VF_CHECK(r == -EINPROGRESS, "get with %s: returned %d", hd ? "no hour" : hh ? "no date" : "nothing set", r);
		}
	}
	if (hd && hh && refused)
		nontrivial();
	// completing what is missing gives the expected value whatever was refused before
	if (!(hd && hh)) {
		int r = 0;
		if (!hd) {
			r = time_ctx_set_date(&ctx, "2024-02-29");
			cur.y = 2024, cur.mo = 2, cur.d = 29;
			VF_CHECK(r == (hh ? 0 : -EINPROGRESS), "last date: returned %d", r);
		}
		if (!hh) {
			r = time_ctx_set_hour(&ctx, "235958-0130");
			cur.h = 23, cur.mi = 59, cur.s = 58;
			off = -5400;
			VF_CHECK(r == 0, "last hour: returned %d", r);
		}
	}
	uint64_t e2 = 777;
	int32_t o2 = 777;
	int r = time_ctx_get_local(&ctx, &e2, &o2);
	int64_t w = tr::to_local(cur) - off;
	VF_CHECK(r == 0 && (int64_t)e2 == w && o2 == off, "final get: returned %d, instant %lld offset %d, expected %lld and %d", r, (long long)e2, o2, (long long)w, off);
	VF_CHECK(time_ctx_get_local(&ctx, nullptr, &o2) < 0 && time_ctx_get_local(&ctx, &e2, nullptr) < 0 && time_ctx_get_local(nullptr, &e2, &o2) < 0, "missing argument accepted");
}
VF_FACET(histories, 500000, 10000000) { run(10); }
VF_FACET(long_histories, 20000, 400000) { run(80); }
// one part, then the other, against the combined text
VF_FACET(order_and_combined, 300000, 5000000)
{
	uint64_t e, e2 = 1, e3 = 2;
	int32_t off, o2 = 1, o3 = 2;
	tr::gen_instant(&e, &off);
	tr::Civil c = tr::from_local((int64_t)e + off);
	std::string d = tr::spell_date(c, (int)draw(1)), h = tr::spell_hour(c, off), full = d + "T" + h;
	bool date_first = chance(1, 2);
	note("%s, %s then %s", full.c_str(), date_first ? "date" : "hour", date_first ? "hour" : "date");
	nontrivial();
	struct time_ctx ctx;
	time_ctx_init(&ctx);
	int r1 = date_first ? time_ctx_set_date(&ctx, d.c_str()) : time_ctx_set_hour(&ctx, h.c_str());
	int g1 = time_ctx_get_local(&ctx, &e2, &o2);
	int r2 = date_first ? time_ctx_set_hour(&ctx, h.c_str()) : time_ctx_set_date(&ctx, d.c_str());
	VF_CHECK(r1 == -EINPROGRESS && g1 == -EINPROGRESS && r2 == 0, "returned %d, get %d, then %d", r1, g1, r2);
	int g2 = time_ctx_get_local(&ctx, &e2, &o2);
	int p = time_local_parse(full.c_str(), &e3, &o3);
	VF_CHECK(g2 == 0 && p == 0 && e2 == e && o2 == off && e3 == e && o3 == off, "get returned %d (%llu, %d), parse of the combined text %d (%llu, %d), expected %llu, %d", g2, (unsigned long long)e2, o2, p, (unsigned long long)e3, o3, (unsigned long long)e, off);
}
