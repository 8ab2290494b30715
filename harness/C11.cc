// VF variant: asan
// VF use: sysfault
#include <stdio.h>
#include <stdlib.h>
#include "disk.h"
#include "safew_pair.h"
using namespace vf;
using namespace disk;
VF_PROPERTY("C11", "fault_enumeration", "the rewrite or a recovery is cut short by a process death, a power failure or a failing system call");
VF_ASSUME("storage model: directory operations persist in order; file data is certain only after a successful fsync, fdatasync, sync, syncfs or synchronous write of that file, and may otherwise be as written, as last synchronised, empty, cut or zeroed");
VF_ASSUME("a check follows every rewrite which did not report success, before the next rewrite");
VF_ASSUME("two different contents generated for one case do not have equal 32-bit checksums unless they differ in leading zero bytes only");

enum { ST_OPENING, ST_WRITING, ST_COMMITTING, ST_DONE, ST_OPEN_FAILED, ST_WRITE_FAILED };
static void rewrite(const std::string &path, const std::vector<std::string> &parts)
{
	Shared *S = sh();
	S->stage = ST_OPENING;
	futils_safew_file *f = futils_safew_fopen(path.c_str());
	if (!f) {
		S->stage = ST_OPEN_FAILED;
		return;
	}
	S->stage = ST_WRITING;
	bool bad = false;
	for (auto &p : parts)
		bad |= futils_safew_fwrite(p.data(), 1, p.size(), f) != p.size();
	S->stage = bad ? ST_WRITE_FAILED : ST_COMMITTING;
	int r = futils_safew_fclose_commit_with_crc(f);
	S->rets[0] = r;
	S->stage = bad ? ST_WRITE_FAILED : ST_DONE;
}
struct Maybe { bool is; std::string c; };
static bool operator==(const Maybe &a, const Maybe &b) { return a.is == b.is && (!a.is || a.c == b.c); }
static bool among(const std::vector<Maybe> &v, const Maybe &x)
{
	for (auto &m : v)
		if (m == x)
			return true;
	return false;
}
// what a valid pair under the final names holds
static Maybe pair_now(Dir &d, const std::string &n)
{
	Maybe m{false, ""};
	std::string crc;
	if (d.get(n, &m.c) && d.get(n + ".crc", &crc) && crc == crc_of(m.c))
		m.is = true;
	return m;
}
static std::string show(const Maybe &m) { return m.is ? quote(m.c, 16) : "nothing"; }
static Disturb draw_disturb() { return (Disturb)weighted({1, 4, 3, 4}); }

// n disturbed checks and one which runs undisturbed; afterwards the pair must be one of cand
static bool recover(Dir &d, const std::string &name, const std::vector<Maybe> &cand, unsigned n, Maybe *cur)
{
	Shared *S = sh();
	std::string path = d.file(name);
	bool disturbed = false;
	for (unsigned k = 0; k <= n; k++) {
		Disturb cd = k == n ? CALM : draw_disturb();
		Plan cp = draw_plan(cd, 40);
		S->rets[1] = 99;
		bool cdied = disk::run(cp, [&] { S->rets[1] = futils_safew_file_check(path.c_str()); });
		long cr = S->rets[1];
		int cf = S->failed_calls;
		bool cu = S->unlink_failed;
		note("  check %s%s: %s %ld (%s); left %s", disk::show(cd), disk::show(cp).c_str(), cdied ? "died" : "returned", cr, cf ? sys_name(S->failed_nr) : "nothing failed", d.show().c_str());
		if (cdied || cf) {
			disturbed = true;
			classify(cdied ? "died in a recovery" : S->failed_nr == SYS_rename ? "rename failed in a recovery" : S->failed_nr == SYS_read ? "read failed in a recovery" : sys_opens(S->failed_nr) ? "open failed in a recovery" : "another call failed in a recovery");
		}
		if (!cdied) {
			VF_CHECK(cr == 0 || cr == -1, "the check returned %ld", cr);
			Maybe m = pair_now(d, name);
			if (cr == 0) {
				VF_CHECK(m.is, "the check returned 0 and left no valid pair: %s", d.show().c_str());
				VF_CHECK(among(cand, m), "the check returned 0 and left %s, not one of %s or %s", show(m).c_str(), show(cand[0]).c_str(), show(cand.back()).c_str());
			} else if (!cf) {
				VF_CHECK(among(cand, Maybe{false, ""}), "the check failed, and lost the content (%s%s%s)", show(cand[0]).c_str(), cand.size() > 1 ? " or " : "", cand.size() > 1 ? show(cand[1]).c_str() : "");
				VF_CHECK(d.list().empty(), "the check failed undisturbed and left %s", d.show().c_str());
			}
			if (!cf)
				VF_CHECK(d.list().size() == (cr == 0 ? 2 : 0), "the check returned %ld and left %s", cr, d.show().c_str());
			if (k == n)
				*cur = m;
		}
		if (cd == POWER && (cdied || chance(1, 3)))
			disturbed |= d.power_loss();
	}
	return disturbed;
}
static void history(unsigned max_rounds, unsigned max_checks)
{
	Dir d("d");
	std::string name = file_name();
	Maybe cur{chance(3, 4), ""};
	if (cur.is) {
		cur.c = content();
		d.put(name, cur.c);
		d.put(name + ".crc", crc_of(cur.c));
	}
	if (chance(1, 8))
		d.put(name + ".tmp", content()); // of an earlier write which was given up
	std::string path = d.file(name);
	Shared *S = sh();
	unsigned rounds = 1 + (unsigned)draw(max_rounds - 1);
	bool disturbed = false;
	for (unsigned r = 0; r < rounds; r++) {
		Maybe next{true, chance(1, 300) ? large_content(200000) : content(cur.is ? &cur.c : nullptr)};
		std::vector<std::string> parts;
		for (size_t o = 0; o < next.c.size();) {
			size_t n = chance(1, 2) ? next.c.size() - o : 1 + draw(next.c.size() - o - 1);
			parts.push_back(next.c.substr(o, n));
			o += n;
		}
		Disturb dist = draw_disturb();
		Plan p = draw_plan(dist, 34);
		note("round %u: rewriting %s with %s (%zu bytes): %s%s", r, show(cur).c_str(), show(next).c_str(), next.c.size(), disk::show(dist), disk::show(p).c_str());
		bool died = disk::run(p, [&] { rewrite(path, parts); });
		long stage = S->stage, ret = S->rets[0];
		int nfail = S->failed_calls;
		bool unlink_failed = S->unlink_failed;
		if (died || nfail) {
			disturbed = true;
			classify(died ? stage < ST_COMMITTING ? "died before the commit" : "died in the commit" : S->failed_nr == SYS_rename ? "rename failed in the commit" : S->failed_nr == SYS_read ? "read failed in the commit" : "another call failed in the rewrite");
		}
		note("  %s at stage %ld, returned %ld, %s; left %s", died ? "died" : "ended", stage, ret, nfail ? sys_name(S->failed_nr) : "nothing failed", d.show().c_str());
		bool power = dist == POWER && (died || chance(1, 2));
		std::vector<Maybe> cand;
		if (died)
			cand = stage < ST_COMMITTING ? std::vector<Maybe>{cur} : std::vector<Maybe>{cur, next};
		else if (stage == ST_DONE && ret == 0) {
			Maybe m = pair_now(d, name);
			VF_CHECK(m == next, "commit reported success and left %s", d.show().c_str());
			VF_CHECK(d.list().size() == 2, "commit reported success and left %s", d.show().c_str());
			if (nfail)
				classify("success in spite of a failed call");
			cand = {next};
			if (power)
				cand.push_back(cur);
		} else if (stage == ST_DONE) {
			VF_CHECK(nfail, "commit returned %ld though nothing failed", ret);
			VF_CHECK(ret == -1, "commit returned %ld", ret);
			cand = {cur, next};
		} else {
			VF_CHECK(nfail, "opening or writing failed though no call failed");
			VF_CHECK(stage != ST_WRITE_FAILED || ret < 0, "a write failed but the commit returned %ld", ret);
			cand = {cur};
		}
		if (power)
			disturbed |= d.power_loss();
		bool success = !died && stage == ST_DONE && ret == 0 && !power;
		// recoveries, disturbed ones first
		unsigned n = (unsigned)draw(max_checks);
		if (success && n == 0 && chance(1, 3)) {
			cur = next;
			continue; // rewritten again without a check
		}
		disturbed |= recover(d, name, cand, n, &cur);
	}
	if (disturbed)
		nontrivial();
}
VF_FACET(one_rewrite, 100000, 3000000) { history(1, 3); }
VF_FACET(histories, 40000, 1500000) { history(5, 4); }
// from a state which an interrupted rewrite, perhaps with interrupted checks after it, may leave
VF_FACET(states_left_behind, 60000, 2000000)
{
	Dir d("d");
	std::string name = "f";
	Maybe prev{chance(4, 5), ""}, cur;
	if (prev.is)
		prev.c = content();
	Maybe next{true, content(prev.is ? &prev.c : nullptr)}, none{false, ""};
	std::string sum = crc_of(next.c);
	auto torn = [&](const std::string &x) {
		std::string y = x.substr(0, x.empty() ? 0 : draw(x.size() - 1));
		if (chance(1, 3))
			y.resize(x.size(), 0);
		return y;
	};
	int stage = (int)draw(4);
	if (prev.is) {
		d.put(name, prev.c);
		d.put(name + ".crc", crc_of(prev.c));
	}
	std::vector<Maybe> cand = {prev};
	switch (stage) {
	case 0: // writing
		if (chance(2, 3))
			d.put(name + ".tmp", chance(1, 2) ? next.c : torn(next.c));
		break;
	case 1: { // either temporary file incomplete, or cut by a power failure
		std::string t = chance(1, 2) ? next.c : torn(next.c), u = chance(1, 2) ? sum : torn(sum);
		d.put(name + ".tmp", t);
		d.put(name + ".crc.tmp", u);
		if (u == crc_of(t))
			cand.push_back(Maybe{true, t});
		break;
	}
	case 2:
		d.put(name + ".tmp", next.c);
		d.put(name + ".crc.tmp", sum);
		cand.push_back(next);
		break;
	case 3:
		d.put(name, next.c);
		d.put(name + ".crc.tmp", sum);
		cand = {next};
		break;
	default: // a check removed the temporary payload and ended there
		d.put(name + ".crc.tmp", chance(1, 2) ? sum : torn(sum));
	}
	note("from %s", d.show().c_str());
	if (recover(d, name, cand, (unsigned)draw(3), &cur))
		nontrivial();
}
// every call of one rewrite and of the recovery that follows, in turn
VF_FACET(every_point, 12000, 400000)
{
	Dir d("d");
	Maybe prev{chance(3, 4), ""};
	if (prev.is)
		prev.c = content();
	std::string next = content(prev.is ? &prev.c : nullptr);
	if (prev.is && next == prev.c)
		next += "+";
	std::string path = d.file("f");
	Shared *S = sh();
	Plan p;
	p.crash_at = (long)draw(34);
	note("rewriting %s with %s (%zu bytes), death at call %ld, then at each call of the recovery", show(prev).c_str(), quote(next, 16).c_str(), next.size(), p.crash_at);
	bool any = false;
	for (long k = 0; k < 60; k++) {
		d.wipe();
		if (prev.is) {
			d.put("f", prev.c);
			d.put("f.crc", crc_of(prev.c));
		}
		if (!disk::run(p, [&] { rewrite(path, {next}); }))
			return;
		any = true;
		Plan q;
		q.crash_at = k;
		bool died = disk::run(q, [&] { futils_safew_file_check(path.c_str()); });
		std::string mid = d.show();
		int r = futils_safew_file_check(path.c_str());
		Maybe m = pair_now(d, "f");
		if (r == 0)
			VF_CHECK(m.is && (m == prev || m.c == next), "recovery died at call %ld leaving %s; the next one returned 0 and left %s", k, mid.c_str(), d.show().c_str());
		else
			VF_CHECK(!prev.is && d.list().empty(), "recovery died at call %ld leaving %s; the next one returned %d and left %s", k, mid.c_str(), r, d.show().c_str());
		if (!died)
			break;
	}
	if (any)
		nontrivial();
}
