// VF variant: asan
// VF use: sysfault
#include <stdio.h>
#include <stdlib.h>
#include <sys/uio.h>
#include "disk.h"
#include "futils/safew.h"
using namespace vf;
using namespace disk;
VF_PROPERTY("C10", "fault_enumeration", "the process dies, power fails or a system call fails between opening and the end of commit or rollback");
VF_ASSUME("storage model: directory operations persist in order; file data is certain only after a successful fsync, fdatasync, sync, syncfs or synchronous write of that file, and may otherwise be as written, as last synchronised, empty, cut or zeroed");
VF_ASSUME("system calls are failed and crash points placed at the system-call boundary; memory-mapped writes are not tracked");

struct Op { int kind; size_t size, nmemb; std::string data; int width; };
struct Session {
	std::vector<Op> ops;
	std::string bytes; // all of them
	bool commit;
};
static Session draw_session(bool format_errors = true)
{
	Session s;
	s.commit = chance(3, 4);
	size_t n = smallish(8);
	for (size_t i = 0; i < n; i++) {
		Op o;
		o.kind = (int)draw(2);
		o.width = 0;
		o.size = o.nmemb = 1;
		if (o.kind == 0) {
			o.data = chance(1, 150) && s.bytes.size() < 200000 ? large_content(200000) : content();
			o.size = 1;
			o.nmemb = o.data.size();
			if (o.nmemb && chance(1, 3)) { // items of several bytes
				o.size = 1 + draw(o.nmemb < 16 ? o.nmemb - 1 : 15);
				o.nmemb /= o.size;
				o.data.resize(o.size * o.nmemb);
			} else if (o.nmemb && chance(1, 4)) {
				o.size = o.nmemb;
				o.nmemb = 1;
			}
			s.bytes += o.data;
		} else if (o.kind == 1) {
			std::string d = content();
			for (auto &c : d)
				if (!c)
					c = 'z';
			o.data = d;
			s.bytes += d;
		} else if (format_errors && chance(1, 8)) { // a character which the encoding does not have: fails after having written the rest
			o.kind = 3;
			o.data = std::string(draw(1) ? draw(40) : draw(6000), 'w');
		} else {
			o.width = (int)(chance(1, 5) ? 4000 + draw(5000) : draw(40));
			o.data = std::to_string(draw(1000000));
			char t[64];
			std::string pad = o.data;
			if (pad.size() < (size_t)o.width)
				pad.insert(0, o.width - pad.size(), ' ');
			s.bytes += "<" + pad + ">";
		}
		s.ops.push_back(o);
	}
	return s;
}
enum { ST_START, ST_OPENED, ST_OPEN_FAILED, ST_WRITE_FAILED, ST_ENDING, ST_ENDED };
// the whole life of one safe write, with the plan armed; progress is left in the shared area
static void live(const std::string &path, const Session &s)
{
	Shared *S = sh();
	S->stage = ST_START;
	bool bad = false;
	futils_safew_file *f = futils_safew_fopen(path.c_str());
	if (!f) {
		S->stage = ST_OPEN_FAILED;
		return;
	}
	S->stage = ST_OPENED;
	for (auto &o : s.ops) {
		int before = S->failed_calls;
		if (o.kind == 0) {
			size_t r = futils_safew_fwrite(o.data.data(), o.size, o.nmemb, f);
			if (r != o.nmemb) {
				VF_CHECK(S->failed_calls > before, "fwrite of %zu items of %zu returned %zu though nothing failed", o.nmemb, o.size, r);
				bad = true;
			}
		} else if (o.kind == 3) {
			int r = futils_safew_fprintf(f, "%s%ls", o.data.c_str(), L"\x20ac");
			VF_CHECK(r < 0, "fprintf of a character which the C locale does not have returned %d", r);
			bad = true;
		} else {
			int r = o.kind == 1 ? futils_safew_fprintf(f, "%s", o.data.c_str()) : futils_safew_fprintf(f, "<%*ld>", o.width, atol(o.data.c_str()));
			size_t len = o.kind == 1 ? o.data.size() : 2 + (o.data.size() > (size_t)o.width ? o.data.size() : (size_t)o.width);
			if (r < 0) {
				VF_CHECK(S->failed_calls > before, "fprintf returned %d though nothing failed", r);
				bad = true;
			} else
				VF_CHECK((size_t)r == len, "fprintf of %zu characters returned %d", len, r);
		}
	}
	if (bad)
		S->stage = ST_WRITE_FAILED;
	else
		S->stage = ST_ENDING;
	S->rets[1] = bad;
	S->rets[0] = s.commit ? futils_safew_fclose_commit(f) : futils_safew_fclose_rollback(f);
	S->stage = bad ? ST_WRITE_FAILED : ST_ENDED;
}
static void one_round(Dir &d, const std::string &name, Disturb dist)
{
	std::string prev;
	bool had = d.get(name, &prev);
	Session s = draw_session();
	Plan p = draw_plan(dist, chance(1, 4) ? 25 : 12);
	note("target %s; %zu writes, %zu bytes, then %s; %s%s", had ? quote(prev, 16).c_str() : "absent", s.ops.size(), s.bytes.size(), s.commit ? "commit" : "rollback", disk::show(dist), disk::show(p).c_str());
	std::string path = d.file(name);
	Shared *S = sh();
	bool died = disk::run(p, [&] { live(path, s); });
	long stage = S->stage, ret = S->rets[0];
	bool disturbed = died || S->failed_calls;
	if (disturbed)
		nontrivial();
	if (died)
		note("died at call %ld, stage %ld", p.crash_at, stage);
	else
		note("stage %ld, returned %ld, failed call: %s", stage, ret, S->failed_nr < 0 ? "none" : sys_name(S->failed_nr));
	bool unlink_failed = S->unlink_failed;
	int failed_calls = S->failed_calls;
	classify(died ? dist == POWER ? "power failure" : "process death" : !S->failed_calls ? "nothing failed" : S->failed_nr == SYS_fsync ? "fsync failed" : S->failed_nr == SYS_write ? "write failed" : S->failed_nr == SYS_rename ? "rename failed" : S->failed_nr == SYS_unlink ? "unlink failed" : sys_opens(S->failed_nr) ? "open failed" : S->failed_nr == SYS_close ? "close failed" : "another call failed");
	if (dist == POWER && (died || chance(1, 2))) {
		if (d.power_loss())
			classify("power failure lost data");
	}
	std::string now;
	bool have = d.get(name, &now);
	bool is_old = have == had && (!had || now == prev), is_new = have && now == s.bytes;
	const char *what = is_old ? "unchanged" : is_new ? "new" : "neither the previous nor the new content";
	VF_CHECK(is_old || is_new, "%s: the target is %s: %s has %zu bytes (previous %zu%s, new %zu): %s", died ? "after a crash" : "afterwards", what, name.c_str(), now.size(), prev.size(), had ? "" : " absent", s.bytes.size(), quote(now, 24).c_str());
	auto must_be_old = [&](const char *why) { VF_CHECK(is_old, "%s, but the target has changed to %s", why, quote(now, 24).c_str()); };
	if (!s.commit)
		must_be_old("no commit was made");
	if (died) {
		if (stage < ST_ENDING)
			must_be_old("no commit was begun");
	} else if (stage == ST_OPEN_FAILED) {
		VF_CHECK(failed_calls, "opening failed though no call failed");
		must_be_old("opening failed");
	} else if (stage == ST_WRITE_FAILED) {
		VF_CHECK(!s.commit || ret < 0, "a write failed, but the commit returned %ld", ret);
		must_be_old("a write failed");
	} else if (s.commit && ret == 0) {
		VF_CHECK(dist == POWER || is_new, "commit returned 0, but the target is %s", what);
		if (S->failed_calls && dist != POWER) {
			// a failed call was survived: then what was written must all be there (checked above)
			classify("success in spite of a failed call");
		}
	} else {
		VF_CHECK(ret == -1 || ret == 0, "returned %ld", ret);
		if (ret < 0)
			VF_CHECK(failed_calls, "%s failed though no call failed", s.commit ? "commit" : "rollback");
		must_be_old(s.commit ? "the commit reported failure" : "the write was rolled back");
	}
	bool ended = !died && stage != ST_OPEN_FAILED;
	if (ended && !unlink_failed) {
		auto l = d.list();
		for (auto &n : l)
			VF_CHECK(n == name, "%s returned %ld and left the file %s behind", s.commit ? "commit" : "rollback", ret, n.c_str());
	}
}
static void run_rounds(Disturb only)
{
	Dir d("d");
	std::string name = "f";
	if (chance(1, 2))
		name = file_name();
	else if (chance(1, 4))
		name = std::string(1 + draw(20), 'n') + (chance(1, 2) ? ".crc" : chance(1, 2) ? ".tmp" : "");
	if (chance(3, 4))
		d.put(name, content());
	int n = 1 + (int)smallish(3);
	for (int i = 0; i < n; i++)
		one_round(d, name, only);
}
VF_FACET(process_dies, 80000, 1500000) { run_rounds(DIE); }
VF_FACET(power_fails, 80000, 1500000) { run_rounds(POWER); }
VF_FACET(call_fails, 150000, 3000000) { run_rounds(FAULT); }
VF_FACET(mixed_histories, 40000, 800000)
{
	Dir d("d");
	std::string name = file_name();
	if (chance(3, 4))
		d.put(name, content());
	int n = 2 + (int)draw(4);
	for (int i = 0; i < n; i++)
		one_round(d, name, (Disturb)draw(3));
	// in the end an ordinary commit works
	Session s = draw_session(false);
	s.commit = true;
	live(d.file(name), s);
	std::string now;
	VF_CHECK(sh()->rets[0] == 0 && d.get(name, &now) && now == s.bytes && d.list().size() == 1, "an undisturbed commit after the crashes returned %ld and left %s", sh()->rets[0], d.show().c_str());
}
// two files open at once, ended in any order
VF_FACET(two_at_once, 20000, 400000)
{
	Dir d("d");
	std::string want[2];
	bool has[2];
	futils_safew_file *f[2];
	bool ct[2];
	for (int i = 0; i < 2; i++) {
		has[i] = chance(1, 2);
		if (has[i])
			d.put(i ? "g" : "f", want[i] = content());
		f[i] = futils_safew_fopen(d.file(i ? "g" : "f").c_str());
		VF_CHECK(f[i], "opening failed");
	}
	std::string now[2];
	int n = (int)smallish(12);
	for (int k = 0; k < n; k++) {
		int i = (int)draw(1);
		std::string c = content();
		VF_CHECK(futils_safew_fwrite(c.data(), 1, c.size(), f[i]) == c.size(), "writing failed");
		now[i] += c;
		std::string t;
		for (int j = 0; j < 2; j++)
			VF_CHECK(d.get(j ? "g" : "f", &t) == has[j] && (!has[j] || t == want[j]), "the target changed before the commit");
	}
	int first = (int)draw(1);
	for (int k = 0; k < 2; k++) {
		int i = k ? !first : first;
		ct[i] = chance(1, 2);
		int r = ct[i] ? futils_safew_fclose_commit(f[i]) : futils_safew_fclose_rollback(f[i]);
		VF_CHECK(r == 0, "%s returned %d", ct[i] ? "commit" : "rollback", r);
		if (ct[i]) {
			want[i] = now[i];
			has[i] = true;
		}
		std::string t;
		for (int j = 0; j < 2; j++)
			VF_CHECK(d.get(j ? "g" : "f", &t) == has[j] && (!has[j] || t == want[j]), "a target does not have the expected content");
	}
	VF_CHECK(d.list().size() == (size_t)(has[0] + has[1]), "files left: %s", d.show().c_str());
	if (n > 1 && ct[0] != ct[1])
		nontrivial();
}
// paths of any length: refused, or the very path asked for is written
VF_FACET(path_lengths, 2000, 20000)
{
	Dir d("d");
	size_t base = d.path.size() + 1;
	size_t n = chance(3, 4) && base < 110 ? 118 + draw(20) - base : 1 + draw(200);
	std::string name(n, 'p');
	note("path of %zu characters", base + n);
	bool had = chance(1, 2);
	if (had)
		d.put(name, "old");
	futils_safew_file *f = futils_safew_fopen(d.file(name).c_str());
	std::string now;
	if (!f) {
		VF_CHECK(base + n > 100, "a path of %zu characters was refused", base + n);
		VF_CHECK(d.list().size() == (size_t)had, "opening failed and left %s", d.show().c_str());
		VF_CHECK(!had || (d.get(name, &now) && now == "old"), "opening failed and changed the target");
		return;
	}
	nontrivial();
	VF_CHECK(futils_safew_fprintf(f, "new") == 3, "writing failed");
	bool c = chance(1, 2);
	int r = c ? futils_safew_fclose_commit(f) : futils_safew_fclose_rollback(f);
	VF_CHECK(r == 0, "returned %d", r);
	bool have = d.get(name, &now);
	VF_CHECK(c ? have && now == "new" : have == had && (!had || now == "old"), "target of a path of %zu characters: %s", base + n, have ? now.c_str() : "absent");
	VF_CHECK(d.list().size() == (size_t)(c || had), "files left: %zu", d.list().size());
}
// more bytes in one write than 32 bits count: the system only counts them
static uint64_t counted;
static bool count_writes(Sys &s, long *ret)
{
	if (s.nr == SYS_write || s.nr == SYS_pwrite64) {
		*ret = s.a[2] > 0x7ffff000 ? 0x7ffff000 : s.a[2];
		counted += (uint64_t)*ret;
		return true;
	}
	if (s.nr == SYS_writev) {
		const struct iovec *v = (const struct iovec *)s.a[1];
		uint64_t n = 0;
		for (long i = 0; i < s.a[2]; i++)
			n += v[i].iov_len;
		*ret = n > 0x7ffff000 ? 0x7ffff000 : (long)n;
		counted += (uint64_t)*ret;
		return true;
	}
	return false;
}
VF_FACET(huge_write, 24, 200)
{
	Dir d("d");
	static const size_t base[] = {1ull << 32, 1ull << 31, (1ull << 31) + (1ull << 30)};
	size_t total = base[draw(2)] + draw(70000), size = chance(1, 2) ? 1 : chance(1, 2) ? total : 1 + draw(1 << 20), n = total / size;
	total = size * n;
	note("%zu items of %zu bytes", n, size);
	nontrivial();
	uint8_t *p = huge();
	futils_safew_file *f = futils_safew_fopen(d.file("f").c_str());
	VF_CHECK(f, "opening failed");
	counted = 0;
	sys_arm(count_writes);
	size_t r = futils_safew_fwrite(p, size, n, f);
	int c = futils_safew_fclose_commit(f);
	sys_disarm();
	VF_CHECK(r == n, "fwrite of %zu items of %zu bytes returned %zu", n, size, r);
	VF_CHECK(c == 0, "the commit returned %d", c);
	VF_CHECK(counted == total, "%llu bytes written of %zu", (unsigned long long)counted, total);
}
VF_FACET(missing_arguments, 20, 200)
{
	nontrivial();
	VF_CHECK(futils_safew_fclose_commit(nullptr) == -1 && futils_safew_fclose_rollback(nullptr) == -1, "null handle accepted");
}
