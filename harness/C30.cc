// VF variant: plain
// VF use: heap sysfault
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdlib.h>
#include <sys/inotify.h>
#include <sys/ioctl.h>
#include <sys/wait.h>
#include <functional>
#include <map>
#include <new>
#include "alloc.h"
#include "sysfault.h"
#include "tree.h"
extern "C" {
#include "futils/futils.h"
#include "futils/fs.h"
#include "futils/inotify.h"
}
#include "futils/futils.hpp"
using namespace vf;
VF_PROPERTY("C30", "fault_enumeration", "an allocation or a system call failed inside an operation of the session");
VF_ASSUME("fcntl on a valid descriptor does not fail; a close which reports an error has closed (as on Linux)");
VF_ASSUME("first-use caches of the C library (iconv tables, stdio, time zone) are warmed up before counting");

// ---- faults of one run
static long syss, sys_hits, sfrom[2], sto[2];
static int serr[2];
static bool hook(Sys &s, long *ret)
{
	if (s.nr == SYS_fcntl || s.nr == SYS_ppoll || s.nr == SYS_poll)
		return false;
	long i = ++syss;
	for (int k = 0; k < 2; k++) {
		if (!sfrom[k] || i < sfrom[k] || i > sto[k])
			continue;
		int e = serr[k];
		switch (s.nr) {
		case SYS_close:
			sys_raw(SYS_close, s.a[0]);
			e = e == EINTR ? EINTR : EIO;
			break;
		case SYS_open: case SYS_openat: case SYS_creat: case SYS_openat2:
		case SYS_pipe: case SYS_pipe2: case SYS_inotify_init: case SYS_inotify_init1: case SYS_dup: case SYS_eventfd2: case SYS_epoll_create1:
			e = e == EINTR ? EMFILE : e == EIO ? ENFILE : e == ENOSPC ? EACCES : ENOMEM;
			break;
		case SYS_read: case SYS_write: case SYS_readv: case SYS_writev:
			if (e == EINTR && i > sfrom[k] + 3)
				return false; // interruptions end
			break;
		case SYS_getrandom:
			e = e == EINTR ? (i > sfrom[k] + 3 ? EIO : EINTR) : e == ENOSPC ? ENOSYS : e;
			break;
		default:
			if (e == EINTR)
				e = EIO;
		}
		sys_hits++;
		*ret = -e;
		return true;
	}
	return false;
}
static long afrom, ato, aseen, ahits;
static bool faulted; // during the last call
// one call into the library
template <class F> static auto lib(F f) -> decltype(f())
{
	struct S {
		long h;
		S() : h(sys_hits)
		{
			long a = afrom ? afrom - aseen : 0, b = ato - aseen;
			if (afrom && b < 1)
				a = b = 0;
			else if (afrom && a < 1)
				a = 1;
			sys_arm(hook);
			alloc_enter(a, b);
		}
		~S()
		{
			aseen += alloc_leave();
			sys_disarm();
			ahits += alloc_failed();
			faulted = alloc_failed() || sys_hits != h;
		}
	} s;
	return f();
}
static unsigned fd_bits(bool *cloexec_ok) // hash of the set of open descriptors
{
	unsigned h = 0;
	for (int fd = 3; fd < 200; fd++) {
		long fl = sys_raw(SYS_fcntl, fd, F_GETFD);
		if (fl >= 0) {
			h = h * 31 + fd;
			if (cloexec_ok)
				*cloexec_ok &= (fl & FD_CLOEXEC) != 0;
		}
	}
	return h;
}
static const char *op;
#define MUST(c) VF_CHECK(c, "%s: %s%s", op, #c, faulted ? " (after a fault)" : " (no fault)")

// ---- sessions; each works on its own drawn parameters, so that it can be repeated under every fault
static std::string root;
static int keep[3];
static void new_descriptors_closed_on_exec(const bool *before)
{
	for (int fd = 3; fd < 200; fd++) {
		long fl = sys_raw(SYS_fcntl, fd, F_GETFD);
		if (fl >= 0 && !before[fd])
			VF_CHECK(fl & FD_CLOEXEC, "%s: descriptor %d stays open in programs started by the process", op, fd);
	}
}
struct Snapshot {
	bool b[200];
	Snapshot()
	{
		for (int fd = 0; fd < 200; fd++)
			b[fd] = sys_raw(SYS_fcntl, fd, F_GETFD) >= 0;
	}
};
struct Session {
	std::function<void()> prepare, run;
};
static Session s_mbox()
{
	size_t n = 1 + smallish(PIPE_BUF - 2);
	unsigned k = (unsigned)draw(6);
	return {[] {}, [=] {
		op = "mbox_new";
		Snapshot sn;
		struct mbox *b = lib([&] { return mbox_new(n); });
		MUST(b || faulted);
		if (!b)
			return;
		new_descriptors_closed_on_exec(sn.b);
		std::string m(n, 'a'), r(n, 0);
		unsigned in = 0, out = 0;
		for (unsigned i = 0; i < k; i++) {
			m[0] = (char)i;
			op = "mbox_push";
			int e = i & 1 ? lib([&] { return mbox_push_block(b, m.data(), 0); }) : lib([&] { return mbox_push(b, m.data()); });
			MUST(e == 0 || (e < 0 && faulted));
			in += e == 0;
			op = "mbox_peek";
			e = lib([&] { return mbox_peek(b, &r[0]); });
			MUST(e == 0 || (e < 0 && (faulted || in == out)));
			out += e == 0;
		}
		op = "mbox_destroy";
		lib([&] { mbox_destroy(b); return 0; });
	}};
}
static Session s_dynmbox()
{
	size_t max = chance(1, 2) ? smallish(16384) : draw(16384);
	unsigned k = (unsigned)draw(6);
	uint64_t s = draw(UINT64_MAX);
	return {[] {}, [=] {
		op = "dynmbox_new";
		Snapshot sn;
		struct dynmbox *b = lib([&] { return dynmbox_new(max); });
		MUST(b || faulted || !max || max > 16384);
		if (!b)
			return;
		new_descriptors_closed_on_exec(sn.b);
		Rng g{s};
		std::string m(max + 1, 'b'), r(max + 1, 0);
		unsigned in = 0, out = 0;
		for (unsigned i = 0; i < k; i++) {
			size_t n = g.next() % (max + 1);
			op = "dynmbox_push";
			ssize_t e = i & 1 ? lib([&] { return dynmbox_push_block(b, m.data(), n, 5); }) : lib([&] { return dynmbox_push(b, m.data(), n); });
			MUST(e == 0 || (e < 0 && faulted));
			in += e == 0;
			if (faulted)
				break; // the notification may be lost
			op = "dynmbox_peek";
			e = lib([&] { return dynmbox_peek(b, &r[0]); });
			MUST(e >= 0 || (e < 0 && (faulted || in == out)));
			out += e >= 0;
			if (faulted)
				break;
		}
		op = "dynmbox_destroy";
		lib([&] { dynmbox_destroy(b); return 0; });
	}};
}
static unsigned events;
static void on_event(struct inotify_event *, void *) { events++; }
static Session s_inotify()
{
	unsigned files = (unsigned)smallish(30), len = 1 + (unsigned)draw(199);
	bool missing = chance(1, 6);
	return {[] {}, [=] {
		std::string d = tree::fresh("i");
		std::string p = missing ? d + "/no" : d;
		op = "inotify_create";
		Snapshot sn;
		int fd = lib([&] { return inotify_create(p.c_str(), IN_CREATE); });
		MUST(missing ? fd < 0 : fd >= 0 || faulted);
		if (fd < 0)
			return;
		new_descriptors_closed_on_exec(sn.b);
		for (int part = 0; part < 2; part++) {
			for (unsigned i = 0; i < files; i++) {
				std::string f = d + "/" + std::to_string(part) + std::to_string(i) + std::string(len, 'x');
				close(open(f.c_str(), O_CREAT | O_WRONLY, 0600));
			}
			op = "inotify_process_fd";
			unsigned was = events;
			lib([&] { inotify_process_fd(fd, on_event, nullptr); return 0; });
			MUST(events - was >= files || faulted);
			if (faulted)
				break;
		}
		op = "inotify_destroy";
		lib([&] { inotify_destroy(fd); return 0; });
	}};
}
static std::string slurp(const std::string &p, bool *ok)
{
	std::string s;
	int fd = open(p.c_str(), O_RDONLY);
	*ok = fd >= 0;
	if (fd < 0)
		return s;
	char b[65536];
	for (ssize_t n; (n = read(fd, b, sizeof b)) > 0;)
		s.append(b, (size_t)n);
	close(fd);
	return s;
}
static void put(const std::string &p, const std::string &c)
{
	int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
	VF_CHECK(fd >= 0 && write(fd, c.data(), c.size()) == (ssize_t)c.size(), "harness: put %s", p.c_str());
	close(fd);
}
static Session s_safew()
{
	std::string c = bytes(smallish(40)), old = bytes(smallish(20));
	if (chance(1, 4))
		c += std::string(draw(20000), 'z');
	unsigned how = (unsigned)draw(2); // rollback, commit, commit with crc
	bool by_printf = chance(1, 2), had = chance(1, 2), unlucky_dir = chance(1, 8);
	size_t plen = chance(1, 8) ? draw(300) : 0;
	for (auto &x : c)
		x = x ? x : 'q';
	return {[] {}, [=] {
		std::string d = tree::fresh("w"), p = d + "/f";
		if (unlucky_dir)
			p = d + "/no/f";
		if (plen > p.size())
			p += std::string(plen - p.size(), 'p');
		bool can = !unlucky_dir && p.size() <= 120, cannot = unlucky_dir || p.size() > d.size() + 256;
		if (had && can)
			put(p, old);
		op = "futils_safew_fopen";
		futils_safew_file *f = lib([&] { return futils_safew_fopen(p.c_str()); });
		MUST(can ? f || faulted : cannot ? !f : true);
		if (!f)
			return;
		bool bad = false;
		if (by_printf) {
			op = "futils_safew_fprintf";
			int n = lib([&] { return futils_safew_fprintf(f, "%s%3000d", c.c_str(), 7); });
			MUST(n == (int)(c.size() + 3000) || (n < 0 && faulted));
			bad = n < 0;
		} else {
			op = "futils_safew_fwrite";
			size_t n = lib([&] { return futils_safew_fwrite(c.data(), 1, c.size(), f); });
			MUST(n == c.size() || (n < c.size() && faulted));
			bad = n != c.size();
		}
		int r;
		if (how == 0) {
			op = "futils_safew_fclose_rollback";
			r = lib([&] { return futils_safew_fclose_rollback(f); });
		} else if (how == 1) {
			op = "futils_safew_fclose_commit";
			r = lib([&] { return futils_safew_fclose_commit(f); });
		} else {
			op = "futils_safew_fclose_commit_with_crc";
			r = lib([&] { return futils_safew_fclose_commit_with_crc(f); });
		}
		MUST(r <= 0);
		MUST(r == 0 || faulted || bad || !can);
		bool there;
		std::string now = slurp(p, &there);
		if (how && r == 0 && !bad && can) {
			std::string want = by_printf ? c + std::string(2999, ' ') + "7" : c;
			MUST(there && now == want);
		}
		if (can && (how == 0 || (r < 0 && !had)) && how != 2)
			MUST(had ? there && now == old : !there || r < 0);
	}};
}
static Session s_check()
{
	std::string a = bytes(1 + smallish(30)), b = bytes(1 + smallish(30));
	unsigned state = (unsigned)draw(15), flip = (unsigned)draw(8);
	return {[] {}, [=] {
		std::string d = tree::fresh("c"), p = d + "/f";
		// any mixture of payload, checksum and temporary files
		struct futils_safew_file *f;
		for (int k = 0; k < 2; k++) {
			std::string q = k ? d + "/g" : p;
			const std::string &c = k ? b : a;
			f = futils_safew_fopen(q.c_str());
			MUST(f && futils_safew_fwrite(c.data(), 1, c.size(), f) == c.size() && futils_safew_fclose_commit_with_crc(f) == 0);
		}
		rename((d + "/g").c_str(), (p + ".tmp").c_str());
		rename((d + "/g.crc").c_str(), (p + ".crc.tmp").c_str());
		const char *sfx[] = {"", ".crc", ".tmp", ".crc.tmp"};
		for (int k = 0; k < 4; k++) {
			if (!(state >> k & 1))
				unlink((p + sfx[k]).c_str());
			else if (flip == (unsigned)k)
				put(p + sfx[k], "??");
		}
		op = "futils_safew_file_check";
		int r = lib([&] { return futils_safew_file_check(p.c_str()); });
		MUST(r <= 0);
		MUST(faulted || r == 0 || state != 15 || flip < 4);
		if (r == 0) {
			bool there;
			std::string now = slurp(p, &there);
			MUST(there && (now == a || now == b));
		}
	}};
}
static Session s_fs()
{
	unsigned depth = (unsigned)draw(3), w = 1 + (unsigned)draw(4), sub = (unsigned)draw(2);
	bool rec = chance(2, 3), sync = chance(1, 2);
	unsigned which = (unsigned)draw(2);
	// paths for which it cannot succeed, or whose folder is not named
	unsigned odd = chance(1, 4) ? 1 + (unsigned)draw(4) : 0;
	return {[=] {
		root = tree::fresh("t");
		std::string p = root;
		for (unsigned l = 0; l <= depth; l++) {
			for (unsigned i = 0; i < w; i++)
				put(p + "/f" + std::to_string(i), std::string(i * 7 + l, 'x'));
			for (unsigned i = 0; i < sub; i++)
				mkdir((p + "/s" + std::to_string(i)).c_str(), 0700);
			p += "/d";
			mkdir(p.c_str(), 0700);
		}
	}, [=] {
		std::string f = root + "/f0";
		int64_t want = 0;
		for (unsigned l = 0; l <= (rec ? depth : 0); l++)
			for (unsigned i = 0; i < w; i++)
				want += i * 7 + l;
		if (odd) {
			std::string p = odd == 1 ? "no-slash-in-it" : odd == 2 ? root + "/missing" : odd == 3 ? f + "/below-a-file" : odd == 4 ? root + "/" + std::string(300, 'n') : "";
			op = !sync ? "futils_fs_dir_size" : which == 0 ? "sync_file" : which == 1 ? "sync_folder" : "sync_file_and_folder";
			int64_t r = lib([&] { return !sync ? futils_fs_dir_size(p.c_str(), rec) : which == 0 ? sync_file(p.c_str()) : which == 1 ? sync_folder(p.c_str()) : sync_file_and_folder(p.c_str()); });
			MUST(r < 0);
			return;
		}
		if (!sync) {
			op = "futils_fs_dir_size";
			int64_t r = lib([&] { return futils_fs_dir_size(root.c_str(), rec); });
			MUST(r == want || (r < 0 && faulted));
			return;
		}
		op = which == 0 ? "sync_file" : which == 1 ? "sync_folder" : "sync_file_and_folder";
		int r = lib([&] { return which == 0 ? sync_file(f.c_str()) : which == 1 ? sync_folder(root.c_str()) : sync_file_and_folder(f.c_str()); });
		MUST(r == 0 || (r < 0 && faulted));
	}};
}
static Session s_hash()
{
	size_t size = 1 + smallish(40);
	unsigned k = (unsigned)draw(20);
	uint64_t s = draw(UINT64_MAX);
	bool owned = chance(1, 2);
	return {[] {}, [=] {
		struct hash h;
		op = "futils_hash_init";
		int e = lib([&] { return futils_hash_init(&h, size, owned ? free : nullptr); });
		MUST(e == 0 || (e < 0 && faulted));
		if (e < 0)
			return;
		std::map<uint32_t, void *> m;
		Rng g{s};
		static char obj[64];
		for (unsigned i = 0; i < k; i++) {
			uint32_t key = (uint32_t)(g.next() % (2 * size + 2));
			if (g.next() % 4) {
				void *v = owned ? strdup("value") : (void *)&obj[i];
				op = "futils_hash_insert";
				bool konst = !owned && i % 3 == 0;
				e = lib([&] { return konst ? futils_hash_insert_const(&h, key, v) : futils_hash_insert(&h, key, v); });
				MUST(m.count(key) ? e < 0 : e == 0 || (e < 0 && faulted));
				if (e == 0)
					m[key] = v;
				else if (owned)
					free(v); // refused: still the caller's
			} else {
				op = "futils_hash_remove";
				e = lib([&] { return futils_hash_remove(&h, key); });
				MUST(m.count(key) ? e == 0 : e < 0);
				m.erase(key);
			}
			for (uint32_t q = 0; q < 2 * size + 2; q++) {
				void *v = nullptr;
				op = "futils_hash_lookup";
				const void *cv = nullptr;
				e = lib([&] { return futils_hash_lookup(&h, q, &v); });
				if (e && lib([&] { return futils_hash_lookup_const(&h, q, &cv); }) == 0) {
					e = 0;
					v = (void *)cv;
				}
				MUST(m.count(q) ? e == 0 && v == m[q] : e < 0);
			}
		}
		op = "futils_hash_remove_all";
		if (g.next() & 1)
			lib([&] { return futils_hash_remove_all(&h); });
		op = "futils_hash_destroy";
		lib([&] { return futils_hash_destroy(&h); });
	}};
}
static Session s_string()
{
	std::string in;
	for (size_t n = smallish(60); n; n--)
		in += std::vector<std::string>{"a", "Z", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "/"}[draw(5)];
	bool bad = chance(1, 4);
	if (bad)
		in += "\xff";
	size_t room = in.size() + 2 + draw(20);
	bool check = chance(1, 2), odd = chance(1, 4);
	wchar_t repl = odd ? 0xd800 + (wchar_t)draw(0x7ff) : L'_'; // not a character
	return {[] {}, [=] {
		std::string out(room, 'O');
		if (check) {
			op = "futils_string_check_utf8";
			int r = lib([&] { return futils_string_check_utf8(in.c_str(), 1000, 1000, L""); });
			MUST(bad ? r < 0 : r == 0 || (r < 0 && faulted));
			return;
		}
		op = "futils_string_sanitize_utf8";
		int r = lib([&] { return futils_string_sanitize_utf8(in.c_str(), &out[0], room, L"/", repl); });
		MUST(bad || odd || r >= 0 || faulted);
		if (r >= 0 && !bad && !odd) {
			std::string want = in;
			for (auto &x : want)
				if (x == '/')
					x = '_';
			MUST(want == out.c_str());
		}
	}};
}
static Session s_random()
{
	size_t len = 1 + smallish(3000), size = 1 + smallish(300), n = smallish(30);
	unsigned which = (unsigned)draw(1);
	return {[] {}, [=] {
		if (which == 0) {
			std::string b(len, 0);
			op = "futils_random_strong";
			int r = lib([&] { return futils_random_strong(&b[0], len); });
			MUST(r == 0 || (r < 0 && faulted));
			if (r == 0 && len >= 64)
				MUST(b.compare(len - 32, 32, std::string(32, 0)) != 0);
			return;
		}
		std::string a(n * size, 0);
		for (size_t i = 0; i < n; i++)
			memset(&a[i * size], (int)(i + 1), size);
		char any = 0;
		op = "futils_random_shuffle";
		int r = lib([&] { return futils_random_shuffle(n ? &a[0] : &any, n, size); });
		MUST(r == 0 || (r < 0 && faulted));
		unsigned sum = 0;
		for (size_t i = 0; i < n; i++) {
			MUST(a.compare(i * size, size, std::string(size, a[i * size])) == 0);
			sum += (unsigned char)a[i * size];
		}
		MUST(sum == n * (n + 1) / 2);
	}};
}
static Session s_cpp()
{
	std::string p;
	for (size_t n = smallish(10); n; n--)
		p += std::vector<std::string>{"/", "a", "..", "/longer component of the path/", "Ab"}[draw(4)];
	if (chance(1, 3))
		p += std::string(draw(300), 'K');
	unsigned which = (unsigned)draw(2);
	return {[] {}, [=] {
		std::string r;
		bool thrown = false;
		op = which == 0 ? "futils::fs::dirname" : which == 1 ? "futils::fs::basename" : "futils::string::convertToLowerCase";
		auto call = [&] { return which == 0 ? futils::fs::dirname(p) : which == 1 ? futils::fs::basename(p) : futils::string::convertToLowerCase(p); };
		std::string want = call();
		lib([&] {
			try {
				std::string x = call();
				AllocPause q;
				r = x;
			} catch (const std::bad_alloc &) {
				thrown = true;
			}
			return 0;
		});
		MUST(thrown ? faulted : r == want);
	}};
}

static void one(const Session &s, long af, long at, long s0, long s0to, int e0, long s1, int e1)
{
	s.prepare();
	afrom = af;
	ato = at;
	aseen = ahits = 0;
	syss = sys_hits = 0;
	sfrom[0] = s0;
	sto[0] = s0to;
	serr[0] = e0;
	sfrom[1] = sto[1] = s1;
	serr[1] = e1;
	alloc_reset();
	unsigned fds = fd_bits(nullptr);
	op = "?";
	s.run();
	char what[200];
	snprintf(what, sizeof what, "allocations %ld..%ld fail (%ld hit), system calls %ld..%ld (%s) and %ld (%s) fail (%ld hit)", af, at, ahits, s0, s0to, strerrorname_np(e0) ?: "-", s1, strerrorname_np(e1) ?: "-", sys_hits);
	VF_CHECK(fd_bits(nullptr) == fds, "descriptors remain open after the session ending with %s; %s", op, what);
	VF_CHECK(alloc_live() == 0, "%ld blocks of memory remain after the session ending with %s; %s", alloc_live(), op, what);
	if (ahits || sys_hits)
		nontrivial();
}
static void all(Session s)
{
	static const int errs[] = {EIO, ENOSPC, EINTR, ENOMEM};
	for (int i = 0; i < 2; i++) { // caches
		s.prepare();
		afrom = sfrom[0] = sfrom[1] = 0;
		s.run();
	}
	one(s, 0, 0, 0, 0, 0, 0, 0);
	long A = aseen, S = syss;
	note("%ld allocations, %ld system calls without faults", A, S);
	uint64_t seed = draw(UINT64_MAX);
	Rng g{seed};
	for (long i = 1; i <= A && i <= 24; i++) {
		one(s, i, i, 0, 0, 0, 0, 0);
		one(s, i, LONG_MAX, 0, 0, 0, 0, 0);
	}
	for (long i = 1; i <= S && i <= 60; i++)
		one(s, 0, 0, i, g.next() % 4 ? i : LONG_MAX, errs[g.next() % 4], 0, 0);
	for (int k = 0; k < 6 && S; k++) {
		long i = 1 + (long)(g.next() % (uint64_t)S), j = i + 1 + (long)(g.next() % 6);
		one(s, 0, 0, i, i, errs[g.next() % 4], j, errs[g.next() % 4]);
		if (A) {
			long a = 1 + (long)(g.next() % (uint64_t)A);
			one(s, a, a, i, i, errs[g.next() % 4], 0, 0);
		}
	}
}
VF_FACET(mbox, 600, 2000) { all(s_mbox()); }
VF_FACET(dynmbox, 600, 2000) { all(s_dynmbox()); }
VF_FACET(inotify, 120, 1500) { all(s_inotify()); }
VF_FACET(safew, 600, 3000) { all(s_safew()); }
VF_FACET(check, 600, 3000) { all(s_check()); }
VF_FACET(filesystem, 500, 3000) { all(s_fs()); }
VF_FACET(hash, 2000, 10000) { all(s_hash()); }
VF_FACET(string, 1000, 10000) { all(s_string()); }
VF_FACET(random, 1000, 10000) { all(s_random()); }
VF_FACET(cpp, 2000, 20000) { all(s_cpp()); }
