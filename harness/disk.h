// A directory on a simulated storage device: counts the file system calls made while armed, makes the process die (the
// library call is left for good, its open descriptors closed) or a call fail at a chosen one, and tracks what has reached storage, so that a power failure can lose the rest.
// Storage model: directory operations persist in order; the data of a file is certain only once fsync/fdatasync (or
// sync/syncfs, or a synchronous write) on it returned success; otherwise any of: as written, as last synchronised,
// empty, a prefix, zeroes, a prefix followed by zeroes.
#pragma once
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <map>
#include <string>
#include <vector>
#include "sysfault.h"
#include "vf.h"
namespace disk {
using namespace vf;
const size_t CAP = 1 << 19, NFILE = 32;
struct Durable { bool used; ino_t ino; uint32_t len; char data[CAP]; };
struct Shared {
	Durable f[NFILE];
	long calls;       // counted calls of the last armed section
	long stage;       // free for the harness
	long rets[16];    // free for the harness
	int failed_nr;    // system call which was made to fail (or -1)
	bool unlink_failed;
	int failed_calls;
};
inline Shared *sh()
{
	static Shared *s;
	if (!s) {
		s = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		if (s == MAP_FAILED)
			fail("harness: mmap");
	}
	return s;
}
struct Plan {
	long crash_at = -1; // die before this call
	uint32_t part = 0;  // ...after having written this many bytes of it, when it is a write
	long fault_at = -1; // this call fails
	unsigned err = 0;   // which of the errors the call can give
	bool sticky = false; // and so do all later calls of the same kind
	bool quiet() const { return crash_at < 0 && fault_at < 0; }
};
inline Plan &plan()
{
	static Plan p;
	return p;
}
inline Durable *find(ino_t ino)
{
	for (auto &d : sh()->f)
		if (d.used && d.ino == ino)
			return &d;
	return nullptr;
}
inline void forget(ino_t ino)
{
	if (Durable *d = find(ino))
		d->used = false;
}
inline void set_durable(ino_t ino, const void *p, size_t n)
{
	Durable *d = find(ino);
	for (size_t i = 0; !d && i < NFILE; i++)
		if (!sh()->f[i].used)
			d = &sh()->f[i];
	if (!d || n > CAP)
		fail("harness: simulated storage full");
	d->used = true;
	d->ino = ino;
	d->len = (uint32_t)n;
	memcpy(d->data, p, n);
}
inline void snapshot(int fd)
{
	static char buf[CAP];
	char p[40];
	struct stat st;
	snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
	if (sys_raw(SYS_fstat, fd, (long)&st) || !S_ISREG(st.st_mode))
		return;
	int r = (int)sys_raw(SYS_openat, AT_FDCWD, (long)p, O_RDONLY | O_CLOEXEC);
	if (r < 0)
		fail("harness: cannot read back file: %s", strerror(-r));
	size_t n = 0;
	for (;;) {
		long k = sys_raw(SYS_pread64, r, (long)(buf + n), (long)(CAP - n), (long)n);
		if (k <= 0)
			break;
		n += (size_t)k;
	}
	sys_raw(SYS_close, r);
	set_durable(st.st_ino, buf, n);
}
// an interruption is over when the call is repeated
inline int pick_err(long nr, unsigned k, bool again)
{
	static const int o[] = {EIO, EMFILE, EACCES, ENOSPC, ENOMEM, EROFS}, r[] = {EIO, EINTR}, w[] = {ENOSPC, EIO, EDQUOT, EINTR}, rs[] = {EIO}, ws[] = {ENOSPC, EIO, EDQUOT}, f[] = {EIO, ENOSPC, EDQUOT}, c[] = {EIO}, n[] = {EIO, ENOSPC, EACCES, EROFS}, u[] = {EIO, EACCES, EROFS};
#define E(a) a[k % (sizeof a / sizeof *a)]
	if (sys_opens(nr))
		return E(o);
	switch (nr) {
	case SYS_read: case SYS_pread64: case SYS_readv: return again ? E(rs) : E(r);
	case SYS_write: case SYS_pwrite64: case SYS_writev: return again ? E(ws) : E(w);
	case SYS_fsync: case SYS_fdatasync: case SYS_syncfs: return E(f);
	case SYS_rename: case SYS_renameat: case SYS_renameat2: case SYS_link: case SYS_linkat: return E(n);
	case SYS_unlink: case SYS_unlinkat: return E(u);
	}
	return E(c);
#undef E
}
inline bool removes(long nr) { return nr == SYS_unlink || nr == SYS_unlinkat; }
inline bool hook(Sys &s, long *ret)
{
	static thread_local long sticky_nr = -1;
	static thread_local bool sticky_open;
	Shared *S = sh();
	Plan &P = plan();
	if (s.nr == SYS_getrandom || s.nr == SYS_poll || s.nr == SYS_nanosleep || s.nr == SYS_clock_nanosleep)
		return false;
	long i = S->calls++;
	if (i == 0)
		sticky_nr = -1, sticky_open = false;
	if (i == P.crash_at) {
		if (s.nr == SYS_write && P.part) {
			long n = s.a[2] < (long)P.part ? s.a[2] : (long)P.part;
			sys_raw(SYS_write, s.a[0], s.a[1], n);
		}
		sys_abandon();
	}
	if (i == P.fault_at || s.nr == sticky_nr || (sticky_open && sys_opens(s.nr))) {
		if (P.sticky && i == P.fault_at) {
			sticky_nr = s.nr;
			sticky_open = sys_opens(s.nr);
		}
		S->failed_nr = (int)s.nr;
		S->failed_calls++;
		if (removes(s.nr))
			S->unlink_failed = true;
		if (s.nr == SYS_close)
			sys_raw(SYS_close, s.a[0]); // the descriptor is gone all the same
		if (s.nr == SYS_write && P.err % 5 == 4 && s.a[2] > 1 && !P.sticky) { // short count
			*ret = sys_raw(SYS_write, s.a[0], s.a[1], s.a[2] / 2);
			return true;
		}
		*ret = -pick_err(s.nr, P.err, P.sticky);
		return true;
	}
	bool creates = false;
	if (sys_opens(s.nr)) {
		int pa = sys_path_arg(s.nr);
		struct stat st;
		int dfd = s.nr == SYS_openat ? (int)s.a[0] : AT_FDCWD;
		long fl = s.nr == SYS_creat ? O_CREAT : s.nr == SYS_open ? s.a[1] : s.a[2];
		creates = ((fl & O_CREAT) && sys_raw(SYS_newfstatat, dfd, s.a[pa], (long)&st, 0)) || (fl & O_TMPFILE) == O_TMPFILE;
	}
	*ret = sys_raw(s.nr, s.a[0], s.a[1], s.a[2], s.a[3], s.a[4], s.a[5]);
	if (*ret >= 0) {
		if (creates) {
			struct stat st;
			if (!sys_raw(SYS_fstat, *ret, (long)&st))
				forget(st.st_ino); // a reused inode number
		} else if (s.nr == SYS_fsync || s.nr == SYS_fdatasync)
			snapshot((int)s.a[0]);
		else if (s.nr == SYS_write || s.nr == SYS_pwrite64 || s.nr == SYS_writev) {
			long fl = sys_raw(SYS_fcntl, s.a[0], F_GETFL);
			if (fl & O_DSYNC)
				snapshot((int)s.a[0]);
		} else if (s.nr == SYS_sync || s.nr == SYS_syncfs) {
			for (int fd = 3; fd < 64; fd++)
				snapshot(fd);
		}
	}
	return true;
}
inline void arm(const Plan &p)
{
	plan() = p;
	Shared *S = sh();
	S->calls = 0;
	S->failed_nr = -1;
	S->failed_calls = 0;
	S->unlink_failed = false;
	sys_arm(hook);
}
inline void disarm() { sys_disarm(); }

struct Dir {
	std::string path;
	explicit Dir(const char *name) : path(scratch() + "/" + name)
	{
		mkdir(path.c_str(), 0700);
		wipe();
	}
	std::vector<std::string> list() const
	{
		std::vector<std::string> v;
		DIR *d = opendir(path.c_str());
		VF_CHECK(d, "harness: opendir %s", path.c_str());
		while (struct dirent *e = readdir(d))
			if (strcmp(e->d_name, ".") && strcmp(e->d_name, ".."))
				v.push_back(e->d_name);
		closedir(d);
		return v;
	}
	std::string file(const std::string &n) const { return path + "/" + n; }
	void wipe()
	{
		for (auto &n : list()) {
			struct stat st;
			if (!lstat(file(n).c_str(), &st))
				forget(st.st_ino);
			unlink(file(n).c_str());
		}
		for (auto &d : sh()->f)
			d.used = false;
	}
	bool get(const std::string &n, std::string *out) const
	{
		int fd = open(file(n).c_str(), O_RDONLY);
		if (fd < 0)
			return false;
		if (out) {
			char b[8192];
			ssize_t k;
			out->clear();
			while ((k = read(fd, b, sizeof b)) > 0)
				out->append(b, (size_t)k);
		}
		close(fd);
		return true;
	}
	bool has(const std::string &n) const { return get(n, nullptr); }
	void put(const std::string &n, const std::string &c, bool durable = true)
	{
		unlink(file(n).c_str());
		int fd = open(file(n).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
		VF_CHECK(fd >= 0 && write(fd, c.data(), c.size()) == (ssize_t)c.size(), "harness: writing %s", n.c_str());
		struct stat st;
		fstat(fd, &st);
		forget(st.st_ino);
		if (durable)
			set_durable(st.st_ino, c.data(), c.size());
		close(fd);
	}
	// what was not synchronised may be lost; draws what becomes of it. Returns whether something changed
	bool power_loss()
	{
		bool ch = false;
		for (auto &n : list()) {
			struct stat st;
			std::string cur, now;
			if (lstat(file(n).c_str(), &st) || !S_ISREG(st.st_mode) || !get(n, &cur))
				continue;
			Durable *d = find(st.st_ino);
			std::string dur = d ? std::string(d->data, d->len) : "";
			if (d && dur == cur)
				continue;
			switch (draw(5)) {
			case 0: now = cur; break;
			case 1: now = dur; break;
			case 2: now = ""; break;
			case 3: now = cur.substr(0, draw(cur.size())); break;
			case 4: now = std::string(cur.size(), 0); break;
			default:
				now = cur.substr(0, draw(cur.size()));
				now.resize(cur.size());
			}
			if (now != cur) {
				note("power failure: %s has %zu of %zu bytes as %s", n.c_str(), now.size(), cur.size(), quote(now, 20).c_str());
				ch = true;
			}
			int fd = open(file(n).c_str(), O_WRONLY | O_TRUNC);
			VF_CHECK(fd >= 0 && write(fd, now.data(), now.size()) == (ssize_t)now.size(), "harness: rewriting %s", n.c_str());
			close(fd);
			set_durable(st.st_ino, now.data(), now.size());
		}
		return ch;
	}
	std::string show() const
	{
		std::string s;
		for (auto &n : list()) {
			std::string c;
			get(n, &c);
			s += (s.empty() ? "" : ", ") + n + "=" + quote(c, 24);
		}
		return s.empty() ? "(no file)" : s;
	}
};
// runs f with the plan armed. Returns true if the process died at the chosen point (f is left and never resumed)
template <class F> bool run(const Plan &p, F f)
{
	if (p.crash_at >= 0 && VF_SYS_CATCH()) {
		disarm();
		return true;
	}
	arm(p);
	f();
	disarm();
	return false;
}
enum Disturb { CALM, DIE, FAULT, POWER };
inline Plan draw_plan(Disturb d, unsigned max_call)
{
	Plan p;
	if (d == DIE || d == POWER) {
		p.crash_at = (long)draw(max_call);
		p.part = (uint32_t)(chance(1, 3) ? 1 + smallish(6000) : 0);
	} else if (d == FAULT) {
		p.fault_at = (long)draw(max_call);
		p.err = (unsigned)draw(59);
		p.sticky = chance(1, 4);
	}
	return p;
}
inline const char *show(Disturb d) { return d == CALM ? "undisturbed" : d == DIE ? "the process dies" : d == FAULT ? "a system call fails" : "power fails"; }
inline std::string show(const Plan &p)
{
	char b[160];
	if (p.crash_at >= 0)
		snprintf(b, sizeof b, " at call %ld (a write done up to %u bytes)", p.crash_at, p.part);
	else if (p.fault_at >= 0)
		snprintf(b, sizeof b, ": call %ld, error choice %u%s", p.fault_at, p.err, p.sticky ? ", and all later ones like it" : "");
	else
		b[0] = 0;
	return b;
}
// file names: any, also such as mean something to formatting functions, shells and options
inline std::string file_name()
{
	static const char *k[] = {"100%d", "%s", "%s%n", "%%", "a b", "-f", "f~", ".f", "..f", "f.", "n\nl", "\xc3\xa9\xff", "*", "$HOME", "f.tmp", "f.crc", "f.crc.tmp", "temp", "%5$s", "'\"", "\\", "F"};
	if (chance(2, 3))
		return "f";
	return k[draw(sizeof k / sizeof *k - 1)];
}
// a content of more bytes than 16 bits count
inline std::string large_content(size_t max)
{
	static const size_t k[] = {65536, 131072, 262144, 1 << 20, 1 << 21};
	size_t n = k[draw(max > 2 << 20 ? 4 : max > 400000 ? 2 : 1)] + draw(chance(1, 2) ? 8 : 60000) - 4;
	if (n > max)
		n = max;
	std::string s(n, 0);
	fill(draw(UINT64_MAX), &s[0], n);
	return s;
}
// file contents
inline std::string content(const std::string *like = nullptr)
{
	std::string s;
	size_t n;
	switch (weighted({4, 2, 2, 1})) {
	case 0: n = draw(12); break;
	case 1: n = draw(300); break;
	case 2: { // around stream buffer sizes
		static const size_t k[] = {512, 1024, 4096, 8192, 12288};
		n = k[draw(4)] + draw(4) - 2;
		break;
	}
	default: n = draw(20000);
	}
	if (like && chance(1, 3)) { // close to another one
		s = *like;
		switch (draw(3)) {
		case 0: s += bytes(1 + draw(3)); break;
		case 1: if (!s.empty()) s.pop_back(); break;
		case 2: if (!s.empty()) s[draw(s.size() - 1)] ^= (char)(1 << draw(7)); break;
		default: if (!s.empty()) s.resize(draw(s.size())); break;
		}
		return s;
	}
	if (chance(1, 12))
		return std::string(n, 0);
	s.resize(n);
	fill(draw(UINT64_MAX), &s[0], n);
	return s;
}
} // namespace disk
