// VF variant: asan
// VF use: sysfault
#include <errno.h>
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/inotify.h>
#include <sys/socket.h>
#include <sys/timerfd.h>
#include <unistd.h>
#include "sysfault.h"
#include "vf.h"
#include "futils/fdutils.h"
using namespace vf;
VF_PROPERTY("C29", "exploration", "at least two operations on descriptors with flags already set, or a failing call");
VF_ASSUME("what the kernel makes of a flag request on a given kind of descriptor is taken from a twin descriptor");

static long seen, fail_at, failed_nr;
static int fail_err;
static bool hook(Sys &s, long *ret)
{
	if (s.nr == SYS_write || s.nr == SYS_writev)
		return false;
	if (seen++ == fail_at) {
		failed_nr = s.nr;
		*ret = -fail_err;
		return true;
	}
	return false;
}
static int kinds(unsigned k, int extra)
{
	int p[2];
	switch (k) {
	case 0: return open((scratch() + "/file").c_str(), O_RDWR | O_CREAT | extra, 0600);
	case 1: return open((scratch() + "/file").c_str(), O_RDONLY | O_CREAT | extra, 0600);
	case 2: return open((scratch() + "/file").c_str(), O_WRONLY | O_CREAT | O_TRUNC | extra, 0600);
	case 3:
		if (pipe2(p, extra & (O_CLOEXEC | O_NONBLOCK)))
			return -1;
		close(p[1]);
		return p[0];
	case 4:
		if (pipe2(p, extra & (O_CLOEXEC | O_NONBLOCK)))
			return -1;
		close(p[0]);
		return p[1];
	case 5: return socket(AF_UNIX, SOCK_STREAM | (extra & (O_CLOEXEC | O_NONBLOCK)), 0);
	case 6: return eventfd(0, extra & (O_CLOEXEC | O_NONBLOCK));
	case 7: return open("/dev/null", O_RDWR | extra);
	case 8: return open(scratch().c_str(), O_RDONLY | O_DIRECTORY | (extra & ~O_DIRECT));
	case 9: return timerfd_create(CLOCK_MONOTONIC, extra & (O_CLOEXEC | O_NONBLOCK));
	case 10: return inotify_init1(extra & (O_CLOEXEC | O_NONBLOCK));
	default: return open(scratch().c_str(), O_PATH | (extra & O_CLOEXEC));
	}
}
static const int flag_bits[] = {O_APPEND, O_NONBLOCK, O_NOATIME, O_ASYNC, O_DIRECT, O_SYNC, O_DSYNC, O_RDWR, O_WRONLY, O_CREAT, O_TRUNC, O_CLOEXEC};
static int draw_flags(size_t n)
{
	int f = 0;
	size_t k = smallish(3);
	for (size_t i = 0; i < k; i++)
		f |= flag_bits[draw(n - 1)];
	return f;
}
struct D { int fd, twin; bool cloexec; int fl; unsigned kind; };
VF_FACET(histories, 120000, 2500000)
{
	static const char *kn[] = {"file", "read-only file", "write-only file", "pipe read end", "pipe write end", "socket", "eventfd", "/dev/null", "directory", "timer", "watch", "path"};
	std::vector<D> v;
	size_t n = 1 + draw(3);
	for (size_t i = 0; i < n; i++) {
		D d;
		d.kind = (unsigned)draw(11);
		int extra = (chance(1, 2) ? O_CLOEXEC : 0) | (chance(1, 3) ? O_NONBLOCK : 0) | (chance(1, 4) ? O_APPEND : 0) | (chance(1, 8) ? O_SYNC : 0);
		d.fd = kinds(d.kind, extra);
		d.twin = kinds(d.kind, extra);
		VF_CHECK(d.fd >= 0 && d.twin >= 0, "harness: descriptor of kind %u: %s", d.kind, strerror(errno));
		d.cloexec = fcntl(d.fd, F_GETFD) & FD_CLOEXEC;
		d.fl = fcntl(d.fd, F_GETFL);
		note("descriptor %zu: %s, flags %#o%s", i, kn[d.kind], d.fl, d.cloexec ? ", close-on-exec" : "");
		v.push_back(d);
	}
	size_t ops = 1 + smallish(12);
	bool faulty = chance(1, 3);
	unsigned useful = 0;
	for (size_t o = 0; o < ops; o++) {
		size_t i = draw(v.size() - 1);
		D &d = v[i];
		fail_at = faulty && chance(1, 3) ? (long)draw(2) : -1;
		static const int errs[] = {EIO, EPERM, EINVAL, ENOMEM, EBADF, EAGAIN};
		fail_err = errs[draw(5)];
		failed_nr = -1;
		seen = 0;
		int r, want, op = (int)draw(2), fl = 0;
		if (op == 1)
			fl = draw_flags(chance(1, 4) ? 12 : 5);
		sys_arm(hook);
		if (op == 0)
			r = fd_set_close_on_exec(d.fd);
		else if (op == 1)
			r = fd_add_flags(d.fd, fl);
		else
			r = fd_has_close_on_exec(d.fd);
		sys_disarm();
		note("%s on descriptor %zu%s%s%s: %d", op == 0 ? "set close-on-exec" : op == 1 ? "add flags" : "query", i, op == 1 ? (" " + std::to_string(fl)).c_str() : "", failed_nr >= 0 ? ", failing " : "", failed_nr >= 0 ? sys_name(failed_nr) : "", r);
		if (failed_nr >= 0) {
			useful += 2;
			classify("failing call");
			if (op == 2)
				VF_CHECK(r == 0 || r == (d.cloexec ? 1 : 0), "the query returned %d in spite of a failing call", r);
			else
				VF_CHECK(r == -fail_err, "%s returned %d though a call failed with error %d", op == 0 ? "setting close-on-exec" : "adding flags", r, fail_err);
		} else if (op == 0) {
			VF_CHECK(r == 0, "setting close-on-exec returned %d", r);
			d.cloexec = true;
			classify("set close-on-exec");
		} else if (op == 1) {
			int e = 0;
			if (fcntl(d.twin, F_SETFL, fcntl(d.twin, F_GETFL) | fl) < 0)
				e = errno;
			// where nothing changes, the system need not be asked
			VF_CHECK(r == -e || (r == 0 && (d.fl & fl) == fl), "adding flags %#o returned %d, expected %d", fl, r, -e);
			want = fcntl(d.twin, F_GETFL);
			int now = fcntl(d.fd, F_GETFL);
			int settable = O_APPEND | O_NONBLOCK | O_NOATIME;
			if (!e)
				VF_CHECK((now & d.fl) == d.fl && (now & fl & settable) == (fl & settable), "flags were %#o, added %#o, now %#o", d.fl, fl, now);
			d.fl = want;
			classify(e ? "flags refused by the system" : "add flags");
		} else {
			VF_CHECK(r == (d.cloexec ? 1 : 0), "the query returned %d", r);
			classify("query");
		}
		useful += d.fl != 0 || d.cloexec;
		for (size_t k = 0; k < v.size(); k++) { // all descriptors, not only this one
			int fd = fcntl(v[k].fd, F_GETFD), st = fcntl(v[k].fd, F_GETFL);
			VF_CHECK(fd == (v[k].cloexec ? FD_CLOEXEC : 0), "descriptor %zu has descriptor flags %d, expected %d", k, fd, v[k].cloexec);
			VF_CHECK(st == v[k].fl, "descriptor %zu has status flags %#o, expected %#o", k, st, v[k].fl);
		}
	}
	if (useful >= 2)
		nontrivial();
	for (auto &d : v) {
		close(d.fd);
		close(d.twin);
	}
}
VF_FACET(invalid_descriptors, 5000, 50000)
{
	int fd;
	switch (draw(3)) {
	case 0: fd = -1; break;
	case 1: fd = (int)(300 + draw(100000)); break;
	case 2: fd = (int)irange(INT32_MIN, -1); break;
	default: fd = INT32_MAX - (int)draw(10);
	}
	nontrivial();
	note("descriptor %d", fd);
	int a = fd_set_close_on_exec(fd), b = fd_has_close_on_exec(fd), c = fd_add_flags(fd, draw_flags(5) | O_NONBLOCK);
	VF_CHECK(a == -EBADF && b == 0 && c == -EBADF, "invalid descriptor %d: setting returned %d, the query %d, adding flags %d", fd, a, b, c);
}
