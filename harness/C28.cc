// VF variant: asan
// VF use: sysfault alloc
// VF wrap: malloc,calloc,realloc,reallocarray,free,strdup,strndup
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdlib.h>
#include <string.h>
#include <sys/inotify.h>
#include <sys/ioctl.h>
#include <deque>
#include "alloc.h"
#include "sysfault.h"
#include "tree.h"
#include "futils/inotify.h"
using namespace vf;
VF_PROPERTY("C28", "exploration", "several events, or events of more than 512 bytes in total, pending at one processing call; or a call that fails");
VF_ASSUME("the events the system has for the watches are those a second inotify instance, given the same watches and read directly at the same moments, returns");

static std::string dir; // emptied between cases
static std::vector<std::string> files; // names (relative to dir) that exist now, directories end with '/'
static unsigned serial;
static const char *const subs[] = {"", "sub/", "sub2/"};
static std::string newname(bool uniq)
{
	char b[32];
	snprintf(b, sizeof b, "%u", serial++);
	std::string n = b;
	if (chance(1, 2)) {
		size_t want = chance(1, 4) ? range(235, 255) : chance(1, 2) ? range(8, 40) : range(1, 255);
		while (n.size() < want)
			n += (char)(draw(7) ? 'a' + n.size() % 26 : 0xe9);
		n.resize(std::max(want, strlen(b)));
	}
	return n;
}
static std::string full(const std::string &n) { return dir + "/" + n; }
static void touch(const std::string &n, bool wr)
{
	int fd = open(full(n).c_str(), O_CREAT | O_WRONLY, 0600);
	if (fd < 0)
		return;
	if (wr)
		(void)!write(fd, "x", 1);
	close(fd);
}
static void op(bool uniq)
{
	size_t i = files.empty() ? 0 : draw(files.size() - 1);
	std::string sub = subs[weighted({4, 1, 1})];
	unsigned k = uniq || files.empty() ? (chance(1, 4) ? 4 : 0) : (unsigned)draw(7);
	switch (k) {
	case 0: case 1: {
		std::string n = sub + newname(uniq);
		touch(n, chance(1, 2));
		files.push_back(n);
		break;
	}
	case 2:
		touch(files[i], true);
		break;
	case 3:
		unlink(full(files[i]).c_str());
		files.erase(files.begin() + (long)i);
		break;
	case 4: {
		if (files.empty())
			return;
		std::string n = sub + newname(uniq);
		rename(full(files[i]).c_str(), full(n).c_str());
		files[i] = n;
		break;
	}
	case 5: {
		std::string n = full(newname(uniq));
		mkdir(n.c_str(), 0700);
		if (chance(1, 2))
			rmdir(n.c_str());
		break;
	}
	case 6:
		chmod(full(files[i]).c_str(), chance(1, 2) ? 0600 : 0644);
		break;
	default: {
		char c;
		int fd = open(full(files[i]).c_str(), O_RDONLY);
		if (fd >= 0) {
			(void)!read(fd, &c, 1);
			close(fd);
		}
	}
	}
}
static void fresh_dir()
{
	dir = tree::fresh("w");
	files.clear();
	serial = 0;
	for (int i = 1; i < 3; i++)
		VF_CHECK(!mkdir(full(subs[i]).c_str(), 0700), "harness: mkdir: %s", strerror(errno));
	if (chance(1, 2)) {
		touch("0", false);
		files.push_back("0");
		serial = 1;
	}
}

static int lib_fd = -1, ref_fd = -1;
typedef std::string Ev; // the event's bytes, its header and its padded name
static std::deque<Ev> want;
static std::string show(const Ev &e)
{
	const inotify_event *v = (const inotify_event *)e.data();
	char b[80];
	snprintf(b, sizeof b, "{wd %d mask %x cookie %u len %u ", v->wd, v->mask, v->cookie, v->len);
	return b + quote(std::string(v->name, v->len ? strnlen(v->name, v->len) : 0)) + "}";
}
static size_t drain_ref()
{
	static char buf[1 << 16];
	size_t total = 0;
	for (;;) {
		ssize_t n = read(ref_fd, buf, sizeof buf);
		if (n <= 0)
			return total;
		for (char *p = buf; p < buf + n;) {
			inotify_event *v = (inotify_event *)p;
			size_t l = sizeof *v + v->len;
			want.push_back(Ev(p, l));
			p += l;
			total += l;
		}
	}
}
static void *cookie_ptr;
static size_t called;
static unsigned cb_ops;
static void cb(struct inotify_event *ev, void *data)
{
	AllocPause ap;
	SysPause sp;
	called++;
	if (want.empty())
		drain_ref(); // happened since the call began
	VF_CHECK(data == cookie_ptr, "the callback's pointer is %p instead of %p", data, cookie_ptr);
	VF_CHECK(!want.empty(), "called for an event that is not pending: %s", show(Ev((char *)ev, sizeof *ev + ev->len)).c_str());
	Ev w = want.front();
	want.pop_front();
	Ev got((char *)ev, sizeof *ev);
	VF_CHECK(got == w.substr(0, sizeof *ev), "event %zu: got header %s, the system has %s", called, hex(got.data(), got.size()).c_str(), show(w).c_str());
	got.append(ev->name, ev->len);
	VF_CHECK(got == w, "event %zu: got %s, the system has %s", called, show(got).c_str(), show(w).c_str());
	if (cb_ops) {
		cb_ops--;
		op(true);
	}
}
// ---- faults and events in between
static long seen, fail_at;
static int fail_err;
static long fault_nr;
static long inject_at; // perform operations before the n-th call on the descriptor
static bool blocked;
static bool hook(Sys &s, long *ret)
{
	if (s.nr == SYS_write || s.nr == SYS_writev)
		return false;
	bool mine = false;
	switch (s.nr) {
	case SYS_read: case SYS_readv: case SYS_ioctl: case SYS_poll: case SYS_ppoll: case SYS_fcntl:
		mine = true;
	}
	long i = seen++;
	if (mine && i == inject_at) {
		AllocPause ap;
		unsigned n = (unsigned)range(1, 3);
		for (unsigned k = 0; k < n; k++)
			op(true);
		classify("events arriving during the processing");
	}
	if (i == fail_at) {
		fault_nr = s.nr;
		if (s.nr == SYS_close) // the descriptor is gone even so
			sys_raw(SYS_close, s.a[0]);
		*ret = -fail_err;
		return true;
	}
	if (s.nr == SYS_read && (int)s.a[0] == lib_fd) {
		int n = 0;
		sys_raw(SYS_ioctl, lib_fd, FIONREAD, (long)&n);
		if (!n && !(sys_raw(SYS_fcntl, lib_fd, F_GETFL) & O_NONBLOCK)) {
			blocked = true;
			*ret = -EIO;
			return true;
		}
	}
	return false;
}
static void process(unsigned fault, unsigned callback_ops, bool inject)
{
	static char anchors[4];
	cookie_ptr = chance(1, 4) ? nullptr : &anchors[draw(3)];
	drain_ref();
	size_t pending = want.size();
	int raw = 0;
	ioctl(lib_fd, FIONREAD, &raw);
	called = 0;
	cb_ops = callback_ops;
	seen = 0;
	fail_at = inject_at = -1;
	fault_nr = -1;
	blocked = false;
	static const int errs[] = {EINTR, EIO, EAGAIN, ENOMEM};
	long oom = 0;
	if (fault == 1) {
		fail_at = (long)draw(1);
		fail_err = errs[draw(3)];
	} else if (fault == 2) {
		oom = 1;
	}
	if (inject)
		inject_at = (long)draw(1);
	alloc_enter(oom, oom);
	sys_arm(hook);
	inotify_process_fd(lib_fd, cb, cookie_ptr);
	sys_disarm();
	alloc_leave();
	note("process: %zu pending (%d bytes), %zu called%s%s", pending, raw, called, fault_nr >= 0 ? ", failing call " : "", fault_nr >= 0 ? sys_name(fault_nr) : "");
	VF_CHECK(!blocked, "waits for events when none is pending");
	VF_CHECK(alloc_live() == 0, "%ld blocks of memory are kept", alloc_live());
	bool faulted = fault_nr >= 0 || (oom && alloc_failed());
	if (faulted) {
		nontrivial();
		classify("failing call");
	} else {
		VF_CHECK(called >= pending, "only %zu of %zu pending events delivered", called, pending);
	}
	if (pending >= 2 || raw > 512)
		nontrivial();
	if (raw > 512)
		classify("more than 512 bytes pending");
	if (raw == 512)
		classify("exactly 512 bytes pending");
	if (!pending)
		classify("nothing pending");
}
static const uint32_t masks[] = {IN_ALL_EVENTS, IN_CREATE | IN_DELETE | IN_MOVE, IN_CLOSE_WRITE, IN_CREATE, IN_MODIFY | IN_ATTRIB, IN_ALL_EVENTS | IN_ONLYDIR, IN_CREATE | IN_ONESHOT, IN_MOVED_TO, IN_ALL_EVENTS | IN_EXCL_UNLINK};
static uint32_t some_mask()
{
	if (chance(1, 2))
		return masks[weighted({6, 1, 1, 1, 1, 1, 1, 1, 1})];
	uint32_t m = (uint32_t)draw(IN_ALL_EVENTS) & IN_ALL_EVENTS;
	if (chance(1, 3))
		m &= (uint32_t)draw(IN_ALL_EVENTS); // few kinds
	m |= m ? 0 : 1u << draw(11);
	static const uint32_t fl[] = {0, IN_ONLYDIR, IN_EXCL_UNLINK, IN_ONESHOT, IN_DONT_FOLLOW};
	return m | fl[weighted({6, 1, 1, 1, 1})];
}
static void begin(uint32_t mask)
{
	want.clear();
	// the same directory by other paths
	std::string p = dir, lnk = dir + "-link";
	(void)unlink(lnk.c_str());
	switch (weighted({5, 1, 1, 1})) {
	case 0: break;
	case 1: p += "/"; break;
	case 2: p += "/../" + dir.substr(dir.rfind('/') + 1) + "/."; break;
	default: // a symbolic link, followed or not
		p = lnk;
		VF_CHECK(!symlink(dir.c_str(), p.c_str()), "harness: symlink: %s", strerror(errno));
	}
	ref_fd = inotify_init1(IN_NONBLOCK | IN_CLOEXEC);
	VF_CHECK(ref_fd >= 0, "harness: inotify: %s", strerror(errno));
	if (inotify_add_watch(ref_fd, p.c_str(), mask) < 0) { // a link not followed is no directory
		VF_CHECK(errno == ENOTDIR, "harness: inotify: %s", strerror(errno));
		VF_CHECK(inotify_create(p.c_str(), mask) == -1, "creation succeeds where the system refuses");
		mask &= ~(uint32_t)IN_ONLYDIR;
		VF_CHECK(inotify_add_watch(ref_fd, p.c_str(), mask) >= 0, "harness: inotify: %s", strerror(errno));
	}
	note("watching %s, mask %x", p.substr(dir.rfind('/')).c_str(), mask);
	lib_fd = inotify_create(p.c_str(), mask);
	VF_CHECK(lib_fd >= 0, "creation fails on an existing directory with mask %x: %s", mask, strerror(errno));
	VF_CHECK(ref_fd >= 0, "harness: inotify: %s", strerror(errno));
	VF_CHECK(fcntl(lib_fd, F_GETFD) & FD_CLOEXEC, "the descriptor is inherited by programs started later");
}
static void end(int fds)
{
	process(0, 0, false);
	process(0, 0, false);
	drain_ref();
	VF_CHECK(want.empty(), "%zu events never delivered, the first: %s", want.size(), show(want.front()).c_str());
	inotify_destroy(lib_fd);
	close(ref_fd);
	VF_CHECK(sys_open_fds() == fds, "descriptors left open after destruction: %d instead of %d", sys_open_fds(), fds);
}
VF_FACET(histories, 2500, 120000)
{
	fresh_dir();
	int fds = sys_open_fds();
	begin(some_mask());
	unsigned rounds = (unsigned)range(1, 6);
	for (unsigned r = 0; r < rounds; r++) {
		if (chance(1, 4)) { // more watches on the same instances
			std::string p = full(subs[draw(2)]);
			uint32_t m = some_mask() | (chance(1, 4) ? IN_MASK_ADD : 0);
			int a = inotify_add_watch(lib_fd, p.c_str(), m), b = inotify_add_watch(ref_fd, p.c_str(), m);
			VF_CHECK(a == b, "harness: watch descriptors differ");
			if (chance(1, 4) && a >= 0) {
				inotify_rm_watch(lib_fd, a);
				inotify_rm_watch(ref_fd, a);
			}
		}
		unsigned n = (unsigned)(chance(1, 8) ? range(30, 120) : draw(12));
		for (unsigned i = 0; i < n; i++)
			op(false);
		process(0, 0, false);
		if (chance(1, 4))
			process(0, 0, false);
	}
	end(fds);
}
// total sizes around the internal buffer's: events without and with names of chosen lengths
VF_FACET(sizes, 2000, 60000)
{
	dir = tree::fresh("z");
	int fds = sys_open_fds();
	std::string f = full("f");
	files = {"f"};
	touch("f", false);
	bool onfile = chance(1, 3);
	if (onfile) {
		// nameless events of 16 bytes
		want.clear();
		lib_fd = inotify_create(f.c_str(), IN_OPEN | IN_CLOSE);
		ref_fd = inotify_init1(IN_NONBLOCK | IN_CLOEXEC);
		VF_CHECK(lib_fd >= 0 && inotify_add_watch(ref_fd, f.c_str(), IN_OPEN | IN_CLOSE) >= 0, "creation fails on an existing file");
		unsigned n = (unsigned)(chance(1, 2) ? range(14, 18) : range(0, 300));
		for (unsigned i = 0; i < n; i++)
			touch("f", false);
	} else {
		begin(IN_CREATE | IN_DELETE);
		unsigned n = (unsigned)range(1, 8);
		for (unsigned i = 0; i < n; i++) {
			char b[16];
			snprintf(b, sizeof b, "%u", i);
			std::string s(range(1, 255), 'n');
			s.replace(0, std::min(s.size(), strlen(b)), b, std::min(s.size(), strlen(b)));
			touch(s, false);
		}
	}
	process(0, 0, false);
	process(0, 0, false);
	end(fds);
}
// operations made by the callback, and by others while the events are being read
VF_FACET(concurrent_events, 1800, 80000)
{
	fresh_dir();
	int fds = sys_open_fds();
	begin(IN_ALL_EVENTS);
	unsigned rounds = (unsigned)range(1, 5);
	for (unsigned r = 0; r < rounds; r++) {
		unsigned n = (unsigned)draw(8);
		for (unsigned i = 0; i < n; i++)
			op(true);
		bool inj = chance(1, 2);
		process(0, (unsigned)draw(4), inj);
	}
	end(fds);
}
VF_FACET(faults, 1800, 80000)
{
	fresh_dir();
	int fds = sys_open_fds();
	begin(IN_ALL_EVENTS);
	unsigned rounds = (unsigned)range(1, 6);
	for (unsigned r = 0; r < rounds; r++) {
		unsigned n = (unsigned)draw(10);
		for (unsigned i = 0; i < n; i++)
			op(true);
		process((unsigned)draw(2), 0, false);
	}
	end(fds);
}
VF_FACET(overflow, 16, 300, 0, 60)
{
	dir = tree::fresh("o");
	files.clear();
	int fds = sys_open_fds();
	begin(IN_ATTRIB);
	touch("a", false);
	touch(std::string(250, 'b'), false);
	unsigned n = (unsigned)(chance(1, 2) ? range(16380, 16400) : range(2000, 40000));
	std::string a = full("a"), b = full(std::string(250, 'b'));
	for (unsigned i = 0; i < n; i++)
		chmod((i & 1 ? a : b).c_str(), 0600);
	process(0, 0, false);
	end(fds);
}
VF_FACET(creation, 2500, 60000)
{
	fresh_dir();
	touch("file", false);
	std::string p;
	uint32_t mask = IN_ALL_EVENTS;
	bool bad = true;
	switch (draw(6)) {
	case 0: p = dir; bad = false; break;
	case 1: p = full("missing"); break;
	case 2: p = full("file/x"); break;
	case 3: p = ""; break;
	case 4: p = dir; mask = 0; break;
	case 5: p = dir + "/" + std::string(range(256, 5000), 'x'); break;
	default: p = full("file"); mask = IN_CREATE | IN_ONLYDIR;
	}
	seen = 0;
	fault_nr = inject_at = fail_at = -1;
	blocked = false;
	static const int errs[] = {EMFILE, ENFILE, ENOMEM, ENOSPC};
	fail_err = errs[draw(3)];
	if (chance(2, 3))
		fail_at = (long)draw(4);
	int fds = sys_open_fds();
	alloc_enter();
	sys_arm(hook);
	int fd = inotify_create(p.c_str(), mask);
	sys_disarm();
	alloc_leave();
	note("create(%s, %x), failing %s -> %d", quote(p).c_str(), mask, fault_nr >= 0 ? sys_name(fault_nr) : "nothing", fd);
	if (fault_nr >= 0 || bad) {
		nontrivial();
		classify(bad ? "bad path or mask" : "failing call");
	}
	if (bad || fault_nr == SYS_inotify_init || fault_nr == SYS_inotify_init1 || fault_nr == SYS_inotify_add_watch)
		VF_CHECK(fd == -1, "returns %d although the watch could not be made", fd);
	else if (fault_nr < 0)
		VF_CHECK(fd >= 0, "fails on an existing path");
	if (fd < 0) {
		VF_CHECK(fd == -1, "returns %d on failure", fd);
		inotify_destroy(fd);
	} else {
		VF_CHECK(sys_open_fds() == fds + 1, "creation opened %d descriptors", sys_open_fds() - fds);
		inotify_destroy(fd);
	}
	VF_CHECK(sys_open_fds() == fds, "%d descriptors left open after a %s creation", sys_open_fds() - fds, fd < 0 ? "failed" : "released");
	VF_CHECK(alloc_live() == 0, "%ld blocks of memory are kept", alloc_live());
}
