// VF variant: sched
// VF use: clock vsched
// VF wrap: clock_gettime,clock_getres,gettimeofday,time,timespec_get,nanosleep,clock_nanosleep,usleep,sleep,pthread_mutex_init,pthread_mutex_destroy,pthread_mutex_lock,pthread_mutex_trylock,pthread_mutex_timedlock,pthread_mutex_unlock,pthread_cond_init,pthread_cond_destroy,pthread_cond_wait,pthread_cond_timedwait,pthread_cond_clockwait,pthread_cond_signal,pthread_cond_broadcast,pthread_condattr_setclock,read,write,readv,writev,poll,ppoll,select,pselect,__asan_memcpy
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <algorithm>
#include <memory>
#include "vsched.h"
#include "vf.h"
extern "C" {
#include "futils/mbox.h"
}
using namespace vf;
VF_PROPERTY("C07", "exploration", "a thread was preempted between two system calls, or waited, or a call was interrupted");
VF_ASSUME("producers and the consumer interact through system calls on the pipe only; preemption and interruptions happen at these calls and waits");

static const ns_t MS = 1000000;
static struct mbox *box;
static int rfd, wfd;
static size_t size;
enum St { INFLIGHT, ACCEPTED, REFUSED };
struct Msg { St st; bool read; };
static std::vector<Msg> sent[4];
static size_t next_read[4];
static size_t unread, in_push;
static unsigned producers, done;
static bool in_peek;
static ns_t last_peek;
static ns_t room_since; // there has been room since then, -1: there is none
static ns_t push_start[4], waited_on[4]; // when a producer's message went in: how long there had been room
static std::string trail;
static void step(const char *fmt, ...)
{
	if (trail.size() > 3000)
		return;
	char b[160];
	va_list ap;
	va_start(ap, fmt);
	int n = snprintf(b, sizeof b, "[%lld us] ", (long long)(sched_now() / 1000));
	vsnprintf(b + n, sizeof b - (size_t)n, fmt, ap);
	va_end(ap);
	trail += b;
	trail += "\n";
}
#define BAD(...) do { note("%s", trail.c_str()); fail(__VA_ARGS__); } while (0)
static bool polls(int fd, short ev)
{
	pollfd p = {fd, ev, 0};
	return syscall(SYS_poll, &p, 1, 0) > 0;
}
static std::string body(unsigned p, size_t id)
{
	std::string s(size, 0);
	fill(id * 4 + p + 1, &s[0], size);
	s[0] = (char)(p << 6 | (id & 63));
	return s;
}
static void rest_check()
{
	if (in_push || in_peek)
		return;
	bool r = polls(rfd, POLLIN);
	if (r != (unread > 0))
		BAD("with all threads at rest the descriptor is %s and %zu messages are waiting", r ? "readable" : "not readable", unread);
}
static bool read_one()
{
	std::unique_ptr<char[]> out(new char[size]);
	bool had = unread > 0;
	in_peek = true;
	int r = mbox_peek(box, out.get());
	in_peek = false;
	SchedAtomic at;
	if (r) {
		step("read -> %d", r);
		if (r != -EAGAIN)
			BAD("read returns %d", r);
		if (had)
			BAD("a read finds nothing although a message was accepted before");
		rest_check();
		return false;
	}
	unsigned p = (unsigned char)out[0] >> 6;
	step("read -> message %u of producer %u", (unsigned char)out[0] & 63, p);
	if (p >= producers)
		BAD("a message is read that nobody pushed: %s", hex(out.get(), size, 16).c_str());
	size_t &k = next_read[p];
	while (k < sent[p].size() && sent[p][k].st == REFUSED)
		k++;
	if (k == sent[p].size())
		BAD("a message of producer %u is read that it didn't push: %s", p, hex(out.get(), size, 16).c_str());
	std::string b = body(p, k);
	if (memcmp(b.data(), out.get(), size))
		BAD("read %s, the next message of producer %u is %s", hex(out.get(), size, 16).c_str(), p, hex(b.data(), size, 16).c_str());
	sent[p][k].read = true;
	if (sent[p][k].st == ACCEPTED)
		unread--;
	k++;
	last_peek = sched_now();
	rest_check();
	return true;
}
static int push_one(unsigned p, bool block, unsigned timeout)
{
	size_t id = sent[p].size();
	sent[p].push_back({INFLIGHT, false});
	std::string b = body(p, id);
	std::unique_ptr<char[]> m(new char[size]);
	memcpy(m.get(), b.data(), size);
	bool surely_empty = !unread && !in_peek && !in_push;
	ns_t t0 = sched_now();
	push_start[p] = t0;
	waited_on[p] = 0;
	in_push++;
	int r = block ? mbox_push_block(box, m.get(), timeout) : mbox_push(box, m.get());
	in_push--;
	SchedAtomic at;
	ns_t t1 = sched_now(), due = t0 + (ns_t)timeout * MS;
	if (block)
		step("producer %u: blocking push, %u ms -> %d after %lld us", p, timeout, r, (long long)((t1 - t0) / 1000));
	else
		step("producer %u: push -> %d", p, r);
	if (r == 0) {
		sent[p][id].st = ACCEPTED;
		if (!sent[p][id].read)
			unread++;
	} else {
		if (r != (block ? -ETIMEDOUT : -EAGAIN) || (block && !timeout))
			BAD("%spush returns %d (%s)", block ? "blocking " : "", r, strerror(-r));
		if (sent[p][id].read)
			BAD("a refused message was delivered");
		sent[p][id].st = REFUSED;
		if (surely_empty && producers == 1)
			BAD("push into an empty mailbox returns %d", r);
	}
	if (!block && t1 != t0)
		BAD("a non-blocking push waits");
	if (block && timeout && t1 > due + MS)
		BAD("a blocking push with a timeout of %u ms returns after %lld us", timeout, (long long)((t1 - t0) / 1000));
	if (block && r == 0 && waited_on[p])
		BAD("a blocking push waits %lld us more although there is room", (long long)(waited_on[p] / 1000));
	if (r == -ETIMEDOUT) {
		classify("timed out");
		if (t1 < due)
			BAD("timed out after %lld us of %u ms", (long long)((t1 - t0) / 1000), timeout);
		// nobody made room just now: had there been any it was there before the time was up
		if (!in_peek && last_peek < t1 && (wfd >= 0 ? polls(wfd, POLLOUT) : !unread && !in_push))
			BAD("timed out although there is room");
	}
	if (block && t1 > t0) {
		classify("waited");
		nontrivial();
	}
	rest_check();
	return r;
}
static int find_wfd()
{
	struct stat a, b;
	if (fstat(rfd, &a))
		return -1;
	for (int fd = std::max(rfd - 8, 0); fd < rfd + 8; fd++)
		if (fd != rfd && !fstat(fd, &b) && S_ISFIFO(b.st_mode) && b.st_ino == a.st_ino && b.st_dev == a.st_dev && (fcntl(fd, F_GETFL) & O_ACCMODE) == O_WRONLY)
			return fd;
	return -1;
}
static void scenario(unsigned np, bool eintr)
{
	static const unsigned scales[] = {1, 10, 1000, 60000, 3600000, 4294968, 86400000, 2147483647};
	unsigned scale = scales[weighted({2, 3, 3, 1, 1, 2, 1, 1})];
	switch (draw(2)) {
	case 0: size = 4095 - draw(100); break;
	case 1: size = range(1, 4095); break;
	default: size = range(1000, 2100);
	}
	SchedCfg cfg = {eintr, false, false};
	sched_begin(cfg, (ns_t)draw(1000000) * 1000);
	producers = np;
	for (auto &s : sent)
		s.clear();
	memset(next_read, 0, sizeof next_read);
	unread = in_push = 0;
	done = 0;
	in_peek = false;
	last_peek = -1;
	trail.clear();
	box = mbox_new(size);
	VF_CHECK(box, "creation fails");
	rfd = mbox_get_read_fd(box);
	wfd = find_wfd();
	if (chance(7, 8))
		fcntl(rfd, F_SETPIPE_SZ, chance(2, 3) ? 4096 : 8192); // as for users with many pipes: full after a few messages
	room_since = sched_now();
	sched_io = [](int fd, bool wr, ssize_t r) {
		int p = sched_me();
		if (r == -2) {
			if (fd == wfd && wr && room_since >= 0 && p >= 0 && (unsigned)p < producers)
				waited_on[p] = sched_now() - std::max(room_since, push_start[p]);
		} else if (wfd >= 0) {
			if (!polls(wfd, POLLOUT))
				room_since = -1;
			else if (room_since < 0)
				room_since = sched_now();
			if (fd == wfd && wr && r < 0 && p >= 0 && (unsigned)p < producers)
				waited_on[p] = 0;
		}
	};
	sched_stuck = [](const std::string &w) {
		note("%s", trail.c_str());
		fail("no thread can go on with %zu messages waiting (descriptor %sreadable, %u of %u producers done): %s", unread, polls(rfd, POLLIN) ? "" : "not ", done, producers, w.c_str());
	};
	unsigned n = (unsigned)range(1, 10);
	static const char *const names[] = {"producer 0", "producer 1", "producer 2", "producer 3"};
	for (unsigned p = 0; p < np; p++)
		sched_spawn(names[p], [=] {
			for (unsigned i = 0; i < n; i++) {
				if (chance(1, 5))
					sched_sleep((ns_t)draw(2 * (uint64_t)scale) * MS / 7 / 1000 * 1000);
				bool b = chance(2, 3);
				unsigned t = chance(1, 4) ? 0 : chance(1, 3) ? scale : (unsigned)range(1, scale);
				push_one(p, b, b ? t : 0);
				sched_point();
			}
			done++;
		});
	sched_spawn("the consumer", [=] {
		while (done < np || unread) {
			switch (weighted({3, 2, 1})) {
			case 0:
				sched_wait([=] { return polls(rfd, POLLIN) || (done == np && !unread); }, -1, "readability");
				if (done == np && !unread)
					break;
				if (!read_one())
					BAD("the descriptor is readable and the only reader finds nothing");
				break;
			case 1:
				sched_sleep((ns_t)draw(2 * (uint64_t)scale) * MS / (chance(1, 2) ? 1 : 7) / 1000 * 1000);
				break;
			default:
				read_one();
				sched_point();
			}
		}
	});
	sched_run();
	note("size %zu\n%s%lu switches, %lu preemptions, %lu interruptions", size, trail.c_str(), sched_switches, sched_preempted, sched_interrupted);
	if (sched_preempted) {
		nontrivial();
		classify("preempted");
	}
	if (sched_interrupted) {
		nontrivial();
		classify("interrupted");
	}
	for (unsigned p = 0; p < np; p++)
		for (size_t i = 0; i < sent[p].size(); i++)
			if (sent[p][i].st == ACCEPTED && !sent[p][i].read)
				BAD("message %zu of producer %u was never read", i, p);
	if (polls(rfd, POLLIN))
		BAD("the descriptor is readable with no message waiting");
	mbox_destroy(box);
}
VF_FACET(one_producer, 60000, 1500000) { scenario(1, chance(1, 2)); }
VF_FACET(several_producers, 120000, 3000000) { scenario((unsigned)range(2, 4), false); }
VF_FACET(interrupted, 100000, 2500000) { scenario((unsigned)range(1, 3), true); }
