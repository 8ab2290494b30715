// VF variant: sched
// VF use: clock vsched
// VF wrap: clock_gettime,clock_getres,gettimeofday,time,timespec_get,nanosleep,clock_nanosleep,usleep,sleep,pthread_mutex_init,pthread_mutex_destroy,pthread_mutex_lock,pthread_mutex_trylock,pthread_mutex_timedlock,pthread_mutex_unlock,pthread_cond_init,pthread_cond_destroy,pthread_cond_wait,pthread_cond_timedwait,pthread_cond_clockwait,pthread_cond_signal,pthread_cond_broadcast,pthread_condattr_setclock,read,write,readv,writev,poll,ppoll,select,pselect,__asan_memcpy
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <algorithm>
#include <limits.h>
#include <poll.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <memory>
#include "vsched.h"
#include "vf.h"
extern "C" {
#include "futils/dynmbox.h"
}
using namespace vf;
VF_PROPERTY("C09", "exploration", "a thread was preempted inside a library call, or waited, or was woken for nothing");
VF_ASSUME("threads interact through the pthread mutex and condition calls, pipes and memory; preemption is possible at these calls and at each memory access and half of a copy, with sequentially consistent memory");
VF_ASSUME("nobody sets the real-time clock while a push waits");

static const size_t LIMIT = DYNMBOX_MAX_SIZE;
static const ns_t MS = 1000000;
static struct dynmbox *box;
static int rfd;
static size_t maxlen;
enum St { INFLIGHT, ACCEPTED, REFUSED };
struct Msg { size_t len; uint64_t seed; St st; bool read; };
static std::vector<Msg> msgs;
static size_t next_read, unread;
static bool in_push, in_peek, prod_done;
static ns_t last_peek; // when a read took a message
static std::string trail;
static void step(const char *fmt, ...)
{
	if (trail.size() > 3000)
		return;
	char b[120];
	va_list ap;
	va_start(ap, fmt);
	int n = snprintf(b, sizeof b, "[%lld us] ", (long long)(sched_now() / 1000));
	vsnprintf(b + n, sizeof b - (size_t)n, fmt, ap);
	va_end(ap);
	trail += b;
	trail += "\n";
}
#define BAD(...) do { note("%s", trail.c_str()); fail(__VA_ARGS__); } while (0)
static bool readable()
{
	pollfd p = {rfd, POLLIN, 0};
	return syscall(SYS_poll, &p, 1, 0) > 0;
}
static std::string body(const Msg &m)
{
	std::string s(m.len, 0);
	fill(m.seed, &s[0], m.len);
	return s;
}
static void rest_check()
{
	if (in_push || in_peek)
		return;
	bool r = readable();
	if (r != (unread > 0))
		BAD("with both sides at rest the descriptor is %s and %zu messages are waiting", r ? "readable" : "not readable", unread);
}
static bool read_one(bool must)
{
	std::unique_ptr<char[]> out(new char[maxlen ? maxlen : 1]);
	bool had = unread > 0;
	in_peek = true;
	ssize_t r = dynmbox_peek(box, out.get());
	in_peek = false;
	SchedAtomic at;
	step("read -> %zd", r);
	if (r == -EAGAIN) {
		if (had)
			BAD("a read finds nothing although a message was accepted before");
		rest_check();
		return false;
	}
	if (r < 0)
		BAD("read returns %zd", r);
	while (next_read < msgs.size() && msgs[next_read].st == REFUSED)
		next_read++;
	if (next_read == msgs.size())
		BAD("a message of %zd bytes is read that nobody pushed", r);
	Msg &m = msgs[next_read++];
	if (r != (ssize_t)m.len || memcmp(out.get(), body(m).data(), m.len))
		BAD("message %zu read as %zd bytes %s, pushed as %zu bytes %s", next_read - 1, r, hex(out.get(), (size_t)r, 16).c_str(), m.len, hex(body(m).data(), m.len, 16).c_str());
	m.read = true;
	if (m.st == ACCEPTED)
		unread--;
	last_peek = sched_now();
	rest_check();
	return true;
}
static int push_one(size_t len, bool block, unsigned timeout)
{
	size_t id = msgs.size();
	msgs.push_back({len, id * 7919 + len, INFLIGHT, false});
	std::string b = body(msgs[id]);
	std::unique_ptr<char[]> p(new char[len ? len : 1]);
	memcpy(p.get(), b.data(), len);
	bool surely_empty = !unread && !in_peek;
	ns_t t0 = sched_now();
	in_push = true;
	int r = block ? dynmbox_push_block(box, p.get(), len, timeout) : dynmbox_push(box, p.get(), len);
	in_push = false;
	SchedAtomic at;
	ns_t t1 = sched_now(), due = t0 + (ns_t)timeout * MS;
	if (block)
		step("blocking push of %zu bytes, %u ms -> %d after %lld us", len, timeout, r, (long long)((t1 - t0) / 1000));
	else
		step("push of %zu bytes -> %d", len, r);
	if (r == 0) {
		msgs[id].st = ACCEPTED;
		if (!msgs[id].read)
			unread++;
	} else {
		if (r != (block ? -ETIMEDOUT : -EAGAIN) || (block && !timeout))
			BAD("%spush returns %d", block ? "blocking " : "", r);
		if (surely_empty)
			BAD("push into an empty mailbox returns %d", r);
		if (msgs[id].read)
			BAD("a refused message was delivered");
		msgs[id].st = REFUSED;
	}
	if (!block && t1 != t0)
		BAD("a non-blocking push waits");
	if (block && r == 0 && t1 != t0 && last_peek != t1 && !in_peek)
		BAD("a blocking push waits %lld us longer than there is no room", (long long)((t1 - std::max(last_peek, t0)) / 1000));
	if (block && timeout && t1 > due)
		BAD("a blocking push with a timeout of %u ms returns after %lld us", timeout, (long long)((t1 - t0) / 1000));
	if (r == -ETIMEDOUT) {
		classify("timed out");
		if (t1 < due)
			BAD("timed out after %lld us of %u ms", (long long)((t1 - t0) / 1000), timeout);
		if (!in_peek && last_peek < t1) { // nobody made room just now
			size_t id2 = msgs.size();
			msgs.push_back({len, id2 * 7919 + len, INFLIGHT, false});
			b = body(msgs[id2]);
			memcpy(p.get(), b.data(), len);
			int r2 = dynmbox_push(box, p.get(), len);
			if (r2 == 0)
				BAD("timed out although there is room");
			msgs[id2].st = REFUSED;
		}
	}
	if (block && t1 > t0) {
		classify("waited");
		nontrivial();
	}
	rest_check();
	return r;
}
static ns_t pause_len(unsigned scale)
{
	return (ns_t)draw(2 * (uint64_t)scale) * MS / (chance(1, 2) ? 1 : 7) / 1000 * 1000;
}
static void scenario(bool block, bool fine)
{
	static const unsigned scales[] = {1, 10, 1000, 60000, 3600000, 4294968, 86400000, 2147483647, 4294967295u};
	unsigned scale = scales[weighted({2, 3, 3, 1, 1, 2, 1, 1, 2})];
	switch (draw(3)) {
	case 0: maxlen = LIMIT; break;
	case 1: maxlen = range(20000, LIMIT); break;
	case 2: maxlen = range(1, 64); break;
	default: maxlen = range(1000, 33000);
	}
	SchedCfg cfg = {false, true, fine};
	sched_begin(cfg, (ns_t)draw(1000000) * 1000);
	msgs.clear();
	next_read = unread = 0;
	in_push = in_peek = prod_done = false;
	last_peek = -1;
	trail.clear();
	box = dynmbox_new(maxlen);
	VF_CHECK(box, "creation fails");
	rfd = dynmbox_get_read_fd(box);
	sched_stuck = [](const std::string &w) {
		note("%s", trail.c_str());
		fail("no thread can go on with %zu messages waiting (descriptor %sreadable, producer %s): %s", unread, readable() ? "" : "not ", prod_done ? "done" : in_push ? "pushing" : "between calls", w.c_str());
	};
	unsigned n = (unsigned)range(1, block ? 10 : 14);
	sched_spawn("the producer", [=] {
		for (unsigned i = 0; i < n; i++) {
			if (chance(1, 5))
				sched_sleep(pause_len(scale));
			size_t len = chance(1, 2) ? maxlen - std::min(maxlen, (size_t)draw(10)) : chance(1, 4) ? 0 : draw(maxlen);
			bool b = block && chance(2, 3);
			unsigned t = chance(1, 4) ? 0 : chance(1, 3) ? scale : (unsigned)range(1, scale);
			push_one(len, b, b ? t : 0);
			sched_point();
		}
		prod_done = true;
	});
	sched_spawn("the consumer", [=] {
		while (!prod_done || unread) {
			switch (weighted({3, 2, 1})) {
			case 0: // wait for the descriptor
				sched_wait([] { return readable() || (prod_done && !unread); }, -1, "readability");
				if (prod_done && !unread)
					break;
				if (!read_one(true))
					sched_sleep(1000);
				break;
			case 1:
				sched_sleep(pause_len(scale));
				break;
			default:
				read_one(false);
				sched_point();
			}
		}
	});
	sched_run();
	note("%s%lu switches, %lu preemptions, %lu wake-ups for nothing", trail.c_str(), sched_switches, sched_preempted, sched_spurious_wakeups);
	if (sched_preempted) {
		nontrivial();
		classify("preempted");
	}
	if (sched_spurious_wakeups) {
		nontrivial();
		classify("woken for nothing");
	}
	for (size_t i = 0; i < msgs.size(); i++)
		if (msgs[i].st == ACCEPTED && !msgs[i].read)
			BAD("message %zu was never read", i);
	if (readable())
		BAD("the descriptor is readable with no message waiting");
	dynmbox_destroy(box);
}
VF_FACET(schedules, 120000, 3000000) { scenario(true, true); }
VF_FACET(polling_schedules, 80000, 2000000) { scenario(false, true); }
VF_FACET(coarse_schedules, 120000, 3000000) { scenario(true, false); }
