// wrap: pthread_mutex_init,pthread_mutex_destroy,pthread_mutex_lock,pthread_mutex_trylock,pthread_mutex_timedlock,
// pthread_mutex_unlock,pthread_cond_init,pthread_cond_destroy,pthread_cond_wait,pthread_cond_timedwait,
// pthread_cond_clockwait,pthread_cond_signal,pthread_cond_broadcast,pthread_condattr_setclock,read,write,readv,writev,poll,ppoll,select,pselect,
// __asan_memcpy, and clock.cc's
#include "vsched.h"
#include "vf.h"
#include <errno.h>
#include <algorithm>
#include <map>
#include <memory>
#include <poll.h>
#include <pthread.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <vector>
#if VF_HAVE_ASAN
#include <sanitizer/common_interface_defs.h>
#endif
// void vf_switch(void **save_sp, void *new_sp)
asm(R"(
	.text
	.globl vf_switch
	.type vf_switch,@function
vf_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
)");
extern "C" void vf_switch(void **save, void *to);
namespace vf {
static const size_t STACK = 256 << 10;
struct Task {
	const char *name;
	std::function<void()> fn;
	char *stack = nullptr;
	void *sp = nullptr;
	void *fake = nullptr;
	bool started = false, done = false, blocked = false;
	std::function<bool()> pred;
	ns_t deadline = -1;
	bool spurious = false; // may be woken for nothing
	bool woke_spurious = false;
	const char *what = "";
	long countdown = -1;
	int err = 0;
};
static std::vector<std::unique_ptr<Task>> tasks;
static std::vector<char *> stack_pool;
static Task *cur;
static void *main_sp, *main_fake;
static const void *main_bottom;
static size_t main_size;
static SchedCfg cfg;
static int atomic_depth;
static bool active;
static unsigned long steps;
static unsigned spurious_left, eintr_left;
std::function<void(const std::string &)> sched_stuck;
std::function<void(int, bool, ssize_t)> sched_io;
unsigned long sched_switches, sched_preempted, sched_interrupted, sched_spurious_wakeups;

SchedAtomic::SchedAtomic() { atomic_depth++; }
SchedAtomic::~SchedAtomic() { atomic_depth--; }

struct Mutex { Task *owner = nullptr; bool held = false; int depth = 0; int type = 0; };
struct Waiter { Task *t; bool signalled; };
struct Cond { clockid_t clock = CLOCK_REALTIME; std::vector<Waiter *> q; };
static std::map<void *, Mutex> mutexes;
static std::map<void *, Cond> conds;
static std::map<const void *, clockid_t> cond_clocks;

static void to_main()
{
	Task *me = cur;
	int e = errno;
#if VF_HAVE_ASAN
	__sanitizer_start_switch_fiber(me->done ? nullptr : &me->fake, main_bottom, main_size);
#endif
	vf_switch(&me->sp, main_sp);
#if VF_HAVE_ASAN
	__sanitizer_finish_switch_fiber(me->fake, &main_bottom, &main_size);
#endif
	errno = e;
}
static void entry()
{
#if VF_HAVE_ASAN
	__sanitizer_finish_switch_fiber(nullptr, &main_bottom, &main_size);
#endif
	cur->fn();
	cur->fn = nullptr;
	cur->done = true;
	to_main();
	__builtin_trap();
}
static void resume(Task *t)
{
	cur = t;
	if (!t->started) {
		t->started = true;
		if (stack_pool.empty()) {
			t->stack = (char *)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
			if (t->stack == MAP_FAILED)
				fail("harness: mmap");
		} else {
			t->stack = stack_pool.back();
			stack_pool.pop_back();
		}
		void **p = (void **)(t->stack + STACK - 64);
		*--p = nullptr; // keeps the stack aligned as after a call
		*--p = (void *)entry;
		for (int i = 0; i < 6; i++)
			*--p = nullptr;
		t->sp = p;
	}
#if VF_HAVE_ASAN
	__sanitizer_start_switch_fiber(&main_fake, t->stack, STACK);
#endif
	vf_switch(&main_sp, t->sp);
#if VF_HAVE_ASAN
	__sanitizer_finish_switch_fiber(main_fake, nullptr, nullptr);
#endif
	cur = nullptr;
}
void sched_begin(const SchedCfg &c, ns_t start)
{
	cfg = c;
	tasks.clear();
	mutexes.clear();
	conds.clear();
	cond_clocks.clear();
	clk_reset();
	clk.now = start;
	clk.off[CLOCK_REALTIME] = clk.off[CLOCK_REALTIME_COARSE] = (ns_t)1700000000 * 1000000000;
	atomic_depth = 0;
	steps = 0;
	spurious_left = 20;
	eintr_left = 40;
	sched_switches = sched_preempted = sched_interrupted = sched_spurious_wakeups = 0;
	active = true;
	cur = nullptr;
	sched_stuck = nullptr;
	sched_io = nullptr;
	clk.sleeper = [](ns_t d) {
		if (!cur)
			return false;
		sched_sleep(d);
		return true;
	};
}
int sched_spawn(const char *name, std::function<void()> fn)
{
	tasks.emplace_back(new Task);
	tasks.back()->name = name;
	tasks.back()->fn = std::move(fn);
	return (int)tasks.size() - 1;
}
int sched_me()
{
	for (size_t i = 0; i < tasks.size(); i++)
		if (tasks[i].get() == cur)
			return (int)i;
	return -1;
}
static long slice()
{
	switch (weighted({3, 2, 2, 1})) {
	case 0: return 1 << 30;
	case 1: return (long)smallish(40) + 1;
	case 2: return (long)draw(400) + 1;
	default: return 1;
	}
}
void sched_run()
{
	clk_arm();
	for (;;) {
		std::vector<Task *> ready;
		bool all = true;
		if (++steps > 200000)
			fail("harness: the schedule does not end");
		for (auto &t : tasks) {
			if (t->done)
				continue;
			all = false;
			if (!t->blocked || t->pred() || (t->deadline >= 0 && t->deadline <= clk.now))
				ready.push_back(t.get());
		}
		if (all)
			break;
		if (cfg.spurious && spurious_left)
			for (auto &t : tasks)
				if (!t->done && t->blocked && t->spurious && chance(1, 12)) {
					spurious_left--;
					sched_spurious_wakeups++;
					t->woke_spurious = true;
					if (std::find(ready.begin(), ready.end(), t.get()) == ready.end())
						ready.push_back(t.get());
				}
		if (ready.empty()) {
			ns_t next = -1;
			for (auto &t : tasks)
				if (!t->done && t->deadline >= 0 && (next < 0 || t->deadline < next))
					next = t->deadline;
			if (next < 0) {
				std::string w;
				for (auto &t : tasks)
					if (!t->done)
						w += std::string(w.empty() ? "" : "; ") + t->name + " waits for " + t->what;
				clk_disarm();
				if (sched_stuck)
					sched_stuck(w);
				fail("nothing can go on: %s", w.c_str());
			}
			clk.now = next;
			continue;
		}
		Task *t = ready[draw(ready.size() - 1)];
		t->blocked = false;
		if (t->countdown <= 0)
			t->countdown = slice();
		sched_switches++;
		resume(t);
		if (t->done && t->stack) {
			stack_pool.push_back(t->stack);
			t->stack = nullptr;
		}
	}
	clk_disarm();
	active = false;
}
void sched_point()
{
	if (!cur || atomic_depth || !active)
		return;
	if (--cur->countdown > 0)
		return;
	sched_preempted++;
	to_main();
}
static inline void fine_point()
{
	if (cfg.fine)
		sched_point();
}
bool sched_wait(const std::function<bool()> &pred, ns_t deadline, const char *what)
{
	if (!cur)
		fail("harness: wait outside a task");
	for (;;) {
		if (pred())
			return true;
		if (deadline >= 0 && deadline <= clk.now)
			return false;
		Task *me = cur;
		me->pred = pred;
		me->deadline = deadline;
		me->what = what;
		me->blocked = true;
		int d = atomic_depth;
		atomic_depth = 0;
		to_main();
		atomic_depth = d;
		me->deadline = -1;
		me->pred = nullptr;
		if (me->woke_spurious)
			return false;
	}
}
void sched_sleep(ns_t d) { sched_wait([] { return false; }, clk.now + d, "time to pass"); }

// ---- mutexes and conditions
static int lock(void *m, bool try_, ns_t deadline)
{
	sched_point();
	Mutex &x = mutexes[m];
	if (x.held && x.owner == cur) {
		if (x.type == PTHREAD_MUTEX_RECURSIVE) {
			x.depth++;
			return 0;
		}
		if (try_)
			return EBUSY;
		if (x.type == PTHREAD_MUTEX_ERRORCHECK)
			return EDEADLK;
		fail("a thread locks a mutex it already holds");
	}
	if (x.held && try_)
		return EBUSY;
	if (x.held && !cur)
		fail("a mutex is still held when no thread runs");
	if (x.held && !sched_wait([&x] { return !x.held; }, deadline, "a mutex"))
		return ETIMEDOUT;
	x.held = true;
	x.owner = cur;
	x.depth = 1;
	return 0;
}
static int unlock(void *m)
{
	Mutex &x = mutexes[m];
	if (!x.held || x.owner != cur) {
		if (x.type == PTHREAD_MUTEX_ERRORCHECK || x.type == PTHREAD_MUTEX_RECURSIVE)
			return EPERM;
		fail("a thread unlocks a mutex it does not hold");
	}
	if (--x.depth)
		return 0;
	x.held = false;
	x.owner = nullptr;
	sched_point();
	return 0;
}
static int cond_wait(void *c, void *m, const timespec *abs, clockid_t clock)
{
	if (!cur)
		fail("a condition is waited for outside any thread");
	Mutex &x = mutexes[m];
	if (!x.held || x.owner != cur)
		fail("a condition is waited for without its mutex");
	ns_t deadline = -1;
	if (abs) {
		if (abs->tv_nsec < 0 || abs->tv_nsec > 999999999)
			return EINVAL;
		deadline = (ns_t)abs->tv_sec * 1000000000 + abs->tv_nsec - clk.off[clock];
		if (deadline < 0)
			deadline = 0;
	}
	Cond &cd = conds[c];
	Waiter w{cur, false};
	cd.q.push_back(&w);
	int depth = x.depth;
	x.held = false;
	x.owner = nullptr;
	Task *me = cur;
	sched_point();
	me->spurious = true;
	me->woke_spurious = false;
	bool ok = sched_wait([&w] { return w.signalled; }, deadline, "a condition");
	me->spurious = false;
	bool spur = me->woke_spurious;
	me->woke_spurious = false;
	if (!w.signalled)
		for (size_t i = 0; i < cd.q.size(); i++)
			if (cd.q[i] == &w) {
				cd.q.erase(cd.q.begin() + (long)i);
				break;
			}
	if (x.held)
		sched_wait([&x] { return !x.held; }, -1, "a mutex");
	x.held = true;
	x.owner = cur;
	x.depth = depth;
	return ok || w.signalled || spur ? 0 : ETIMEDOUT;
}
static int wake(void *c, bool all)
{
	sched_point();
	Cond &cd = conds[c];
	while (!cd.q.empty()) {
		size_t i = draw(cd.q.size() - 1);
		cd.q[i]->signalled = true;
		cd.q.erase(cd.q.begin() + (long)i);
		if (!all)
			break;
	}
	sched_point();
	return 0;
}
static bool interrupted()
{
	if (!cur || !cfg.eintr || !eintr_left || !chance(1, 8))
		return false;
	eintr_left--;
	sched_interrupted++;
	errno = EINTR;
	return true;
}
static bool use() { return active; }
static int do_poll(pollfd *p, nfds_t n, ns_t timeout)
{
	sched_point();
	auto now_ready = [p, n] { return syscall(SYS_poll, p, n, 0) != 0; };
	ns_t start = clk.now, deadline = timeout < 0 ? -1 : start + timeout;
	if (cfg.eintr && eintr_left && timeout && chance(1, 4) && !now_ready()) {
		// a signal arrives after some time
		eintr_left--;
		ns_t at = timeout < 0 ? start + (ns_t)draw(5000000) * 1000 : start + timeout * (ns_t)draw(256) / 256;
		if (at == deadline)
			at = start;
		if (!sched_wait(now_ready, at, "a descriptor")) {
			sched_interrupted++;
			errno = EINTR;
			return -1;
		}
	} else {
		sched_wait(now_ready, deadline, "a descriptor");
	}
	int r = (int)syscall(SYS_poll, p, n, 0);
	sched_point();
	return r;
}
} // namespace vf
using namespace vf;
extern "C" {
int __real_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *);
int __real_pthread_mutex_destroy(pthread_mutex_t *);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __real_pthread_mutex_timedlock(pthread_mutex_t *, const timespec *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *);
int __real_pthread_cond_destroy(pthread_cond_t *);
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
int __real_pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const timespec *);
int __real_pthread_cond_clockwait(pthread_cond_t *, pthread_mutex_t *, clockid_t, const timespec *);
int __real_pthread_cond_signal(pthread_cond_t *);
int __real_pthread_cond_broadcast(pthread_cond_t *);
int __real_pthread_condattr_setclock(pthread_condattr_t *, clockid_t);
ssize_t __real_read(int, void *, size_t);
ssize_t __real_write(int, const void *, size_t);
int __real_poll(pollfd *, nfds_t, int);
int __real_ppoll(pollfd *, nfds_t, const timespec *, const sigset_t *);
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
	if (!use())
		return __real_pthread_mutex_init(m, a);
	int type = 0;
	if (a)
		pthread_mutexattr_gettype(a, &type);
	mutexes[m] = Mutex();
	mutexes[m].type = type;
	return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m)
{
	if (!use())
		return __real_pthread_mutex_destroy(m);
	if (mutexes[m].held)
		fail("a locked mutex is destroyed");
	mutexes.erase(m);
	return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { return use() ? lock(m, false, -1) : __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { return use() ? lock(m, true, -1) : __real_pthread_mutex_trylock(m); }
int __wrap_pthread_mutex_timedlock(pthread_mutex_t *m, const timespec *abs)
{
	return use() ? lock(m, false, (ns_t)abs->tv_sec * 1000000000 + abs->tv_nsec - clk.off[CLOCK_REALTIME]) : __real_pthread_mutex_timedlock(m, abs);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { return use() ? unlock(m) : __real_pthread_mutex_unlock(m); }
int __wrap_pthread_condattr_setclock(pthread_condattr_t *a, clockid_t c)
{
	if (use())
		cond_clocks[a] = c;
	return __real_pthread_condattr_setclock(a, c);
}
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a)
{
	if (!use())
		return __real_pthread_cond_init(c, a);
	conds[c] = Cond();
	if (a && cond_clocks.count(a))
		conds[c].clock = cond_clocks[a];
	return 0;
}
int __wrap_pthread_cond_destroy(pthread_cond_t *c)
{
	if (!use())
		return __real_pthread_cond_destroy(c);
	if (!conds[c].q.empty())
		fail("a condition is destroyed while waited for");
	conds.erase(c);
	return 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return use() ? cond_wait(c, m, nullptr, 0) : __real_pthread_cond_wait(c, m); }
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *t)
{
	return use() ? cond_wait(c, m, t, conds[c].clock) : __real_pthread_cond_timedwait(c, m, t);
}
int __wrap_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const timespec *t)
{
	return use() ? cond_wait(c, m, t, k) : __real_pthread_cond_clockwait(c, m, k, t);
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) { return use() ? wake(c, false) : __real_pthread_cond_signal(c); }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { return use() ? wake(c, true) : __real_pthread_cond_broadcast(c); }
// blocking descriptors wait for readiness; the library's own are pipes
static bool may_block(int fd) { return !(syscall(SYS_fcntl, fd, 3 /* F_GETFL */) & 04000 /* O_NONBLOCK */); }
static bool ready(int fd, short ev)
{
	pollfd p = {fd, ev, 0};
	return syscall(SYS_poll, &p, 1, 0) != 0;
}
static ssize_t io(int fd, const iovec *v, int n, bool wr)
{
	sched_point();
	if (interrupted())
		return -1;
	if (may_block(fd))
		sched_wait([fd, wr] { return ready(fd, wr ? POLLOUT : POLLIN); }, -1, wr ? "room in a descriptor" : "a descriptor to read");
	if (sched_io)
		sched_io(fd, wr, -2);
	ssize_t r = syscall(wr ? SYS_writev : SYS_readv, fd, v, n);
	int e = errno;
	if (sched_io)
		sched_io(fd, wr, r);
	errno = e;
	sched_point();
	return r;
}
ssize_t __wrap_read(int fd, void *b, size_t n)
{
	iovec v = {b, n};
	return !use() || !cur ? __real_read(fd, b, n) : io(fd, &v, 1, false);
}
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
	iovec v = {(void *)b, n};
	return !use() || !cur ? __real_write(fd, b, n) : io(fd, &v, 1, true);
}
ssize_t __real_readv(int, const iovec *, int);
ssize_t __real_writev(int, const iovec *, int);
ssize_t __wrap_readv(int fd, const iovec *v, int n) { return !use() || !cur ? __real_readv(fd, v, n) : io(fd, v, n, false); }
ssize_t __wrap_writev(int fd, const iovec *v, int n) { return !use() || !cur ? __real_writev(fd, v, n) : io(fd, v, n, true); }
int __wrap_poll(pollfd *p, nfds_t n, int ms)
{
	if (!use() || !cur)
		return __real_poll(p, n, ms);
	return do_poll(p, n, ms < 0 ? -1 : (ns_t)ms * 1000000);
}
int __wrap_ppoll(pollfd *p, nfds_t n, const timespec *t, const sigset_t *s)
{
	if (!use() || !cur)
		return __real_ppoll(p, n, t, s);
	return do_poll(p, n, t ? (ns_t)t->tv_sec * 1000000000 + t->tv_nsec : -1);
}
int __real_select(int, fd_set *, fd_set *, fd_set *, timeval *);
int __real_pselect(int, fd_set *, fd_set *, fd_set *, const timespec *, const sigset_t *);
static int do_select(int n, fd_set *r, fd_set *w, fd_set *x, ns_t timeout)
{
	std::vector<pollfd> p;
	for (int fd = 0; fd < n; fd++) {
		short ev = (short)((r && FD_ISSET(fd, r) ? POLLIN : 0) | (w && FD_ISSET(fd, w) ? POLLOUT : 0) | (x && FD_ISSET(fd, x) ? POLLPRI : 0));
		if (ev)
			p.push_back({fd, ev, 0});
	}
	if (do_poll(p.data(), p.size(), timeout) < 0)
		return -1;
	fd_set *const set[] = {r, w, x};
	static const short in[] = {POLLIN | POLLHUP | POLLERR, POLLOUT | POLLERR, POLLPRI};
	static const short want[] = {POLLIN, POLLOUT, POLLPRI};
	int k = 0;
	for (auto &q : p)
		for (int i = 0; i < 3; i++)
			if (q.events & want[i]) {
				if (q.revents & in[i])
					k++;
				else
					FD_CLR(q.fd, set[i]);
			}
	return k;
}
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *x, timeval *t)
{
	if (!use() || !cur)
		return __real_select(n, r, w, x, t);
	ns_t t0 = clk.now, d = t ? (ns_t)t->tv_sec * 1000000000 + (ns_t)t->tv_usec * 1000 : -1;
	int k = do_select(n, r, w, x, d);
	if (t) { // the time left
		ns_t left = std::max((ns_t)0, d - (clk.now - t0));
		t->tv_sec = (time_t)(left / 1000000000);
		t->tv_usec = (long)(left % 1000000000) / 1000;
	}
	return k;
}
int __wrap_pselect(int n, fd_set *r, fd_set *w, fd_set *x, const timespec *t, const sigset_t *s)
{
	if (!use() || !cur)
		return __real_pselect(n, r, w, x, t, s);
	return do_select(n, r, w, x, t ? (ns_t)t->tv_sec * 1000000000 + t->tv_nsec : -1);
}
#if VF_HAVE_ASAN
void *__real___asan_memcpy(void *, const void *, size_t);
void *__wrap___asan_memcpy(void *d, const void *s, size_t n)
{
	if (!cur || !cfg.fine || atomic_depth || n < 2)
		return __real___asan_memcpy(d, s, n);
	fine_point();
	__real___asan_memcpy(d, s, n / 2);
	fine_point();
	__real___asan_memcpy((char *)d + n / 2, (const char *)s + n / 2, n - n / 2);
	fine_point();
	return d;
}
#endif
#define POINT(k, t) \
	void __sanitizer_cov_load##k(t *) { fine_point(); } \
	void __sanitizer_cov_store##k(t *) { fine_point(); }
POINT(1, uint8_t)
POINT(2, uint16_t)
POINT(4, uint32_t)
POINT(8, uint64_t)
POINT(16, __uint128_t)
}
