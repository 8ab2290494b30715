// Cooperative scheduler: the threads of a case are coroutines of one thread; which runs next, where it is preempted,
// when time passes, spurious wake-ups and interruptions are all choices of the case.
// Preemption points: the wrapped calls, and in the "sched" variant every load, store and memcpy of the library.
// Harness header lines:
//   // VF variant: sched        // VF use: clock vsched
//   // VF wrap: <clock's>,pthread_mutex_init,...   (see the list in vsched.cc)
#pragma once
#include <functional>
#include <string>
#include <sys/types.h>
#include "clock.h"
namespace vf {
struct SchedCfg {
	bool eintr;              // read, write and poll may be interrupted
	bool spurious;           // condition waits may wake for nothing
	bool fine;               // preemption at memory accesses
};
void sched_begin(const SchedCfg &cfg, ns_t start);
int sched_spawn(const char *name, std::function<void()> fn);
void sched_run();            // until every task has ended; fails when none can go on
int sched_me();              // task running, -1 outside
void sched_point();          // the running task may be preempted here
// the running task waits for pred (evaluated by the scheduler, without side effects) or the deadline (-1: none);
// true when pred holds
bool sched_wait(const std::function<bool()> &pred, ns_t deadline, const char *what);
void sched_sleep(ns_t d);
inline ns_t sched_now() { return clk.now; }
struct SchedAtomic { SchedAtomic(); ~SchedAtomic(); }; // no preemption while one is alive
extern std::function<void(const std::string &)> sched_stuck; // called (if set) when no task can go on, with what each waits for
// called (if set) around each read and write which is tried: (descriptor, whether a write, -2 before or what it returned)
extern std::function<void(int, bool, ssize_t)> sched_io;
extern unsigned long sched_switches, sched_preempted, sched_interrupted, sched_spurious_wakeups;
}
