// System-call boundary stand-ins: a seccomp filter traps the file, clock-setting and entropy system calls of this
// process (and its forked children), whoever makes them; a hook may answer them, change them or let them through.
// Harness header line:  // VF use: sysfault
#pragma once
#include <setjmp.h>
#include <stdint.h>
#include <sys/syscall.h>
namespace vf {
struct Sys {
	long nr, a[6];
	const char *str(int i) const { return (const char *)a[i]; }
};
// returns true when it answered the call with *ret (negative errno on error), false to let it through (arguments may
// have been changed). Runs in the calling thread, inside a signal handler; system calls made by the hook are not trapped.
typedef bool (*SysHook)(Sys &s, long *ret);
void sys_arm(SysHook h);     // installs the filter on first use; arms for the calling thread and the threads and processes it creates
void sys_disarm();
bool sys_armed();
// From inside a hook: leave the library call for good and continue after the VF_SYS_CATCH() of this thread, as if the
// library had stopped there. What the abandoned call held (memory, streams) is lost; new descriptors are closed.
//   if (VF_SYS_CATCH()) { stopped } else { sys_arm(h); library calls; } sys_disarm();
extern thread_local jmp_buf sys_jmp;
void sys_catch_begin();
bool sys_catch_end();
#define VF_SYS_CATCH() (vf::sys_catch_begin(), _setjmp(vf::sys_jmp) != 0 && vf::sys_catch_end())
[[noreturn]] void sys_abandon();
struct SysPause { SysHook was; SysPause(); ~SysPause(); }; // harness code in between, in the calling thread
long sys_raw(long nr, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0); // never trapped
int sys_open_fds();          // number of open descriptors
const char *sys_name(long nr);
bool sys_opens(long nr);     // open family
// path argument index of path-taking calls, -1 otherwise
int sys_path_arg(long nr);
}
