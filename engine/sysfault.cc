#include "sysfault.h"
#include "vf.h"
#include <errno.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stddef.h>
#include <stdio.h>
#include <string.h>
#include <sys/prctl.h>
#include <ucontext.h>
#include <unistd.h>
#include <vector>

extern "C" long vf_raw_syscall(long nr, long a, long b, long c, long d, long e, long f);
extern "C" char vf_raw_syscall_ip[];
asm(R"(
	.text
	.globl vf_raw_syscall
	.type vf_raw_syscall,@function
vf_raw_syscall:
	movq %rdi, %rax
	movq %rsi, %rdi
	movq %rdx, %rsi
	movq %rcx, %rdx
	movq %r8, %r10
	movq %r9, %r8
	movq 8(%rsp), %r9
	syscall
	.globl vf_raw_syscall_ip
vf_raw_syscall_ip:
	ret
)");

namespace vf {
struct Name { long nr; const char *name; int path; };
static const Name names[] = {
	{SYS_open, "open", 0}, {SYS_openat, "openat", 1}, {SYS_creat, "creat", 0}, {SYS_openat2, "openat2", 1},
	{SYS_read, "read", -1}, {SYS_write, "write", -1}, {SYS_pread64, "pread64", -1}, {SYS_pwrite64, "pwrite64", -1},
	{SYS_readv, "readv", -1}, {SYS_writev, "writev", -1}, {SYS_close, "close", -1},
	{SYS_fsync, "fsync", -1}, {SYS_fdatasync, "fdatasync", -1}, {SYS_syncfs, "syncfs", -1}, {SYS_sync, "sync", -1}, {SYS_sync_file_range, "sync_file_range", -1},
	{SYS_rename, "rename", 0}, {SYS_renameat, "renameat", 1}, {SYS_renameat2, "renameat2", 1},
	{SYS_unlink, "unlink", 0}, {SYS_unlinkat, "unlinkat", 1}, {SYS_link, "link", 0}, {SYS_linkat, "linkat", 1}, {SYS_symlink, "symlink", 1}, {SYS_symlinkat, "symlinkat", 2},
	{SYS_mkdir, "mkdir", 0}, {SYS_mkdirat, "mkdirat", 1}, {SYS_rmdir, "rmdir", 0},
	{SYS_stat, "stat", 0}, {SYS_lstat, "lstat", 0}, {SYS_fstat, "fstat", -1}, {SYS_newfstatat, "newfstatat", 1}, {SYS_statx, "statx", 1},
	{SYS_access, "access", 0}, {SYS_faccessat, "faccessat", 1}, {SYS_faccessat2, "faccessat2", 1},
	{SYS_truncate, "truncate", 0}, {SYS_ftruncate, "ftruncate", -1}, {SYS_fallocate, "fallocate", -1}, {SYS_lseek, "lseek", -1},
	{SYS_getdents64, "getdents64", -1}, {SYS_getdents, "getdents", -1},
	{SYS_fcntl, "fcntl", -1}, {SYS_dup, "dup", -1}, {SYS_dup2, "dup2", -1}, {SYS_dup3, "dup3", -1},
	{SYS_pipe, "pipe", -1}, {SYS_pipe2, "pipe2", -1}, {SYS_eventfd, "eventfd", -1}, {SYS_eventfd2, "eventfd2", -1},
	{SYS_inotify_init, "inotify_init", -1}, {SYS_inotify_init1, "inotify_init1", -1}, {SYS_inotify_add_watch, "inotify_add_watch", 1}, {SYS_inotify_rm_watch, "inotify_rm_watch", -1},
	{SYS_ioctl, "ioctl", -1}, {SYS_poll, "poll", -1}, {SYS_ppoll, "ppoll", -1}, {SYS_select, "select", -1}, {SYS_pselect6, "pselect6", -1},
	{SYS_epoll_create1, "epoll_create1", -1}, {SYS_epoll_ctl, "epoll_ctl", -1}, {SYS_epoll_wait, "epoll_wait", -1},
	{SYS_getrandom, "getrandom", -1}, {SYS_sendfile, "sendfile", -1}, {SYS_copy_file_range, "copy_file_range", -1}, {SYS_splice, "splice", -1},
	{SYS_chmod, "chmod", 0}, {SYS_fchmod, "fchmod", -1}, {SYS_fchmodat, "fchmodat", 1}, {SYS_chown, "chown", 0}, {SYS_fchown, "fchown", -1},
	{SYS_socketpair, "socketpair", -1}, {SYS_msync, "msync", -1}, {SYS_flock, "flock", -1}, {SYS_readlink, "readlink", 0}, {SYS_readlinkat, "readlinkat", 1},
	{SYS_settimeofday, "settimeofday", -1}, {SYS_clock_settime, "clock_settime", -1}, {SYS_adjtimex, "adjtimex", -1}, {SYS_clock_adjtime, "clock_adjtime", -1},
	{SYS_nanosleep, "nanosleep", -1}, {SYS_clock_nanosleep, "clock_nanosleep", -1},
};
const char *sys_name(long nr)
{
	for (auto &n : names)
		if (n.nr == nr)
			return n.name;
	return "?";
}
int sys_path_arg(long nr)
{
	for (auto &n : names)
		if (n.nr == nr)
			return n.path;
	return -1;
}
bool sys_opens(long nr) { return nr == SYS_open || nr == SYS_openat || nr == SYS_creat || nr == SYS_openat2; }
long sys_raw(long nr, long a, long b, long c, long d, long e, long f) { return vf_raw_syscall(nr, a, b, c, d, e, f); }

static SysHook hook;
static thread_local int in_hook;
static bool installed;
SysPause::SysPause() : was(nullptr) { in_hook++; }
SysPause::~SysPause() { in_hook--; }

static bool sets_clock(long nr)
{
	return nr == SYS_settimeofday || nr == SYS_clock_settime || nr == SYS_adjtimex || nr == SYS_clock_adjtime;
}
static void on_sys(int, siginfo_t *si, void *uc_)
{
	ucontext_t *uc = (ucontext_t *)uc_;
	greg_t *g = uc->uc_mcontext.gregs;
	int e = errno;
	Sys s;
	s.nr = (long)(int)si->si_syscall;
	s.a[0] = g[REG_RDI];
	s.a[1] = g[REG_RSI];
	s.a[2] = g[REG_RDX];
	s.a[3] = g[REG_R10];
	s.a[4] = g[REG_R8];
	s.a[5] = g[REG_R9];
	long ret;
	bool done = false;
	SysHook h = hook;
	if (h && !in_hook) {
		in_hook++;
		done = h(s, &ret);
		in_hook--;
	}
	if (!done) {
		// the clocks of the sandbox are never set for real
		ret = sets_clock(s.nr) ? -EPERM : vf_raw_syscall(s.nr, s.a[0], s.a[1], s.a[2], s.a[3], s.a[4], s.a[5]);
	}
	g[REG_RAX] = ret;
	errno = e;
}
static void install()
{
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = on_sys;
	sa.sa_flags = SA_SIGINFO | SA_NODEFER | SA_RESTART;
	if (sigaction(SIGSYS, &sa, nullptr))
		fail("harness: sigaction: %s", strerror(errno));
	std::vector<sock_filter> f;
	auto st = [&](uint16_t c, uint32_t k) { f.push_back({c, 0, 0, k}); };
	auto jmp = [&](uint16_t c, uint32_t k, uint8_t t, uint8_t e) { f.push_back({c, t, e, k}); };
	uint64_t ip = (uint64_t)vf_raw_syscall_ip;
	size_t n = sizeof names / sizeof *names;
	st(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
	for (size_t i = 0; i < n; i++) // hit: jump to the address test
		jmp(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)names[i].nr, (uint8_t)(n - i), 0);
	st(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
	st(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer));
	jmp(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)ip, 0, 3);
	st(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer) + 4);
	jmp(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)(ip >> 32), 0, 1);
	st(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
	st(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
	sock_fprog p = {(unsigned short)f.size(), f.data()};
	if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p, 0, 0))
		fail("harness: seccomp: %s", strerror(errno));
	installed = true;
}
void sys_arm(SysHook h)
{
	if (!installed)
		install();
	hook = h;
}
thread_local jmp_buf sys_jmp;
static thread_local uint64_t fds_before[4];
static bool fd_open(int fd) { return vf_raw_syscall(SYS_fcntl, fd, 1 /* F_GETFD */, 0, 0, 0, 0) >= 0; }
int sys_open_fds()
{
	int n = 0;
	for (int fd = 0; fd < 256; fd++)
		n += fd_open(fd);
	return n;
}
void sys_catch_begin()
{
	for (int fd = 0; fd < 256; fd++)
		if (fd_open(fd))
			fds_before[fd / 64] |= 1ull << fd % 64;
		else
			fds_before[fd / 64] &= ~(1ull << fd % 64);
}
bool sys_catch_end()
{
	for (int fd = 3; fd < 256; fd++)
		if (!(fds_before[fd / 64] >> fd % 64 & 1) && fd_open(fd))
			vf_raw_syscall(SYS_close, fd, 0, 0, 0, 0, 0);
	return true;
}
void sys_abandon()
{
	in_hook = 0;
	_longjmp(sys_jmp, 1);
}
void sys_disarm() { hook = nullptr; }
bool sys_armed() { return hook != nullptr; }
} // namespace vf
