// wrap: see the list at the end
#include "inter.h"
#include "vf.h"
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdint.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
namespace vf {
struct Thr {
	Turn *t;
	int index;
	size_t next = 0;
	int keep = 0;
	pthread_t id;
};
static std::atomic<int> running, over;
static std::atomic<bool> freely;
static std::atomic<unsigned long> moves;
static std::vector<Thr> thr;
static std::atomic<bool> ended[8];
static thread_local Thr *me;
unsigned long turns_taken;
bool turns_free;

static void fwait(std::atomic<int> *p, int v, const timespec *t) { syscall(SYS_futex, (int *)p, FUTEX_WAIT_PRIVATE, v, t, nullptr, 0); }
static void fwake(std::atomic<int> *p) { syscall(SYS_futex, (int *)p, FUTEX_WAKE_PRIVATE, 64, nullptr, nullptr, 0); }

static void await(int i)
{
	for (;;) {
		int r = running.load();
		if (r == i || freely.load())
			return;
		fwait(&running, r, nullptr);
	}
}
static bool hand_over(int i)
{
	int n = (int)thr.size();
	for (int k = 1; k < n; k++) {
		int j = (i + k) % n;
		if (ended[j].load())
			continue;
		running.store(j);
		fwake(&running);
		return true;
	}
	return false;
}
static void yield()
{
	if (freely.load())
		return;
	int e = errno;
	turns_taken++;
	moves++;
	if (hand_over(me->index))
		await(me->index);
	errno = e;
}
extern "C" void vf_inter_point(uintptr_t pc)
{
	Thr *t = me;
	if (!t || t->keep)
		return;
	unsigned long n = ++t->t->points;
	if (t->t->sites && n <= 1 << 19) {
		t->keep++;
		(*t->t->sites)[pc].push_back(n);
		t->keep--;
	}
	if (t->next < t->t->stops.size() && n >= t->t->stops[t->next]) {
		t->next++;
		yield();
	} else if (t->t->every && n % t->t->every == 0) {
		yield();
	}
}
TurnKeep::TurnKeep() { if (me) me->keep++; }
TurnKeep::~TurnKeep() { if (me) me->keep--; }
static void *body(void *a)
{
	Thr *t = (Thr *)a;
	await(t->index);
	me = t;
	t->t->fn();
	me = nullptr;
	moves++;
	ended[t->index].store(true);
	hand_over(t->index);
	over++;
	fwake(&over);
	return nullptr;
}
void turns(std::vector<Turn> &ts, size_t first)
{
	static int stall_ms = 100;
	thr.clear();
	thr.resize(ts.size());
	if (ts.size() > 8)
		fail("harness: too many threads");
	running.store(-1);
	over.store(0);
	freely.store(false);
	turns_taken = 0;
	for (size_t i = 0; i < ts.size(); i++) {
		ended[i].store(false);
		ts[i].points = 0;
		thr[i].t = &ts[i];
		thr[i].index = (int)i;
	}
	for (auto &t : thr)
		if (pthread_create(&t.id, nullptr, body, &t))
			fail("harness: pthread_create");
	running.store((int)first);
	fwake(&running);
	unsigned long seen = 0, pts = 0;
	for (int o; (o = over.load()) < (int)ts.size();) {
		timespec w = {0, stall_ms * 1000000L};
		fwait(&over, o, &w);
		unsigned long p = 0;
		for (auto &t : ts)
			p += __atomic_load_n(&t.points, __ATOMIC_RELAXED);
		unsigned long m = moves.load();
		if (over.load() == o && m == seen && p == pts && !freely.load()) {
			freely.store(true);
			fwake(&running);
			if (stall_ms > 10)
				stall_ms -= 5;
		}
		seen = m;
		pts = p;
	}
	for (auto &t : thr)
		pthread_join(t.id, nullptr);
	turns_free = freely.load();
}
}
using vf::vf_inter_point;
#define PT(name) extern "C" void name(void *) { vf_inter_point((uintptr_t)__builtin_return_address(0)); }
PT(__sanitizer_cov_load1) PT(__sanitizer_cov_load2) PT(__sanitizer_cov_load4) PT(__sanitizer_cov_load8) PT(__sanitizer_cov_load16)
PT(__sanitizer_cov_store1) PT(__sanitizer_cov_store2) PT(__sanitizer_cov_store4) PT(__sanitizer_cov_store8) PT(__sanitizer_cov_store16)
extern "C" void __sanitizer_cov_trace_pc() { vf_inter_point((uintptr_t)__builtin_return_address(0)); }
// a mutex which another thread holds: that one goes on
extern "C" int __real_pthread_mutex_lock(pthread_mutex_t *);
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
	vf_inter_point((uintptr_t)__builtin_return_address(0));
	if (!vf::me)
		return __real_pthread_mutex_lock(m);
	for (;;) {
		int r = pthread_mutex_trylock(m);
		if (r != EBUSY)
			return r;
		if (vf::freely.load())
			return __real_pthread_mutex_lock(m);
		vf::yield();
	}
}
// calls of the C library before which a thread may hand over
asm(R"(
	.text
	.macro vf_wrap name
	.globl __wrap_\name
	.type __wrap_\name,@function
__wrap_\name:
	pushq %rdi
	pushq %rsi
	pushq %rdx
	pushq %rcx
	pushq %r8
	pushq %r9
	pushq %rax
	subq $128, %rsp
	movups %xmm0, 0(%rsp)
	movups %xmm1, 16(%rsp)
	movups %xmm2, 32(%rsp)
	movups %xmm3, 48(%rsp)
	movups %xmm4, 64(%rsp)
	movups %xmm5, 80(%rsp)
	movups %xmm6, 96(%rsp)
	movups %xmm7, 112(%rsp)
	movq 184(%rsp), %rdi
	call vf_inter_point
	movups 0(%rsp), %xmm0
	movups 16(%rsp), %xmm1
	movups 32(%rsp), %xmm2
	movups 48(%rsp), %xmm3
	movups 64(%rsp), %xmm4
	movups 80(%rsp), %xmm5
	movups 96(%rsp), %xmm6
	movups 112(%rsp), %xmm7
	addq $128, %rsp
	popq %rax
	popq %r9
	popq %r8
	popq %rcx
	popq %rdx
	popq %rsi
	popq %rdi
	jmp __real_\name@PLT
	.endm
	vf_wrap memcpy
	vf_wrap memmove
	vf_wrap memset
	vf_wrap memcmp
	vf_wrap memchr
	vf_wrap strlen
	vf_wrap strnlen
	vf_wrap strcpy
	vf_wrap strncpy
	vf_wrap strcat
	vf_wrap strncat
	vf_wrap stpcpy
	vf_wrap strcmp
	vf_wrap strncmp
	vf_wrap strcasecmp
	vf_wrap strncasecmp
	vf_wrap strchr
	vf_wrap strrchr
	vf_wrap strstr
	vf_wrap strtok
	vf_wrap strtok_r
	vf_wrap strsep
	vf_wrap strspn
	vf_wrap strcspn
	vf_wrap strpbrk
	vf_wrap strdup
	vf_wrap strndup
	vf_wrap strtol
	vf_wrap strtoul
	vf_wrap strtoll
	vf_wrap strtoull
	vf_wrap atoi
	vf_wrap sprintf
	vf_wrap snprintf
	vf_wrap vsprintf
	vf_wrap vsnprintf
	vf_wrap sscanf
	vf_wrap asprintf
	vf_wrap vasprintf
	vf_wrap fprintf
	vf_wrap vfprintf
	vf_wrap fputs
	vf_wrap fputc
	vf_wrap fgets
	vf_wrap fgetc
	vf_wrap getc
	vf_wrap fwrite
	vf_wrap fread
	vf_wrap fclose
	vf_wrap fflush
	vf_wrap ferror
	vf_wrap feof
	vf_wrap fileno
	vf_wrap fseek
	vf_wrap fopen
	vf_wrap fopen64
	vf_wrap fdopen
	vf_wrap setvbuf
	vf_wrap malloc
	vf_wrap calloc
	vf_wrap realloc
	vf_wrap free
	vf_wrap gmtime
	vf_wrap gmtime_r
	vf_wrap localtime
	vf_wrap localtime_r
	vf_wrap mktime
	vf_wrap timegm
	vf_wrap strftime
	vf_wrap strptime
	vf_wrap asctime
	vf_wrap ctime
	vf_wrap tzset
	vf_wrap time
	vf_wrap gettimeofday
	vf_wrap clock_gettime
	vf_wrap open
	vf_wrap open64
	vf_wrap openat
	vf_wrap openat64
	vf_wrap close
	vf_wrap read
	vf_wrap write
	vf_wrap pread64
	vf_wrap pwrite64
	vf_wrap lseek64
	vf_wrap stat64
	vf_wrap lstat64
	vf_wrap fstat64
	vf_wrap fstatat64
	vf_wrap stat
	vf_wrap lstat
	vf_wrap fstat
	vf_wrap access
	vf_wrap rename
	vf_wrap renameat
	vf_wrap unlink
	vf_wrap unlinkat
	vf_wrap mkdir
	vf_wrap rmdir
	vf_wrap fsync
	vf_wrap fdatasync
	vf_wrap chdir
	vf_wrap fchdir
	vf_wrap umask
	vf_wrap getcwd
	vf_wrap opendir
	vf_wrap fdopendir
	vf_wrap readdir
	vf_wrap readdir64
	vf_wrap readdir64_r
	vf_wrap closedir
	vf_wrap dirfd
	vf_wrap dirname
	vf_wrap basename
	vf_wrap __xpg_basename
	vf_wrap realpath
	vf_wrap iconv
	vf_wrap iconv_open
	vf_wrap iconv_close
	vf_wrap wcslen
	vf_wrap wcschr
	vf_wrap wmemcpy
	vf_wrap wmemset
	vf_wrap mbstowcs
	vf_wrap wcstombs
	vf_wrap mbrtowc
	vf_wrap wcrtomb
	vf_wrap mbtowc
	vf_wrap nl_langinfo
	vf_wrap setlocale
	vf_wrap uselocale
	vf_wrap newlocale
	vf_wrap freelocale
	vf_wrap getenv
	vf_wrap setenv
	vf_wrap unsetenv
	vf_wrap inotify_init
	vf_wrap inotify_init1
	vf_wrap inotify_add_watch
	vf_wrap ioctl
	vf_wrap fcntl
	vf_wrap fcntl64
	vf_wrap pipe
	vf_wrap pipe2
	vf_wrap poll
	vf_wrap getrandom
	vf_wrap tolower
	vf_wrap toupper
	vf_wrap strerror
	vf_wrap strerror_r
	vf_wrap __asan_memcpy
	vf_wrap __asan_memmove
	vf_wrap __asan_memset
)");
