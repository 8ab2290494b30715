// Choice-sequence property-testing engine: workers, coverage-guided corpus,
// confirmation, shrinking, replay files, evidence. See DESIGN.md.
#include "vf.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <locale.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <map>
#include <unordered_set>

#ifndef VF_HAVE_ASAN
#define VF_HAVE_ASAN 0
#endif
#if VF_HAVE_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif

namespace vf {

// ------------------------------------------------------------------ registry
static Facet *facets_head, **facets_tail = &facets_head;
static const Property *the_property;
static std::vector<std::string> &assumptions()
{
	static std::vector<std::string> v;
	return v;
}
Facet::Facet(const char *n, void (*f)(), uint64_t q, uint64_t t, unsigned fl, unsigned lim)
	: name(n), fn(f), quick(q), thorough(t), flags(fl), limit_s(lim), next(nullptr)
{
	*facets_tail = this;
	facets_tail = &next;
}
Property::Property(const char *i, const char *l, const char *r) : id(i), rule(r), level(l)
{
	the_property = this;
}
void assumption(const char *t) { assumptions().push_back(t); }

// -------------------------------------------------------------- shared state
enum { MAXCH = 1 << 16, MAXLAB = 64, NSAMP = 3, SETSZ = 1 << 20, NOTESZ = 1 << 16, MSGSZ = 4096 };
struct Label { char name[48]; uint64_t n; };
struct Shm {
	std::atomic<uint64_t> case_start; // ns, 0 = idle
	uint64_t cur;
	uint64_t done, nontriv, newcov_total;
	uint32_t nch;
	bool overflow, failed, newcov, case_nontriv;
	bool finished;
	uint64_t ch[MAXCH];
	char msg[MSGSZ];
	uint32_t notelen;
	char notes[NOTESZ];
	Label lab[MAXLAB];
	uint32_t nsamp;
	char samp[NSAMP][2000];
	uint64_t setn;
	uint64_t set[SETSZ];
	uint32_t covlen;
	uint8_t cov[1 << 16];
};
static Shm *shm; // current worker's

static bool is_thorough;
static bool want_notes;
static std::string scratch_root, worker_scratch;

uint64_t now_ns()
{
	struct timespec ts;
	syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
	return (uint64_t)ts.tv_sec * 1000000000ull + ts.tv_nsec;
}
bool thorough() { return is_thorough; }
const std::string &scratch() { return worker_scratch; }

// ----------------------------------------------------------------------- rng
static inline uint64_t mix(uint64_t z)
{
	z += 0x9e3779b97f4a7c15ull;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
uint64_t Rng::next()
{
	s += 0x9e3779b97f4a7c15ull;
	uint64_t z = s;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
static Rng rng;
static uint64_t hstr(const char *s)
{
	uint64_t h = 1469598103934665603ull;
	for (; *s; s++)
		h = (h ^ (unsigned char)*s) * 1099511628211ull;
	return h;
}
static bool locale_set;
void some_locale()
{
	static locale_t l[2];
	static const char *const n[] = {"tr", "C.utf8"};
	size_t i = weighted({6, 2, 1});
	if (!i)
		return;
	if (!l[i - 1])
		l[i - 1] = newlocale(LC_ALL_MASK, n[i - 1], (locale_t)0);
	if (!l[i - 1])
		return;
	uselocale(l[i - 1]);
	locale_set = true;
	note("locale %s", n[i - 1]);
}
static void plain_locale()
{
	if (locale_set)
		uselocale(LC_GLOBAL_LOCALE);
	locale_set = false;
}
uint8_t *huge()
{
	static uint8_t *p;
	if (!p) {
		p = (uint8_t *)mmap(nullptr, (1ull << 32) + (1 << 21), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (p == MAP_FAILED)
			fail("harness: mmap");
	}
	return p;
}
size_t wrapping(size_t span)
{
	static const size_t k[] = {1ull << 32, 1ull << 16, 1ull << 8, 1ull << 31, 1ull << 15, 1ull << 7};
	size_t b = k[draw(5)];
	return b + draw(span);
}
void fill(uint64_t seed, void *p, size_t n)
{
	Rng r{seed};
	unsigned char *b = (unsigned char *)p;
	while (n >= 8) {
		uint64_t v = r.next();
		memcpy(b, &v, 8);
		b += 8;
		n -= 8;
	}
	if (n) {
		uint64_t v = r.next();
		memcpy(b, &v, n);
	}
}

// ---------------------------------------------------------------- dictionary
enum { DICT = 512 };
static uint64_t dict[DICT];
static uint32_t dict_n;
static uint8_t dict_seen[4096];
static void dict_add(uint64_t v)
{
	if (v < 17)
		return;
	uint32_t h = (uint32_t)(mix(v) & 4095);
	if (dict_seen[h])
		return;
	dict_seen[h] = 1;
	if (dict_n < DICT)
		dict[dict_n++] = v;
	else
		dict[mix(v) % DICT] = v;
}

// ------------------------------------------------------------------- drawing
static std::vector<uint64_t> prefix; // forced choices
static bool replaying;               // after prefix: zeros instead of random

static bool from_prefix(uint64_t max, uint64_t *v)
{
	uint32_t i = shm->nch;
	if (i < prefix.size()) {
		*v = prefix[i];
		if (max != UINT64_MAX && *v > max)
			*v %= (max + 1);
		return true;
	}
	if (replaying) {
		*v = 0;
		return true;
	}
	return false;
}
static uint64_t record(uint64_t v)
{
	if (shm->nch < MAXCH)
		shm->ch[shm->nch++] = v;
	else {
		// too many choices: end the case quietly with zeros
		shm->overflow = true;
		return 0;
	}
	return v;
}
static uint64_t uniform(uint64_t max)
{
	uint64_t r = rng.next();
	if (max == UINT64_MAX)
		return r;
	return (uint64_t)(((unsigned __int128)r * (max + 1)) >> 64);
}
uint64_t draw(uint64_t max)
{
	uint64_t v;
	if (max == 0)
		return 0;
	if (!from_prefix(max, &v))
		v = uniform(max);
	return record(v);
}
uint64_t interesting(uint64_t max)
{
	uint64_t v;
	if (max == 0)
		return 0;
	if (!from_prefix(max, &v)) {
		switch (uniform(9)) {
		case 0: v = uniform(16); break;
		case 1: v = max - uniform(3); break;
		case 2: case 3: v = (1ull << uniform(63)) + uniform(4) - 2; break;
		case 4: v = dict_n ? dict[uniform(dict_n - 1)] + uniform(2) - 1 : uniform(max); break;
		case 5: v = dict_n ? dict[uniform(dict_n - 1)] : uniform(255); break;
		case 6: v = uniform(max); break;
		case 7: v = ~(uint64_t)0 >> uniform(63); break;
		default: v = uniform(max) >> uniform(63); break;
		}
		if (v > max)
			v = max == UINT64_MAX ? v : v % (max + 1);
	}
	return record(v);
}
uint64_t smallish(uint64_t max)
{
	uint64_t v;
	if (max == 0)
		return 0;
	if (!from_prefix(max, &v)) {
		unsigned bits = 64 - __builtin_clzll(max);
		unsigned b = (unsigned)uniform(bits);
		v = b ? uniform((1ull << (b - 1)) | ((1ull << (b - 1)) - 1)) : 0;
		if (uniform(15) == 0)
			v = max - uniform(max < 3 ? max : 3);
		if (v > max)
			v %= (max + 1);
	}
	return record(v);
}
static uint64_t cur_case;
uint64_t cycle(uint64_t max)
{
	uint64_t v;
	if (max == 0)
		return 0;
	if (!from_prefix(max, &v))
		v = cur_case % (max + 1);
	return record(v);
}
bool chance(unsigned num, unsigned den)
{
	uint64_t v = draw(den - 1);
	return v >= den - num;
}
size_t weighted(std::initializer_list<unsigned> w)
{
	unsigned tot = 0;
	for (unsigned x : w)
		tot += x;
	uint64_t v;
	uint64_t max = w.size() - 1;
	if (max == 0)
		return 0;
	if (!from_prefix(max, &v)) {
		uint64_t r = uniform(tot - 1);
		v = 0;
		for (unsigned x : w) {
			if (r < x)
				break;
			r -= x;
			v++;
		}
	}
	return record(v);
}
std::string bytes(size_t n)
{
	std::string s(n, 0);
	for (size_t i = 0; i < n; i++)
		s[i] = (char)draw(255);
	return s;
}
uint64_t anyint(unsigned bits)
{
	return interesting(bits == 64 ? UINT64_MAX : (1ull << bits) - 1);
}

// ----------------------------------------------------------------- reporting
bool noting() { return want_notes; }
void note(const char *fmt, ...)
{
	if (!want_notes)
		return;
	va_list ap;
	va_start(ap, fmt);
	uint32_t l = shm->notelen;
	if (l + 2 < NOTESZ) {
		int k = vsnprintf(shm->notes + l, NOTESZ - l - 1, fmt, ap);
		if (k < 0)
			k = 0;
		l += (uint32_t)k;
		if (l > NOTESZ - 2)
			l = NOTESZ - 2;
		shm->notes[l++] = '\n';
		shm->notes[l] = 0;
		shm->notelen = l;
	}
	va_end(ap);
}
void fail(const char *fmt, ...)
{
	if (!shm->failed) {
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(shm->msg, MSGSZ, fmt, ap);
		va_end(ap);
		shm->failed = true;
	}
	syscall(SYS_exit_group, 77);
	__builtin_trap();
}
static const char *lab_ptr[MAXLAB];
static int lab_idx[MAXLAB];
static int nlab_ptr;
void classify(const char *label)
{
	for (int i = 0; i < nlab_ptr; i++)
		if (lab_ptr[i] == label) {
			shm->lab[lab_idx[i]].n++;
			return;
		}
	for (int i = 0; i < MAXLAB; i++) {
		if (!shm->lab[i].name[0])
			snprintf(shm->lab[i].name, sizeof shm->lab[i].name, "%s", label);
		if (!strncmp(shm->lab[i].name, label, sizeof shm->lab[i].name - 1)) {
			shm->lab[i].n++;
			if (nlab_ptr < MAXLAB) {
				lab_ptr[nlab_ptr] = label;
				lab_idx[nlab_ptr++] = i;
			}
			return;
		}
	}
}
void nontrivial() { shm->case_nontriv = true; }
std::string hex(const void *p, size_t n, size_t max)
{
	std::string s;
	char b[4];
	for (size_t i = 0; i < n && i < max; i++) {
		snprintf(b, sizeof b, "%02x", ((const unsigned char *)p)[i]);
		s += b;
	}
	if (n > max) {
		char t[40];
		snprintf(t, sizeof t, "..(%zu bytes)", n);
		s += t;
	}
	return s;
}
std::string quote(const std::string &x, size_t max)
{
	std::string s = "\"";
	for (size_t i = 0; i < x.size() && i < max; i++) {
		unsigned char c = (unsigned char)x[i];
		if (c < 32 || c > 126 || c == '"' || c == '\\') {
			char b[8];
			snprintf(b, sizeof b, "\\x%02x", c);
			s += b;
		} else
			s += (char)c;
	}
	s += "\"";
	if (x.size() > max)
		s += ".. len=" + std::to_string(x.size());
	return s;
}
void reap(pid_t, int status)
{
	if (WIFEXITED(status) && WEXITSTATUS(status) == 77)
		syscall(SYS_exit_group, 77);
	if (WIFSIGNALED(status))
		fail("sub-process of the case died of signal %d (%s)", WTERMSIG(status), strsignal(WTERMSIG(status)));
	if (WIFEXITED(status) && WEXITSTATUS(status) == 99)
		fail("sub-process of the case: sanitizer report (see trace)");
}
int in_child(void (*fn)(void *), void *arg)
{
	pid_t p = fork();
	if (p < 0)
		fail("fork: %s", strerror(errno));
	if (p == 0) {
		fn(arg);
		syscall(SYS_exit_group, 0);
	}
	int st;
	while (waitpid(p, &st, 0) < 0 && errno == EINTR)
		;
	reap(p, st);
	return WIFEXITED(st) ? WEXITSTATUS(st) : 255;
}

// ----------------------------------------------------------------------- cov
struct CovMod { uint8_t *a, *b; };
static CovMod cov_mods[64];
static int ncov_mods;
static size_t cov_total;
static inline uint8_t bucket(uint8_t c)
{
	if (c == 0) return 0;
	if (c == 1) return 1;
	if (c == 2) return 2;
	if (c == 3) return 4;
	if (c < 8) return 8;
	if (c < 16) return 16;
	if (c < 32) return 32;
	if (c < 128) return 64;
	return 128;
}
static bool cov_eval() // returns true when something new; resets counters
{
	bool nw = false;
	size_t off = 0;
	for (int m = 0; m < ncov_mods; m++) {
		uint8_t *p = cov_mods[m].a, *e = cov_mods[m].b;
		for (; p < e; p++, off++) {
			if (!*p)
				continue;
			if (off < sizeof shm->cov) {
				uint8_t b = bucket(*p);
				if (!(shm->cov[off] & b)) {
					shm->cov[off] |= b;
					nw = true;
				}
			}
			*p = 0;
		}
	}
	if (off > shm->covlen)
		shm->covlen = (uint32_t)std::min(off, sizeof shm->cov);
	return nw;
}

// -------------------------------------------------------------------- corpus
static std::vector<std::vector<uint64_t>> corpus;
static void mutate(std::vector<uint64_t> &v)
{
	int ops = 1 + (int)uniform(3);
	while (ops--) {
		size_t n = v.size();
		if (!n)
			return;
		size_t i = uniform(n - 1);
		switch (uniform(8)) {
		case 0: v[i] = uniform(16); break;
		case 1: v[i] += uniform(8) - 4; break;
		case 2: v[i] = rng.next() >> uniform(63); break;
		case 3: v[i] ^= 1ull << uniform(63); break;
		case 4: v.erase(v.begin() + i, v.begin() + std::min(n, i + 1 + uniform(7))); break;
		case 5: {
			size_t k = std::min(n - i, (size_t)(1 + uniform(15)));
			std::vector<uint64_t> t(v.begin() + i, v.begin() + i + k);
			if (n + k < MAXCH / 4)
				v.insert(v.begin() + uniform(n), t.begin(), t.end());
			break;
		}
		case 6:
			if (dict_n) {
				v[i] = dict[uniform(dict_n - 1)];
				break;
			}
			// fallthrough
		case 7: {
			auto &o = corpus[uniform(corpus.size() - 1)];
			if (o.empty())
				break;
			size_t j = uniform(o.size() - 1);
			v.resize(i);
			v.insert(v.end(), o.begin() + j, o.end());
			break;
		}
		default: v.resize(i); break;
		}
	}
}

// -------------------------------------------------------------------- worker
static void run_one(Facet *f)
{
	shm->nch = 0;
	shm->notelen = 0;
	shm->notes[0] = 0;
	shm->failed = false;
	shm->newcov = false;
	shm->case_nontriv = false;
	shm->overflow = false;
	shm->case_start.store(now_ns());
	plain_locale();
	if (f->flags & FRESH) {
		pid_t p = fork();
		if (p == 0) {
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			f->fn();
			if (cov_eval())
				shm->newcov = true;
			syscall(SYS_exit_group, 0);
		}
		int st;
		while (waitpid(p, &st, 0) < 0 && errno == EINTR)
			;
		if (WIFEXITED(st) && WEXITSTATUS(st) == 77)
			syscall(SYS_exit_group, 77);
		if (WIFEXITED(st) && WEXITSTATUS(st) == 99)
			syscall(SYS_exit_group, 99);
		if (!WIFEXITED(st) || WEXITSTATUS(st))
			fail("case process ended with status 0x%x%s%s", st,
			     WIFSIGNALED(st) ? " signal " : "",
			     WIFSIGNALED(st) ? strsignal(WTERMSIG(st)) : "");
	} else {
		f->fn();
		if (cov_eval())
			shm->newcov = true;
	}
	shm->case_start.store(0);
}

static void set_insert(uint64_t h)
{
	if (!h)
		h = 1;
	if (shm->setn > SETSZ * 3 / 4)
		return;
	uint32_t i = (uint32_t)(h & (SETSZ - 1));
	while (shm->set[i]) {
		if (shm->set[i] == h)
			return;
		i = (i + 1) & (SETSZ - 1);
	}
	shm->set[i] = h;
	shm->setn++;
}

static void empty_dir(const std::string &d)
{
	DIR *dir = opendir(d.c_str());
	if (!dir)
		return;
	while (struct dirent *e = readdir(dir)) {
		if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, ".."))
			continue;
		std::string p = d + "/" + e->d_name;
		struct stat st;
		if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) {
			empty_dir(p);
			rmdir(p.c_str());
		} else
			unlink(p.c_str());
	}
	closedir(dir);
}

static uint64_t case_seed(uint64_t seed, Facet *f, uint64_t i)
{
	return mix(mix(seed ^ hstr(the_property->id)) ^ mix(hstr(f->name)) ^ mix(i * 2 + 1));
}

static void worker(Facet *f, unsigned w, unsigned W, uint64_t N, uint64_t seed, uint64_t stop_at, uint64_t deadline)
{
	for (uint64_t i = w; i < N; i += W) {
		if (i > stop_at)
			break;
		if (deadline && (i / W) % 16 == 0 && now_ns() > deadline)
			break;
		rng.s = case_seed(seed, f, i);
		prefix.clear();
		replaying = false;
		cur_case = i;
		if (!(f->flags & NOMUT) && !corpus.empty() && uniform(99) < 45) {
			// favour recent additions
			size_t n = corpus.size();
			size_t k = uniform(1) ? uniform(n - 1) : n - 1 - uniform(std::min(n - 1, (size_t)15));
			prefix = corpus[k];
			mutate(prefix);
		}
		shm->cur = i;
		want_notes = shm->nsamp < NSAMP && w == 0 && (i / W) >= 8;
		run_one(f);
		shm->done++;
		if (shm->newcov) {
			shm->newcov_total++;
			if (shm->nch <= 4096) {
				if (corpus.size() >= 512)
					corpus[uniform(511)].assign(shm->ch, shm->ch + shm->nch);
				else
					corpus.emplace_back(shm->ch, shm->ch + shm->nch);
			}
		}
		if (shm->case_nontriv) {
			shm->nontriv++;
			uint64_t h = hstr(f->name);
			for (uint32_t k = 0; k < shm->nch; k++)
				h = (h ^ mix(shm->ch[k] + k)) * 1099511628211ull;
			set_insert(h);
			if (want_notes && shm->notelen) {
				snprintf(shm->samp[shm->nsamp], sizeof shm->samp[0], "%s", shm->notes);
				shm->nsamp++;
			}
		}
	}
	shm->finished = true;
}

// -------------------------------------------------------------------- driver
static Shm *new_shm()
{
	void *p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) {
		perror("mmap");
		_exit(3);
	}
	return (Shm *)p;
}

static std::string log_path(unsigned w) { return scratch_root + "/log." + std::to_string(w); }
static void child_setup(unsigned slot)
{
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	setpgid(0, 0);
	int fd = open(log_path(slot).c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
	if (fd >= 0) {
		dup2(fd, 2);
		dup2(fd, 1);
		if (fd > 2)
			close(fd);
	}
	worker_scratch = scratch_root + "/w" + std::to_string(slot);
	mkdir(worker_scratch.c_str(), 0700);
	empty_dir(worker_scratch);
	struct rlimit rl = {0, 0};
	setrlimit(RLIMIT_CORE, &rl);
}
static void kill_group(pid_t p)
{
	kill(-p, SIGKILL);
	kill(p, SIGKILL);
}

// Runs one case with forced choices in a fresh process. Returns true when it failed;
// *consumed gets the choices actually used.
static Shm *rshm;
static bool run_forced(Facet *f, const std::vector<uint64_t> &ch, std::vector<uint64_t> *consumed, std::string *msg,
		       std::string *notes, bool notes_on, unsigned limit_s)
{
	Shm *save = shm;
	rshm->failed = false;
	rshm->nch = 0;
	rshm->notelen = 0;
	rshm->msg[0] = 0;
	rshm->finished = false;
	rshm->case_start.store(0);
	pid_t p = fork();
	if (p == 0) {
		shm = rshm;
		child_setup(99);
		prefix = ch;
		replaying = true;
		want_notes = notes_on;
		run_one(f);
		syscall(SYS_exit_group, 0);
	}
	int st = 0;
	uint64_t t0 = now_ns();
	bool hang = false;
	for (;;) {
		pid_t r = waitpid(p, &st, WNOHANG);
		if (r == p)
			break;
		if (now_ns() - t0 > (uint64_t)limit_s * 1000000000ull) {
			hang = true;
			kill_group(p);
			waitpid(p, &st, 0);
			break;
		}
		usleep(now_ns() - t0 < 20000000 ? 100 : 1000);
	}
	kill_group(p);
	shm = save;
	bool failed = hang || !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
	if (consumed)
		consumed->assign(rshm->ch, rshm->ch + rshm->nch);
	if (failed && msg) {
		if (hang)
			*msg = "case did not finish within " + std::to_string(limit_s) + " s (hang)";
		else if (rshm->failed)
			*msg = rshm->msg;
		else if (WIFSIGNALED(st))
			*msg = std::string("process died of signal: ") + strsignal(WTERMSIG(st));
		else
			*msg = "process aborted (sanitizer or assertion), exit status " + std::to_string(WEXITSTATUS(st));
	}
	if (notes)
		*notes = rshm->notes;
	return failed;
}

static std::string read_log(unsigned slot, size_t max)
{
	std::string s;
	FILE *fp = fopen(log_path(slot).c_str(), "r");
	if (!fp)
		return s;
	char b[4096];
	size_t n;
	while (s.size() < max && (n = fread(b, 1, sizeof b, fp)) > 0)
		s.append(b, n);
	fclose(fp);
	return s;
}

static std::vector<uint64_t> shrink(Facet *f, std::vector<uint64_t> best, unsigned limit_s, uint64_t budget_ns)
{
	uint64_t t0 = now_ns();
	int attempts = 0;
	auto ok = [&](std::vector<uint64_t> &c) {
		if (now_ns() - t0 > budget_ns || attempts > 4000)
			return false;
		attempts++;
		std::vector<uint64_t> used;
		if (!run_forced(f, c, &used, nullptr, nullptr, false, limit_s))
			return false;
		if (used.size() < c.size())
			c = used;
		while (!c.empty() && c.back() == 0)
			c.pop_back();
		return true;
	};
	bool progress = true;
	while (progress && now_ns() - t0 < budget_ns) {
		progress = false;
		for (size_t k = std::max<size_t>(best.size() / 2, 1); k >= 1; k /= 2) {
			for (size_t i = 0; i + k <= best.size();) {
				std::vector<uint64_t> c(best);
				c.erase(c.begin() + i, c.begin() + i + k);
				if (ok(c) && c.size() < best.size()) {
					best = c;
					progress = true;
				} else
					i += std::max<size_t>(1, k / 2);
			}
			if (k == 1)
				break;
		}
		for (size_t k = 8; k >= 1; k /= 2) {
			for (size_t i = 0; i + k <= best.size(); i += k) {
				bool nz = false;
				for (size_t j = i; j < i + k; j++)
					nz |= best[j] != 0;
				if (!nz)
					continue;
				std::vector<uint64_t> c(best);
				for (size_t j = i; j < i + k; j++)
					c[j] = 0;
				if (ok(c)) {
					best = c;
					progress = true;
				}
			}
		}
		for (size_t i = 0; i < best.size(); i++) {
			uint64_t lo = 0, hi = best[i];
			while (lo + 1 < hi) {
				uint64_t mid = lo + (hi - lo) / 2;
				std::vector<uint64_t> c(best);
				c[i] = mid;
				if (ok(c) && i < c.size() && c[i] == mid) {
					best = c;
					hi = mid;
					progress = true;
				} else
					lo = mid;
				if (i >= best.size())
					break;
			}
		}
	}
	return best;
}

static std::string jstr(const std::string &s)
{
	std::string o = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') {
			o += '\\';
			o += (char)c;
		} else if (c == '\n')
			o += "\\n";
		else if (c == '\t')
			o += "\\t";
		else if (c < 32 || c > 126) {
			char b[8];
			snprintf(b, sizeof b, "\\u%04x", c);
			o += b;
		} else
			o += (char)c;
	}
	return o + "\"";
}

static int do_replay(const char *path)
{
	FILE *fp = fopen(path, "r");
	if (!fp) {
		perror(path);
		return 2;
	}
	char line[65536], facet[128] = "";
	std::vector<uint64_t> ch;
	uint64_t wk = 0, W = 0, N = 0, seed = 0, at = 0;
	bool hist = false;
	while (fgets(line, sizeof line, fp)) {
		if (!strncmp(line, "---", 3))
			break;
		if (sscanf(line, "facet %127s", facet) == 1)
			continue;
		if (sscanf(line, "history worker %lu of %lu cases %lu seed %lu case %lu", &wk, &W, &N, &seed, &at) == 5) {
			hist = true;
			continue;
		}
		if (!strncmp(line, "choices", 7)) {
			char *p = line + 7, *e;
			for (;;) {
				uint64_t v = strtoull(p, &e, 10);
				if (e == p)
					break;
				ch.push_back(v);
				p = e;
			}
		}
	}
	fclose(fp);
	for (Facet *f = facets_head; f; f = f->next) {
		if (strcmp(f->name, facet))
			continue;
		std::string msg, notes;
		bool failed;
		if (hist) {
			pid_t p = fork();
			if (!p) {
				shm = rshm;
				child_setup(99);
				worker(f, (unsigned)wk, (unsigned)W, N, seed, at, 0);
				_exit(0);
			}
			int st;
			waitpid(p, &st, 0);
			failed = st != 0;
			msg = rshm->msg;
		} else
			failed = run_forced(f, ch, nullptr, &msg, &notes, true, f->limit_s);
		printf("%s\n%s", notes.c_str(), read_log(99, 8000).c_str());
		printf("replay: %s%s%s\n", failed ? "FAILS: " : "passes", msg.c_str(), "");
		return failed ? 1 : 0;
	}
	fprintf(stderr, "no facet %s\n", facet);
	return 2;
}

struct FacetStat {
	std::string name;
	uint64_t planned = 0, done = 0, nontriv = 0, distinct = 0, newcov = 0, unconfirmed = 0;
	double secs = 0;
	bool cut = false;
	std::map<std::string, uint64_t> labels;
	std::vector<std::string> samples;
};

static int driver(int argc, char **argv)
{
	const char *tier = getenv("VERIF_TIER");
	const char *seeds = getenv("VERIF_SEED");
	uint64_t seed = seeds && *seeds ? strtoull(seeds, nullptr, 10) : 1;
	const char *evid = nullptr, *replay = nullptr, *only = nullptr, *repdir = "replays";
	uint64_t ncases = 0;
	double scale = 1;
	unsigned W = 8;
	for (int i = 1; i < argc; i++) {
		auto val = [&]() { return i + 1 < argc ? argv[++i] : (char *)""; };
		if (!strcmp(argv[i], "--tier")) tier = val();
		else if (!strcmp(argv[i], "--seed")) seed = strtoull(val(), nullptr, 10);
		else if (!strcmp(argv[i], "--evidence")) evid = val();
		else if (!strcmp(argv[i], "--replay")) replay = val();
		else if (!strcmp(argv[i], "--replays")) repdir = val();
		else if (!strcmp(argv[i], "--facet")) only = val();
		else if (!strcmp(argv[i], "--cases")) ncases = strtoull(val(), nullptr, 10);
		else if (!strcmp(argv[i], "--scale")) scale = atof(val());
		else if (!strcmp(argv[i], "--workers")) W = (unsigned)atoi(val());
	}
	is_thorough = tier && !strcmp(tier, "thorough");
	// scratch area
	std::string base = "/tmp";
	if (access("/dev/shm", W_OK | X_OK) == 0)
		base = "/dev/shm";
	std::string t = base + "/vf-XXXXXX";
	std::vector<char> tb(t.begin(), t.end());
	tb.push_back(0);
	if (!mkdtemp(tb.data())) {
		perror("mkdtemp");
		return 3;
	}
	scratch_root = tb.data();
	rshm = new_shm();
	shm = rshm;
	auto cleanup = [&]() {
		empty_dir(scratch_root);
		rmdir(scratch_root.c_str());
	};
	if (replay) {
		int r = do_replay(replay);
		cleanup();
		return r;
	}
	uint64_t T0 = now_ns();
	std::vector<FacetStat> stats;
	std::unordered_set<uint64_t> distinct;
	std::vector<uint8_t> covall;
	bool violation = false;
	std::string vline;
	for (Facet *f = facets_head; f && !violation; f = f->next) {
		if (only && strcmp(only, f->name))
			continue;
		FacetStat fs;
		fs.name = f->name;
		uint64_t N = ncases ? ncases : (uint64_t)((is_thorough ? f->thorough : f->quick) * scale);
		if (N < 1)
			N = 1;
		fs.planned = N;
		uint64_t f0 = now_ns();
		uint64_t deadline = T0 + (is_thorough ? 7200ull : 420ull) * 1000000000ull;
		std::vector<Shm *> sh(W);
		std::vector<pid_t> pid(W, 0);
		fflush(stdout);
		for (unsigned w = 0; w < W; w++) {
			sh[w] = new_shm();
			pid[w] = fork();
			if (pid[w] == 0) {
				shm = sh[w];
				child_setup(w);
				worker(f, w, W, N, seed, UINT64_MAX, deadline);
				syscall(SYS_exit_group, 0);
			}
		}
		unsigned alive = W;
		int bad = -1;
		bool bad_hang = false;
		std::string badlog;
		while (alive && bad < 0) {
			bool any = false;
			for (unsigned w = 0; w < W && bad < 0; w++) {
				if (!pid[w])
					continue;
				int st;
				pid_t r = waitpid(pid[w], &st, WNOHANG);
				if (r == pid[w]) {
					any = true;
					kill_group(pid[w]);
					pid[w] = 0;
					alive--;
					if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) || !sh[w]->finished)
						bad = (int)w;
					continue;
				}
				uint64_t cs = sh[w]->case_start.load();
				uint64_t nw = now_ns();
				if (cs && nw > cs && nw - cs > (uint64_t)f->limit_s * 1000000000ull) {
					kill_group(pid[w]);
					waitpid(pid[w], &st, 0);
					pid[w] = 0;
					alive--;
					bad = (int)w;
					bad_hang = true;
				}
			}
			if (!any)
				usleep(2000);
		}
		for (unsigned w = 0; w < W; w++)
			if (pid[w]) {
				kill_group(pid[w]);
				waitpid(pid[w], nullptr, 0);
			}
		if (bad >= 0) {
			Shm *b = sh[bad];
			badlog = read_log((unsigned)bad, 12000);
			std::vector<uint64_t> ch(b->ch, b->ch + b->nch), used;
			std::string msg, notes;
			std::string first = b->failed ? b->msg : bad_hang ? "hang" : "abnormal end";
			int nfail = 0;
			for (int k = 0; k < (bad_hang ? 2 : 3); k++)
				if (run_forced(f, ch, &used, &msg, nullptr, false, f->limit_s))
					nfail++;
			bool hist = false;
			if (nfail == 0) {
				// depends on the history of the worker: run it again
				rshm->failed = false;
				pid_t p = fork();
				if (!p) {
					shm = rshm;
					memset(shm, 0, offsetof(Shm, set));
					child_setup(99);
					worker(f, (unsigned)bad, W, N, seed, b->cur, 0);
					syscall(SYS_exit_group, 0);
				}
				int st = 0;
				uint64_t h0 = now_ns();
				bool to = false;
				while (waitpid(p, &st, WNOHANG) == 0) {
					if (now_ns() - h0 > 300000000000ull) {
						to = true;
						kill_group(p);
						waitpid(p, &st, 0);
						break;
					}
					usleep(2000);
				}
				if (!to && st != 0 && rshm->cur == b->cur) {
					hist = true;
					msg = rshm->failed ? rshm->msg : first;
				}
			}
			if (nfail == 0 && !hist) {
				fs.unconfirmed++;
				fprintf(stderr, "vf: %s/%s: unconfirmed failure at case %lu: %s\n%s\n", the_property->id, f->name,
					b->cur, first.c_str(), badlog.c_str());
			} else {
				std::vector<uint64_t> best = used.empty() ? ch : used;
				std::string log;
				if (!hist) {
					if (nfail == (bad_hang ? 2 : 3))
						best = shrink(f, best, bad_hang ? 5 : f->limit_s,
							      (bad_hang ? 30ull : 60ull) * 1000000000ull);
					else
						best = ch;
					std::string m2;
					bool again = false;
					for (int k = 0; k < 10 && !again; k++)
						again = run_forced(f, best, nullptr, &m2, &notes, true, f->limit_s);
					if (again)
						msg = m2;
					log = read_log(99, 12000);
				} else
					log = badlog;
				mkdir(repdir, 0755);
				uint64_t h = hstr(msg.c_str());
				for (uint64_t c : best)
					h = mix(h ^ c);
				char path[512];
				snprintf(path, sizeof path, "%s/%s-%s-%08x.txt", repdir, the_property->id, f->name,
					 (unsigned)h);
				FILE *fp = fopen(path, "w");
				if (fp) {
					fprintf(fp, "vf-replay 1\nproperty %s\nfacet %s\n", the_property->id, f->name);
					if (hist)
						fprintf(fp, "history worker %d of %u cases %lu seed %lu case %lu\n", bad, W, N,
							seed, (unsigned long)b->cur);
					fprintf(fp, "choices");
					for (uint64_t c : best)
						fprintf(fp, " %lu", c);
					fprintf(fp, "\n--- failure\n%s\n--- trace\n%s--- output\n%s\n", msg.c_str(),
						notes.c_str(), log.c_str());
					fclose(fp);
				}
				violation = true;
				fprintf(stderr, "%s/%s: %s\n%s\n", the_property->id, f->name, msg.c_str(), notes.c_str());
				vline = std::string("VIOLATION property=") + the_property->id + " replay=" + path;
			}
		}
		for (unsigned w = 0; w < W; w++) {
			fs.done += sh[w]->done;
			fs.nontriv += sh[w]->nontriv;
			fs.newcov += sh[w]->newcov_total;
			for (int i = 0; i < MAXLAB && sh[w]->lab[i].name[0]; i++)
				fs.labels[sh[w]->lab[i].name] += sh[w]->lab[i].n;
			for (uint32_t i = 0; i < sh[w]->nsamp; i++)
				fs.samples.push_back(sh[w]->samp[i]);
			size_t before = distinct.size();
			if (sh[w]->setn)
				for (size_t i = 0; i < SETSZ; i++)
					if (sh[w]->set[i])
						distinct.insert(sh[w]->set[i]);
			fs.distinct += distinct.size() - before;
			if (covall.size() < sh[w]->covlen)
				covall.resize(sh[w]->covlen);
			for (uint32_t i = 0; i < sh[w]->covlen; i++)
				covall[i] |= sh[w]->cov[i];
			munmap(sh[w], sizeof(Shm));
		}
		fs.cut = fs.done < N && bad < 0;
		fs.secs = (double)(now_ns() - f0) / 1e9;
		stats.push_back(fs);
	}
	double wall = (double)(now_ns() - T0) / 1e9;
	size_t edges = 0;
	for (uint8_t c : covall)
		edges += c != 0;
	uint64_t ev = 0, nt = 0;
	for (auto &s : stats) {
		ev += s.done;
		nt += s.nontriv;
		printf("%s/%s: %lu cases, %lu non-trivial, %lu distinct, %lu new-coverage, %.1f s%s%s\n", the_property->id,
		       s.name.c_str(), s.done, s.nontriv, s.distinct, s.newcov, s.secs, s.cut ? " (cut by time)" : "",
		       s.unconfirmed ? " UNCONFIRMED FAILURE" : "");
		if (getenv("VF_VERBOSE"))
			for (auto &l : s.labels)
				printf("    %-48s %lu\n", l.first.c_str(), l.second);
	}
	if (evid) {
		FILE *fp = fopen(evid, "w");
		if (fp) {
			fprintf(fp, "{\n \"property\": %s,\n \"tier\": \"%s\",\n \"seed\": %lu,\n \"level\": %s,\n",
				jstr(the_property->id).c_str(), is_thorough ? "thorough" : "quick", seed,
				jstr(the_property->level).c_str());
			fprintf(fp, " \"coverage\": {\n  \"evaluations\": %lu,\n  \"distinct_nontrivial\": %zu,\n", ev,
				distinct.size());
			fprintf(fp, "  \"nontrivial\": %lu,\n  \"rule\": %s,\n  \"samples\": [", nt,
				jstr(the_property->rule).c_str());
			bool first = true;
			for (auto &s : stats)
				for (size_t i = 0; i < s.samples.size() && i < 2; i++) {
					fprintf(fp, "%s\n   %s", first ? "" : ",", jstr(s.name + ": " + s.samples[i]).c_str());
					first = false;
				}
			fprintf(fp, "],\n  \"code_edges_reached\": %zu,\n  \"code_edges_instrumented\": %zu,\n  \"facets\": {",
				edges, cov_total);
			first = true;
			for (auto &s : stats) {
				fprintf(fp,
					"%s\n   %s: {\"planned\": %lu, \"evaluations\": %lu, \"nontrivial\": %lu, "
					"\"distinct_nontrivial\": %lu, \"new_coverage_cases\": %lu, \"seconds\": %.2f, "
					"\"unconfirmed_failures\": %lu, \"classes\": {",
					first ? "" : ",", jstr(s.name).c_str(), s.planned, s.done, s.nontriv, s.distinct,
					s.newcov, s.secs, s.unconfirmed);
				first = false;
				bool f2 = true;
				for (auto &l : s.labels) {
					fprintf(fp, "%s%s: %lu", f2 ? "" : ", ", jstr(l.first).c_str(), l.second);
					f2 = false;
				}
				fprintf(fp, "}}");
			}
			fprintf(fp, "\n  }\n },\n \"assumptions\": [");
			first = true;
			for (auto &a : assumptions()) {
				fprintf(fp, "%s%s", first ? "" : ", ", jstr(a).c_str());
				first = false;
			}
			fprintf(fp, "],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", wall, violation ? 1 : 0);
			fclose(fp);
		}
	}
	cleanup();
	if (violation) {
		printf("%s\n", vline.c_str());
		return 1;
	}
	return 0;
}

// ------------------------------------------------------------ heap accounting
#if VF_HAVE_ASAN
long live_bytes() { return (long)__sanitizer_get_current_allocated_bytes(); }
#endif

} // namespace vf

// ------------------------------------------------- sancov callbacks (libfutils)
extern "C" {
void __sanitizer_cov_8bit_counters_init(uint8_t *a, uint8_t *b)
{
	if (a == b)
		return;
	for (int i = 0; i < vf::ncov_mods; i++)
		if (vf::cov_mods[i].a == a)
			return;
	if (vf::ncov_mods < 64)
		vf::cov_mods[vf::ncov_mods++] = {a, b};
	vf::cov_total += (size_t)(b - a);
}
void __sanitizer_cov_pcs_init(const uintptr_t *, const uintptr_t *) {}
void __sanitizer_cov_trace_cmp1(uint8_t, uint8_t) {}
void __sanitizer_cov_trace_cmp2(uint16_t, uint16_t) {}
void __sanitizer_cov_trace_cmp4(uint32_t, uint32_t) {}
void __sanitizer_cov_trace_cmp8(uint64_t, uint64_t) {}
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t) { vf::dict_add(a); }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t) { vf::dict_add(a); }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t) { vf::dict_add(a); }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t) { vf::dict_add(a); }
void __sanitizer_cov_trace_switch(uint64_t, uint64_t *c)
{
	for (uint64_t i = 0; i < c[0] && i < 64; i++)
		vf::dict_add(c[2 + i]);
}
#if VF_HAVE_ASAN
__attribute__((used)) const char *__asan_default_options()
{
	return "exitcode=99:detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:handle_abort=0:"
	       "detect_stack_use_after_return=0:symbolize=0:allocator_release_to_os_interval_ms=-1:quarantine_size_mb=16";
}
#endif
__attribute__((used)) const char *__ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:exitcode=99"; }
}

int main(int argc, char **argv) { return vf::driver(argc, argv); }
