// Choice-sequence property-testing engine. See DESIGN.md.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <sys/types.h>
#include <string>
#include <vector>
#include <initializer_list>

namespace vf {

// ---- generation: every random decision of a case goes through draw()
uint64_t draw(uint64_t max);                       // uniform in [0,max]; shrinks to 0
uint64_t interesting(uint64_t max);                // biased to edges / constants seen; [0,max]
uint64_t smallish(uint64_t max);                   // geometric-ish, mostly small; [0,max]
inline uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo); }
inline int64_t irange(int64_t lo, int64_t hi)
{ return (int64_t)((uint64_t)lo + draw((uint64_t)hi - (uint64_t)lo)); }
uint64_t cycle(uint64_t max);                      // case number modulo max+1: enumeration over the cases of a facet
bool chance(unsigned num, unsigned den);           // true with num/den; shrinks to false
size_t weighted(std::initializer_list<unsigned> w); // index; shrinks to 0
template <class T> const T &pick(const std::vector<T> &v) { return v[draw(v.size() - 1)]; }
std::string bytes(size_t n);                       // arbitrary bytes
uint64_t anyint(unsigned bits);                    // biased value of the given width
// Expand one 64-bit choice into n pseudo-random bytes (bulk data which need not shrink bytewise)
void fill(uint64_t seed, void *p, size_t n);
// more than 4 GiB of readable, writable memory which costs nothing while it is not touched: for sizes beyond 32 bits
uint8_t *huge();
// sizes just above a power of two at which a narrower type would wrap: k in [0,span]
size_t wrapping(size_t span);
struct Rng { uint64_t s; uint64_t next(); };       // splitmix, seeded from a choice

// The calling thread's locale until the end of the case: mostly "C", else C.utf8 or tr (header line // VF locale: yes)
void some_locale();

// ---- reporting
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
bool noting();
void classify(const char *label);                  // label must be a literal
void nontrivial();                                 // this case is non-trivial by the rule
std::string hex(const void *p, size_t n, size_t max = 64);
std::string quote(const std::string &s, size_t max = 80);

#define VF_CHECK(c, ...) do { if (!(c)) vf::fail(__VA_ARGS__); } while (0)

// ---- environment
const std::string &scratch();                      // private empty directory of this worker (persistent over its cases)
void reap(pid_t pid, int status);                  // propagate failure of a forked sub-process of a case
bool thorough();
// run fn in a forked child of the case; a fail() or crash inside it fails the case. Returns exit status (0..255)
int in_child(void (*fn)(void *), void *arg);
uint64_t now_ns();                                 // raw monotonic clock, not interceptable

// ---- heap accounting (malloc interposed by the sanitizer runtime)
long live_bytes();
// make the n-th (1-based) wrapped allocation call made while armed fail; 0 disarms
void oom_arm(long nth);
long oom_disarm();                                 // returns number of allocation calls seen

// ---- facets
struct Facet {
	const char *name;
	void (*fn)();
	uint64_t quick, thorough;
	unsigned flags;
	unsigned limit_s;                          // hang limit per case
	Facet *next;
	Facet(const char *n, void (*f)(), uint64_t q, uint64_t t, unsigned fl = 0, unsigned lim = 30);
};
enum {
	FRESH = 1, // each case in its own forked process
	NOMUT = 2, // no corpus mutation: cases are an enumeration (cycle())
};

#define VF_FACET2(id, n, q, t, ...) \
	static void vf_case_##id(); \
	static vf::Facet vf_facet_##id(n, vf_case_##id, q, t, ##__VA_ARGS__); \
	static void vf_case_##id()
#define VF_FACET(id, q, t, ...) VF_FACET2(id, #id, q, t, ##__VA_ARGS__)

struct Property {
	const char *id, *rule, *level;
	Property(const char *id, const char *level, const char *rule);
};
#define VF_PROPERTY(id, level, rule) static vf::Property vf_property(id, level, rule)
void assumption(const char *text);
struct Assume { Assume(const char *t) { assumption(t); } };
#define VF_ASSUME_CAT2(a, b) a##b
#define VF_ASSUME_CAT(a, b) VF_ASSUME_CAT2(a, b)
#define VF_ASSUME(t) static vf::Assume VF_ASSUME_CAT(vf_assume_, __LINE__)(t)

} // namespace vf
