// VF variant: asan
// VF use: sysfault entropy
// VF libs: -lpthread
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <thread>
#include "entropy.h"
#include "sysfault.h"
#include "stats.h"
#include "futils/random.h"
using namespace vf;
VF_PROPERTY("C21", "exploration", "the entropy source misbehaves at least once, or at least two streams with a reseed, thread or fork between them");
VF_ASSUME("operating-system entropy is answered at the system-call boundary (getrandom, /dev/random, /dev/urandom) by a recorded stream");
VF_ASSUME("an errno of getrandom other than EINTR, EAGAIN and ENOSYS may be reported or may lead to the device");

struct Out { // results of a forked run
	uint64_t before, after, n;
	uint8_t b[60000];
	int ret;
	bool done;
};
static Out *outs()
{
	static Out *o;
	if (!o)
		o = (Out *)mmap(nullptr, 2 * sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	return o;
}
// runs f in a child; returns the wait status
template <class F> static int forked(F f)
{
	pid_t p = fork();
	VF_CHECK(p >= 0, "harness: fork");
	if (!p) {
		signal(SIGABRT, SIG_DFL);
		f();
		syscall(SYS_exit_group, 0);
	}
	int st;
	while (waitpid(p, &st, 0) < 0 && errno == EINTR)
		;
	return st;
}

// ---- what a source does
enum Expect { MUST, MAY, MUST_NOT };
struct Plan {
	std::vector<EntStep> g, o, r;
	bool faulty = false;
	Expect e = MUST;
};
static std::string show(const std::vector<EntStep> &v)
{
	std::string s;
	for (auto &x : v)
		s += x.kind == ENT_OK ? " full" : x.kind == ENT_SHORT ? " short" + std::to_string(x.n) : x.kind == ENT_ZERO ? " none" : std::string(" ") + strerrorname_np((int)x.n);
	return s.empty() ? " full" : s;
}
static EntStep transient()
{
	if (chance(1, 2))
		return {ENT_ERR, EINTR};
	return {ENT_SHORT, (uint32_t)range(1, 40)};
}
static Plan gen_plan()
{
	Plan p;
	size_t n = draw(4);
	for (size_t i = 0; i < n; i++)
		p.g.push_back(transient());
	int gend = (int)weighted({3, 4, 1}); // available, unavailable for good, unavailable for another reason
	bool dies = gend != 0;
	if (gend == 0)
		p.g.push_back({ENT_OK, 0});
	else if (gend == 1)
		p.g.push_back(chance(1, 5) ? EntStep{ENT_ZERO, 0} : EntStep{ENT_ERR, (uint32_t)(chance(1, 2) ? EAGAIN : ENOSYS)});
	else
		p.g.push_back({ENT_ERR, (uint32_t)(chance(1, 2) ? EIO : EPERM)});
	bool back = dies && chance(1, 5); // comes back later
	if (back)
		p.g.push_back({ENT_OK, 0});
	bool noopen = chance(1, 4), rdies = false;
	if (noopen)
		p.o.push_back({ENT_ERR, (uint32_t)(chance(1, 2) ? EMFILE : ENOENT)});
	n = draw(4);
	for (size_t i = 0; i < n; i++)
		p.r.push_back(transient());
	if (chance(1, 3)) {
		rdies = true;
		p.r.push_back(chance(1, 3) ? EntStep{ENT_ZERO, 0} : EntStep{ENT_ERR, (uint32_t)(chance(1, 2) ? EIO : EAGAIN)});
	} else
		p.r.push_back({ENT_OK, 0});
	p.faulty = p.g.size() > 1 || dies;
	bool devbad = noopen || rdies;
	if (!dies)
		p.e = MUST;
	else if (!devbad)
		p.e = gend == 1 ? MUST : MAY;
	else
		p.e = back ? MAY : MUST_NOT;
	// a failing source which still gives enough before it fails may be enough
	if (p.e == MUST_NOT) {
		for (auto &x : p.g)
			if (x.kind == ENT_SHORT)
				p.e = MAY;
		if (!noopen)
			for (auto &x : p.r)
				if (x.kind == ENT_SHORT)
					p.e = MAY;
	}
	note("getrandom:%s; device open:%s; device read:%s", show(p.g).c_str(), show(p.o).c_str(), show(p.r).c_str());
	if (p.faulty)
		nontrivial();
	return p;
}
static void apply(const Plan &p) { ent_plan(p.g, p.o, p.r); }
// the text is made of delivered bytes in order
static bool made_of(const std::string &b, const std::string &log)
{
	if (log.size() == b.size())
		return b == log;
	size_t j = 0;
	for (size_t i = 0; i < b.size(); i++) {
		while (j < log.size() && log[j] != b[i])
			j++;
		if (j == log.size())
			return false;
		j++;
	}
	return true;
}

VF_FACET(strong_bytes, 150000, 3000000)
{
	ent_start(draw(UINT64_MAX));
	Plan p = gen_plan();
	size_t n = weighted({3, 1}) == 0 ? range(1, 120) : range(1, 5000);
	note("strong random: %zu bytes", n);
	// may give enough: the source hands out some bytes before failing
	apply(p);
	uint8_t *b = (uint8_t *)malloc(n);
	memset(b, 0, n);
	int r = futils_random_strong(b, n);
	std::string got((char *)b, n), log = ent_log(0);
	free(b);
	VF_CHECK(ent_open_devices() == 0, "%d device descriptors left open", ent_open_devices());
	VF_CHECK(r <= 0, "returned %d", r);
	if (p.e == MUST)
		VF_CHECK(r == 0, "entropy was obtainable but strong generation of %zu bytes returned %d", n, r);
	if (p.e == MUST_NOT)
		VF_CHECK(r < 0, "no entropy was obtainable but strong generation of %zu bytes reported success", n);
	if (r == 0) {
		classify("success");
		VF_CHECK(log.size() >= n && made_of(got, log), "%zu bytes reported complete, the source delivered %zu: result is not what was delivered (differs from byte %zu on)", n, log.size(),
			(size_t)(std::mismatch(got.begin(), got.begin() + (ptrdiff_t)std::min(got.size(), log.size()), log.begin()).first - got.begin()));
	} else
		classify("reported failure");
}
// more bytes than 32 bits count: all of them come from the system
VF_FACET(huge_strong, 60, 600)
{
	static const size_t base[] = {1ull << 32, 1ull << 31, (1ull << 31) + (1ull << 30), 1ull << 25};
	size_t n = base[draw(3)] + draw(300);
	ent_start(draw(UINT64_MAX));
	std::vector<EntStep> g;
	bool dev = chance(1, 3);
	for (size_t i = 0, k = draw(3); i < k; i++)
		g.push_back(transient());
	g.push_back(dev ? EntStep{ENT_ERR, (uint32_t)(chance(1, 2) ? EAGAIN : ENOSYS)} : EntStep{ENT_OK, 0});
	ent_plan(g, {}, {});
	ent_bulk(true);
	note("strong random: %zu bytes, from %s", n, dev ? "the device" : "getrandom");
	nontrivial();
	int r = futils_random_strong(huge(), n);
	uint64_t got = ent_delivered();
	ent_bulk(false);
	VF_CHECK(r == 0, "entropy was obtainable but strong generation of %zu bytes returned %d", n, r);
	VF_CHECK(got >= n, "%zu bytes reported complete, the source delivered %llu", n, (unsigned long long)got);
	VF_CHECK(ent_open_devices() == 0, "%d device descriptors left open", ent_open_devices());
}
static void draw_into(Out *o, size_t n)
{
	futils_random(o->b + o->n, n);
	o->n += n;
}
// the first output of a thread, or the one after a reseed, with a misbehaving source
VF_FACET(seeding_faults, 6000, 120000)
{
	Out *o = outs();
	uint64_t seed = draw(UINT64_MAX);
	Plan p = gen_plan();
	bool reseed = chance(1, 2);
	bool repaired = chance(1, 2);
	note(reseed ? "reseed, then output%s" : "first output%s", repaired ? ", source repaired afterwards" : "");
	memset(o, 0, offsetof(Out, b));
	o->done = false;
	o->ret = 99;
	int st = forked([&] {
		ent_start(seed);
		// whatever state the worker's generator had
		if (reseed) {
			uint8_t x[40];
			futils_random(x, sizeof x);
		}
		apply(p);
		o->before = ent_delivered();
		if (reseed) {
			o->ret = futils_random_reseed();
			if (repaired) {
				o->before = o->ret < 0 ? ent_delivered() : o->before;
				ent_plan({}, {}, {});
			}
			draw_into(o, 32);
		} else {
			// a thread which never drew
			pthread_t t;
			pthread_create(&t, nullptr, [](void *q) -> void * {
				draw_into((Out *)q, 32);
				((Out *)q)->after = ent_delivered();
				((Out *)q)->done = true;
				return nullptr;
			}, o);
			pthread_join(t, nullptr);
			syscall(SYS_exit_group, 0);
		}
		o->after = ent_delivered();
		o->done = true;
	});
	VF_CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 99), "sanitizer report");
	if (WIFEXITED(st) && WEXITSTATUS(st) == 77)
		syscall(SYS_exit_group, 77);
	uint64_t fresh = o->after - o->before;
	if (reseed && o->ret != 99) {
		VF_CHECK(o->ret <= 0, "reseeding returned %d", o->ret);
		if (p.e == MUST)
			VF_CHECK(o->ret == 0, "entropy was obtainable but reseeding returned %d", o->ret);
		if (p.e == MUST_NOT)
			VF_CHECK(o->ret < 0, "no entropy was obtainable but reseeding reported success");
	}
	if (o->done) {
		classify("output produced");
		VF_CHECK(fresh >= 32, "output was produced after only %llu bytes of fresh entropy", (unsigned long long)fresh);
		if (p.e == MUST_NOT && !(reseed && repaired))
			fail("no entropy was obtainable but output was produced");
	} else {
		classify("no output");
		if (p.e == MUST || (reseed && repaired && o->ret != 99))
			fail("entropy was obtainable but no output was produced (status 0x%x)", st);
	}
}
// every part of the seed matters
VF_FACET(whole_seed_used, 120, 2500)
{
	Out *o = outs();
	uint64_t seed = draw(UINT64_MAX);
	std::vector<EntStep> g, r;
	size_t n = draw(5);
	for (size_t i = 0; i < n; i++)
		g.push_back(transient());
	bool dev = chance(1, 2);
	if (dev) {
		g.push_back({ENT_ERR, EAGAIN});
		n = draw(4);
		for (size_t i = 0; i < n; i++)
			r.push_back(transient());
		r.push_back({ENT_OK, 0});
	} else
		g.push_back({ENT_OK, 0});
	bool reseed = chance(1, 2);
	note("getrandom:%s; device read:%s; %s", show(g).c_str(), show(r).c_str(), reseed ? "reseed" : "new thread");
	nontrivial();
	auto run = [&](Out *q, uint64_t flip) {
		memset(q, 0, offsetof(Out, b));
		q->done = false;
		int st = forked([&] {
			ent_start(seed);
			ent_flip(flip);
			ent_plan(g, {}, r);
			if (reseed) {
				q->ret = futils_random_reseed();
				draw_into(q, 64);
			} else {
				pthread_t t;
				pthread_create(&t, nullptr, [](void *z) -> void * { draw_into((Out *)z, 64); return nullptr; }, q);
				pthread_join(t, nullptr);
			}
			q->after = ent_delivered();
			q->done = true;
		});
		VF_CHECK(st == 0 && q->done, "no output though entropy was obtainable (status 0x%x)", st);
	};
	run(&o[0], UINT64_MAX);
	unsigned matter = 0;
	uint64_t tot = o[0].after;
	VF_CHECK(tot >= 32, "output was produced from only %llu bytes of entropy", (unsigned long long)tot);
	for (uint64_t i = 0; i < tot && i < 256; i++) {
		run(&o[1], i);
		if (memcmp(o[0].b, o[1].b, 64))
			matter++;
	}
	VF_CHECK(matter >= 32, "of %llu bytes of entropy taken only %u have an influence on the output", (unsigned long long)tot, matter);
}

// ---- histories over threads, reseeds and forks, one operation at a time
enum { MAXT = 4, MAXOP = 40, MAXSTREAM = 12 };
struct Op { uint8_t kind, who; uint16_t n; }; // 0 draw, 1 reseed, 2 fork a child which reseeds and draws
struct Rec { uint32_t who, off, n; uint32_t epoch_seen; };
struct Hist {
	uint64_t fork_from;  // entropy position at the chosen reseed
	uint32_t nrec;
	Rec rec[MAXOP * 2];
	uint32_t used;
	uint8_t data[MAXOP * 2 * 700];
	int err;
	bool done;
};
static Hist *hists()
{
	static Hist *h;
	if (!h)
		h = (Hist *)mmap(nullptr, 2 * sizeof(Hist), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	return h;
}
static sem_t go[MAXT], did;
static Op cur;
static Hist *hist;
static uint32_t nreseeds;
static void step(int who, const Op &op)
{
	if (op.kind == 1) {
		int r = futils_random_reseed();
		if (r)
			hist->err = r;
		return;
	}
	Rec &r = hist->rec[hist->nrec++];
	r.who = (uint32_t)who;
	r.off = hist->used;
	r.n = op.n;
	r.epoch_seen = nreseeds;
	futils_random(hist->data + r.off, r.n);
	hist->used += r.n;
}
static void *thread_main(void *a)
{
	int me = (int)(intptr_t)a;
	for (;;) {
		while (sem_wait(&go[me]))
			;
		if (cur.kind == 9)
			return nullptr;
		step(me, cur);
		sem_post(&did);
	}
}
static void run_history(Hist *h, const std::vector<Op> &ops, int nt, uint64_t seed, uint32_t twist_at, uint64_t seed2, bool twist)
{
	hist = h;
	nreseeds = 0;
	ent_start(seed);
	if (twist && !twist_at)
		fail("harness: twist");
	sem_init(&did, 0, 0);
	pthread_t t[MAXT];
	for (int i = 1; i < nt; i++) {
		sem_init(&go[i], 0, 0);
		pthread_create(&t[i], nullptr, thread_main, (void *)(intptr_t)i);
	}
	// the calling thread starts from a reseed too, so that nothing depends on earlier cases
	futils_random_reseed();
	for (auto &op : ops) {
		if (op.kind == 1) {
			nreseeds++;
			if (nreseeds == twist_at) {
				h->fork_from = ent_delivered();
				if (twist)
					ent_fork_stream(ent_delivered(), seed2);
			}
		}
		if (op.kind == 2) {
			uint64_t pos = ent_delivered();
			int st = forked([&] {
				// another process: its entropy is another part of the stream
				ent_fork_stream(pos, (twist && nreseeds >= twist_at ? seed2 : seed) ^ (0x5151 + hist->nrec * 77ull));
				nreseeds += 1000;
				Op a = {1, 0, 0}, b = {0, 0, op.n};
				step(100 + (int)hist->nrec, a);
				step(100 + (int)hist->nrec, b);
			});
			if (st)
				h->err = 1000000 + st;
			continue;
		}
		cur = op;
		if (op.who == 0 || op.who >= nt) {
			step(0, op);
		} else {
			sem_post(&go[op.who]);
			while (sem_wait(&did))
				;
		}
	}
	cur = Op{9, 0, 0};
	for (int i = 1; i < nt; i++) {
		sem_post(&go[i]);
		pthread_join(t[i], nullptr);
	}
	h->done = true;
}
VF_FACET(thread_and_fork_histories, 1600, 60000)
{
	Hist *h = hists();
	uint64_t seed = draw(UINT64_MAX), seed2 = seed ^ 0x1234567899ull;
	int nt = 1 + (int)draw(MAXT - 1);
	std::vector<Op> ops;
	size_t n = 4 + draw(MAXOP - 6);
	uint32_t rs = 0;
	for (size_t i = 0; i < n; i++) {
		Op o;
		o.kind = (uint8_t)weighted({6, 2, 1});
		o.who = (uint8_t)draw(nt - 1);
		o.n = (uint16_t)(weighted({3, 1}) == 0 ? range(12, 64) : range(12, 600));
		rs += o.kind == 1;
		ops.push_back(o);
	}
	if (!rs) {
		ops.insert(ops.begin() + (long)draw(ops.size()), Op{1, (uint8_t)draw(nt - 1), 0});
		rs = 1;
	}
	for (int i = 0; i < nt; i++)
		ops.push_back(Op{0, (uint8_t)i, 40});
	uint32_t twist_at = 1 + (uint32_t)draw(rs - 1);
	note("%d threads, entropy after reseed %u differs in the second run:", nt, twist_at);
	for (auto &o : ops)
		note("  thread %u: %s %u", o.who, o.kind == 0 ? "draws" : o.kind == 1 ? "reseeds" : "forks a child which reseeds and draws", o.n);
	nontrivial();
	for (int k = 0; k < 2; k++) {
		memset(&h[k], 0, offsetof(Hist, data));
		h[k].done = false;
		h[k].err = 0;
		h[k].used = 0;
		int st = forked([&] { run_history(&h[k], ops, nt, seed, twist_at, seed2, k == 1); });
		reap(0, st);
		VF_CHECK(st == 0 && h[k].done && !h[k].err, "history did not complete: status 0x%x, error %d", st, h[k].err);
	}
	VF_CHECK(h[0].nrec == h[1].nrec, "harness: different histories");
	for (uint32_t i = 0; i < h[0].nrec; i++) {
		Rec &a = h[0].rec[i];
		bool same = !memcmp(h[0].data + a.off, h[1].data + a.off, a.n);
		bool after = a.epoch_seen >= twist_at;
		if (a.epoch_seen >= 1000) // another process
			continue;
		if (after)
			VF_CHECK(!same, "output %u (%u bytes of stream %u) made after reseed %u does not depend on the entropy obtained since", i, a.n, a.who, twist_at);
		else
			VF_CHECK(same, "harness: output %u before the change differs", i);
	}
	// nothing in common between any two outputs
	std::vector<std::string> s;
	for (uint32_t i = 0; i < h[0].nrec; i++)
		s.emplace_back((char *)h[0].data + h[0].rec[i].off, h[0].rec[i].n);
	stats::no_repeats(s, "outputs of threads, reseeds and children");
}
// ---- a reseed by one thread while another is being seeded or reseeds
struct Meet {
	uint8_t x[4][64];   // first outputs after both have ended: of the seeded thread, the reseeding one, the calling one, another
	uint8_t during[64]; // of the seeded thread, meanwhile
	uint32_t met;
	int err;
	bool done;
};
static Meet *meets()
{
	static Meet *m;
	if (!m)
		m = (Meet *)mmap(nullptr, 2 * sizeof(Meet), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	return m;
}
struct MeetPlan {
	bool a_main, a_drew, b_drew, c_drew, stale, a_reseeds, after, b_draws_first, twist;
	unsigned at, nb;
	uint64_t seed, seed2;
};
static MeetPlan mp;
static Meet *mt;
static sem_t a_go, a_did, b_go, b_did, c_go, c_did;
static thread_local bool is_a;
static unsigned a_asked;
static bool b_started, b_ended;
static void wait_sem(sem_t *s)
{
	while (sem_wait(s))
		;
}
static bool wait_short(sem_t *s)
{
	timespec t;
	clock_gettime(CLOCK_REALTIME, &t);
	t.tv_nsec += 200000000;
	if (t.tv_nsec >= 1000000000)
		t.tv_sec++, t.tv_nsec -= 1000000000;
	int r;
	while ((r = sem_timedwait(s, &t)) && errno == EINTR)
		;
	return !r;
}
static void meet_here(bool after)
{
	if (!is_a || b_started || after != mp.after || a_asked++ != mp.at)
		return;
	b_started = true;
	mt->met = 1;
	sem_post(&b_go);
	if (wait_short(&b_did)) // else it waits for the seeding to end
		b_ended = true;
}
static void a_op()
{
	is_a = true;
	ent_around = meet_here;
	if (mp.a_reseeds) {
		int r = futils_random_reseed();
		if (r)
			mt->err = r;
	} else
		futils_random(mt->during, 64);
	is_a = false;
}
static void *a_main(void *)
{
	uint8_t b[40];
	wait_sem(&a_go);
	if (mp.a_drew)
		futils_random(b, sizeof b);
	sem_post(&a_did);
	wait_sem(&a_go);
	a_op();
	sem_post(&a_did);
	wait_sem(&a_go);
	futils_random(mt->x[0], 64);
	sem_post(&a_did);
	return nullptr;
}
static void *b_main(void *)
{
	uint8_t b[40];
	wait_sem(&b_go);
	if (mp.b_drew)
		futils_random(b, sizeof b);
	sem_post(&b_did);
	wait_sem(&b_go);
	if (mp.b_draws_first)
		futils_random(b, sizeof b);
	for (unsigned i = 0; i < mp.nb; i++) {
		if (i + 1 == mp.nb && mp.twist)
			ent_fork_stream(ent_delivered(), mp.seed2);
		int r = futils_random_reseed();
		if (r)
			mt->err = r;
	}
	sem_post(&b_did);
	wait_sem(&b_go);
	futils_random(mt->x[1], 64);
	sem_post(&b_did);
	return nullptr;
}
static void *c_main(void *)
{
	uint8_t b[40];
	wait_sem(&c_go);
	if (mp.c_drew)
		futils_random(b, sizeof b);
	sem_post(&c_did);
	wait_sem(&c_go);
	futils_random(mt->x[3], 64);
	sem_post(&c_did);
	return nullptr;
}
static void turn(sem_t *go_, sem_t *did_)
{
	sem_post(go_);
	wait_sem(did_);
}
static void run_meet(unsigned pieces)
{
	uint8_t b[40];
	ent_start(mp.seed);
	if (pieces == 1)
		ent_plan({{ENT_SHORT, 20}}, {}, {});
	else if (pieces)
		ent_plan({{ENT_ERR, ENOSYS}}, {}, {{ENT_SHORT, 20}});
	a_asked = 0;
	b_started = b_ended = false;
	for (sem_t *s : {&a_go, &a_did, &b_go, &b_did, &c_go, &c_did})
		sem_init(s, 0, 0);
	pthread_t a, bt, c;
	futils_random_reseed();
	if (!mp.a_main) {
		pthread_create(&a, nullptr, a_main, nullptr);
		turn(&a_go, &a_did);
	} else if (mp.a_drew)
		futils_random(b, sizeof b);
	pthread_create(&bt, nullptr, b_main, nullptr);
	turn(&b_go, &b_did);
	pthread_create(&c, nullptr, c_main, nullptr);
	turn(&c_go, &c_did);
	if (mp.stale) { // somebody reseeds: all are to be seeded again
		if (mp.a_main) {
			// not the calling thread, it would be seeded already
			pthread_t t;
			pthread_create(&t, nullptr, [](void *) -> void * { futils_random_reseed(); return nullptr; }, nullptr);
			pthread_join(t, nullptr);
		} else
			futils_random_reseed();
	}
	if (mp.a_main)
		a_op();
	else
		turn(&a_go, &a_did);
	ent_around = nullptr;
	if (!b_started)
		sem_post(&b_go);
	if (!b_ended)
		wait_sem(&b_did);
	if (mp.a_main)
		futils_random(mt->x[0], 64);
	else
		turn(&a_go, &a_did);
	turn(&b_go, &b_did);
	turn(&c_go, &c_did);
	if (mp.a_main)
		memcpy(mt->x[2], mt->x[0], 64);
	else
		futils_random(mt->x[2], 64);
	mt->done = true;
}
VF_FACET(reseed_during_seeding, 2500, 80000)
{
	Meet *m = meets();
	mp = MeetPlan();
	mp.a_main = chance(1, 3);
	mp.a_drew = chance(1, 2);
	mp.b_drew = chance(1, 2);
	mp.c_drew = chance(1, 2);
	mp.stale = chance(1, 2);
	mp.a_reseeds = chance(1, 2);
	mp.after = chance(1, 2);
	mp.b_draws_first = chance(1, 3);
	mp.nb = 1 + (unsigned)draw(1);
	unsigned pieces = 0;
	if (chance(1, 3)) { // in several requests, perhaps of the device
		mp.at = (unsigned)draw(3);
		pieces = 1 + (unsigned)draw(1);
	}
	mp.seed = draw(UINT64_MAX);
	mp.seed2 = mp.seed ^ 0x1234567899ull;
	note("thread A (%s, %s)%s %s; %s its request %u for entropy is answered, thread B%s reseeds%s", mp.a_main ? "the calling one" : "another", mp.a_drew ? "has drawn" : "new", mp.stale ? " after a reseed by a third" : "", mp.a_reseeds ? "reseeds" : "draws",
		mp.after ? "after" : "before", mp.at, mp.b_draws_first ? " draws and" : "", mp.nb > 1 ? " twice" : "");
	static const char *const who[] = {"A", "B", "the calling thread", "another thread"};
	for (int k = 0; k < 2; k++) {
		mt = &m[k];
		memset(mt, 0, sizeof *mt);
		mp.twist = k == 1;
		int st = forked([&] {
			run_meet(pieces);
		});
		reap(0, st);
		VF_CHECK(st == 0 && mt->done && !mt->err, "history did not complete: status 0x%x, error %d", st, mt->err);
	}
	if (m[0].met) {
		nontrivial();
		classify("met");
	}
	for (int i = 0; i < 4; i++)
		VF_CHECK(memcmp(m[0].x[i], m[1].x[i], 64), "the next output of %s does not depend on the entropy obtained since B reseeded", who[i]);
	std::vector<std::string> s;
	for (int i = 0; i < 4; i++)
		if (!(i == 2 && mp.a_main))
			s.emplace_back((char *)m[0].x[i], 64);
	if (!mp.a_reseeds)
		s.emplace_back((char *)m[0].during, 64);
	stats::no_repeats(s, "outputs of threads one of which reseeds while another is seeded");
}
// a thread which draws again only after very many reseeds of others
struct Idle {
	uint8_t x[3][64]; // of the idle thread, the reseeding one, a new one
	int err;
	bool done;
};
static Idle *idles()
{
	static Idle *m;
	if (!m)
		m = (Idle *)mmap(nullptr, 2 * sizeof(Idle), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	return m;
}
VF_FACET(many_reseeds, 160, 4000, 0, 120)
{
	Idle *m = idles();
	uint64_t seed = draw(UINT64_MAX), seed2 = seed ^ 0x1234567899ull;
	unsigned n;
	switch (weighted({4, 3, 1})) {
	case 0: n = 1u << draw(10); break;
	case 1: n = 1 + (unsigned)draw(600); break;
	default: n = 1u << range(11, 17);
	}
	if (chance(1, 3)) {
		n *= 1 + (unsigned)draw(2);
		n += (unsigned)draw(2);
		n -= n > 1;
	}
	bool drew = chance(3, 4), main_idle = chance(1, 2);
	size_t first = draw(600);
	note("a thread (%s, %s %zu) is idle while another reseeds %u times", main_idle ? "the calling one" : "another", drew ? "which drew" : "new, would have drawn", first, n);
	if (n > 1)
		nontrivial();
	for (int k = 0; k < 2; k++) {
		Idle *o = &m[k];
		memset(o, 0, sizeof *o);
		int st = forked([&] {
			uint8_t b[600];
			ent_start(seed);
			auto reseeds = [&] {
				for (unsigned i = 0; i < n; i++) {
					if (i + 1 == n && k)
						ent_fork_stream(ent_delivered(), seed2);
					int r = futils_random_reseed();
					if (r)
						o->err = r;
				}
				futils_random(o->x[1], 64);
			};
			auto idle1 = [&] {
				if (drew)
					futils_random(b, first);
			};
			auto idle2 = [&] { futils_random(o->x[0], 64); };
			if (main_idle) {
				idle1();
				std::thread(reseeds).join();
				idle2();
			} else {
				sem_t s1, s2;
				sem_init(&s1, 0, 0);
				sem_init(&s2, 0, 0);
				std::thread t([&] {
					idle1();
					sem_post(&s1);
					while (sem_wait(&s2))
						;
					idle2();
				});
				while (sem_wait(&s1))
					;
				reseeds();
				sem_post(&s2);
				t.join();
			}
			std::thread([&] { futils_random(o->x[2], 64); }).join();
			o->done = true;
		});
		reap(0, st);
		VF_CHECK(st == 0 && o->done && !o->err, "history did not complete: status 0x%x, error %d", st, o->err);
	}
	static const char *const who[] = {"the idle thread", "the reseeding thread", "a new thread"};
	for (int i = 0; i < 3; i++)
		VF_CHECK(memcmp(m[0].x[i], m[1].x[i], 64), "after %u reseeds the next output of %s does not depend on the entropy obtained by the last", n, who[i]);
	std::vector<std::string> s;
	for (int i = 0; i < 3; i++)
		s.emplace_back((char *)m[0].x[i], 64);
	stats::no_repeats(s, "outputs of an idle, a reseeding and a new thread");
}
// several threads at full speed
struct Par { pthread_barrier_t *bar; std::string out; uint64_t seed; unsigned reseeds; size_t want; };
static void *par_main(void *a)
{
	Par *p = (Par *)a;
	Rng g{p->seed};
	uint8_t b[700];
	pthread_barrier_wait(p->bar);
	while (p->out.size() < p->want) {
		size_t n = g.next() % 4 ? 12 + g.next() % 30 : 12 + g.next() % 600;
		futils_random(b, n);
		p->out.append((char *)b, n);
		if (p->reseeds && g.next() % 64 == 0) {
			p->reseeds--;
			futils_random_reseed();
		}
	}
	return nullptr;
}
VF_FACET(concurrent_threads, 60, 2000, FRESH)
{
	unsigned nt = 2 + (unsigned)draw(6);
	bool rs = chance(2, 3);
	uint64_t seed = draw(UINT64_MAX);
	note("%u threads%s", nt, rs ? ", some reseeding" : "");
	nontrivial();
	ent_start(seed);
	pthread_barrier_t bar;
	pthread_barrier_init(&bar, nullptr, nt);
	std::vector<Par> p(nt);
	std::vector<pthread_t> t(nt);
	for (unsigned i = 0; i < nt; i++) {
		p[i].bar = &bar;
		p[i].seed = seed + i * 1000;
		p[i].reseeds = rs && i % 2 ? 5 : 0;
		p[i].want = 40000;
		pthread_create(&t[i], nullptr, par_main, &p[i]);
	}
	std::vector<std::string> s;
	for (unsigned i = 0; i < nt; i++) {
		pthread_join(t[i], nullptr);
		s.push_back(p[i].out);
	}
	stats::no_repeats(s, "outputs of concurrent threads");
}
