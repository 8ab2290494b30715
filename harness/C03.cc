// VF variant: asan
// VF use: alloc
// VF wrap: malloc,calloc,realloc,reallocarray,free,strdup,strndup
#include "vf.h"
#include "alloc.h"
extern "C" {
#include "futils/hash.h"
}
#include <stdlib.h>
#include <string.h>
#include <unordered_map>
using namespace vf;
VF_PROPERTY("C03", "fault_enumeration", "a value was released by removal, clear or destruction, or an allocation was made to fail");
VF_ASSUME("a table's callback is called for constant values too, as the code does");

namespace {
struct Val { bool live; long released; };
struct Ctx {
	std::vector<Val> *vals;
	std::vector<size_t> got; // values passed to the callback during the current call
} *ctx;
void release(void *p)
{
	AllocPause pause;
	uintptr_t v = (uintptr_t)p;
	VF_CHECK(v >= 1 && v <= ctx->vals->size(), "callback got %p, which was never inserted", p);
	Val &x = (*ctx->vals)[v - 1];
	VF_CHECK(x.live, "value %lu released %s", v, x.released ? "again" : "although it is not in the table");
	x.live = false;
	x.released++;
	ctx->got.push_back(v - 1);
}
struct Ent { uint32_t key; size_t val; };
}
VF_FACET(ownership, 300000, 5000000)
{
	alloc_reset();
	std::vector<Val> vals;
	Ctx c{&vals, {}};
	ctx = &c;
	std::vector<Ent> m;
	struct hash h;
	memset(&h, 0x77, sizeof h);
	bool with = chance(9, 10), nt = false;
	size_t size = smallish(300);
	long f = chance(1, 10) ? 1 : 0;
	note("init size %zu%s%s", size, with ? "" : " without callback", f ? " failing allocation" : "");
	alloc_enter(f, f);
	int r = futils_hash_init(&h, size, with ? release : nullptr);
	alloc_leave();
	if (alloc_failed()) {
		VF_CHECK(r == -ENOMEM, "init without memory returned %d", r);
		VF_CHECK(alloc_live() == 0, "failed init keeps %ld blocks", alloc_live());
		nontrivial();
		return;
	}
	VF_CHECK(r == 0, "init returned %d", r);
	auto expect = [&](const char *what, std::vector<size_t> want) {
		if (!with)
			want.clear();
		VF_CHECK(c.got.size() == want.size(), "%s released %zu values, expected %zu", what, c.got.size(), want.size());
		for (size_t v : want)
			VF_CHECK(vals[v].released == 1, "%s did not release value %zu", what, v + 1);
		c.got.clear();
	};
	size_t nops = range(1, 30);
	uint32_t base = (uint32_t)anyint(32);
	bool dead = false;
	for (size_t o = 0; o < nops && !dead; o++) {
		uint32_t k = base + (uint32_t)draw(7);
		size_t i = 0;
		while (i < m.size() && m[i].key != k)
			i++;
		switch (weighted({10, 5, 1, 1})) {
		case 0: {
			bool cst = draw(1);
			f = chance(1, 5) ? (long)range(1, 2) : 0;
			vals.push_back({i == m.size(), 0});
			size_t v = vals.size() - 1;
			note("insert%s key 0x%x value %zu%s", cst ? "_const" : "", k, v + 1, f ? ", allocation failing" : "");
			alloc_enter(f, f);
			r = cst ? futils_hash_insert_const(&h, k, (void *)(v + 1)) : futils_hash_insert(&h, k, (void *)(v + 1));
			alloc_leave();
			if (alloc_failed()) {
				nt = true;
				VF_CHECK(r == -ENOMEM || (i < m.size() && r == -EEXIST), "insertion without memory returned %d", r);
			} else if (i < m.size())
				VF_CHECK(r == -EEXIST, "insertion of existing key returned %d", r);
			else
				VF_CHECK(r == 0, "insertion returned %d", r);
			expect("insertion", {});
			if (r < 0)
				vals[v].live = false;
			else
				m.push_back({k, v});
			break;
		}
		case 1:
			note("remove key 0x%x", k);
			alloc_enter();
			r = futils_hash_remove(&h, k);
			alloc_leave();
			if (i < m.size()) {
				VF_CHECK(r == 0, "removal returned %d", r);
				expect("removal", {m[i].val});
				m.erase(m.begin() + i);
				nt = true;
			} else {
				VF_CHECK(r < 0, "removal of absent key returned %d", r);
				expect("removal of an absent key", {});
			}
			break;
		default: {
			bool all = chance(1, 2);
			note(all ? "remove_all" : "destroy");
			alloc_enter();
			r = all ? futils_hash_remove_all(&h) : futils_hash_destroy(&h);
			alloc_leave();
			VF_CHECK(r == 0, "clear returned %d", r);
			std::vector<size_t> want;
			for (auto &e : m)
				want.push_back(e.val);
			expect("clear", want);
			nt |= !m.empty();
			m.clear();
			if (!all)
				dead = true;
			break;
		}
		}
		// the table is exactly what it should be
		if (!dead) {
			struct list_node *n;
			size_t q = 0;
			list_walk_forward(&h.entries, n) {
				struct hash_entry *e = (struct hash_entry *)((char *)n - offsetof(struct hash_entry, node));
				VF_CHECK(q < m.size() && e->key == m[q].key && (uintptr_t)e->const_data == m[q].val + 1, "entry list position %zu is wrong", q);
				q++;
			}
			VF_CHECK(q == m.size(), "entry list has %zu entries, expected %zu", q, m.size());
			for (uint32_t d = 0; d < 8; d++) {
				const void *p = nullptr;
				size_t j = 0;
				while (j < m.size() && m[j].key != base + d)
					j++;
				r = futils_hash_lookup_const(&h, base + d, &p);
				VF_CHECK(j < m.size() ? r == 0 && (uintptr_t)p == m[j].val + 1 : r == -ENOENT, "lookup of 0x%x returned %d", base + d, r);
			}
		}
	}
	if (!dead) {
		note("destroy");
		alloc_enter();
		r = futils_hash_destroy(&h);
		alloc_leave();
		VF_CHECK(r == 0, "destroy returned %d", r);
		std::vector<size_t> want;
		for (auto &e : m)
			want.push_back(e.val);
		expect("destroy", want);
		nt |= !m.empty();
	}
	VF_CHECK(alloc_live() == 0, "%ld blocks remain allocated after destroy", alloc_live());
	if (nt)
		nontrivial();
}
// every value is released, also null ones and equal ones, of very many entries too
static std::unordered_map<uintptr_t, long> *given;
static void count_release(void *p)
{
	AllocPause pause;
	(*given)[(uintptr_t)p]--;
}
VF_FACET(many_values, 2000, 40000)
{
	alloc_reset();
	std::unordered_map<uintptr_t, long> due; // by value: how often it is to be released
	given = &due;
	struct hash h;
	memset(&h, 0x77, sizeof h);
	size_t size = weighted({2, 1}) == 0 ? draw(10) : smallish(3000), n = weighted({3, 1}) == 0 ? range(1, 40) : range(100, 1200);
	unsigned nv = 1 + (unsigned)draw(9);
	uint32_t base = (uint32_t)anyint(32);
	note("init size %zu, %zu keys from 0x%x, values 0 to %u", size, n, base, nv);
	alloc_enter();
	VF_CHECK(futils_hash_init(&h, size, count_release) == 0, "init");
	alloc_leave();
	std::vector<uintptr_t> val(n);
	std::vector<char> in(n);
	auto settled = [&](const char *what) {
		for (auto &d : due)
			VF_CHECK(d.second == 0, "after %s the value %p %s %ld times", what, (void *)d.first, d.second > 0 ? "remains to be released" : "was released in excess", labs(d.second));
	};
	unsigned rounds = 1 + (unsigned)draw(2);
	for (unsigned q = 0; q < rounds; q++) {
		for (size_t i = 0; i < n; i++) {
			if (!chance(4, 5))
				continue;
			uintptr_t v = draw(nv);
			alloc_enter();
			int r = draw(1) ? futils_hash_insert_const(&h, base + (uint32_t)i, (void *)v) : futils_hash_insert(&h, base + (uint32_t)i, (void *)v);
			alloc_leave();
			VF_CHECK(r == (in[i] ? -EEXIST : 0), "insertion returned %d", r);
			if (!in[i])
				in[i] = 1, val[i] = v;
		}
		settled("insertions");
		size_t some = draw(n);
		for (size_t i = 0; i < some; i++) {
			size_t k = draw(n - 1);
			due[val[k]] += in[k];
			alloc_enter();
			int r = futils_hash_remove(&h, base + (uint32_t)k);
			alloc_leave();
			VF_CHECK(r == (in[k] ? 0 : -ENOENT), "removal returned %d", r);
			in[k] = 0;
			settled("a removal");
		}
		if (q + 1 == rounds || chance(1, 2)) {
			bool end = q + 1 == rounds;
			for (size_t k = 0; k < n; k++) {
				due[val[k]] += in[k];
				in[k] = 0;
			}
			alloc_enter();
			int r = end ? futils_hash_destroy(&h) : futils_hash_remove_all(&h);
			alloc_leave();
			VF_CHECK(r == 0, "clear returned %d", r);
			settled(end ? "destruction" : "a clear");
		}
	}
	nontrivial();
	VF_CHECK(alloc_live() == 0, "%ld blocks remain allocated after destroy", alloc_live());
}
