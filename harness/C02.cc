// VF variant: asan
#include "vf.h"
extern "C" {
#include "futils/hash.h"
}
#include <string.h>
#include <list>
#include <unordered_map>
using namespace vf;
VF_PROPERTY("C02", "exploration", "at least two live keys at some point and at least one successful removal or clear or refused insertion");
VF_ASSUME("table sizes up to 100000 (larger ones differ only in the allocation)");

namespace {
struct Ent { uint32_t key; uintptr_t val; bool cst; };
struct World {
	struct hash *h;
	std::vector<Ent> m;
	size_t find(uint32_t k)
	{
		size_t i = 0;
		while (i < m.size() && m[i].key != k)
			i++;
		return i;
	}
	void lookups(uint32_t k)
	{
		size_t i = find(k);
		void *d = (void *)0x1111;
		const void *c = (const void *)0x2222;
		int r = futils_hash_lookup(h, k, &d), rc = futils_hash_lookup_const(h, k, &c);
		if (i == m.size()) {
			VF_CHECK(r == -ENOENT && rc == -ENOENT, "lookup of absent key 0x%x returned %d, const lookup %d", k, r, rc);
			VF_CHECK(futils_hash_lookup(h, k, nullptr) == -ENOENT, "lookup of absent key without output");
			return;
		}
		VF_CHECK(rc == 0 && (uintptr_t)c == m[i].val, "const lookup of key 0x%x returned %d value 0x%lx, expected 0x%lx", k, rc, (uintptr_t)c, m[i].val);
		if (m[i].cst)
			VF_CHECK(r < 0 && d == (void *)0x1111, "mutable lookup of constant key 0x%x returned %d value %p", k, r, d);
		else {
			VF_CHECK(r == 0 && (uintptr_t)d == m[i].val, "lookup of key 0x%x returned %d value 0x%lx, expected 0x%lx", k, r, (uintptr_t)d, m[i].val);
			VF_CHECK(futils_hash_lookup(h, k, nullptr) == 0, "lookup of key 0x%x without output", k);
		}
		VF_CHECK(futils_hash_lookup_const(h, k, nullptr) == 0, "const lookup of key 0x%x without output", k);
	}
	void check(const std::vector<uint32_t> &pool)
	{
		struct list_node *n;
		size_t i = 0;
		list_walk_forward(&h->entries, n) {
			struct hash_entry *e = (struct hash_entry *)((char *)n - offsetof(struct hash_entry, node));
			VF_CHECK(i < m.size(), "entry list has more than the %zu live entries", m.size());
			VF_CHECK(e->key == m[i].key && (uintptr_t)e->const_data == m[i].val && !!e->is_const == m[i].cst,
				 "entry list position %zu: key 0x%x value %p const %d, expected key 0x%x value 0x%lx const %d",
				 i, e->key, e->const_data, e->is_const, m[i].key, m[i].val, m[i].cst);
			i++;
		}
		VF_CHECK(i == m.size(), "entry list has %zu entries, expected %zu", i, m.size());
		i = 0;
		list_walk_backward(&h->entries, n) i++;
		VF_CHECK(i == m.size(), "entry list backwards has %zu entries, expected %zu", i, m.size());
		for (uint32_t k : pool)
			lookups(k);
	}
};
}

static void history(size_t npool, size_t maxops)
{
	World w;
	w.h = (struct hash *)malloc(sizeof *w.h);
	memset(w.h, 0xdb, sizeof *w.h);
	size_t size = weighted({4, 3, 1}) == 0 ? draw(8) : chance(1, 40) ? interesting(100000) : smallish(3000);
	std::vector<uint32_t> pool;
	size_t np = range(1, npool);
	uint32_t base = (uint32_t)anyint(32), step = 1;
	unsigned style = (unsigned)weighted({2, 2, 1});
	for (size_t i = 0; i < np; i++) {
		uint32_t k;
		if (style == 0)
			k = (uint32_t)anyint(32);
		else if (style == 1) // same low bytes, different high bytes and around
			k = base + (uint32_t)(draw(3) << (8 * draw(3)));
		else
			k = base + (uint32_t)i * 33;
		bool dup = false;
		for (uint32_t x : pool)
			dup |= x == k;
		if (!dup)
			pool.push_back(k);
	}
	note("init size %zu, %zu keys", size, pool.size());
	int r = futils_hash_init(w.h, size, nullptr);
	VF_CHECK(r == 0, "init size %zu returned %d", size, r);
	w.check(pool);
	size_t ops = range(1, maxops);
	bool two = false, chg = false;
	uintptr_t next = 0x1000;
	for (size_t o = 0; o < ops; o++) {
		uint32_t k = pick(pool);
		size_t i = w.find(k);
		switch (weighted({8, 4, 6, 3, 1, 1})) {
		case 0: case 1: {
			// weighted() index 1 is the const insert
			bool cst = chance(1, 3);
			uintptr_t v = chance(1, 12) ? 0 : next += 8;
			note("insert%s key 0x%x value 0x%lx", cst ? "_const" : "", k, v);
			r = cst ? futils_hash_insert_const(w.h, k, (const void *)v) : futils_hash_insert(w.h, k, (void *)v);
			if (i < w.m.size()) {
				VF_CHECK(r == -EEXIST, "insert of existing key 0x%x returned %d", k, r);
				chg = true;
			} else {
				VF_CHECK(r == 0, "insert of new key 0x%x returned %d", k, r);
				w.m.push_back({k, v, cst});
			}
			break;
		}
		case 2:
			note("remove key 0x%x", k);
			r = futils_hash_remove(w.h, k);
			if (i < w.m.size()) {
				VF_CHECK(r == 0, "removal of key 0x%x returned %d", k, r);
				w.m.erase(w.m.begin() + i);
				chg = true;
			} else
				VF_CHECK(r == -ENOENT, "removal of absent key 0x%x returned %d", k, r);
			break;
		case 3: w.lookups((uint32_t)anyint(32)); break;
		case 4:
			note("remove_all");
			r = futils_hash_remove_all(w.h);
			VF_CHECK(r == 0, "remove_all returned %d", r);
			chg |= !w.m.empty();
			w.m.clear();
			break;
		case 5:
			note("destroy, init");
			VF_CHECK(futils_hash_destroy(w.h) == 0, "destroy");
			w.m.clear();
			size = draw(40);
			VF_CHECK(futils_hash_init(w.h, size, nullptr) == 0, "init size %zu", size);
			break;
		}
		two |= w.m.size() >= 2;
		if (o % (maxops > 100 ? 16 : 1) == 0 || o + 1 == ops)
			w.check(pool);
	}
	VF_CHECK(futils_hash_destroy(w.h) == 0, "destroy");
	if (two && chg)
		nontrivial();
	free(w.h);
}
VF_FACET(histories, 250000, 4000000) { history(12, 40); }
VF_FACET(long_histories, 6000, 100000) { history(150, 500); }
// very many entries, also in very few buckets
VF_FACET(crowded, 500, 10000)
{
	struct It { uintptr_t val; bool cst; std::list<uint32_t>::iterator at; };
	std::unordered_map<uint32_t, It> m;
	std::list<uint32_t> order;
	struct hash h;
	memset(&h, 0xdb, sizeof h);
	size_t size, n;
	switch (weighted({4, 2, 1})) {
	case 0: size = draw(3), n = range(50, 1500); break;
	case 1: size = draw(200), n = range(300, 5000); break;
	default: size = smallish(4000000), n = range(1000, 20000);
	}
	uint32_t base = (uint32_t)anyint(32), step = chance(1, 2) ? 1 : (uint32_t)anyint(32) | 1;
	note("init size %zu, about %zu keys from 0x%x by 0x%x", size, n, base, step);
	VF_CHECK(futils_hash_init(&h, size, nullptr) == 0, "init size %zu", size);
	Rng g{draw(UINT64_MAX)};
	auto insert = [&](uint32_t k, uintptr_t v) {
		bool cst = g.next() & 1, in = m.count(k);
		int r = cst ? futils_hash_insert_const(&h, k, (const void *)v) : futils_hash_insert(&h, k, (void *)v);
		VF_CHECK(r == (in ? -EEXIST : 0), "insert of %s key 0x%x returned %d with %zu entries", in ? "existing" : "new", k, r, m.size());
		if (!in) {
			order.push_back(k);
			m[k] = {v, cst, --order.end()};
		}
	};
	auto remove = [&](uint32_t k) {
		auto it = m.find(k);
		int r = futils_hash_remove(&h, k);
		VF_CHECK(r == (it == m.end() ? -ENOENT : 0), "removal of %s key 0x%x returned %d with %zu entries", it == m.end() ? "absent" : "existing", k, r, m.size());
		if (it != m.end()) {
			order.erase(it->second.at);
			m.erase(it);
		}
	};
	auto look = [&](uint32_t k) {
		auto it = m.find(k);
		const void *c = (const void *)0x2222;
		void *d = (void *)0x1111;
		int rc = futils_hash_lookup_const(&h, k, &c), r = futils_hash_lookup(&h, k, &d);
		if (it == m.end())
			VF_CHECK(rc == -ENOENT && r == -ENOENT, "lookup of absent key 0x%x returned %d and %d with %zu entries", k, rc, r, m.size());
		else {
			VF_CHECK(rc == 0 && (uintptr_t)c == it->second.val, "lookup of key 0x%x returned %d with %zu entries", k, rc, m.size());
			VF_CHECK(it->second.cst ? r < 0 : r == 0 && (uintptr_t)d == it->second.val, "mutable lookup of key 0x%x returned %d with %zu entries", k, r, m.size());
		}
	};
	auto check = [&] {
		struct list_node *e;
		auto it = order.begin();
		size_t i = 0;
		list_walk_forward(&h.entries, e) {
			struct hash_entry *x = (struct hash_entry *)((char *)e - offsetof(struct hash_entry, node));
			VF_CHECK(it != order.end() && x->key == *it, "entry list position %zu of %zu is wrong", i, order.size());
			++it;
			i++;
		}
		VF_CHECK(it == order.end(), "entry list has %zu entries, expected %zu", i, order.size());
		for (size_t j = 0; j < n; j += 1 + n / 400)
			look(base + (uint32_t)j * step);
		look(base - step);
		look(base + (uint32_t)n * step);
	};
	for (size_t j = 0; j < n; j++)
		insert(base + (uint32_t)j * step, 0x1000 + j * 8);
	check();
	unsigned rounds = 1 + (unsigned)draw(2);
	for (unsigned q = 0; q < rounds; q++) {
		unsigned keep = (unsigned)draw(3); // removed: all, most, half, few
		for (size_t j = 0; j < n; j++)
			if (keep == 0 || (keep == 1 ? g.next() % 8 : keep == 2 ? g.next() % 2 : !(g.next() % 8)))
				remove(base + (uint32_t)(g.next() & 1 ? j : n - 1 - j) * step);
		check();
		if (chance(1, 4)) {
			VF_CHECK(futils_hash_remove_all(&h) == 0, "remove_all");
			m.clear();
			order.clear();
			check();
		}
		for (size_t j = 0; j < n; j++)
			if (g.next() & 1)
				insert(base + (uint32_t)j * step, 0x2000000 + q * 0x100000 + j * 8);
		check();
	}
	nontrivial();
	VF_CHECK(futils_hash_destroy(&h) == 0, "destroy");
}
