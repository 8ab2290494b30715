// VF variant: asan
// VF csrc: list_shim.c
#include "vf.h"
#include "list_shim.h"
#include <stdlib.h>
#include <string.h>
#include <algorithm>
using namespace vf;
VF_PROPERTY("C01", "exploration", "some list held at least two elements and at least one element was removed, replaced or moved");
VF_ASSUME("elements are added only while detached and moved or replaced only while linked, as the API requires");

namespace {
enum St { FRESH_, LINKED, UNREF, INITED };
enum { NL = 3, ML = 300 };
struct World {
	int n, which;
	item *it;                     // exact-size array
	list_node *head;              // NL heads
	std::vector<int> seq[NL];
	std::vector<St> st;
	list_node *nd(int i) { return which ? &it[i].other : &it[i].node; }
	int find(int i, size_t *p)
	{
		for (int l = 0; l < NL; l++)
			for (size_t k = 0; k < seq[l].size(); k++)
				if (seq[l][k] == i) {
					*p = k;
					return l;
				}
		return -1;
	}
	int buf[WALK_MAX];
	std::string show(const std::vector<int> &v)
	{
		std::string s = "[";
		for (int x : v)
			s += (s.size() > 1 ? " " : "") + std::to_string(x);
		return s + "]";
	}
	void check_walk(int kind, int l, bool rev)
	{
		int k = shim_walk(kind, which, &head[l], buf, nullptr, nullptr);
		VF_CHECK(k >= 0, "walk %d of list %d does not end", kind, l);
		std::vector<int> got(buf, buf + k), want = seq[l];
		if (rev)
			std::reverse(want.begin(), want.end());
		VF_CHECK(got == want, "walk %d of list %d visits %s, expected %s", kind, l, show(got).c_str(), show(want).c_str());
	}
	void check()
	{
		for (int l = 0; l < NL; l++) {
			auto &s = seq[l];
			for (int kind = 0; kind < 8; kind++)
				check_walk(kind, l, kind & 1);
			VF_CHECK(shim_length(&head[l]) == s.size(), "length of list %d is %zu, expected %zu", l, shim_length(&head[l]), s.size());
			VF_CHECK(!!shim_is_empty(&head[l]) == s.empty(), "emptiness of list %d of %zu elements", l, s.size());
			VF_CHECK(shim_first(&head[l]) == (s.empty() ? &head[l] : nd(s.front())), "first of list %d", l);
			VF_CHECK(shim_last(&head[l]) == (s.empty() ? &head[l] : nd(s.back())), "last of list %d", l);
			for (size_t k = 0; k < s.size(); k++) {
				VF_CHECK(shim_next(&head[l], nd(s[k])) == (k + 1 < s.size() ? nd(s[k + 1]) : nullptr), "next of %d in list %d", s[k], l);
				VF_CHECK(shim_prev(&head[l], nd(s[k])) == (k ? nd(s[k - 1]) : nullptr), "previous of %d in list %d", s[k], l);
				VF_CHECK(!!shim_is_last(&head[l], nd(s[k])) == (k + 1 == s.size()), "last-element test of %d in list %d", s[k], l);
				VF_CHECK(shim_is_ref(nd(s[k])) && !shim_is_unref(nd(s[k])), "element %d of list %d reports itself detached", s[k], l);
				VF_CHECK(shim_entry(which, nd(s[k])) == &it[s[k]], "entry of %d", s[k]);
			}
		}
		for (int i = 0; i < n; i++) {
			if (st[i] == UNREF)
				VF_CHECK(shim_is_unref(nd(i)) && !shim_is_ref(nd(i)), "removed element %d does not report itself detached", i);
			if (st[i] == INITED)
				VF_CHECK(shim_is_empty(nd(i)) && shim_length(nd(i)) == 0 && shim_is_ref(nd(i)), "element %d deleted and reinitialised is not an empty list", i);
		}
	}
};
struct Rm { std::vector<int> *how; };
int rm_cb(int id, void *a)
{
	return (*((Rm *)a)->how)[id];
}
void detach_model(World &w, int i)
{
	size_t p;
	int l = w.find(i, &p);
	if (l >= 0)
		w.seq[l].erase(w.seq[l].begin() + p);
}
} // namespace

static void history(size_t maxn, size_t maxops)
{
	World w;
	w.n = (int)range(1, maxn);
	w.which = (int)draw(1);
	w.it = (item *)calloc(w.n, sizeof(item));
	w.head = (list_node *)malloc(NL * sizeof(list_node));
	w.st.assign(w.n, FRESH_);
	for (int i = 0; i < w.n; i++)
		w.it[i].id = i;
	for (int l = 0; l < NL; l++) {
		if (draw(1))
			shim_static_init(&w.head[l]);
		else
			shim_init(&w.head[l]);
	}
	size_t ops = range(1, maxops);
	bool two = false, changed = false;
	for (size_t o = 0; o < ops; o++) {
		int i = (int)draw(w.n - 1), l = (int)draw(NL - 1), j = (int)draw(w.n - 1);
		size_t pi = 0, pj = 0;
		int li = w.find(i, &pi), lj = w.find(j, &pj);
		bool freei = w.st[i] != LINKED, freej = w.st[j] != LINKED;
		size_t op = weighted({4, 4, 6, 6, 3, 3, 2, 3, 3, 3, 4, 4, 3, 1, 1});
		switch (op) {
		case 0: // push
			if (!freei)
				break;
			note("push %d to list %d", i, l);
			shim_push(&w.head[l], w.nd(i));
			w.seq[l].push_back(i);
			w.st[i] = LINKED;
			break;
		case 1: // add at head
			if (!freei)
				break;
			note("add_after head %d: %d", l, i);
			shim_add_after(&w.head[l], w.nd(i));
			w.seq[l].insert(w.seq[l].begin(), i);
			w.st[i] = LINKED;
			break;
		case 2:
			if (!freei || lj < 0)
				break;
			note("add_after %d: %d", j, i);
			shim_add_after(w.nd(j), w.nd(i));
			w.seq[lj].insert(w.seq[lj].begin() + pj + 1, i);
			w.st[i] = LINKED;
			break;
		case 3:
			if (!freei || lj < 0)
				break;
			note("add_before %d: %d", j, i);
			shim_add_before(w.nd(j), w.nd(i));
			w.seq[lj].insert(w.seq[lj].begin() + pj, i);
			w.st[i] = LINKED;
			break;
		case 4:
			if (li < 0 && w.st[i] != INITED)
				break;
			note("del %d", i);
			shim_del(w.nd(i));
			detach_model(w, i);
			w.st[i] = UNREF;
			changed = true;
			break;
		case 5:
			if (li < 0 && w.st[i] != INITED)
				break;
			note("del_init %d", i);
			shim_del_init(w.nd(i));
			detach_model(w, i);
			w.st[i] = INITED;
			changed = true;
			break;
		case 6: {
			note("pop list %d", l);
			item *e = shim_pop(w.which, &w.head[l]);
			if (w.seq[l].empty())
				VF_CHECK(e == nullptr, "pop of empty list %d gives an element", l);
			else {
				int f = w.seq[l][0];
				VF_CHECK(e == &w.it[f], "pop of list %d gives %p, expected element %d", l, (void *)e, f);
				w.seq[l].erase(w.seq[l].begin());
				w.st[f] = UNREF;
				changed = true;
			}
			break;
		}
		case 7: case 8:
			if (li < 0 || !freej)
				break;
			note("%s %d by %d", op == 7 ? "replace" : "replace_init", i, j);
			if (op == 7)
				shim_replace(w.nd(i), w.nd(j));
			else
				shim_replace_init(w.nd(i), w.nd(j));
			w.seq[li][pi] = j;
			w.st[j] = LINKED;
			w.st[i] = op == 7 ? FRESH_ : INITED;
			changed = true;
			break;
		case 9: { // removal-safe walk with removals
			int kind = (int)draw(1) + 2 + 4 * (int)draw(1);
			std::vector<int> how(w.n), want = w.seq[l];
			unsigned mode = (unsigned)draw(2); // all, random, none
			for (int k = 0; k < w.n; k++)
				how[k] = mode == 2 ? 0 : mode == 0 ? 1 + (int)draw(1) : (int)draw(2);
			if (kind & 1)
				std::reverse(want.begin(), want.end());
			note("walk %d of list %d removing %s", kind, l, w.show(how).c_str());
			Rm r{&how};
			int k = shim_walk(kind, w.which, &w.head[l], w.buf, rm_cb, &r);
			VF_CHECK(k >= 0, "removal-safe walk %d does not end", kind);
			std::vector<int> got(w.buf, w.buf + k);
			VF_CHECK(got == want, "removal-safe walk %d visits %s, expected %s", kind, w.show(got).c_str(), w.show(want).c_str());
			for (int x : want)
				if (how[x]) {
					detach_model(w, x);
					w.st[x] = how[x] == 1 ? UNREF : INITED;
					changed = true;
				}
			break;
		}
		case 10: case 11: { // move
			bool tohead = draw(2) == 0;
			if ((li < 0 && w.st[i] != INITED) || (!tohead && (lj < 0 || i == j)))
				break;
			note("move %d %s %s %d", i, op == 10 ? "after" : "before", tohead ? "head" : "element", tohead ? l : j);
			list_node *to = tohead ? &w.head[l] : w.nd(j);
			if (op == 10)
				shim_move_after(to, w.nd(i));
			else
				shim_move_before(to, w.nd(i));
			detach_model(w, i);
			if (tohead)
				w.seq[l].insert(op == 10 ? w.seq[l].begin() : w.seq[l].end(), i);
			else {
				int q = w.find(j, &pj);
				w.seq[q].insert(w.seq[q].begin() + pj + (op == 10), i);
			}
			w.st[i] = LINKED;
			changed = true;
			break;
		}
		case 12: // explicit neighbours
			if (!freei || lj < 0)
				break;
			note("add %d between %d and its successor", i, j);
			shim_add(w.nd(i), w.nd(j), pj + 1 < w.seq[lj].size() ? w.nd(w.seq[lj][pj + 1]) : &w.head[lj]);
			w.seq[lj].insert(w.seq[lj].begin() + pj + 1, i);
			w.st[i] = LINKED;
			break;
		case 13:
			note("init list %d", l);
			shim_init(&w.head[l]);
			for (int x : w.seq[l])
				w.st[x] = FRESH_;
			w.seq[l].clear();
			break;
		case 14:
			if (!freei)
				break;
			note("unref %d", i);
			shim_unref(w.nd(i));
			w.st[i] = UNREF;
			break;
		}
		for (int k = 0; k < NL; k++)
			two |= w.seq[k].size() >= 2;
		if (maxops < 200 || o % 16 == 0 || o + 1 == ops)
			w.check();
	}
	if (two && changed)
		nontrivial();
	free(w.it);
	free(w.head);
}

VF_FACET(histories, 250000, 4000000) { history(8, 40); }
VF_FACET(long_histories, 8000, 100000) { history(120, 400); }
VF_FACET(large_lists, 60, 600)
{
	static const size_t edges[] = {127, 128, 255, 256, 32767, 32768, 65535, 65536, 65537, 131072};
	size_t n = chance(1, 2) ? edges[draw(sizeof edges / sizeof *edges - 1)] : 1 + draw(chance(1, 3) ? 300000 : 20000);
	note("%zu elements", n);
	struct Mem {
		item *it;
		Mem(size_t n) : it((item *)calloc(n, sizeof(item))) {}
		~Mem() { free(it); }
	} m(n);
	list_node head;
	shim_init(&head);
	bool front = chance(1, 2);
	for (size_t i = 0; i < n; i++) {
		m.it[i].id = (int)i;
		if (front)
			shim_add_after(&head, &m.it[i].node);
		else
			shim_push(&head, &m.it[i].node);
	}
	auto id = [&](size_t pos) { return front ? n - 1 - pos : pos; };
	size_t gone = 0;
	for (int round = 0; round < 3; round++) {
		size_t want = n - gone, k = gone;
		VF_CHECK(shim_length(&head) == want, "length %zu of a list of %zu elements", shim_length(&head), want);
		VF_CHECK(!!shim_is_empty(&head) == (want == 0), "emptiness of a list of %zu elements", want);
		for (list_node *p = want ? shim_first(&head) : nullptr; p; p = shim_next(&head, p), k++)
			VF_CHECK(k < n && p == &m.it[id(k)].node, "element %zu of %zu is a wrong one", k, n);
		VF_CHECK(k == n, "walk ends after %zu of %zu elements", k - gone, want);
		for (list_node *p = want ? shim_last(&head) : nullptr; p; p = shim_prev(&head, p), k--)
			VF_CHECK(k > gone && p == &m.it[id(k - 1)].node, "element %zu of %zu from the end is a wrong one", k, n);
		VF_CHECK(k == gone, "backward walk leaves %zu of %zu elements out", k - gone, want);
		for (size_t pops = draw(want < 100 ? want : 100); pops; pops--, gone++)
			VF_CHECK(shim_pop(0, &head) == &m.it[id(gone)], "pop gave a wrong element");
	}
	nontrivial();
}
