#include "list_shim.h"

static struct item *of(int which, struct list_node *n)
{
	return which ? list_entry(n, struct item, other) : list_entry(n, struct item, node);
}
struct item *shim_entry(int which, struct list_node *n) { return of(which, n); }

#define VISIT(it, nd) do { \
		if (n >= WALK_MAX) \
			return -1; \
		struct item *_it = (it); \
		struct list_node *_nd = (nd); \
		ids[n++] = _it->id; \
		if (rm) { \
			int k = rm(_it->id, arg); \
			if (k == 1) list_del(_nd); \
			else if (k == 2) list_del_init(_nd); \
		} \
	} while (0)

int shim_walk(int kind, int which, struct list_node *list, int *ids, int (*rm)(int, void *), void *arg)
{
	int n = 0;
	struct list_node *pos, *tmp;
	struct item *e, *t;
	switch (kind + 8 * which) {
	case 0: case 8: list_walk_forward(list, pos) VISIT(of(which, pos), pos); break;
	case 1: case 9: list_walk_backward(list, pos) VISIT(of(which, pos), pos); break;
	case 2: case 10: list_walk_forward_safe(list, pos, tmp) VISIT(of(which, pos), pos); break;
	case 3: case 11: list_walk_backward_safe(list, pos, tmp) VISIT(of(which, pos), pos); break;
	case 4: list_walk_entry_forward(list, e, node) VISIT(e, &e->node); break;
	case 5: list_walk_entry_backward(list, e, node) VISIT(e, &e->node); break;
	case 6: list_walk_entry_forward_safe(list, e, t, node) VISIT(e, &e->node); break;
	case 7: list_walk_entry_backward_safe(list, e, t, node) VISIT(e, &e->node); break;
	case 12: list_walk_entry_forward(list, e, other) VISIT(e, &e->other); break;
	case 13: list_walk_entry_backward(list, e, other) VISIT(e, &e->other); break;
	case 14: list_walk_entry_forward_safe(list, e, t, other) VISIT(e, &e->other); break;
	case 15: list_walk_entry_backward_safe(list, e, t, other) VISIT(e, &e->other); break;
	}
	return n;
}
void shim_init(struct list_node *l) { list_init(l); }
struct wrapper { struct list_node h; };
void shim_static_init(struct list_node *l)
{
	/* the initialiser macro needs a name: give it the caller's object */
#define TARGET (*l)
	struct list_node tmp = list_head_init(TARGET);
	*l = tmp;
}
void shim_add_after(struct list_node *n, struct list_node *novel) { list_add_after(n, novel); }
void shim_add_before(struct list_node *n, struct list_node *novel) { list_add_before(n, novel); }
void shim_add(struct list_node *novel, struct list_node *prev, struct list_node *next) { list_add(novel, prev, next); }
void shim_push(struct list_node *l, struct list_node *n) { list_push(l, n); }
struct item *shim_pop(int which, struct list_node *l)
{
	struct item *e;
	if (which)
		e = list_pop(l, struct item, other);
	else
		e = list_pop(l, struct item, node);
	return e;
}
void shim_del(struct list_node *n) { list_del(n); }
void shim_del_init(struct list_node *n) { list_del_init(n); }
void shim_replace(struct list_node *o, struct list_node *n) { list_replace(o, n); }
void shim_replace_init(struct list_node *o, struct list_node *n) { list_replace_init(o, n); }
void shim_move_after(struct list_node *to, struct list_node *from) { list_move_after(to, from); }
void shim_move_before(struct list_node *to, struct list_node *from) { list_move_before(to, from); }
void shim_unref(struct list_node *n) { list_node_unref(n); }
int shim_is_unref(struct list_node *n) { return list_node_is_unref(n); }
int shim_is_ref(struct list_node *n) { return list_node_is_ref(n); }
int shim_is_empty(struct list_node *l) { return list_is_empty(l); }
int shim_is_last(struct list_node *l, struct list_node *n) { return list_is_last(l, n); }
size_t shim_length(struct list_node *l) { return list_length(l); }
struct list_node *shim_first(struct list_node *l) { return list_first(l); }
struct list_node *shim_last(struct list_node *l) { return list_last(l); }
struct list_node *shim_next(struct list_node *l, struct list_node *n) { return list_next(l, n); }
struct list_node *shim_prev(struct list_node *l, struct list_node *n) { return list_prev(l, n); }
