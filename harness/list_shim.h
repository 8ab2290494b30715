#pragma once
#ifdef __cplusplus
extern "C" {
#endif
#include <stddef.h>
#include <stdint.h>
#include "futils/list.h"
struct item {
	long pad;
	struct list_node node;
	int id;
	char filler[5];
	struct list_node other; /* a second membership at another offset */
};
enum { WALK_MAX = 4000 };
/* kind: 0 forward 1 backward 2 forward_safe 3 backward_safe, +4: entry variants. which: member (0 node, 1 other).
 * Writes visited ids, returns their number or -1 if the walk does not end. rm(id, arg)!=0 asks for removal of the
 * visited element: 1 list_del, 2 list_del_init (safe kinds only) */
int shim_walk(int kind, int which, struct list_node *list, int *ids, int (*rm)(int, void *), void *arg);
void shim_init(struct list_node *l);
void shim_static_init(struct list_node *l);
void shim_add_after(struct list_node *n, struct list_node *novel);
void shim_add_before(struct list_node *n, struct list_node *novel);
void shim_add(struct list_node *novel, struct list_node *prev, struct list_node *next);
void shim_push(struct list_node *l, struct list_node *n);
struct item *shim_pop(int which, struct list_node *l);
void shim_del(struct list_node *n);
void shim_del_init(struct list_node *n);
void shim_replace(struct list_node *o, struct list_node *n);
void shim_replace_init(struct list_node *o, struct list_node *n);
void shim_move_after(struct list_node *to, struct list_node *from);
void shim_move_before(struct list_node *to, struct list_node *from);
void shim_unref(struct list_node *n);
int shim_is_unref(struct list_node *n);
int shim_is_ref(struct list_node *n);
int shim_is_empty(struct list_node *l);
int shim_is_last(struct list_node *l, struct list_node *n);
size_t shim_length(struct list_node *l);
struct list_node *shim_first(struct list_node *l);
struct list_node *shim_last(struct list_node *l);
struct list_node *shim_next(struct list_node *l, struct list_node *n);
struct list_node *shim_prev(struct list_node *l, struct list_node *n);
struct item *shim_entry(int which, struct list_node *n);
#ifdef __cplusplus
}
#endif
