/* Instantiates the macros of libcork/ds/dllist.h: each function is one use of one macro. */
#include "libcork/core.h"
#include "libcork/ds/dllist.h"
typedef struct cork_dllist L;
typedef struct cork_dllist_item E;
void w_init(L *l) { cork_dllist_init(l); }
void w_add_after(E *p, E *e) { cork_dllist_add_after(p, e); }
void w_add_before(E *s, E *e) { cork_dllist_add_before(s, e); }
void w_add_to_head(L *l, E *e) { cork_dllist_add_to_head(l, e); }
void w_add_to_tail(L *l, E *e) { cork_dllist_add_to_tail(l, e); }
void w_add(L *l, E *e) { cork_dllist_add(l, e); }
void w_remove(E *e) { cork_dllist_remove(e); }
void w_add_list_to_head(L *d, L *s) { cork_dllist_add_list_to_head(d, s); }
void w_add_list_to_tail(L *d, L *s) { cork_dllist_add_list_to_tail(d, s); }
int w_is_empty(L *l) { return cork_dllist_is_empty(l); }
E *w_head(L *l) { return cork_dllist_head(l); }
E *w_tail(L *l) { return cork_dllist_tail(l); }
E *w_start(L *l) { return cork_dllist_start(l); }
E *w_end(L *l) { return cork_dllist_end(l); }
int w_is_start(L *l, E *e) { return cork_dllist_is_start(l, e); }
int w_is_end(L *l, E *e) { return cork_dllist_is_end(l, e); }
struct w_elem { int before; struct cork_dllist_item item; };
void w_visit(void *ud, struct w_elem *e);
void w_foreach_void(L *l, void *ud) {
    E *curr, *next;
    cork_dllist_foreach_void(l, curr, next) { w_visit(ud, cork_container_of(curr, struct w_elem, item)); }
}
void w_foreach(L *l, void *ud) {
    E *curr, *next; struct w_elem *e;
    cork_dllist_foreach(l, curr, next, struct w_elem, e, item) { w_visit(ud, e); }
}
