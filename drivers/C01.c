#include "libcork/core.h"
#include "libcork/ds/dllist.h"
#include "drv.h"
#define NL 3
#define NE 8
struct el { uint64_t a; struct cork_dllist_item it; uint64_t b; };
static struct cork_dllist l[NL];
static struct el e[NE];
static int m[NL][NE], mn[NL];
static int where(int x, int *pos) { for (int i = 0; i < NL; i++) for (int j = 0; j < mn[i]; j++) if (m[i][j] == x) { *pos = j; return i; } return -1; }
static void ins(int li, int pos, int x) { memmove(&m[li][pos + 1], &m[li][pos], sizeof(int) * (mn[li] - pos)); m[li][pos] = x; mn[li]++; }
static void verify(void) {
    for (int i = 0; i < NL; i++) {
        struct cork_dllist_item *c; int j = 0;
        for (c = l[i].head.next; c != &l[i].head && j < mn[i]; c = c->next) CHECK(c == &e[m[i][j++]].it, "forward order of list %d differs at %d", i, j - 1);
        CHECK(c == &l[i].head && j == mn[i], "list %d has the wrong length forwards", i);
        j = mn[i];
        for (c = l[i].head.prev; c != &l[i].head && j > 0; c = c->prev) CHECK(c == &e[m[i][--j]].it, "backward order of list %d differs at %d", i, j);
        CHECK(c == &l[i].head && j == 0, "list %d has the wrong length backwards", i);
        CHECK(cork_dllist_size(&l[i]) == (size_t) mn[i], "size of list %d is %zu, expected %d", i, cork_dllist_size(&l[i]), mn[i]);
        CHECK(!!cork_dllist_is_empty(&l[i]) == (mn[i] == 0), "is_empty");
        CHECK(cork_dllist_head(&l[i]) == (mn[i] ? &e[m[i][0]].it : NULL), "head");
        CHECK(cork_dllist_tail(&l[i]) == (mn[i] ? &e[m[i][mn[i] - 1]].it : NULL), "tail");
        CHECK(cork_dllist_start(&l[i]) == (mn[i] ? &e[m[i][0]].it : &l[i].head), "start");
        CHECK(cork_dllist_end(&l[i]) == (mn[i] ? &e[m[i][mn[i] - 1]].it : &l[i].head), "end");
        CHECK(cork_dllist_is_end(&l[i], &l[i].head) && cork_dllist_is_start(&l[i], &l[i].head), "is_end/is_start of the sentinel");
        for (j = 0; j < mn[i]; j++) CHECK(!cork_dllist_is_end(&l[i], &e[m[i][j]].it), "is_end of an element");
    }
    for (int i = 0; i < NE; i++) CHECK(e[i].a == 77 && e[i].b == 78, "bytes around an item were changed");
}
static void one(int steps) {
    drv_case("init 3 lists;");
    for (int i = 0; i < NL; i++) { cork_dllist_init(&l[i]); mn[i] = 0; }
    for (int i = 0; i < NE; i++) { e[i].a = 77; e[i].b = 78; e[i].it.next = e[i].it.prev = NULL; }
    for (int s = 0; s < steps; s++) {
        int op = rnd(9), li = rnd(NL), x = rnd(NE), y = rnd(NE), px, py;
        int lx = where(x, &px), ly = where(y, &py);
        if (op == 0 && lx < 0) { drv_add(" add_to_head(l%d,e%d)", li, x); cork_dllist_add_to_head(&l[li], &e[x].it); ins(li, 0, x); }
        else if (op == 1 && lx < 0) { drv_add(" add_to_tail(l%d,e%d)", li, x); cork_dllist_add_to_tail(&l[li], &e[x].it); ins(li, mn[li], x); }
        else if (op == 2 && lx < 0) { drv_add(" add(l%d,e%d)", li, x); cork_dllist_add(&l[li], &e[x].it); ins(li, mn[li], x); }
        else if (op == 3 && lx < 0 && ly >= 0) { drv_add(" add_after(e%d,e%d)", y, x); cork_dllist_add_after(&e[y].it, &e[x].it); ins(ly, py + 1, x); }
        else if (op == 4 && lx < 0 && ly >= 0) { drv_add(" add_before(e%d,e%d)", y, x); cork_dllist_add_before(&e[y].it, &e[x].it); ins(ly, py, x); }
        else if (op == 5 && lx >= 0) { drv_add(" remove(e%d)", x); cork_dllist_remove(&e[x].it); memmove(&m[lx][px], &m[lx][px + 1], sizeof(int) * (mn[lx] - px - 1)); mn[lx]--; }
        else if (op == 6 || op == 7) {
            int lj = (li + 1 + rnd(NL - 1)) % NL;
            drv_add(" add_list_to_%s(dest l%d, src l%d)", op == 6 ? "head" : "tail", li, lj);
            if (op == 6) cork_dllist_add_list_to_head(&l[li], &l[lj]); else cork_dllist_add_list_to_tail(&l[li], &l[lj]);
            int tmp[2 * NE], n = 0;
            if (op == 6) { for (int i = 0; i < mn[lj]; i++) tmp[n++] = m[lj][i]; for (int i = 0; i < mn[li]; i++) tmp[n++] = m[li][i]; }
            else { for (int i = 0; i < mn[li]; i++) tmp[n++] = m[li][i]; for (int i = 0; i < mn[lj]; i++) tmp[n++] = m[lj][i]; }
            memcpy(m[li], tmp, n * sizeof(int)); mn[li] = n; mn[lj] = 0;
        } else continue;
        verify();
    }
    verify();
}
static void drv_run(void) { while (drv_more()) one(1 + rnd(14)); }
