#include "libcork/core.h"
#include "libcork/ds/dllist.h"
#include "drv.h"
struct el { int id; struct cork_dllist_item it; };
static struct cork_dllist l;
static int seen[64], nseen, stop_at, rcv, del; static void *udx;
static struct el *els[64];
static int cb(void *ud, struct cork_dllist_item *i) {
    struct el *e = cork_container_of(i, struct el, it);
    CHECK(ud == udx, "wrong user data");
    CHECK(i != &l.head, "the sentinel was visited");
    CHECK(nseen < 60, "too many callbacks");
    int id = e->id; seen[nseen++] = id;
    if ((del >> (id % 20)) & 1) { cork_dllist_remove(i); free(e); els[id] = NULL; }
    return nseen - 1 == stop_at ? rcv : 0;
}
static void mapcb(struct cork_dllist_item *i, void *ud) { cb(ud, i); }
static void drv_run(void) {
    while (drv_more()) {
        int n = rnd(rnd(3) ? 5 : 40), mode = rnd(4), expect;
        del = rnd(3) ? rnd64() & 0xfffff : 0; stop_at = rnd(2) ? (int) rnd(n + 2) : -1; rcv = (int) (1 + rnd(5)) * (rnd(2) ? 1 : -1);
        udx = rnd(3) ? &l : NULL; nseen = 0;
        drv_case("n=%d mode=%s removed-and-freed mask=%x stop_at=%d rc=%d ud=%p", n, mode == 0 ? "map" : mode == 1 ? "visit" : mode == 2 ? "foreach_void" : "foreach", del, stop_at, rcv, udx);
        cork_dllist_init(&l);
        for (int i = 0; i < n; i++) { els[i] = malloc(sizeof(struct el)); els[i]->id = i; cork_dllist_add(&l, &els[i]->it); }
        expect = n;
        if (mode == 1) {
            int rc = cork_dllist_visit(&l, udx, cb);
            if (stop_at >= 0 && stop_at < n) { expect = stop_at + 1; CHECK(rc == rcv, "visit returned %d, expected %d", rc, rcv); }
            else CHECK(rc == 0, "visit returned %d, expected 0", rc);
        } else if (mode == 0) cork_dllist_map(&l, mapcb, udx);
        else if (mode == 2) { struct cork_dllist_item *c, *nx; cork_dllist_foreach_void(&l, c, nx) cb(udx, c); }
        else { struct cork_dllist_item *c, *nx; struct el *e; cork_dllist_foreach(&l, c, nx, struct el, e, it) cb(udx, &e->it); }
        CHECK(nseen == expect, "%d callbacks, expected %d", nseen, expect);
        for (int i = 0; i < nseen; i++) CHECK(seen[i] == i, "callback %d got element %d", i, seen[i]);
        for (int i = 0; i < n; i++) if (els[i]) free(els[i]);
    }
}
