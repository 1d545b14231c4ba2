#include "libcork/core.h"
#include "libcork/ds.h"
#include "drv.h"
static void drv_run(void) {
    while (drv_more()) {
        size_t n = rnd(5) ? rnd(9) : rnd(70); struct cork_ring_buffer *b, st;
        int heap = rnd(2);
        drv_case("capacity=%zu heap=%d:", n, heap);
        if (heap) b = cork_ring_buffer_new(n); else { b = &st; memset(b, 0xa5, sizeof *b); CHECK(cork_ring_buffer_init(b, n) == 0, "init fails"); }
        uintptr_t q[128]; size_t qn = 0, next = 1; int ops = rnd(200); unsigned bias = rnd(10);
        for (int i = 0; i < ops; i++) {
            unsigned o = rnd(12);
            if (o < 2 + bias % 6) {
                drv_add(" add"); int r = cork_ring_buffer_add(b, (void *) next);
                CHECK((r == 0) == (qn < n), "add returned %d with %zu of %zu used", r, qn, n);
                if (r == 0) q[qn++] = next; else CHECK(r == -1, "refused add returned %d", r);
                next++;
            } else if (o < 10) {
                drv_add(" pop"); uintptr_t x = (uintptr_t) cork_ring_buffer_pop(b), w = qn ? q[0] : 0;
                CHECK(x == w, "pop yields %zu, expected %zu", (size_t) x, (size_t) w);
                if (qn) { memmove(q, q + 1, --qn * sizeof q[0]); }
            } else { drv_add(" peek"); uintptr_t x = (uintptr_t) cork_ring_buffer_peek(b), w = qn ? q[0] : 0; CHECK(x == w, "peek yields %zu, expected %zu", (size_t) x, (size_t) w); }
            CHECK(!!cork_ring_buffer_is_empty(b) == (qn == 0), "is_empty wrong"); CHECK(!!cork_ring_buffer_is_full(b) == (qn == n), "is_full wrong");
        }
        if (heap) cork_ring_buffer_free(b); else cork_ring_buffer_done(b);
    }
}
