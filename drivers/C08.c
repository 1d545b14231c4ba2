#include "libcork/core.h"
#include "libcork/ds.h"
#include "drv.h"
static void drv_run(void) {
    while (drv_more()) {
        size_t n = rnd(3) ? rnd(40) : rnd(700); if (!rnd(4)) n = 8 * rnd(20); struct cork_bitset *b, st; int heap = rnd(2);
        drv_case("bits=%zu heap=%d:", n, heap);
        if (heap) b = cork_bitset_new(n); else { b = &st; memset(b, 0xa5, sizeof *b); cork_bitset_init(b, n); }
        uint8_t ref[700] = {0};
        CHECK(b->bit_count == n, "bit_count");
        for (size_t i = 0; i < n; i++) CHECK(!cork_bitset_get(b, i), "new set: bit %zu is set", i);
        for (int k = rnd(60); k > 0; k--) {
            if (!rnd(20)) { drv_add(" clear"); cork_bitset_clear(b); memset(ref, 0, sizeof ref); }
            else if (n) {
                size_t i = rnd(4) ? rnd(n) : n - 1 - rnd(n > 3 ? 3 : n); int v = rnd(3); if (v == 2) v = 1 << rnd(20);
                drv_add(" set(%zu,%d)", i, v); cork_bitset_set(b, i, v); ref[i] = v != 0;
            }
            for (size_t i = 0; i < n; i++) CHECK((cork_bitset_get(b, i) != 0) == ref[i], "bit %zu reads %d", i, !!cork_bitset_get(b, i));
        }
        if (heap) cork_bitset_free(b); else cork_bitset_done(b);
    }
}
