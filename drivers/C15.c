#include "libcork/core.h"
#include "drv.h"
typedef unsigned __int128 U;
static void drv_run(void) {
    while (drv_more()) for (int it = 0; it < 50; it++) {
        U v = ((U) rnd_edge64() << 64) | rnd_edge64();
        switch (rnd(4)) { case 0: { U p = 1; int e = rnd(39); while (e--) p *= 10; v = p + rnd(3) - 1; if (rnd(2)) v = p * (1 + rnd(9)); break; } case 1: v >>= rnd(128); break; case 2: v = (uint64_t) v; }
        char w[64], *q = w + 63; cork_u128 x; memcpy(&x, &v, 16); const char *r; U t = v;
        drv_case("value %016llx%016llx", (unsigned long long) (v >> 64), (unsigned long long) v); drv_distinct++;
        *q = 0; do *--q = '0' + (int) (t % 10); while (t /= 10);
        char *d = malloc(CORK_U128_DECIMAL_LENGTH), *h = malloc(CORK_U128_HEX_LENGTH);
        r = cork_u128_to_decimal(d, x); CHECK(!strcmp(r, q), "decimal \"%s\", expected \"%s\"", r, q);
        CHECK(r >= d && r + strlen(r) < d + CORK_U128_DECIMAL_LENGTH, "text outside the buffer");
        q = w + 63; t = v; do *--q = "0123456789abcdef"[(int) (t % 16)]; while (t /= 16);
        memset(h, 'x', CORK_U128_HEX_LENGTH);
        r = cork_u128_to_hex(h, x); CHECK(!strcmp(r, q), "hex \"%s\", expected \"%s\"", r, q);
        memset(h, 'x', CORK_U128_HEX_LENGTH);
        while (q > w + 31) *--q = '0';
        r = cork_u128_to_padded_hex(h, x); CHECK(!strcmp(r, q), "padded hex \"%s\", expected \"%s\"", r, q);
        free(d); free(h);
    }
}
