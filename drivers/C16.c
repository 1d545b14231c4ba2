#include "libcork/core.h"
#include "drv.h"
static void rev(void *o, const void *p, int n) { for (int i = 0; i < n; i++) ((uint8_t *) o)[i] = ((const uint8_t *) p)[n - 1 - i]; }
#define T(n, t) do { t v, w, r, x; memcpy(&v, p, sizeof v); rev(&w, &v, sizeof v); \
    r = CORK_SWAP_UINT##n(v); CHECK(!memcmp(&r, &w, sizeof v), "SWAP_UINT" #n); \
    x = v; CORK_SWAP_IN_PLACE_UINT##n(x); CHECK(!memcmp(&x, &w, sizeof v), "SWAP_IN_PLACE_UINT" #n); \
    r = CORK_UINT##n##_BIG_TO_HOST(v); CHECK(!memcmp(&r, &w, sizeof v), "UINT" #n "_BIG_TO_HOST"); \
    r = CORK_UINT##n##_HOST_TO_BIG(v); CHECK(!memcmp(&r, &w, sizeof v), "UINT" #n "_HOST_TO_BIG"); \
    r = CORK_UINT##n##_LITTLE_TO_HOST(v); CHECK(!memcmp(&r, &v, sizeof v), "UINT" #n "_LITTLE_TO_HOST"); \
    r = CORK_UINT##n##_HOST_TO_LITTLE(v); CHECK(!memcmp(&r, &v, sizeof v), "UINT" #n "_HOST_TO_LITTLE"); \
    x = v; CORK_UINT##n##_BIG_TO_HOST_IN_PLACE(x); CHECK(!memcmp(&x, &w, sizeof v), "UINT" #n "_BIG_TO_HOST_IN_PLACE"); \
    x = v; CORK_UINT##n##_HOST_TO_BIG_IN_PLACE(x); CHECK(!memcmp(&x, &w, sizeof v), "UINT" #n "_HOST_TO_BIG_IN_PLACE"); \
    x = v; CORK_UINT##n##_LITTLE_TO_HOST_IN_PLACE(x); CHECK(!memcmp(&x, &v, sizeof v), "UINT" #n "_LITTLE_TO_HOST_IN_PLACE"); \
    x = v; CORK_UINT##n##_HOST_TO_LITTLE_IN_PLACE(x); CHECK(!memcmp(&x, &v, sizeof v), "UINT" #n "_HOST_TO_LITTLE_IN_PLACE"); \
    } while (0)
static void drv_run(void) {
    while (drv_more()) for (int it = 0; it < 500; it++) {
        uint64_t q[2] = { rnd_edge64(), rnd_edge64() }; void *p = q;
        drv_case("bytes=%s", hexs(p, 16));
        T(16, uint16_t); T(32, uint32_t); T(64, uint64_t); T(128, cork_u128);
        uint64_t z = q[0]; uint16_t e = CORK_SWAP_UINT16(z >> 3), f = z >> 3, g; rev(&g, &f, 2);
        CHECK(e == g, "CORK_SWAP_UINT16(x >> 3)");
        uint32_t e2 = CORK_SWAP_UINT32(z >> 3), f2 = z >> 3, g2; rev(&g2, &f2, 4); CHECK(e2 == g2, "CORK_SWAP_UINT32(x >> 3)");
    }
}
