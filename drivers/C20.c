#include "libcork/core.h"
#include "drv.h"
#define RT(u, d) do { uint64_t x = rnd(8) ? rnd(d) : rnd(2) ? rnd(5) : d - 1 - rnd(5); cork_timestamp t; drv_case(#u " sec=%llu x=%llu", (unsigned long long) sec, (unsigned long long) x); \
    cork_timestamp_init_##u(&t, sec, x); CHECK(cork_timestamp_##u(t) == x, "round trip yields %llu", (unsigned long long) cork_timestamp_##u(t)); CHECK(cork_timestamp_sec(t) == sec, "seconds become %llu", (unsigned long long) cork_timestamp_sec(t)); } while (0)
#define GET(u, d) do { uint64_t g = rnd(2) ? (uint32_t) rnd_edge64() : 0xffffffffu - (uint32_t) (rnd64() >> (32 + rnd(32))), h = g + rnd(5000); cork_timestamp t, s; if (h > 0xffffffffu) h = 0xffffffffu; drv_case(#u " sec=%llu gsec=%llu", (unsigned long long) sec, (unsigned long long) g); \
    cork_timestamp_init_gsec(&t, sec, g); cork_timestamp_init_gsec(&s, sec, h); CHECK(cork_timestamp_##u(t) < d, "yields %llu units", (unsigned long long) cork_timestamp_##u(t)); CHECK(cork_timestamp_##u(t) <= cork_timestamp_##u(s), "not monotonic"); } while (0)
static void drv_run(void) {
    while (drv_more()) for (int i = 0; i < 500; i++) {
        uint64_t sec = (uint32_t) rnd_edge64();
        RT(msec, 1000); RT(usec, 1000000); RT(nsec, 1000000000); RT(gsec, 0x100000000ull);
        GET(msec, 1000); GET(usec, 1000000); GET(nsec, 1000000000);
        cork_timestamp t; cork_timestamp_init_sec(&t, sec); CHECK(cork_timestamp_sec(t) == sec && cork_timestamp_gsec(t) == 0, "init_sec");
    }
}
