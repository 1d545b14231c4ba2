#include "libcork/core.h"
#include "drv.h"
typedef unsigned __int128 U;
static U toU(cork_u128 x) { return ((U) cork_u128_be64(x, 0) << 64) | cork_u128_be64(x, 1); }
static cork_u128 mk(U x) { cork_u128 r; memcpy(&r, &x, 16); return r; }
static U rv(void) { return ((U) rnd_edge64() << 64) | rnd_edge64(); }
#define EQ(name, got, want) do { U g_ = (got), w_ = (want); if (g_ != w_) FAIL("%s: got %016llx%016llx, expected %016llx%016llx", name, (unsigned long long) (g_ >> 64), (unsigned long long) g_, (unsigned long long) (w_ >> 64), (unsigned long long) w_); } while (0)
static void drv_run(void) {
    while (drv_more()) for (int it = 0; it < 200; it++) {
        U a = rv(), b = rnd(8) ? rv() : a; if (!rnd(4)) b = (a >> 64 << 64) | (uint64_t) b; if (!rnd(4)) b = (b >> 64 << 64) | (uint64_t) a; if (!rnd(6)) b = a + rnd(3) - 1;
        unsigned n = rnd(128); cork_u128 x = mk(a), y = mk(b);
        drv_case("a=%016llx%016llx b=%016llx%016llx n=%u", (unsigned long long) (a >> 64), (unsigned long long) a, (unsigned long long) (b >> 64), (unsigned long long) b, n);
        EQ("be64", toU(x), a);
        EQ("add", toU(cork_u128_add(x, y)), a + b); EQ("sub", toU(cork_u128_sub(x, y)), a - b);
        EQ("shl", toU(cork_u128_shl(x, n)), a << n); EQ("shr", toU(cork_u128_shr(x, n)), a >> n);
        EQ("eq", cork_u128_eq(x, y), a == b); EQ("ne", cork_u128_ne(x, y), a != b); EQ("lt", cork_u128_lt(x, y), a < b);
        EQ("le", cork_u128_le(x, y), a <= b); EQ("gt", cork_u128_gt(x, y), a > b); EQ("ge", cork_u128_ge(x, y), a >= b);
        EQ("from_32", toU(cork_u128_from_32(a >> 96, a >> 64, a >> 32, a)), a); EQ("from_64", toU(cork_u128_from_64(a >> 64, a)), a); EQ("zero", toU(cork_u128_zero()), 0);
        for (int i = 0; i < 16; i++) EQ("be8", cork_u128_be8(x, i), (uint8_t) (a >> (120 - 8 * i)));
        for (int i = 0; i < 8; i++) EQ("be16", cork_u128_be16(x, i), (uint16_t) (a >> (112 - 16 * i)));
        for (int i = 0; i < 4; i++) EQ("be32", cork_u128_be32(x, i), (uint32_t) (a >> (96 - 32 * i)));
    }
}
