#include "drv.h"
#include <libcork/core.h>
static uint32_t rl32(uint32_t x, int r) { return (x << r) | (x >> (32 - r)); }
static uint64_t rl64(uint64_t x, int r) { return (x << r) | (x >> (64 - r)); }
static uint32_t f32(uint32_t h) { h ^= h >> 16; h *= 0x85ebca6bu; h ^= h >> 13; h *= 0xc2b2ae35u; h ^= h >> 16; return h; }
static uint64_t f64(uint64_t k) { k ^= k >> 33; k *= 0xff51afd7ed558ccdULL; k ^= k >> 33; k *= 0xc4ceb9fe1a85ec53ULL; k ^= k >> 33; return k; }
static uint64_t le(const uint8_t *p, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v |= (uint64_t) p[i] << (8 * i); return v; }
static uint32_t ref32(uint32_t h, const uint8_t *p, size_t n) {
    size_t i; uint32_t k;
    for (i = 0; i + 4 <= n; i += 4) { k = le(p + i, 4); h ^= rl32(k * 0xcc9e2d51u, 15) * 0x1b873593u; h = rl32(h, 13) * 5 + 0xe6546b64u; }
    if (n & 3) { k = le(p + i, n & 3); h ^= rl32(k * 0xcc9e2d51u, 15) * 0x1b873593u; }
    return f32(h ^ (uint32_t) n);
}
#define C1 0x87c37b91114253d5ULL
#define C2 0x4cf5ad432745937fULL
static void ref128(uint64_t h1, uint64_t h2, const uint8_t *p, size_t n, uint64_t *o) {
    size_t i;
    for (i = 0; i + 16 <= n; i += 16) {
        h1 ^= rl64(le(p + i, 8) * C1, 31) * C2; h1 = (rl64(h1, 27) + h2) * 5 + 0x52dce729;
        h2 ^= rl64(le(p + i + 8, 8) * C2, 33) * C1; h2 = (rl64(h2, 31) + h1) * 5 + 0x38495ab5;
    }
    int r = n & 15;
    if (r > 8) h2 ^= rl64(le(p + i + 8, r - 8) * C2, 33) * C1;
    if (r) h1 ^= rl64(le(p + i, r < 8 ? r : 8) * C1, 31) * C2;
    h1 ^= n; h2 ^= n; h1 += h2; h2 += h1; h1 = f64(h1); h2 = f64(h2); h1 += h2; h2 += h1;
    o[0] = h1; o[1] = h2;
}
static void one(size_t n, unsigned align) {
    uint8_t *m = malloc(n + align + 1), *p = m + align + 0;
    /* the block ends exactly at the last byte, so that any overrun is seen */
    m = realloc(m, n + align ? n + align : 1); p = m + align;
    int style = rnd(4);
    for (size_t i = 0; i < n; i++) p[i] = style == 0 ? rnd(256) : style == 1 ? 0x80 | rnd(128) : style == 2 ? 255 : (rnd(8) ? 0 : rnd(256));
    uint32_t seed = rnd_edge64(); uint64_t s1 = rnd_edge64(), s2 = rnd_edge64(), o[2];
    drv_case("len=%zu align=%u seed=0x%08x seed1=0x%016llx seed2=0x%016llx bytes=%s", n, align, seed, (unsigned long long) s1, (unsigned long long) s2, hexs(p, n));
    drv_distinct++;
    CHECK(cork_stable_hash_buffer(seed, p, n) == ref32(seed, p, n), "cork_stable_hash_buffer 0x%08x, MurmurHash3_x86_32 0x%08x", cork_stable_hash_buffer(seed, p, n), ref32(seed, p, n));
    uint64_t d = (uint64_t) seed << 32 | seed;
    ref128(d, d, p, n, o);
    CHECK(cork_hash_buffer(seed, p, n) == (uint32_t) (o[0] >> 32), "cork_hash_buffer 0x%08x, MurmurHash3_x64_128 0x%08x", cork_hash_buffer(seed, p, n), (uint32_t) (o[0] >> 32));
    cork_big_hash bs = { cork_u128_from_64(s1, s2) }, r = cork_big_hash_buffer(bs, p, n);
    ref128(s1, s2, p, n, o);
    CHECK(cork_u128_be64(r.u128, 0) == o[0] && cork_u128_be64(r.u128, 1) == o[1], "cork_big_hash_buffer %016llx%016llx, MurmurHash3_x64_128 %016llx%016llx",
          (unsigned long long) cork_u128_be64(r.u128, 0), (unsigned long long) cork_u128_be64(r.u128, 1), (unsigned long long) o[0], (unsigned long long) o[1]);
    cork_big_hash q = { cork_u128_from_64(o[0], o[1]) };
    CHECK(cork_big_hash_equal(r, q), "cork_big_hash_equal of equal hashes");
    uint64_t m1 = rnd(2) ? 1ULL << rnd(64) : 0, m2 = m1 && rnd(2) ? 0 : 1ULL << rnd(64);
    cork_big_hash z = { cork_u128_from_64(o[0] ^ m1, o[1] ^ m2) };
    CHECK(!cork_big_hash_equal(r, z), "cork_big_hash_equal of hashes that differ in bit masks %llx %llx", (unsigned long long) m1, (unsigned long long) m2);
    free(m);
}
static void drv_run(void) {
    for (unsigned a = 0; a < 8; a++) for (size_t n = 0; n < 70; n++) { one(n, a); if (n && n < 20) { one(n, a); one(n, a); } }
    while (drv_more()) one(rnd(40) ? rnd(200) : rnd(1 << 17), rnd(16));
}
