#include "drv.h"
#include <libcork/core.h>
static bool ref(const uint8_t *b, unsigned w, unsigned p) {
    if (p > w) return false;
    for (unsigned i = p; i < w; i++) if ((b[i / 8] >> (7 - i % 8)) & 1) return false;
    return true;
}
static void one(unsigned p, int style) {
    uint8_t b[16];
    for (int i = 0; i < 16; i++) b[i] = style == 0 ? rnd(256) : style == 1 ? 0 : 255;
    if (style == 3) for (int i = 0; i < 16; i++) b[i] = rnd(3) ? 0 : rnd(256);
    if (rnd(2)) for (unsigned i = p; i < 128; i++) b[i / 8] &= ~(1 << (7 - i % 8));
    if (rnd(2)) { unsigned i = rnd(3) ? p + rnd(3) - 1 : rnd(128); if (i < 128) b[i / 8] ^= 1 << (7 - i % 8); }
    struct cork_ipv6 *a6 = malloc(sizeof *a6); struct cork_ipv4 *a4 = malloc(sizeof *a4); struct cork_ip ip;
    drv_case("address bytes=%s prefix=%u", hexs(b, 16), p); drv_distinct++;
    cork_ipv6_copy(a6, b); cork_ipv4_copy(a4, b);
    CHECK(cork_ipv6_is_valid_network(a6, p) == ref(b, 128, p), "cork_ipv6_is_valid_network gives %d", !ref(b, 128, p));
    CHECK(cork_ipv4_is_valid_network(a4, p) == ref(b, 32, p), "cork_ipv4_is_valid_network gives %d", !ref(b, 32, p));
    cork_ip_from_ipv6(&ip, b);
    CHECK(cork_ip_is_valid_network(&ip, p) == ref(b, 128, p), "cork_ip_is_valid_network of an IPv6 address gives %d", !ref(b, 128, p));
    memset(&ip, 0x5a, sizeof ip); cork_ip_from_ipv4(&ip, b);
    CHECK(cork_ip_is_valid_network(&ip, p) == ref(b, 32, p), "cork_ip_is_valid_network of an IPv4 address gives %d", !ref(b, 32, p));
    ip.version = rnd(2) ? 5 : rnd64();
    if (ip.version != 4 && ip.version != 6) CHECK(!cork_ip_is_valid_network(&ip, p), "an address of no family is a valid network");
    free(a6); free(a4);
}
static void drv_run(void) {
    for (unsigned p = 0; p < 140; p++) for (int s = 0; s < 4; s++) for (int k = 0; k < 8; k++) one(p, s);
    while (drv_more()) one(rnd(8) ? rnd(130) : rnd_edge64(), rnd(4));
}
