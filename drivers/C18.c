#include "ipref.h"
static void parse6(const char *s0) {
    char *s = exact(s0); uint8_t o[16], o4[4]; struct cork_ipv6 *a = malloc(sizeof *a); struct cork_ip ip;
    drv_case("cork_ipv6_init(\"%s\")", s);
    memset(a, 0xa5, sizeof *a);
    bool ok = ref6(s, o); int rc = cork_ipv6_init(a, s);
    CHECK((rc == 0) == ok && (rc == 0 || rc == -1), "returns %d", rc);
    err_check(ok);
    if (!ok) memset(o, 0xa5, 16); else drv_distinct++;
    CHECK(!memcmp(a, o, 16), "stores %s, expected %s", hexs(a, 16), hexs(o, 16));
    bool ok4 = ref4(s, strlen(s), o4);
    rc = cork_ip_init(&ip, s);
    CHECK((rc == 0) == (ok || ok4), "cork_ip_init returns %d", rc);
    err_check(ok || ok4);
    if (ok4) CHECK(ip.version == 4 && !memcmp(&ip.ip.v4, o4, 4), "cork_ip_init gives another address");
    else if (ok) CHECK(ip.version == 6 && !memcmp(&ip.ip.v6, o, 16), "cork_ip_init gives another address");
    free(s); free(a);
}
static void print6(const uint8_t *o) {
    struct cork_ipv6 a, b; struct cork_ip ip, ip2; char *d = malloc(CORK_IPV6_STRING_LENGTH), *e = malloc(CORK_IP_STRING_LENGTH); uint8_t r[16];
    drv_case("printing IPv6 %s", hexs(o, 16));
    memset(d, 'x', CORK_IPV6_STRING_LENGTH);
    cork_ipv6_copy(&a, o); cork_ipv6_to_raw_string(&a, d);
    CHECK(memchr(d, 0, CORK_IPV6_STRING_LENGTH), "unterminated text");
    drv_add(" as \"%s\"", d);
    CHECK(ref6(d, r) && !memcmp(r, o, 16), "the text does not denote the address");
    CHECK(cork_ipv6_init(&b, d) == 0 && cork_ipv6_equal(&a, &b) && cork_ipv6_equal_(&a, &b), "does not parse back");
    cork_ip_from_ipv6(&ip, o); cork_ip_from_ipv6_(&ip2, o); cork_ip_to_raw_string(&ip, e); CHECK(!strcmp(d, e), "cork_ip_to_raw_string gives %s", e);
    CHECK(cork_ip_equal(&ip, &ip2) && cork_ip_equal_(&ip, &ip2), "copies of the address differ");
    memcpy(r, o, 16); int i = rnd(128); r[i / 8] ^= 1 << (i % 8); cork_ipv6_copy(&b, r); cork_ip_from_ipv6(&ip2, r);
    CHECK(!cork_ipv6_equal(&a, &b) && !cork_ipv6_equal_(&a, &b) && !cork_ip_equal(&ip, &ip2) && !cork_ip_equal_(&ip, &ip2), "equal to %s", hexs(r, 16));
    cork_ip_from_ipv4(&ip2, o); CHECK(!cork_ip_equal(&ip, &ip2), "an IPv4 address equals an IPv6 address");
    free(d); free(e);
}
static void rnd6(uint8_t *o, unsigned zeros) {
    for (int i = 0; i < 8; i++) { unsigned v = zeros >> i & 1 ? 0 : 1 + (rnd(65535) >> (4 * rnd(4))); if (!v) v = 1; if (!rnd(10) && !(zeros >> i & 1)) v = 0xffff; o[2 * i] = v >> 8; o[2 * i + 1] = v; }
}
static void drv_run(void) {
    static const char *c[] = { "", ":", "::", ":::", "::1", "1::", "1:2:3:4:5:6:7:8", "1:2:3:4:5:6:7:8:9", "1:2:3:4:5:6:7", "1:2:3:4:5:6:7::", "::2:3:4:5:6:7:8", "1:2:3:4::5:6:7:8", "1::2::3", "1:2:3:4:5:6:1.2.3.4", "1:2:3:4:5:6:7:1.2.3.4", "::1.2.3.4", "::ffff:1.2.3.4", "1:2:3:4:5:6::1.2.3.4", "1:2:3:4:5::1.2.3.4", "1.2.3.4", "1.2.3.4::", "12345::", "::12345", ":1", "1:", "::1:", ":1:2:3:4:5:6:7", "fe80::1%eth0", "g::", "1::1.2.3.", "::.1.2.3", "1:::2", "::1.2.3.4:5", "FE80::ABCD", "1:2:3:4:5:6:7:8:", "1:2:3:4:5:6:7:8::", "::1:2:3:4:5:6:7:8", "1:2:3:4:5:6:7:1.2.3", "1:2:3:4:5:6:1.2.3.4:", "::abc.1.2.3", ":1.2.3.4", ":::1.2.3.4", "1:2:3:4:5:6:7.8.9.10.11" };
    uint8_t o[16];
    for (size_t i = 0; i < sizeof c / sizeof *c; i++) parse6(c[i]);
    for (unsigned z = 0; z < 256; z++) for (int k = 0; k < 8; k++) { rnd6(o, z); print6(o); }
    for (int k = 0; k < 2000; k++) { rnd6(o, 0x1f | (rnd(8) << 5)); if (rnd(2)) o[10] = o[11] = 255; print6(o); }
    while (drv_more()) { txt[0] = 0; gen6(); if (!rnd(2)) mutate(); parse6(txt); if (!rnd(4)) { rnd6(o, rnd64() & rnd64()); print6(o); } }
}
