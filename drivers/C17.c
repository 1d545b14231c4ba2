#include "ipref.h"
static void anyip(const char *s) {
    uint8_t o[4]; char *e = exact(s); struct cork_ip ip; drv_case("cork_ip_init(\"%s\")", s);
    if (ref4(s, strlen(s), o)) { CHECK(cork_ip_init(&ip, e) == 0 && ip.version == 4 && !memcmp(&ip.ip.v4, o, 4), "not an IPv4 address"); char d[CORK_IP_STRING_LENGTH], w[32]; snprintf(w, 32, "%d.%d.%d.%d", o[0], o[1], o[2], o[3]); cork_ip_to_raw_string(&ip, d); CHECK(!strcmp(d, w), "prints %s", d); }
    free(e); cork_error_clear();
}
static void drv_run(void) {
    static const char *c[] = { "", ".", "...", "1.2.3", "1.2.3.4", "1.2.3.4.", "1.2.3.4.5", ".1.2.3.4", "1..2.3", "1.2.3.", "256.1.1.1", "1.1.1.256", "0.0.0.0", "255.255.255.255", "001.02.3.00000000004", "1.2.3.4 ", " 1.2.3.4", "1.2.3.-4", "1.2.3.4a", "4294967297.1.1.1", "1.1.1.4294967296", "1.2.3.2560", "1.2.3.:4" };
    for (size_t i = 0; i < sizeof c / sizeof *c; i++) parse4(c[i]), anyip(c[i]);
    for (int k = 0; k < 4; k++) for (unsigned v = 0; v < 256; v++) for (int j = 0; j < 4; j++) { uint32_t x = rnd64(); print4((x & ~(255u << (8 * k))) | v << (8 * k)); }
    for (int k = 0; k < 4; k++) for (unsigned v = 0; v < 1200; v++) { txt[0] = 0; for (int j = 0; j < 4; j++) add(j ? ".%u" : "%u", j == k ? v : (unsigned) rnd(256)); parse4(txt); }
    while (drv_more()) { txt[0] = 0; quad(); if (!rnd(2)) mutate(); parse4(txt); anyip(txt); if (!rnd(8)) print4(rnd64() >> (8 * rnd(5))); }
}
