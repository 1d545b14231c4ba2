#include "drv.h"
#include <libcork/core.h>
static bool ref4(const char *s, size_t n, uint8_t *o) {
    size_t i = 0;
    for (int k = 0; k < 4; k++) {
        unsigned v = 0; size_t d = 0;
        while (i < n && s[i] >= '0' && s[i] <= '9') { v = v * 10 + (s[i] - '0'); if (v > 255) return false; i++; d++; }
        if (!d) return false;
        o[k] = v;
        if (k < 3) { if (i >= n || s[i] != '.') return false; i++; }
    }
    return i == n;
}
/* groups separated by single colons; returns the count or -1 */
static int groups(const char *s, size_t n, bool quad, uint16_t *g) {
    int c = 0; size_t i = 0;
    if (!n) return 0;
    for (;;) {
        size_t j = i; while (j < n && s[j] != ':') j++;
        if (j == n && quad && memchr(s + i, '.', j - i)) {
            uint8_t o[4]; if (strcspn(s + i, ".") > 4 || !ref4(s + i, j - i, o)) return -1;   /* an octet longer than any group is not a standard form */
            g[c & 15] = o[0] << 8 | o[1]; c++; g[c & 15] = o[2] << 8 | o[3]; c++;
        } else {
            if (j == i || j - i > 4) return -1;
            unsigned v = 0;
            for (size_t k = i; k < j; k++) { char x = s[k]; int d = x >= '0' && x <= '9' ? x - '0' : x >= 'a' && x <= 'f' ? x - 'a' + 10 : x >= 'A' && x <= 'F' ? x - 'A' + 10 : -1; if (d < 0) return -1; v = v * 16 + d; }
            g[c & 15] = v; c++;
        }
        if (c > 9) return -1;
        if (j == n) return c;
        i = j + 1; if (i == n) return -1;
    }
}
static bool ref6(const char *s, uint8_t *o) {
    size_t n = strlen(s); const char *d = strstr(s, "::"); uint16_t a[16], b[16], r[8];
    if (!d) { if (groups(s, n, true, r == r ? a : a) != 8) return false; memcpy(r, a, 16); }
    else {
        if (strstr(d + 1, "::")) return false;
        int x = groups(s, d - s, false, a), y = groups(d + 2, n - (d + 2 - s), true, b);
        if (x < 0 || y < 0 || x + y > 7) return false;
        memset(r, 0, 16); memcpy(r, a, 2 * x); memcpy(r + 8 - y, b, 2 * y);
    }
    for (int i = 0; i < 8; i++) { o[2 * i] = r[i] >> 8; o[2 * i + 1] = r[i]; }
    return true;
}
static char txt[512];
static void add(const char *f, ...) { va_list ap; size_t n = strlen(txt); va_start(ap, f); vsnprintf(txt + n, sizeof txt - n, f, ap); va_end(ap); }
static void oct(void) { switch (rnd(12)) { case 0: add("%03u", (unsigned) rnd(256)); break; case 1: add("%u", 256 + (unsigned) rnd(300)); break; case 2: break; case 3: add("%0*u", (int) rnd(30), (unsigned) rnd(256)); break; case 4: add("%u", 250 + (unsigned) rnd(8)); break; case 5: add("%u", (unsigned) rnd_edge64()); break; default: add("%u", (unsigned) rnd(256)); } }
static void quad(void) { int n = rnd(15) ? 4 : rnd(7); for (int i = 0; i < n; i++) { if (i) add("."); oct(); } if (!rnd(25)) add("."); }
static void hextet(void) { switch (rnd(14)) { case 0: add("%05x", (unsigned) rnd(1 << 20)); break; case 1: break; case 2: add("0"); break; case 3: add("%04X", (unsigned) rnd(65536)); break; case 4: add("ffff"); break; default: add(rnd(4) ? "%x" : "%X", (unsigned) (rnd(65536) >> (4 * rnd(4)))); } }
static void gen6(void) {
    int n = rnd(4) ? 8 : rnd(11), dc = rnd(3) ? (int) rnd(9) : -1;
    if (dc >= 0) n = rnd(9);
    int q = !rnd(3); if (q && n >= 2 && rnd(6)) n -= 2;
    for (int i = 0; i < n; i++) { if (i == dc) add(i ? ":" : "::"); hextet(); if (i + 1 < n || q || dc == n) add(":"); }
    if (dc == n) add(n ? ":" : "::");
    if (q) quad();
    if (!rnd(20)) add("::"); if (!rnd(20)) add(":");
}
static void mutate(void) {
    static const char al[] = "0123456789abcdefABCDEF::::....g/G@`;- %\x80\xff";
    int k = rnd(4);
    while (k--) { size_t n = strlen(txt), i = rnd(n + 1); char c = al[rnd(sizeof al - 1)];
        switch (rnd(3)) { case 0: if (n < 500) { memmove(txt + i + 1, txt + i, n - i + 1); txt[i] = c; } break;
        case 1: if (i < n) memmove(txt + i, txt + i + 1, n - i); break; default: if (i < n) txt[i] = c; } }
}
static char *exact(const char *s) { char *p = malloc(strlen(s) + 1); strcpy(p, s); return p; }
static void err_check(bool ok) {
    CHECK(cork_error_occurred() == !ok, "%s", ok ? "success sets an error" : "failure sets no error");
    if (!ok) CHECK(cork_error_code() == CORK_PARSE_ERROR, "failure does not report a parse error");
    cork_error_clear();
}
static void parse4(const char *s0) {
    char *s = exact(s0); uint8_t o[4]; struct cork_ipv4 *a = malloc(sizeof *a);
    drv_case("cork_ipv4_init(\"%s\")", s);
    memset(a, 0xa5, sizeof *a);
    bool ok = ref4(s, strlen(s), o); int rc = cork_ipv4_init(a, s);
    CHECK((rc == 0) == ok && (rc == 0 || rc == -1), "returns %d", rc);
    err_check(ok);
    if (!ok) memset(o, 0xa5, 4); else drv_distinct++;
    CHECK(!memcmp(a, o, 4), "stores %s, expected %s", hexs(a, 4), hexs(o, 4));
    free(s); free(a);
}
static void print4(uint32_t v) {
    char *d = malloc(CORK_IPV4_STRING_LENGTH), w[32]; struct cork_ipv4 a, b; uint8_t o[4] = { v >> 24, v >> 16, v >> 8, v };
    drv_case("printing IPv4 %s", hexs(o, 4));
    cork_ipv4_copy(&a, o); cork_ipv4_to_raw_string(&a, d);
    snprintf(w, sizeof w, "%d.%d.%d.%d", o[0], o[1], o[2], o[3]);
    CHECK(!strcmp(d, w), "prints \"%s\"", d);
    CHECK(cork_ipv4_init(&b, d) == 0 && cork_ipv4_equal(&a, &b) && cork_ipv4_equal_(&a, &b) && !memcmp(&a, &b, 4), "does not parse back");
    int i = rnd(32); o[i / 8] ^= 1 << (i % 8); cork_ipv4_copy(&b, o);
    CHECK(!cork_ipv4_equal(&a, &b) && !cork_ipv4_equal_(&a, &b), "equal to %s", hexs(o, 4));
    free(d);
}
