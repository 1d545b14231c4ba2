#include "libcork/core.h"
#include "libcork/ds.h"
#include "drv.h"
static char e[1 << 16]; static size_t en;
static void ec(int c) { e[en++] = c; }
static void es(const char *s) { while (*s) ec(*s++); }
static void ei(size_t n) { while (n--) ec(' '); }
static bool printable(int c) { return c >= 0x20 && c <= 0x7e; }
static void r_cstr(const uint8_t *p, size_t n) {
    static const char k[] = "\"\\\f\n\r\t\v", v[] = "\"\\fnrtv";
    ec('"');
    for (size_t i = 0; i < n; i++) {
        const char *q = p[i] ? strchr(k, p[i]) : NULL; char t[8];
        if (q) { ec('\\'); ec(v[q - k]); } else if (printable(p[i])) ec(p[i]); else { sprintf(t, "\\x%02x", p[i]); es(t); }
    }
    ec('"');
}
static void r_multi(size_t ind, const uint8_t *p, size_t n) { for (size_t i = 0; i < n; i++) { ec(p[i]); if (p[i] == '\n') ei(ind); } }
static void r_hex(size_t ind, const uint8_t *p, size_t n) {
    for (size_t r = 0; r < n; r += 16) {
        if (r) { ec('\n'); ei(ind); }
        for (size_t c = r; c < r + 16; c++) { char t[8]; if (c < n) { sprintf(t, "%02x ", p[c]); es(t); } else es("   "); }
        es(" |");
        for (size_t c = r; c < r + 16 && c < n; c++) ec(printable(p[c]) ? p[c] : '.');
        ec('|');
    }
}
static void drv_run(void) {
    static uint8_t in[4096];
    for (uint64_t it = 0; drv_more(); it++) {
        int cls = rnd(6); size_t n = rnd(3) ? rnd(40) : rnd(3) ? 16 * rnd(5) + rnd(3) : rnd(600), ind = rnd(2) ? rnd(6) : rnd(200);
        if (it < 256 * 3) { n = 1 + it % 3; cls = 7; }
        for (size_t i = 0; i < n; i++)
            switch (cls) {
            case 0: in[i] = rnd(256); break;
            case 1: in[i] = 32 + rnd(95); break;
            case 2: in[i] = rnd(6) ? 32 + rnd(95) : 9 + rnd(5); break;
            case 3: in[i] = rnd(6) ? 32 + rnd(95) : "\"\\\f\n\r\t\v\0\a\b"[rnd(10)]; break;
            case 4: in[i] = rnd(2) ? '\n' : ' '; break;
            case 5: in[i] = rnd(12) ? 'a' + rnd(26) : rnd(20) ? '\n' : 0x7f + rnd(3); break;
            default: in[i] = i == it % n ? it / 3 : 'a'; break;
            }
        if (cls == 5 && n && rnd(2)) in[n - 1] = rnd(2) ? '\n' : rnd(256);
        uint8_t *p = malloc(n ? n : 1); memcpy(p, in, n);
        size_t pre = rnd(3) ? 0 : rnd(200);
        for (int f = 0; f < 4; f++) {
            static const char *name[] = {"c_string", "multiline", "hex_dump", "binary"};
            struct cork_buffer b = CORK_BUFFER_INIT();
            cork_buffer_append_indent(&b, pre);
            drv_case("cork_buffer_append_%s(prior %zu bytes, indent %zu, %zu bytes: %s)", name[f], pre, ind, n, hexs(p, n));
            en = 0; ei(pre);
            if (f == 0) { cork_buffer_append_c_string(&b, (char *) p, n); r_cstr(p, n); }
            else if (f == 1) { cork_buffer_append_multiline(&b, ind, (char *) p, n); r_multi(ind, p, n); }
            else if (f == 2) { cork_buffer_append_hex_dump(&b, ind, (char *) p, n); r_hex(ind, p, n); }
            else {
                bool hex = false, nl = false;
                for (size_t i = 0; i < n; i++) { if (!printable(p[i]) && !(p[i] >= 9 && p[i] <= 13)) hex = true; if (p[i] == '\n') nl = true; }
                cork_buffer_append_binary(&b, ind, (char *) p, n);
                if (hex) { es("(hex)\n"); ei(ind); r_hex(ind, p, n); } else if (nl) { es("(multiline)\n"); ei(ind); r_multi(ind, p, n); } else for (size_t i = 0; i < n; i++) ec(p[i]);
            }
            CHECK(b.size == en && (!en || !memcmp(b.buf, e, en)), "got %s expected %s", hexs(b.buf, b.size), hexs(e, en));
            cork_buffer_done(&b);
        }
        free(p);
    }
}
