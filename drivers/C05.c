#include "libcork/core.h"
#include "libcork/ds.h"
#include "drv.h"
static uint8_t m[1 << 16]; static size_t mn;
static struct cork_buffer *b; static bool written;
static void check(const char *op) {
    CHECK(b->size == mn, "%s: size %zu, expected %zu", op, b->size, mn);
    if (mn) CHECK(!memcmp(b->buf, m, mn), "%s: content %s, expected %s", op, hexs(b->buf, mn), hexs(m, mn));
    if (b->buf && written) CHECK(((char *) b->buf)[mn] == 0, "%s: no NUL after the content", op);
    CHECK(b->buf ? b->allocated_size >= mn : !b->allocated_size, "%s: size %zu but allocated %zu", op, mn, b->allocated_size);
    for (size_t k = mn ? rnd(mn) : 0, i = k; i < mn && i < k + 3; i++) CHECK(cork_buffer_byte(b, i) == m[i] && (uint8_t) cork_buffer_char(b, i) == m[i], "%s: byte %zu", op, i);
}
static uint8_t *bytes(size_t n, bool nul) { uint8_t *p = malloc(n ? n : 1); for (size_t i = 0; i < n; i++) p[i] = !nul ? 1 + rnd(255) : rnd(3) ? rnd(256) : 0; return p; }
static void put(const void *p, size_t n) { memcpy(m + mn, p, n); mn += n; written = true; }
static size_t len(void) { size_t r = b->allocated_size > b->size ? b->allocated_size - b->size : 0; switch (rnd(8)) { case 0: return 0; case 1: return r ? r - 1 : 0; case 2: return r; case 3: return r + 1; case 4: return b->allocated_size; case 5: return rnd(300); default: return rnd(12); } }
static void drv_run(void) {
    { drv_case("printf of 200000 bytes, then of 70000"); struct cork_buffer o = CORK_BUFFER_INIT();
      for (int i = 0; i < 2; i++) { int n = i ? 70000 : 200000; size_t was = o.size; cork_buffer_append_printf(&o, "%*d", n, 7); CHECK(o.size == was + n && o.allocated_size > o.size, "size %zu after appending %d bytes to %zu", o.size, n, was);
        CHECK(((char *) o.buf)[o.size] == 0 && ((char *) o.buf)[o.size - 1] == '7' && ((char *) o.buf)[was] == ' ', "long text is cut off"); if (!i) { o.allocated_size = o.size + 1; o.buf = realloc(o.buf, o.allocated_size); } }
      cork_buffer_done(&o); }
    while (drv_more()) {
        struct cork_buffer st = CORK_BUFFER_INIT(); bool heap = rnd(2); mn = 0; written = false;
        if (heap) b = cork_buffer_new(); else { b = &st; if (rnd(2)) { memset(b, 0xa5, sizeof *b); cork_buffer_init(b); } }
        drv_case("ops:");
        check("new");
        for (int i = rnd(40); i >= 0 && mn < 6000; i--) {
            size_t n = len(); if (n > 7000) n = 7;
            uint8_t *p = NULL; struct cork_buffer o = CORK_BUFFER_INIT();
            switch (rnd(16)) {
            case 0: drv_add(" set(%zu)", n); p = bytes(n, true); cork_buffer_set(b, p, n); mn = 0; put(p, n); break;
            case 1: case 2: drv_add(" append(%zu)", n); p = bytes(n, true); cork_buffer_append(b, p, n); put(p, n); break;
            case 3: drv_add(" set_string(%zu)", n); p = bytes(n + 1, false); p[n] = 0; cork_buffer_set_string(b, (char *) p); mn = 0; put(p, n); break;
            case 4: drv_add(" append_string(%zu)", n); p = bytes(n + 1, false); p[n] = 0; cork_buffer_append_string(b, (char *) p); put(p, n); break;
            case 5: drv_add(" clear"); cork_buffer_clear(b); mn = 0; if (b->buf) written = true; break;
            case 6: n = rnd(mn + 3); drv_add(" truncate(%zu)", n); cork_buffer_truncate(b, n); if (n < mn) { mn = n; written = true; } break;
            case 7: n = rnd(3) ? n : b->allocated_size + rnd(3) - 1; if (n > 7000) n = 0; drv_add(" ensure_size(%zu)", n); cork_buffer_ensure_size(b, n); CHECK(b->allocated_size >= n, "ensure_size reserved %zu", b->allocated_size); break;
            case 8: drv_add(" append_indent(%zu)", n); cork_buffer_append_indent(b, n); p = malloc(n + 1); memset(p, ' ', n); put(p, n); break;
            case 9: case 10: case 11: { int ap = rnd(2); n = rnd(3) ? n : b->allocated_size - b->size + rnd(3) - 1; if (n > 7000) n = 0; p = bytes(n + 1, false); p[n] = 0; char t[32]; sprintf(t, "<%d%%", (int) n);
                drv_add(" %sprintf(%zu)", ap ? "append_" : "", n); if (ap) cork_buffer_append_printf(b, "<%d%%%s", (int) n, p); else { cork_buffer_printf(b, "<%d%%%s", (int) n, p); mn = 0; } put(t, strlen(t)); put(p, n); break; }
            case 12: { int ap = rnd(2); drv_add(" failing %sprintf", ap ? "append_" : ""); if (ap) cork_buffer_append_printf(b, "x%d%ls", 3, L"\x1234"); else { cork_buffer_printf(b, "%ls", L"\x1234"); mn = 0; if (b->buf) written = true; } break; }
            case 13: drv_add(" copy(%zu)", n); p = bytes(n, true); if (n || rnd(2)) cork_buffer_set(&o, p, n); cork_buffer_copy(b, &o); mn = 0; put(p, n); break;
            case 14: drv_add(" append_copy(%zu)", n); p = bytes(n, true); if (n || rnd(2)) cork_buffer_set(&o, p, n); cork_buffer_append_copy(b, &o); put(p, n); break;
            default: drv_add(" literals"); if (rnd(2)) { cork_buffer_set_literal(b, "a\0b"); mn = 0; put("a\0b", 3); } else { cork_buffer_append_literal(b, "xyz"); put("xyz", 3); } break;
            }
            check("afterwards");
            cork_buffer_done(&o); CHECK(!o.size && !o.buf && !o.allocated_size, "done leaves %zu bytes", o.size);
            if (!rnd(4)) {
                cork_buffer_set(&o, m, mn); CHECK(cork_buffer_equal(b, &o) && cork_buffer_equal(&o, b) && cork_buffer_equal(b, b), "not equal to a copy");
                if (mn) { ((uint8_t *) o.buf)[rnd(mn)] ^= 1 << rnd(8); CHECK(!cork_buffer_equal(b, &o), "equal to different bytes"); cork_buffer_set(&o, m, mn - 1); CHECK(!cork_buffer_equal(b, &o) && !cork_buffer_equal(&o, b), "equal to a prefix"); }
                cork_buffer_done(&o);
            }
            free(p);
        }
        if (heap) cork_buffer_free(b); else cork_buffer_done(b);
    }
}
