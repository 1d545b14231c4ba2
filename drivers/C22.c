#include "libcork/core.h"
#include "drv.h"
#include <setjmp.h>
/* an allocator that knows every block it gave */
struct blk { uint8_t *p; size_t n; struct blk *next; };
static struct blk *blks; static int fail_in = -1; static bool failed; static const struct cork_alloc *self; static int nblk;
static void *t_xmalloc(const struct cork_alloc *a, size_t n) {
    CHECK(a == self, "method called for another allocator");
    if (fail_in >= 0 && fail_in-- == 0) { failed = true; return NULL; }
    if (n > (1 << 20)) { failed = true; return NULL; }
    struct blk *b = malloc(sizeof *b); b->p = malloc(n ? n : 1); memset(b->p, 0xa7, n); b->n = n; b->next = blks; blks = b; nblk++; return b->p;
}
static void t_free(const struct cork_alloc *a, void *p, size_t n) {
    CHECK(a == self, "free called for another allocator");
    if (!p) return;
    for (struct blk **q = &blks; *q; q = &(*q)->next) if ((*q)->p == p) { struct blk *b = *q; CHECK(b->n == n, "block of %zu bytes handed back as %zu bytes", b->n, n); *q = b->next; free(b->p); free(b); nblk--; return; }
    FAIL("a pointer that was never given is handed back");
}
static void *t_xcalloc(const struct cork_alloc *a, size_t c, size_t n) { if (n && c > SIZE_MAX / n) { failed = true; return NULL; } void *p = t_xmalloc(a, c * n); if (p) memset(p, 0, c * n); return p; }
static void *t_xrealloc(const struct cork_alloc *a, void *p, size_t o, size_t n) { void *q = t_xmalloc(a, n); if (q && p) { memcpy(q, p, o < n ? o : n); t_free(a, p, o); } return q; }
static struct blk *of(const void *p) { for (struct blk *b = blks; b; b = b->next) if ((uint8_t *) p >= b->p && (uint8_t *) p < b->p + (b->n ? b->n : 1)) return b; return NULL; }
static sigjmp_buf jb; static bool catching;
static void on_abort(int s) { if (catching) siglongjmp(jb, 1); drv_sig(s); }
/* guaranteed forms: NULL is never returned; giving up is allowed exactly when the allocator failed */
#define GUARD(e) (catching = true, failed = false, sigsetjmp(jb, 1) == 0 ? (e, catching = false, aborted = false) : (catching = false, aborted = true))
static size_t sz(void) { switch (rnd(10)) { case 0: return 0; case 1: return rnd_edge64(); case 2: return 1 + rnd(3); default: return rnd(200); } }
static size_t small(void) { return rnd(6) ? rnd(200) : 0; }
static void ok(void *p, bool aborted, bool must_fail, bool x, const char *op) {
    bool bad = failed || must_fail;
    if (x) { CHECK(!aborted, "%s aborts", op); CHECK((p == NULL) == bad, "%s returned %p although the allocation %s", op, p, bad ? "failed" : "succeeded"); }
    else { CHECK(aborted == bad, "%s %s although the allocation %s", op, aborted ? "gives up" : "returns", bad ? "failed" : "succeeded"); if (!aborted) CHECK(p != NULL, "%s returned NULL", op); }
}
static void full(void *p, size_t n, const char *op) { struct blk *b = of(p); CHECK(b && b->p == p && b->n == n, "%s(%zu) got a block of %zu bytes", op, n, b ? b->n : 0); memset(p, 0x5c, n); }
static void zeros(void *p, size_t n, const char *op) { for (size_t i = 0; i < n; i++) CHECK(((uint8_t *) p)[i] == 0, "%s: byte %zu is %02x", op, i, ((uint8_t *) p)[i]); }
static void one(struct cork_alloc *a, int over) {
    void *volatile p = NULL; volatile bool aborted; bool x = rnd(2); int before = nblk; size_t n = sz(), c = sz(), o = small();
    fail_in = rnd(4) ? -1 : (int) rnd(3); int fi = fail_in;
    switch (rnd(6)) {
    case 0: drv_case("overrides %d, fail after %d: %smalloc(%zu)", over, fi, x ? "x" : "", n); GUARD(p = x ? cork_alloc_xmalloc(a, n) : cork_alloc_malloc(a, n)); ok(p, aborted, false, x, "malloc"); fail_in = -1; if (!aborted && p) { full(p, n, "malloc"); cork_alloc_free(a, p, n); } break;
    case 1: case 2: { if (rnd(3) == 0) c = rnd(2) ? SIZE_MAX / (n ? n : 1) + rnd(2) : rnd(5); drv_case("overrides %d, fail after %d: %scalloc(%zu, %zu)", over, fi, x ? "x" : "", c, n); bool ov = n && c > SIZE_MAX / n; GUARD(p = x ? cork_alloc_xcalloc(a, c, n) : cork_alloc_calloc(a, c, n)); ok(p, aborted, ov, x, "calloc"); fail_in = -1;
        if (!aborted && p) { zeros(p, c * n, "calloc"); full(p, c * n, "calloc"); cork_alloc_cfree(a, p, c, n); } break; }
    case 3: case 4: { bool f = x && rnd(2); uint8_t *volatile q = NULL; fail_in = -1; if (rnd(5)) { q = t_xmalloc(a, o); for (size_t i = 0; i < o; i++) q[i] = i * 7 + 3; } else o = 0; fail_in = fi; if (rnd(4) == 0) n = o + rnd(3) - 1; if (n == SIZE_MAX) n = 0;
        drv_case("overrides %d, fail after %d: %srealloc%s(%s, %zu, %zu)", over, fi, x ? "x" : "", f ? "f" : "", q ? "block" : "NULL", o, n);
        GUARD(p = f ? cork_alloc_xreallocf(a, q, o, n) : x ? cork_alloc_xrealloc(a, q, o, n) : cork_alloc_realloc(a, q, o, n)); ok(p, aborted, false, x, "realloc"); fail_in = -1;
        if (!aborted && p) { for (size_t i = 0; i < o && i < n; i++) CHECK(((uint8_t *) p)[i] == (uint8_t) (i * 7 + 3), "realloc: byte %zu lost", i); full(p, n, "realloc"); cork_alloc_free(a, p, n); }
        else if (q) { struct blk *b = of(q); if (f) CHECK(nblk == before, "xreallocf does not free the old block"); else { CHECK(b && b->p == q, "the old block is gone after a failed reallocation"); for (size_t i = 0; i < o; i++) CHECK(q[i] == (uint8_t) (i * 7 + 3), "byte %zu of the old block lost", i); t_free(a, q, o); } }
        break; }
    default: { bool cn = rnd(2); n = rnd(1000) ? small() : 65400 + rnd(400); char *s = malloc(n + 1); for (size_t i = 0; i < n; i++) s[i] = cn ? rnd(256) : 1 + rnd(255); if (!cn) s[n] = 0; else { s = realloc(s, n ? n : 1); }
        drv_case("overrides %d, fail after %d: %sstr%sdup of %zu bytes", over, fi, x ? "x" : "", cn ? "n" : "", n);
        GUARD(p = (void *) (cn ? x ? cork_alloc_xstrndup(a, s, n) : cork_alloc_strndup(a, s, n) : x ? cork_alloc_xstrdup(a, s) : cork_alloc_strdup(a, s))); ok(p, aborted, false, x, "strdup"); fail_in = -1;
        if (!aborted && p) { CHECK(!memcmp(p, s, n) && ((char *) p)[n] == 0, "strdup: %s instead of %s", hexs(p, n + 1), hexs(s, n)); CHECK(cork_strlen(p) == n, "recorded length %zu", cork_strlen(p)); CHECK(of(p), "not in a live block"); cork_alloc_strfree(a, p); } free(s); break; }
    }
    CHECK(nblk == before, "%d blocks are never handed back", nblk - before);
}
static void stdlib(void) {
    size_t n = small(), o = small(), c = rnd(9); bool x = rnd(2); uint8_t *p = NULL, *q;
    switch (rnd(4)) {
    case 0: drv_case("C library: malloc %zu", n); p = x ? cork_xmalloc(n) : cork_malloc(n); CHECK(p, "NULL"); memset(p, 1, n); cork_free(p, n); break;
    case 1: if (rnd(4) == 0) n = 0; drv_case("C library: calloc %zu*%zu", c, n); p = x ? cork_xcalloc(c, n) : cork_calloc(c, n); CHECK(p, "NULL"); zeros(p, c * n, "calloc"); cork_cfree(p, c, n); break;
    case 2: if (rnd(3) == 0) n = 0; drv_case("C library: realloc %zu to %zu", o, n); p = rnd(4) ? cork_malloc(o) : (o = 0, NULL); for (size_t i = 0; i < o; i++) p[i] = i; q = x ? rnd(2) ? cork_xreallocf(p, o, n) : cork_xrealloc(p, o, n) : cork_realloc(p, o, n); CHECK(q, "NULL"); for (size_t i = 0; i < o && i < n; i++) CHECK(q[i] == (uint8_t) i, "byte %zu lost", i); memset(q, 1, n); cork_free(q, n); break;
    default: { drv_case("C library: strings"); const char *s = rnd(2) ? cork_strdup("abc") : cork_xstrdup("abc"), *t = rnd(2) ? cork_strndup("xyzzy", 3) : cork_xstrndup("xyzzy", 3); CHECK(!strcmp(s, "abc") && cork_strlen(s) == 3 && !strcmp(t, "xyz") && cork_strlen(t) == 3, "strings"); cork_strfree(s); cork_strfree(t);
        if (x) { size_t h = SIZE_MAX - rnd(20), k = 2 + rnd(100); drv_add(", xmalloc(%zu), xcalloc(%zu, %zu)", h, SIZE_MAX / k + 1, k); p = cork_xmalloc(h); CHECK(!p, "xmalloc(%zu) succeeds", h); p = cork_xcalloc(SIZE_MAX / k + 1, k); CHECK(!p, "xcalloc overflow succeeds"); } break; }
    }
}
static void debug(struct cork_alloc *par, struct cork_alloc *d) {
    size_t n = rnd(5) ? small() : SIZE_MAX - rnd(16); int before = nblk; void *volatile p = NULL; volatile bool aborted; fail_in = rnd(3) ? -1 : 0; self = par;
    drv_case("debug allocator: xmalloc(%zu), fail %d", n, fail_in); failed = false; p = cork_alloc_xmalloc(d, n); fail_in = -1;
    CHECK((p == NULL) == (failed || n > SIZE_MAX - sizeof(size_t)), "returned %p", p);
    if (p) { memset(p, 0x11, n); size_t m = rnd(3) ? n : n + rnd(3) - 1; drv_add(", free(%zu)", m); GUARD(cork_alloc_free(d, p, m)); CHECK(aborted == (m != n), "free with size %zu", m); if (aborted) { failed = false; cork_alloc_free(d, p, n); } }
    CHECK(nblk == before, "%d blocks are never handed back", nblk - before);
}
static void drv_run(void) {
    signal(SIGABRT, on_abort); freopen("/dev/null", "w", stderr);
    struct cork_alloc *as[16]; for (int i = 0; i < 16; i++) { as[i] = cork_alloc_new_alloc(cork_allocator); cork_alloc_set_xmalloc(as[i], t_xmalloc); cork_alloc_set_free(as[i], t_free); if (i & 1) cork_alloc_set_xcalloc(as[i], t_xcalloc); if (i & 2) cork_alloc_set_xrealloc(as[i], t_xrealloc); }
    self = as[0]; struct cork_alloc *d = cork_debug_alloc_new(as[0]); 
    while (drv_more()) { int i = rnd(16); switch (rnd(6)) { case 0: stdlib(); break; case 1: debug(as[0], d); break; default: self = as[i]; one(as[i], i & 3); } }
    self = as[0];
}
