#include "libcork/core.h"
#include "libcork/ds.h"
#include "drv.h"
#include <sys/wait.h>
#define MAXB (1 << 17)
static uint8_t m[2][MAXB]; static size_t n[2], es; static struct cork_raw_array a[2]; static size_t peak;
static void check(int w, const char *op) {
    CHECK(cork_raw_array_size(&a[w]) == n[w] && a[w].size == n[w], "%s: size %zu, expected %zu", op, a[w].size, n[w]);
    CHECK(cork_raw_array_is_empty(&a[w]) == (n[w] == 0), "%s: is_empty", op);
    CHECK(cork_raw_array_element_size(&a[w]) == es, "%s: element size", op);
    if (n[w]) CHECK(!memcmp(cork_raw_array_elements(&a[w]), m[w], n[w] * es), "%s: elements %s expected %s", op, hexs(a[w].items, n[w] * es), hexs(m[w], n[w] * es));
    if (n[w]) { size_t i = rnd(n[w]); CHECK(cork_raw_array_at(&a[w], i) == (char *) a[w].items + i * es, "%s: at(%zu)", op, i); }
}
static void typed(void) {
    cork_array(uint32_t) x, y; struct cork_string_array s, t; uint32_t v[200]; size_t k = 0, i; char buf[20];
    cork_array_init(&x); cork_array_init(&y); cork_string_array_init(&s); cork_string_array_init(&t);
    for (i = 0; i < 150; i++) {
        drv_add(" typed %zu", i);
        if (k && !rnd(4)) { size_t p = rnd(k), c = rnd(k - p + 1); if (rnd(2)) c = 1; cork_array_remove_range(&x, p, c); memmove(v + p, v + p + c, 4 * (k - p - c)); k -= c; }
        else { uint32_t e = rnd64(); if (rnd(2)) cork_array_append(&x, e); else *cork_array_append_get(&x) = e; v[k++] = e; }
        CHECK(cork_array_size(&x) == k && cork_array_is_empty(&x) == !k, "typed size %zu expected %zu", cork_array_size(&x), k);
        for (size_t j = 0; j < k; j++) CHECK(cork_array_at(&x, j) == v[j], "typed element %zu", j);
    }
    cork_array_copy(&y, &x, NULL, NULL); CHECK(cork_array_size(&y) == k && (!k || !memcmp(cork_array_elements(&y), v, 4 * k)), "typed copy");
    for (i = 0; i < 20; i++) { snprintf(buf, sizeof buf, "%zu", i * i); cork_string_array_append(&s, buf); memset(buf, 'x', 5); }
    cork_array_remove(&s, 3); cork_string_array_append(&t, "old"); cork_string_array_copy(&t, &s);
    CHECK(cork_array_size(&t) == 19, "string copy size");
    for (i = 0; i < 19; i++) { snprintf(buf, sizeof buf, "%zu", (i < 3 ? i : i + 1) * (i < 3 ? i : i + 1)); CHECK(!strcmp(cork_array_at(&s, i), buf) && !strcmp(cork_array_at(&t, i), buf) && cork_array_at(&s, i) != cork_array_at(&t, i), "string %zu", i); }
    cork_array_done(&x); cork_array_done(&y); cork_array_done(&s); cork_array_done(&t);
}
static void overflow(void) {   /* a request that can't be represented must not return */
    size_t e = 2 + rnd(30), c = SIZE_MAX / e + 1 + rnd(3); int st; pid_t pid;
    drv_case("cork_raw_array_ensure_size(%zu elements of %zu bytes)", c, e);
    fflush(stdout); pid = fork();
    if (!pid) { struct cork_raw_array r; signal(SIGABRT, SIG_DFL); if (!freopen("/dev/null", "w", stderr)) _exit(1); cork_raw_array_init(&r, e); cork_raw_array_append(&r); cork_raw_array_ensure_size(&r, c); _exit(77); }
    waitpid(pid, &st, 0);
    CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 77), "an overflowing reservation returned");
}
static void drv_run(void) {
    overflow(); overflow();
    while (drv_more()) {
        static const size_t sz[] = {1, 2, 3, 4, 5, 7, 8, 12, 16, 24, 33, 100, 1000};
        es = sz[rnd(13)]; size_t cap = MAXB / es, lim = rnd(20) ? 120 : 2000; if (cap > lim) cap = lim;
        for (int w = 0; w < 2; w++) { cork_raw_array_init(&a[w], es); n[w] = 0; }
        drv_case("element size %zu:", es);
        if (!rnd(40)) typed();
        int nops = rnd(60), shrink = 3 + rnd(10);
        if (!rnd(4)) { size_t c = rnd(cap); drv_add(" %zu appends", c); while (n[0] < c) { uint8_t *e = cork_raw_array_append(&a[0]); for (size_t b = 0; b < es; b++) e[b] = m[0][n[0] * es + b] = rnd(256); n[0]++; } check(0, "append"); }
        for (int k = 0; k < nops; k++) {
            int w = rnd(4) == 0;
            switch (rnd(shrink + 4)) {
            case 0: if (n[w]) { size_t i = rnd(n[w]), c = rnd(n[w] - i + 1); if (!rnd(6)) i = 0, c = n[w]; drv_add(" remove_range%d(%zu,%zu)", w, i, c); if (c == 1 && rnd(2)) cork_raw_array_remove(&a[w], i); else cork_raw_array_remove_range(&a[w], i, c); memmove(m[w] + i * es, m[w] + (i + c) * es, (n[w] - i - c) * es); n[w] -= c; check(w, "remove_range"); } break;
            case 1: if (!rnd(3)) { drv_add(" clear%d", w); cork_raw_array_clear(&a[w]); n[w] = 0; check(w, "clear"); } break;
            case 2: { size_t d = rnd(3) ? rnd(cap) : rnd(4) ? n[w] + rnd(3) : rnd(20) * rnd(20); drv_add(" ensure_size%d(%zu)", w, d); cork_raw_array_ensure_size(&a[w], d);
                      if (d) { volatile char *p = a[w].items; CHECK(p != NULL, "no storage after ensure_size(%zu)", d); p[d * es - 1] = d > n[w] ? 1 : p[d * es - 1]; } check(w, "ensure_size"); break; }
            case 3: if (!rnd(3)) { drv_add(" copy(%d to %d)", w, !w); int rc = cork_raw_array_copy(&a[!w], &a[w], NULL, NULL); CHECK(rc == 0, "copy failed"); memcpy(m[!w], m[w], n[w] * es); n[!w] = n[w]; check(!w, "copy"); } break;
            default: if (n[w] < cap) { drv_add(" append%d", w); uint8_t *e = cork_raw_array_append(&a[w]); CHECK((char *) e == (char *) a[w].items + n[w] * es, "append returned another slot"); for (size_t b = 0; b < es; b++) e[b] = m[w][n[w] * es + b] = rnd(256); n[w]++; check(w, "append"); } break;
            }
            check(!w, "an operation on another array");
        }
        for (int w = 0; w < 2; w++) cork_raw_array_done(&a[w]);
    }
}
