#include "libcork/core.h"
#include "libcork/ds.h"
#include "drv.h"
/* every slot holds an id; the callbacks record (callback, slot index, id found there) */
struct ev { int cb; size_t slot; uint32_t id; };
static struct ev ev[4000]; static size_t nev; static char ud; static int freed; static struct cork_raw_array a; static size_t es; static uint32_t next_id; static int copy_fail; static int cbs;
static void rec(int cb, void *u, void *s) {
    uint32_t id; CHECK(u == &ud, "callback %d got other user data", cb); CHECK(a.items && (char *) s >= (char *) a.items && ((char *) s - (char *) a.items) % es == 0, "callback %d not given a slot", cb);
    memcpy(&id, s, 4); CHECK(nev < 4000, "too many callbacks"); ev[nev++] = (struct ev) {cb, ((char *) s - (char *) a.items) / es, id};
}
static void put(void *s) { next_id++; memcpy(s, &next_id, 4); }
static void f_init(void *u, void *s) { rec(0, u, s); put(s); }
static void f_reuse(void *u, void *s) { rec(1, u, s); }
static void f_done(void *u, void *s) { rec(2, u, s); }
static void f_remove(void *u, void *s) { rec(3, u, s); }
static void f_free(void *u) { CHECK(u == &ud, "free_user_data got something else"); freed++; }
static int f_copy(void *u, void *d, const void *s) { rec(4, u, d); if (copy_fail >= 0 && copy_fail-- == 0) return -1; memcpy(d, s, es); return 0; }
static uint32_t slot[400]; static size_t n, ninit;          /* the id in each initialized slot */
static void expect(size_t from, int cb, size_t s, const char *op, size_t *at) {
    if (cb < 4 && !(cbs >> cb & 1)) return;
    CHECK(*at < nev, "%s: callback %d on slot %zu missing", op, cb, s);
    CHECK(ev[*at].cb == cb && ev[*at].slot == s, "%s: expected callback %d on slot %zu, got callback %d on slot %zu", op, cb, s, ev[*at].cb, ev[*at].slot);
    if (cb == 1 || cb == 2 || cb == 3) CHECK(ev[*at].id == slot[s], "%s: slot %zu holds %u, expected %u", op, s, ev[*at].id, slot[s]);
    ++*at;
}
static size_t live_ptrs; static uint8_t pf[2000];
static void f_ptr(void *p) { size_t i = (size_t) p; CHECK(i > 0 && i < 2000 && !pf[i], "pointer %zu freed twice", i); pf[i] = 1; live_ptrs--; }
static void pointers(void) {
    struct { void **items; size_t size; struct cork_array_priv *priv; } p; size_t id = 1; memset(pf, 0, sizeof pf); live_ptrs = 0;
    void *mv[400]; size_t k = 0;
    cork_pointer_array_init(&p, f_ptr); drv_case("pointer array:");
    for (int i = rnd(60); i > 0; i--) switch (rnd(8)) {
        case 0: if (k) { size_t s = rnd(k), c = rnd(k - s + 1); drv_add(" remove_range(%zu,%zu)", s, c); cork_array_remove_range(&p, s, c); for (size_t j = s; j < s + c; j++) CHECK(!mv[j] || pf[(size_t) mv[j]], "removed pointer not freed"); memmove(mv + s, mv + s + c, sizeof *mv * (k - s - c)); k -= c; } break;
        case 1: if (!rnd(3)) { drv_add(" clear"); cork_array_clear(&p); k = 0; CHECK(live_ptrs == 0, "clear left %zu pointers", live_ptrs); } break;
        case 2: drv_add(" append_get"); CHECK(*cork_array_append_get(&p) == NULL, "a new slot is not NULL"); mv[k++] = NULL; break;
        default: drv_add(" append"); cork_array_append(&p, (void *) id); mv[k++] = (void *) id++; live_ptrs++; break;
    }
    for (size_t j = 0; j < k; j++) { CHECK(p.items[j] == mv[j], "pointer %zu", j); CHECK(!mv[j] || !pf[(size_t) mv[j]], "pointer %zu freed too early", j); }
    cork_array_done(&p); CHECK(live_ptrs == 0, "done left %zu pointers", live_ptrs);
    struct cork_string_array s; cork_string_array_init(&s); for (int i = rnd(20); i >= 0; i--) cork_string_array_append(&s, "abc"); if (rnd(2)) cork_array_remove(&s, 0); struct cork_string_array t; cork_string_array_init(&t); for (int i = rnd(20); i > 0; i--) cork_string_array_append(&t, "def"); cork_string_array_copy(&t, &s); cork_array_done(&s); cork_array_done(&t);
}
static void drv_run(void) {
    while (drv_more()) {
        if (!rnd(4)) { pointers(); continue; }
        es = 4 + 4 * rnd(5) + rnd(2); cbs = rnd(3) ? 15 : rnd(16); freed = 0; nev = 0; n = ninit = 0; next_id = 0;
        bool fud = rnd(2); cork_raw_array_init(&a, es); cork_raw_array_set_callback_data(&a, &ud, fud ? f_free : NULL);
        if (cbs & 1) cork_raw_array_set_init(&a, f_init); if (cbs & 2) cork_raw_array_set_reuse(&a, f_reuse); if (cbs & 4) cork_raw_array_set_done(&a, f_done); if (cbs & 8) cork_raw_array_set_remove(&a, f_remove);
        drv_case("element size %zu, callbacks %d:", es, cbs);
        for (int k = rnd(50); k > 0; k--) {
            size_t at = 0; nev = 0;
            switch (rnd(9)) {
            case 0: { drv_add(" clear"); cork_raw_array_clear(&a); for (size_t i = 0; i < ninit; i++) expect(0, 3, i, "clear", &at); n = 0; break; }
            case 1: { if (!n) break; size_t s = rnd(n), c = rnd(n - s + 1); if (rnd(2)) c = 1; drv_add(" remove_range(%zu,%zu)", s, c); bool w = c == 1 && rnd(2); if (w) cork_raw_array_remove(&a, s); else cork_raw_array_remove_range(&a, s, c);
                if (cbs & 12) {
                    uint32_t gone[400]; bool seen[400] = {0}; memcpy(gone, slot + s, 4 * c); memmove(slot + s, slot + s + c, 4 * (n - s - c));
                    for (size_t i = n - c; i < n; i++) { uint32_t id; memcpy(&id, (char *) a.items + i * es, 4); size_t j; for (j = 0; j < c && !(gone[j] == id && !seen[j]); j++); CHECK(j < c, "remove_range: slot %zu given up does not hold a removed element", i); seen[j] = true; slot[i] = id; }
                    for (size_t i = n - c; i < n; i++) expect(0, 3, i, "remove_range", &at);
                } else { memmove(slot + s, slot + s + c, 4 * (n - s - c)); for (size_t i = n - c; i < n; i++) memcpy(&slot[i], (char *) a.items + i * es, 4); }
                n -= c; break; }
            case 2: { size_t d = rnd(100); drv_add(" ensure_size(%zu)", d); cork_raw_array_ensure_size(&a, d); break; }
            case 3: { if (rnd(2)) break; struct cork_raw_array b; cork_raw_array_init(&b, es); size_t c = rnd(3) ? rnd(30) : ninit + rnd(3); if (c > 90) c = 90; bool cf = rnd(2); copy_fail = cf && !rnd(3) ? (int) rnd(c + 1) : -1; uint32_t id = 7000; bool bad = copy_fail >= 0 && (size_t) copy_fail < c; size_t upto = bad ? copy_fail + 1 : c;
                for (size_t i = 0; i < c; i++) { void *e = cork_raw_array_append(&b); memset(e, 1, es); id++; memcpy(e, &id, 4); }
                drv_add(" copy(%zu elements%s%s)", c, cf ? ", copy function" : "", bad ? " failing" : ""); int rc = cork_raw_array_copy(&a, &b, cf ? f_copy : NULL, &ud); CHECK((rc != 0) == bad, "copy returned %d", rc);
                for (size_t i = 0; i < ninit; i++) expect(0, 3, i, "copy", &at);
                for (size_t i = 0; i < c; i++) if (i < ninit) expect(0, 1, i, "copy", &at);
                for (size_t i = 0; i < c; i++) if (i >= ninit) expect(0, 0, i, "copy", &at);
                if (cf) for (size_t i = 0; i < upto; i++) expect(0, 4, i, "copy", &at);
                if (c > ninit) ninit = c; n = bad ? 0 : c; for (size_t i = 0; i < c; i++) memcpy(&slot[i], (char *) a.items + i * es, 4);
                if (!bad) for (size_t i = 0; i < c; i++) CHECK(slot[i] == 7001 + i, "copied element %zu", i);
                cork_raw_array_done(&b); break; }
            default: { if (n > 100) break; drv_add(" append"); void *e = cork_raw_array_append(&a); expect(0, n == ninit ? 0 : 1, n, "append", &at); if (n == ninit) ninit++; put(e); slot[n++] = next_id; break; }
            }
            CHECK(at == nev, "unexpected callback %d on slot %zu", ev[at].cb, ev[at].slot); CHECK(a.size == n, "size %zu expected %zu", a.size, n);
            for (size_t i = 0; i < n; i++) { uint32_t id; memcpy(&id, (char *) a.items + i * es, 4); CHECK(id == slot[i], "element %zu is %u, expected %u", i, id, slot[i]); }
        }
        size_t at = 0; nev = 0; drv_add(" done"); cork_raw_array_done(&a);
        for (size_t i = 0; i < ninit; i++) expect(0, 2, i, "done", &at); CHECK(at == nev, "done: unexpected callback %d on slot %zu", ev[at].cb, ev[at].slot); CHECK(freed == fud, "user data freed %d times", freed);
    }
}
