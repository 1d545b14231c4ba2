#include "libcork/core.h"
#include "drv.h"
#include <setjmp.h>
static sigjmp_buf jb; static volatile bool catching;
static void on_abort(int s) { if (catching) siglongjmp(jb, 1); drv_sig(s); }
static size_t es; static int ninit, ndone, nfree, nfree_want; static int ud, ud2;
#define MAXO 4096
static uint8_t *seen[MAXO]; static bool fin[MAXO];
static void init(void *u, void *o) { CHECK(u == &ud, "init gets other user data"); CHECK(ninit < MAXO, "too many"); for (int i = 0; i < ninit; i++) CHECK(seen[i] != o, "object initialized twice"); seen[ninit++] = o; memset(o, 0x31, es); }
static void done(void *u, void *o) { CHECK(u == &ud, "done gets other user data"); int i; for (i = 0; i < ninit && seen[i] != o; i++); CHECK(i < ninit, "finalized an object that was never initialized"); CHECK(!fin[i], "finalized twice"); fin[i] = true; ndone++; memset(o, 0x32, es); }
static void fr(void *u) { CHECK(u == &ud || u == &ud2, "free gets other user data"); nfree++; }
static void drv_run(void) {
    signal(SIGABRT, on_abort); freopen("/dev/null", "w", stderr);
    cork_set_allocator(cork_debug_alloc_new(cork_allocator));
    for (int cnt = 256; cnt <= 65536; cnt *= 256) {
        drv_case("free of a pool with %d objects in use", cnt); struct cork_mempool *mp = cork_mempool_new_size(4); void **all = calloc(cnt, sizeof *all); for (int i = 0; i < cnt; i++) all[i] = cork_mempool_new_object(mp);
        catching = true; if (sigsetjmp(jb, 1) == 0) { cork_mempool_free(mp); catching = false; FAIL("a pool with %d objects in use is freed", cnt); } catching = false;
        while (cnt && all[0]) { for (int i = 0; i < cnt; i++) cork_mempool_free_object(mp, all[i]); break; } cork_mempool_free(mp); free(all);
    }
    while (drv_more()) {
        es = rnd(4) ? rnd(40) : rnd(300); size_t bs = rnd(3) ? rnd(400) : rnd(5000); bool def = rnd(6) == 0, cbs = rnd(4) != 0; ninit = ndone = nfree = nfree_want = 0; memset(fin, 0, sizeof fin);
        drv_case("element size %zu, block size %zu%s, callbacks %d:", es, bs, def ? " (default)" : "", cbs);
        struct cork_mempool *mp = def ? cork_mempool_new_size(es) : cork_mempool_new_size_ex(es, bs);
        bool own = rnd(2);
        if (rnd(3) == 0) { cork_mempool_set_user_data(mp, &ud2, own ? fr : NULL); nfree_want += own; }
        if (cbs) { if (rnd(2)) { cork_mempool_set_user_data(mp, &ud, own ? fr : NULL); cork_mempool_set_init_object(mp, init); cork_mempool_set_done_object(mp, done); } else cork_mempool_set_callbacks(mp, &ud, own ? fr : NULL, init, done); }
        else cork_mempool_set_user_data(mp, &ud, own ? fr : NULL);
        CHECK(nfree == nfree_want, "user data released %d times instead of %d", nfree, nfree_want); nfree_want += own;
        static uint8_t *obj[256]; static uint8_t tag[256]; int n = 0, ops = rnd(300), bias = rnd(9), gone = 0; static uint8_t *freed[1024];
        for (int k = 0; k < ops; k++) {
            if ((int) rnd(10) < 1 + bias && n < 256) {
                drv_add(" new"); int before = ninit; uint8_t *p = cork_mempool_new_object(mp);
                CHECK((uintptr_t) p > 4096, "object at %p", p); CHECK((uintptr_t) p % 8 == 0, "object is not aligned");
                if (cbs) { int i; for (i = 0; i < ninit && seen[i] != p; i++); CHECK(i < ninit, "an object that was not initialized is given out"); CHECK(!ndone, "finalized early");
                    bool avail = before > n; CHECK((ninit == before) == avail, "%d objects initialized although %d of %d are free", ninit - before, before - n, before); }
                for (int i = 0; i < n; i++) CHECK(p + es <= obj[i] || obj[i] + es <= p || es == 0, "objects %p and %p of %zu bytes overlap", p, obj[i], es);
                if (es == 0) for (int i = 0; i < n; i++) CHECK(p != obj[i], "object in use given out");
                if (gone) { bool f = false; for (int i = 0; i < gone; i++) if (freed[i] == p) { freed[i] = freed[--gone]; f = true; break; } (void) f; }
                obj[n] = p; tag[n] = rnd(256); memset(p, tag[n], es); n++;
            } else if (n) {
                int i = rnd(n); drv_add(" free %d", i); for (size_t b = 0; b < es; b++) CHECK(obj[i][b] == tag[i], "byte %zu of an object in use has changed", b);
                cork_mempool_free_object(mp, obj[i]); if (gone < 1024) freed[gone++] = obj[i]; n--; obj[i] = obj[n]; tag[i] = tag[n];
            }
        }
        drv_add(" end");
        if (n) { catching = true; if (sigsetjmp(jb, 1) == 0) { cork_mempool_free(mp); catching = false; FAIL("a pool with %d objects in use is freed", n); } catching = false; }
        while (n) { n--; for (size_t b = 0; b < es; b++) CHECK(obj[n][b] == tag[n], "byte %zu of an object in use has changed", b); cork_mempool_free_object(mp, obj[n]); }
        cork_mempool_free(mp);
        CHECK(nfree == nfree_want, "user data released %d times instead of %d", nfree, nfree_want);
        if (cbs) CHECK(ndone == ninit, "%d of %d objects finalized", ndone, ninit);
    }
}
