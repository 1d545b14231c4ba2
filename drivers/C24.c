#include "libcork/core.h"
#include "drv.h"
#define MAXN 4000
struct node { int id; int n; struct node *kid[]; };
static struct node *node[MAXN]; static int held[MAXN], count[MAXN], made; static bool freed[MAXN], seen[MAXN], leaf[MAXN], buffered[MAXN];
static bool at_rest; static int due;
static void reach(int i) { static int st[MAXN]; int sp = 0; if (seen[i]) return; seen[i] = true; st[sp++] = i; while (sp) { int x = st[--sp]; for (int k = 0; k < node[x]->n; k++) if (node[x]->kid[k]) { int y = node[x]->kid[k]->id; if (!seen[y]) { seen[y] = true; st[sp++] = y; } } } }
static void reachable(void) { memset(seen, 0, sizeof seen); for (int i = 0; i < made; i++) if (held[i] > 0) reach(i); }
static bool fresh; 
static void on_free(void *o) { struct node *x = o; int i = x->id; CHECK(i >= 0 && i < made && node[i] == x, "free of something that is no object"); CHECK(!freed[i], "object %d is freed twice", i); if (!fresh) { reachable(); fresh = true; } CHECK(!seen[i], "object %d is freed while it can be reached", i); freed[i] = true; }
static void on_recurse(struct cork_gc *gc, void *o, cork_gc_recurser rec, void *ud) { struct node *x = o; CHECK(x->id >= 0 && x->id < made && !freed[x->id], "a freed object is visited"); for (int k = 0; k < x->n; k++) rec(gc, x->kid[k], ud); }
static struct cork_gc_obj_iface iface = { on_free, on_recurse }, iface_leaf = { on_free, NULL };
static int make(int n) { struct node *x = cork_gc_alloc(sizeof(struct node) + n * sizeof(struct node *), n ? &iface : &iface_leaf); int i = made++; node[i] = x; x->id = i; x->n = n; memset(x->kid, 0, n * sizeof(struct node *)); held[i] = 1; count[i] = 1; freed[i] = buffered[i] = false; return i; }
static void dropped(int i) { count[i]--; if (count[i]) buffered[i] = true; }
/* what must be freed at once: count zero, never a possible root */
static void drop(int i) { held[i]--; fresh = false; int c = --count[i]; bool now = c == 0 && !buffered[i]; if (c) buffered[i] = true; bool has = false; if (now) { for (int k = 0; k < node[i]->n; k++) has |= node[i]->kid[k] != NULL; if (has) for (int k = 0; k < node[i]->n; k++) if (node[i]->kid[k]) dropped(node[i]->kid[k]->id); } else if (c == 0) { for (int k = 0; k < node[i]->n; k++) if (node[i]->kid[k]) dropped(node[i]->kid[k]->id); }
    cork_gc_decref(node[i]); CHECK(!now || freed[i], "object %d is not freed with its last reference", i); }
static void alive(const char *w) { if (fresh) return; reachable(); fresh = true; for (int i = 0; i < made; i++) CHECK(!(seen[i] && freed[i]), "%s: object %d was freed though it can be reached", w, i); }
static void collect(void) { fresh = false; reachable(); fresh = true; cork_gc_done(); for (int i = 0; i < made; i++) CHECK(freed[i] == !seen[i], "after collecting, object %d is %s but %s be reached", i, freed[i] ? "freed" : "not freed", seen[i] ? "can" : "cannot"); for (int i = 0; i < made; i++) buffered[i] = false; }
static void drv_run(void) {
    cork_set_allocator(cork_debug_alloc_new(cork_allocator)); cork_gc_init();
    while (drv_more()) {
        bool big = rnd(40) == 0; made = 0; fresh = false; int ops = big ? 3000 + rnd(2000) : rnd(60); int wide = rnd(3) ? 3 : 8; bool odd = false; drv_case("objects:");
        if (big) { int w = 900 + rnd(600); drv_add(" one object with %d references to others that are held, released twice", w); int p = make(w); for (int k = 0; k < w; k++) { int c = make(rnd(2)); node[p]->kid[k] = cork_gc_incref(node[c]); count[c]++; if (node[c]->n && rnd(2)) { node[c]->kid[0] = cork_gc_incref(node[p]); count[p]++; } } ops = 0;
            cork_gc_incref(node[p]); held[p]++; count[p]++; drop(p); alive("after the first release"); drop(p); alive("after the second release"); for (int k = 1; k <= w; k++) if (rnd(2)) { held[k]--; fresh = false; cork_gc_decref(node[k]); } alive("after releasing some"); }
        for (int o = 0; o < ops && made < MAXN - 1; o++) {
            int i = made ? (int) rnd(made) : 0;
            switch (made < 2 ? 0 : rnd(8)) {
            case 0: { int n = rnd(wide); drv_add(" %d=new(%d)", made, n); make(n); break; }
            case 1: case 2: case 3: reachable(); if (!seen[i] || !node[i]->n) break; { int j = rnd(made), k = rnd(node[i]->n); if (!seen[j]) break; struct node *old = node[i]->kid[k]; drv_add(" %d[%d]=%d", i, k, j); void *r = cork_gc_incref(node[j]); CHECK(r == node[j], "incref returns something else"); count[j]++; node[i]->kid[k] = node[j]; fresh = false;
                if (old) { int x = old->id; held[x]++; drop(x); } break; }
            case 4: reachable(); if (!seen[i] || !node[i]->n) break; { int k = rnd(node[i]->n); struct node *old = node[i]->kid[k]; if (!old) break; drv_add(" %d[%d]=NULL", i, k); node[i]->kid[k] = NULL; int x = old->id; held[x]++; drop(x); break; }
            case 5: reachable(); if (!seen[i]) break; drv_add(" hold(%d)", i); cork_gc_incref(node[i]); held[i]++; count[i]++; break;
            case 6: if (!held[i]) break; drv_add(" drop(%d)", i); drop(i); break;
            case 7: if (rnd(4)) break; drv_add(" collect"); collect(); break;
            }
            alive("at rest");
        }
        (void) odd; cork_gc_incref(NULL); cork_gc_decref(NULL);
        for (int i = 0; i < made; i++) while (held[i] > 0) { held[i]--; fresh = false; cork_gc_decref(node[i]); }
        drv_add(" drop everything and collect"); collect(); for (int i = 0; i < made; i++) CHECK(freed[i], "object %d is never freed", i);
    }
}
