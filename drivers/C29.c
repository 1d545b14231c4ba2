#include "libcork/core.h"
#include "libcork/os.h"
#include "drv.h"
#include <sys/wait.h>
#include <sys/mman.h>
/* each case registers a sequence of functions in a child process and exits; the calls are recorded in shared memory */
#define MAXF 24
struct shared { int n, calls[256]; } *sh;
static void hit(int i) { if (sh->n < 256) sh->calls[sh->n++] = i; }
static int late_on = -1, late_prio;
static void late(void) { hit(100); }
#define F(i) static void f##i(void) { hit(i); if (i == late_on) cork_cleanup_at_exit_named("late", late_prio, late); }
F(0) F(1) F(2) F(3) F(4) F(5) F(6) F(7) F(8) F(9) F(10) F(11) F(12) F(13) F(14) F(15) F(16) F(17) F(18) F(19) F(20) F(21) F(22) F(23)
static cork_cleanup_function fs[MAXF] = { f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23 };
static void drv_run(void) {
    sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); CHECK(sh != MAP_FAILED, "mmap");
    while (drv_more()) {
        int n = rnd(MAXF), pr[MAXF], mode = rnd(4); drv_case("priorities:"); sh->n = 0;
        for (int i = 0; i < n; i++) { pr[i] = mode == 0 ? (int) rnd(3) : mode == 1 ? (int) rnd(100) - 50 : mode == 2 ? (int) rnd_edge64() : (int) (rnd(2) ? INT_MAX - rnd(2) : INT_MIN + rnd(2)); drv_add(" %d", pr[i]); }
        late_on = n && rnd(4) == 0 ? (int) rnd(n) : -1; late_prio = late_on >= 0 ? (rnd(2) ? INT_MAX : pr[rnd(n)]) : 0; if (late_on >= 0) drv_add(" (function %d registers another one of priority %d)", late_on, late_prio);
        pid_t p = fork(); CHECK(p >= 0, "fork");
        if (p == 0) { char name[40]; for (int i = 0; i < n; i++) { sprintf(name, "cleanup %d", i); cork_cleanup_at_exit_named(name, pr[i], fs[i]); memset(name, 'x', 20); } fflush(stdout); exit(0); }
        int st; waitpid(p, &st, 0); CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "exit status %x", st);
        /* expected order: stable sort by priority; one registered while they run comes after those already run */
        int want[MAXF + 1], w = 0; bool done[MAXF] = { 0 }; bool pend = false;
        for (;;) { int b = -1; for (int i = 0; i < n; i++) if (!done[i] && (b < 0 || pr[i] < pr[b])) b = i; if (pend && (b < 0 || late_prio < pr[b])) { want[w++] = 100; pend = false; continue; } if (b < 0) break; done[b] = true; want[w++] = b; if (b == late_on) pend = true; }
        CHECK(sh->n == w, "%d functions ran instead of %d", sh->n, w); for (int i = 0; i < w; i++) CHECK(sh->calls[i] == want[i], "call %d is to function %d instead of %d", i, sh->calls[i], want[i]);
    }
}
