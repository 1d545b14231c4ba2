#include "libcork/core.h"
#include "libcork/helpers/errors.h"
#include "drv.h"
#include <pthread.h>
struct m { uint32_t code; char msg[6000]; bool know; uint64_t r; const char *who; char log[2000]; };
static uint64_t rr(struct m *m, uint64_t n) { m->r = m->r * 6364136223846793005ULL + 1442695040888963407ULL; return n ? (m->r >> 33) % n : 0; }
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
#define BAD(...) do { pthread_mutex_lock(&mu); snprintf(drv_buf, sizeof drv_buf, "%s thread:%s", m->who, m->log); FAIL(__VA_ARGS__); } while (0)
#define MUST(c, ...) do { if (!(c)) BAD(__VA_ARGS__); } while (0)
static void lg(struct m *m, const char *f, ...) { size_t n = strlen(m->log); va_list ap; va_start(ap, f); vsnprintf(m->log + n, sizeof m->log - n, f, ap); va_end(ap); }
static void vset(uint32_t c, const char *f, ...) { va_list ap; va_start(ap, f); cork_error_set_vprintf(c, f, ap); va_end(ap); }
static void vpre(const char *f, ...) { va_list ap; va_start(ap, f); cork_error_prefix_vprintf(f, ap); va_end(ap); }
static int fails(int r) { if (r) { cork_error_set_string(77, "inner"); return -1; } return 0; }
static void *pfails(int r, struct m *m) { if (r) { cork_error_set_string(78, "innerp"); return NULL; } return m; }
static int c_rii(int r) { rii_check(fails(r)); return 0; }
static void *c_rpi(int r, void *x) { rpi_check(fails(r)); return x; }
static int c_rip(int r, struct m *m) { rip_check(pfails(r, m)); return 0; }
static void *c_rpp(int r, struct m *m) { rpp_check(pfails(r, m)); return m; }
static int c_rie(int r) { rie_check(fails(r)); return 0; }
static void run(struct m *m) {
    int ops = rr(m, 24); char s[600], t[700];
    for (int i = 0; i < ops; i++) {
        uint32_t code = rr(m, 5) ? (uint32_t) (rr(m, 1 << 31) * 2654435761u) : (uint32_t) rr(m, 3); size_t n = rr(m, 3) ? rr(m, 12) : rr(m, 500); for (size_t k = 0; k < n; k++) s[k] = 33 + rr(m, 90); s[n] = 0; int num = (int) rr(m, 1 << 31);
        bool room = strlen(m->msg) + n + 100 < sizeof m->msg; char old[6000]; strcpy(old, m->msg);
        switch (rr(m, 15)) {
        case 0: lg(m, " clear"); cork_error_clear(); m->code = 0; m->msg[0] = 0; m->know = true; break;
        case 1: lg(m, " set_string(%u, %s)", code, s); cork_error_set_string(code, s); m->code = code; strcpy(m->msg, s); m->know = true; break;
        case 2: lg(m, " set_printf(%u, <%%s:%%d>, %s, %d)", code, s, num); cork_error_set_printf(code, "<%s:%d>", s, num); m->code = code; sprintf(m->msg, "<%s:%d>", s, num); m->know = true; break;
        case 3: lg(m, " set_vprintf(%u, %s)", code, s); vset(code, "%d%s%%", num, s); m->code = code; sprintf(m->msg, "%d%s%%", num, s); m->know = true; break;
        case 4: { uint32_t c2 = rr(m, 1 << 31); lg(m, " set(%u, %u, %s)", code, c2, s); cork_error_set(code, c2, "%s", s); m->code = code + c2; strcpy(m->msg, s); m->know = true; break; }
        case 5: if (!m->know || !room) break; lg(m, " prefix_string(%s)", s); cork_error_prefix_string(s); sprintf(m->msg, "%s%s", s, old); break;
        case 6: if (!m->know || !room) break; lg(m, " prefix_printf(%s)", s); cork_error_prefix_printf("%s: %d", s, num); sprintf(m->msg, "%s: %d%s", s, num, old); break;
        case 7: if (!m->know || !room) break; lg(m, " prefix_vprintf(%s)", s); vpre("%s;", s); sprintf(m->msg, "%s;%s", s, old); break;
        case 8: if (!m->know || !room) break; lg(m, " prefix(%s)", s); cork_error_prefix("%s/", s); sprintf(m->msg, "%s/%s", s, old); break;
        case 9: num = rr(m, 140); lg(m, " system_error_set_explicit(%d)", num); cork_system_error_set_explicit(num); m->code = num; strcpy(m->msg, strerror(num)); m->know = true; break;
        case 10: num = rr(m, 140); lg(m, " system_error_set, errno %d", num); errno = num; cork_system_error_set(); m->code = num; strcpy(m->msg, strerror(num)); m->know = true; break;
        case 11: lg(m, " unknown"); if (rr(m, 2)) { cork_unknown_error_set_(s); sprintf(m->msg, "Unknown error in %s", s); } else { cork_unknown_error(); strcpy(m->msg, "Unknown error in run"); } m->code = CORK_UNKNOWN_ERROR; m->know = true; break;
        case 12: { int f = rr(m, 2), w = rr(m, 5); lg(m, " check %d %d", w, f); if (w == 4) { cork_error_clear(); m->code = 0; m->msg[0] = 0; m->know = true; }
            int bad = w == 0 ? c_rii(f) : w == 1 ? c_rpi(f, m) != (f ? NULL : m) || f : w == 2 ? c_rip(f, m) : w == 3 ? c_rpp(f, m) != (f ? NULL : m) || f : c_rie(f);
            MUST(!!bad == f, "the checking macro reports %d although the call %s", bad, f ? "fails" : "succeeds"); if (f) { bool p = w == 2 || w == 3; m->code = p ? 78 : 77; strcpy(m->msg, p ? "innerp" : "inner"); m->know = true; } break; }
        case 13: { char tt[40]; sprintf(tt, "p%d", num % 1000); lg(m, " parse/undefined/redefined(%s)", tt); switch (num % 3) { case 0: cork_parse_error("%s", tt); m->code = CORK_PARSE_ERROR; break; case 1: cork_undefined("%s", tt); m->code = CORK_UNDEFINED; break; default: cork_redefined("%s", tt); m->code = CORK_REDEFINED; } strcpy(m->msg, tt); m->know = true; break; }
        default: lg(m, " ask"); (void) t; break;
        }
        MUST(cork_error_occurred() == (m->code != 0), "error_occurred is %d with code %u", cork_error_occurred(), m->code);
        MUST(cork_error_code() == m->code, "code %u instead of %u", cork_error_code(), m->code);
        if (m->know && m->msg[0]) { const char *g = cork_error_message(); MUST(g && !strcmp(g, m->msg), "message \"%s\" instead of \"%s\"", g ? g : "(null)", m->msg); }
    }
}
static void *th(void *v) { struct m *m = v; m->code = 0; m->msg[0] = 0; m->know = false; m->who = "second"; cork_error_occurred(); run(m); return NULL; }
static void drv_run(void) {
    static struct m a, b; a.who = "first";
    while (drv_more()) {
        drv_case("(two threads)"); a.r = rnd64(); b.r = rnd64(); a.log[0] = b.log[0] = 0; lg(&a, " [code %u, message \"%.100s\"]", a.code, a.msg);
        pthread_t t; bool two = rnd(8) == 0; if (two) CHECK(!pthread_create(&t, NULL, th, &b), "pthread_create");
        run(&a); if (two) pthread_join(t, NULL);
        { struct m *m = &a; MUST(cork_error_code() == m->code, "another thread changed the code to %u", cork_error_code()); if (m->know && m->msg[0]) MUST(!strcmp(cork_error_message(), m->msg), "another thread changed the message"); }
    }
}
