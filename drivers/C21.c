#include "libcork/core.h"
#include "drv.h"
#include <time.h>
static void drv_run(void) {
    static const char *zones[] = { "UTC", "EST5EDT,M3.2.0,M11.1.0", "XXX-13", "YYY+11:30", "ZZZ-5:45" };
    while (drv_more()) {
        setenv("TZ", zones[rnd(5)], 1); tzset();
        uint64_t ts = rnd(3) ? ((uint64_t) rnd(1u << 31) * 2 + rnd(2)) << 32 | (rnd(4) ? rnd(1u << 31) * 2u + rnd(2) : rnd(2) ? 0xffffffffu - rnd(5) : rnd(5)) : rnd_edge64(); bool local = rnd(2);
        char f[400], want[4000], *p = f, *w = want; bool bad = false; int n = rnd(8); *w = 0; static char pre[64]; int pl = rnd(3) ? 0 : rnd(40); for (int i = 0; i < pl; i++) pre[i] = 'a' + rnd(26); pre[pl] = 0; w += sprintf(w, "%s", pre);
        time_t t = ts >> 32; struct tm tm; if (local) localtime_r(&t, &tm); else gmtime_r(&t, &tm);
        for (int k = 0; k < n; k++) {
            int l = rnd(3) ? rnd(4) : rnd(20); for (int i = 0; i < l; i++) { char c = 1 + rnd(255); if (c == '%') c = '\\'; if (rnd(3) == 0) c = "0123456789fYmsd"[rnd(15)]; *p++ = c; if (!bad) { *w++ = c; *w = 0; } }
            *p++ = '%';
            int kind = rnd(14);
            if (kind == 0 && k == n - 1 && rnd(2)) { int d = rnd(3); while (d--) *p++ = '0' + rnd(10); bad = true; break; }
            if (kind <= 1) { char c; do c = 1 + rnd(255); while (c == '%' || strchr("YmdHMSsf0123456789", c)); if (rnd(4) == 0) { *p++ = '3'; } *p++ = c; bad = true; }
            else if (kind <= 5) { unsigned long long v = rnd(6) ? 1 + rnd(9) : rnd(3) == 0 ? 0 : rnd(3) == 0 ? 10 + rnd(10) : rnd(2) ? (1ull << 32) + rnd(12) : rnd_edge64(); bool none = rnd(20) == 0; if (none) v = 0; if (!none) { int z = rnd(10) ? 0 : rnd(12); while (z--) *p++ = '0'; p += sprintf(p, "%llu", v); } *p++ = 'f';
                if (v < 1 || v > 9) bad = true; else if (!bad) { uint64_t d = 1; for (unsigned i = 0; i < v; i++) d *= 10; uint64_t g = ts & 0xffffffffu, fr = ((g + ((1ull << 31) / d)) * d) >> 32; if (fr >= d) fr = d - 1; w += sprintf(w, "%0*llu", (int) v, (unsigned long long) fr); } }
            else { static const char L[] = "YmdHMSs%"; char c = L[kind - 6]; *p++ = c; if (!bad) switch (c) { case 'Y': w += sprintf(w, "%04d", tm.tm_year + 1900); break; case 'm': w += sprintf(w, "%02d", tm.tm_mon + 1); break; case 'd': w += sprintf(w, "%02d", tm.tm_mday); break; case 'H': w += sprintf(w, "%02d", tm.tm_hour); break; case 'M': w += sprintf(w, "%02d", tm.tm_min); break; case 'S': w += sprintf(w, "%02d", tm.tm_sec); break; case 's': w += sprintf(w, "%lu", (unsigned long) (ts >> 32)); break; case '%': *w++ = '%'; *w = 0; } }
        }
        *p = 0; char *fmt = strdup(f);      /* an exact block: reading past the end is seen */
        drv_case("%s time %llu.%llu with format \"%s\" after \"%s\"", local ? "local" : "utc", (unsigned long long) (ts >> 32), (unsigned long long) (ts & 0xffffffffu), fmt, pre);
        struct cork_buffer b = CORK_BUFFER_INIT(); cork_buffer_set_string(&b, pre); cork_error_clear();
        int rc = local ? cork_timestamp_format_local(ts, fmt, &b) : cork_timestamp_format_utc(ts, fmt, &b);
        CHECK((rc != 0) == bad, "returns %d", rc); CHECK(cork_error_occurred() == bad, "error is %sset", bad ? "not " : ""); if (!bad) CHECK(b.size == strlen(want) && !strcmp(b.buf, want), "\"%s\" instead of \"%s\"", (char *) b.buf, want);
        else CHECK(b.size >= (size_t) pl && !memcmp(b.buf, pre, pl), "the text before is lost");
        cork_buffer_done(&b); cork_error_clear(); free(fmt);
    }
}
