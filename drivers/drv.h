/* Replay / bounded drivers: run the real code of /repo on concrete inputs against a reference oracle. */
#ifndef DRV_H
#define DRV_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <stdbool.h>
#include <time.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <assert.h>
#include <limits.h>
void __sanitizer_set_death_callback(void (*)(void));
static char drv_buf[1 << 16];
static uint64_t drv_state = 88172645463325252ULL;
static double drv_deadline;
static uint64_t drv_count, drv_distinct;
static uint32_t drv_alarm = 20;
static double drv_now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static uint64_t rnd64(void) { uint64_t x = drv_state; x ^= x << 13; x ^= x >> 7; x ^= x << 17; drv_state = x; return x * 2685821657736338717ULL; }
static uint64_t rnd(uint64_t n) { return n ? (rnd64() >> 11) % n : 0; }
/* values biased to edges */
static uint64_t rnd_edge64(void) {
    switch (rnd(6)) {
    case 0: return rnd(4);
    case 1: return ~(uint64_t) 0 - rnd(4);
    case 2: return ((uint64_t) 1 << rnd(64)) + rnd(3) - 1;
    case 3: return rnd64() >> rnd(64);
    default: return rnd64();
    }
}
static bool drv_more(void) { return drv_now() < drv_deadline; }
static void drv_case(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); vsnprintf(drv_buf, sizeof drv_buf, fmt, ap); va_end(ap);
    drv_count++; alarm(drv_alarm);
}
static void drv_add(const char *fmt, ...) {
    size_t n = strlen(drv_buf);
    va_list ap; va_start(ap, fmt); vsnprintf(drv_buf + n, sizeof drv_buf - n, fmt, ap); va_end(ap);
}
static void drv_dump(void) { fprintf(stdout, "FAILING-INPUT: %s\n", drv_buf); fflush(stdout); }
static void drv_sig(int s) { fprintf(stdout, "SIGNAL %d\n", s); drv_dump(); _exit(3); }
#define FAIL(...) do { fprintf(stdout, "MISMATCH at %s:%d: ", __FILE__, __LINE__); fprintf(stdout, __VA_ARGS__); fprintf(stdout, "\n"); drv_dump(); _exit(2); } while (0)
#define CHECK(c, ...) do { if (!(c)) FAIL(__VA_ARGS__); } while (0)
static const char *hexs(const void *p, size_t n) {
    static char b[8][4096]; static int k; char *o = b[k++ & 7]; size_t i;
    for (i = 0; i < n && i < 2000; i++) sprintf(o + 2 * i, "%02x", ((const uint8_t *) p)[i]);
    o[2 * i] = 0; return o;
}
static void drv_run(void);
int main(int argc, char **argv) {
    uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 0) : 1;
    double secs = argc > 2 ? atof(argv[2]) : 5;
    drv_state ^= seed * 0x9E3779B97F4A7C15ULL; if (!drv_state) drv_state = 1;
    for (int i = 0; i < 10; i++) rnd64();
    drv_deadline = drv_now() + secs;
    signal(SIGALRM, drv_sig); signal(SIGABRT, drv_sig);
    __sanitizer_set_death_callback(drv_dump);
    drv_case("start");
    drv_run();
    alarm(0);
    printf("OK cases=%llu distinct=%llu\n", (unsigned long long) drv_count, (unsigned long long) drv_distinct);
    return 0;
}
#endif
