#define _GNU_SOURCE
#include "libcork/core.h"
#include "libcork/ds.h"
#include "libcork/ds/stream.h"
#include "drv.h"
#include <sys/syscall.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <stdarg.h>
/* read, write, open and close are replaced for the descriptors from MAGIC on: short counts, interruptions and failures */
#define MAGIC 5000
#define MAXS 20000
static unsigned char src[MAXS], dst[MAXS * 2]; static size_t nsrc, pos, ndst; static int failat, calls, failed, opened, closed, openfail, closefail, chunk; static bool intr; static int rfail;
static bool hiccup(void) { if (intr && rnd(3) == 0) { errno = EINTR; return true; } return false; }
static size_t part(size_t n) { size_t m = chunk == 0 ? n : 1 + rnd(chunk); return m < n ? m : n; }
static ssize_t src_read(void *b, size_t n) { if (hiccup()) return -1; if (failat >= 0 && calls++ >= failat) { failed = rfail = 1; errno = EIO; return -1; } if (n > nsrc - pos) n = nsrc - pos; if (n == 0) return 0; n = part(n); memcpy(b, src + pos, n); pos += n; return n; }
static ssize_t dst_write(const void *b, size_t n) { if (hiccup()) return -1; if (failat >= 0 && calls++ >= failat) { failed = 1; errno = ENOSPC; return -1; } if (n == 0) return 0; n = part(n); CHECK(ndst + n <= sizeof dst, "too much is written"); memcpy(dst + ndst, b, n); ndst += n; return n; }
ssize_t read(int fd, void *b, size_t n) { return fd < MAGIC ? syscall(SYS_read, fd, b, n) : src_read(b, n); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t max) { CHECK(n <= max, "read buffer of %zu bytes, %zu asked for", max, n); return read(fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { return fd < MAGIC ? syscall(SYS_write, fd, b, n) : dst_write(b, n); }
int close(int fd) { if (fd < MAGIC) return syscall(SYS_close, fd); if (hiccup()) return -1; closed++; if (closefail) { errno = EIO; failed = 1; return -1; } return 0; }
int open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int mode = va_arg(a, int); va_end(a); if (strncmp(p, "/magic", 6)) return syscall(SYS_openat, AT_FDCWD, p, fl, mode); CHECK(fl == 12345, "flags"); if (hiccup()) return -1; if (openfail) { failed = 1; errno = ENOENT; return -1; } opened++; return MAGIC + 1; }
static FILE *special; size_t fwrite(const void *b, size_t s, size_t n, FILE *f) { if (f != special) return fwrite_unlocked(b, s, n, f); if (failat >= 0 && calls++ >= failat && s * n) { size_t m = rnd(s * n); memcpy(dst + ndst, b, m); ndst += m; failed = 1; errno = ENOSPC; return m / s; } memcpy(dst + ndst, b, s * n); ndst += s * n; return n; }
static ssize_t ck_read(void *c, char *b, size_t n) { return src_read(b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) { ssize_t r = dst_write(b, n); return r < 0 ? 0 : r; }
int __open_2(const char *p, int fl) { return open(p, fl); }
int open64(const char *p, int fl, ...) { return open(p, fl, 0); }
int __open64_2(const char *p, int fl) { return open(p, fl, 0); }
/* a consumer that checks what it is given */
struct mine { struct cork_stream_consumer p; size_t got; int eofs, fail_at, n, rc, eofrc; bool bad; } me;
static int m_data(struct cork_stream_consumer *s, const void *b, size_t n, bool first) {
    struct mine *m = (void *) s; CHECK(m == &me, "the consumer"); CHECK(!m->rc, "data after the consumer failed"); CHECK(!m->eofs, "data after the end of file"); CHECK(n > 0, "an empty chunk"); CHECK(first == (m->got == 0), "first is %d for byte %zu", first, m->got);
    CHECK(m->got + n <= pos && !memcmp(b, src + m->got, n), "chunk of %zu bytes at %zu", n, m->got); m->got += n; if (m->n++ == m->fail_at) { m->rc = -7; return m->rc; } return 0; }
static int m_eof(struct cork_stream_consumer *s) { struct mine *m = (void *) s; CHECK(m == &me && !m->rc, "end of file after a failure"); m->eofs++; return m->eofrc; }
static void m_free(struct cork_stream_consumer *s) {}
static void drv_run(void) {
    while (drv_more()) {
        int mode = rnd(8); nsrc = rnd(4) == 0 ? (size_t) rnd(4) * 4096 + rnd(3) : rnd(3) == 0 ? rnd(MAXS) : rnd(40); for (size_t i = 0; i < nsrc; i++) src[i] = rnd(256);
        pos = ndst = 0; calls = failed = rfail = opened = closed = openfail = closefail = 0; intr = rnd(2); chunk = rnd(3) ? 0 : 1 + rnd(5000); if (nsrc < 200 && rnd(2)) chunk = 1 + rnd(9); failat = rnd(3) ? -1 : (int) rnd(4); drv_case("mode %d, %zu bytes, %s, chunks of up to %d, call %d fails", mode, nsrc, intr ? "interruptions" : "no interruptions", chunk, failat);
        memset(&me, 0, sizeof me); me.p.data = m_data; me.p.eof = m_eof; me.p.free = m_free; me.fail_at = rnd(4) ? -1 : (int) rnd(4); me.eofrc = rnd(4) ? 0 : -3; cork_error_clear(); int rc;
        if (mode <= 2) {
            if (mode == 0) rc = cork_consume_fd(&me.p, MAGIC);
            else if (mode == 1) { cookie_io_functions_t io = { ck_read, NULL, NULL, NULL }; FILE *f = fopencookie(NULL, "r", io); if (rnd(2)) setvbuf(f, NULL, _IONBF, 0); rc = cork_consume_file(&me.p, f); fclose(f); }
            else { openfail = rnd(5) == 0; closefail = rnd(5) == 0; drv_add(" open fails %d, close fails %d", openfail, closefail); rc = cork_consume_file_from_path(&me.p, "/magic", 12345); CHECK(opened == !openfail && closed == opened, "opened %d times, closed %d times", opened, closed); }
            bool ok = !failed && !me.rc && !(me.eofs && me.eofrc); CHECK((rc == 0) == ok, "result %d, read failed %d, consumer returned %d, end of file %d", rc, failed, me.rc, me.eofrc);
            CHECK(me.eofs == (!openfail && !me.rc && !rfail), "%d end of file notifications", me.eofs); if (me.eofs) CHECK(me.got == nsrc, "%zu bytes delivered", me.got);
            if (failed && !me.rc) CHECK(cork_error_occurred(), "no error is set");
        } else if (mode <= 6) {
            struct cork_stream_consumer *c = NULL; FILE *f = NULL; struct cork_buffer b = CORK_BUFFER_INIT();
            if (mode == 3) c = cork_fd_consumer_new(MAGIC); else if (mode == 4) { cookie_io_functions_t io = { NULL, ck_write, NULL, NULL }; intr = false; chunk = 0; f = fopencookie(NULL, "w", io); setvbuf(f, NULL, _IONBF, 0); special = rnd(2) ? f : NULL; c = cork_file_consumer_new(f); }
            else if (mode == 5) { openfail = rnd(5) == 0; closefail = rnd(5) == 0; c = cork_file_from_path_consumer_new("/magic", 12345); CHECK((c == NULL) == openfail, "open"); if (!c) { CHECK(cork_error_occurred(), "no error"); continue; } } else { c = cork_buffer_to_stream_consumer(&b); failat = -1; }
            size_t at = 0; bool first = true; rc = 0; while (at < nsrc) { size_t n = 1 + rnd(nsrc); if (n > nsrc - at) n = nsrc - at; rc = cork_stream_consumer_data(c, src + at, n, first); if (rc) break; at += n; first = false; if (mode != 6) CHECK(ndst == at, "%zu of %zu bytes written", ndst, at); }
            CHECK((rc != 0) == (failed != 0), "result %d, write failed %d", rc, failed); if (rc) CHECK(cork_error_occurred(), "no error is set");
            if (mode == 6) CHECK(b.size == nsrc && (nsrc == 0 || !memcmp(b.buf, src, nsrc)), "buffer has %zu of %zu bytes", b.size, nsrc); else CHECK((rc || ndst == nsrc) && !memcmp(dst, src, ndst), "written bytes differ");
            if (rc == 0) { int e = cork_stream_consumer_eof(c); CHECK((e == 0) == !(mode == 5 && closefail), "end of file returns %d", e); CHECK(closed == (mode == 5), "closed %d times", closed); }
            cork_stream_consumer_free(c); if (f) fclose(f); cork_buffer_done(&b);
        } else { /* from a descriptor into a descriptor */
            struct cork_stream_consumer *c = cork_fd_consumer_new(MAGIC + 2); failat = -1; rc = cork_consume_fd(c, MAGIC); CHECK(rc == 0 && ndst == nsrc && !memcmp(dst, src, nsrc), "copied %zu of %zu bytes, result %d", ndst, nsrc, rc); cork_stream_consumer_free(c);
        }
    }
}
