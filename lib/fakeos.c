/* scripted random source: every call of the operating system made by randombytes is answered from a script */
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <setjmp.h>
#include <sys/syscall.h>

void randombytes(uint8_t *out, size_t outlen);

static const long *script;
static long nscript, pos, calls, limit;
static uint8_t *base, *want, *mask;
static size_t total, pad;
static uint64_t ctr;
static int err_seen, unrec_seen, outside;
static jmp_buf jb;

static uint8_t next(void)
{
  ctr = ctr * 6364136223846793005ull + 1442695040888963407ull;
  return (uint8_t)(ctr >> 56);
}

/* script entry: k > 0 deliver at most k bytes, k < 0 fail with errno -k, end of script: deliver everything */
static long deliver(uint8_t *p, size_t n)
{
  long r = (long)n;
  size_t i;
  if (pos >= nscript && n == 0 && ++calls > limit)
    longjmp(jb, 3);
  if (pos < nscript) {
    r = script[pos++];
    if (r < 0) {
      errno = (int)-r;
      if (errno != EINTR) err_seen = 1;
      if (errno != EINTR && errno != EAGAIN) unrec_seen = 1;
      return -1;
    }
    if ((size_t)r > n) r = (long)n;
  }
  for (i = 0; i < (size_t)r; i++) {
    uint8_t b = next();
    size_t o = (size_t)(p + i - base);
    if (p + i < base || o >= total) {
      outside = 1;
      longjmp(jb, 4);
    }
    p[i] = want[o] = b;
    mask[o] = 1;
  }
  return r;
}

long __wrap_syscall(long nr, ...)
{
  va_list ap;
  va_start(ap, nr);
  uint8_t *p = va_arg(ap, uint8_t *);
  size_t n = va_arg(ap, size_t);
  va_end(ap);
  if (nr != SYS_getrandom) longjmp(jb, 5);
  return deliver(p, n);
}
long __wrap_getrandom(void *p, size_t n, unsigned f) { (void)f; return deliver(p, n); }
static int fdopen_;
long __wrap_read(int fd, void *p, size_t n)
{
  if (fd != fdopen_) { errno = EBADF; err_seen = unrec_seen = 1; if (++calls > limit) longjmp(jb, 3); return -1; }
  return deliver(p, n);
}
int __wrap_open(const char *path, int fl, ...)
{
  (void)path; (void)fl;
  if (++calls > limit) longjmp(jb, 3);
  if (pos < nscript && script[pos] < 0) {
    errno = (int)-script[pos++];
    if (errno != EINTR) err_seen = 1;
    if (errno != EINTR && errno != EAGAIN) unrec_seen = 1;
    return -1;
  }
  return fdopen_ = 9;
}
int __wrap_close(int fd) { (void)fd; return 0; }
void __wrap_abort(void) { longjmp(jb, 1); }
void __wrap_exit(int c) { (void)c; longjmp(jb, 1); }
void __wrap__exit(int c) { (void)c; longjmp(jb, 1); }
int CryptAcquireContext(unsigned long *c, const char *a, const char *b, unsigned t, unsigned f)
{
  (void)a; (void)b; (void)t; (void)f;
  *c = 77;
  if (pos < nscript && script[pos] < 0) { pos++; err_seen = unrec_seen = 1; return 0; }
  return 1;
}
int CryptGenRandom(unsigned long c, unsigned n, uint8_t *p)
{
  (void)c;
  if (pos < nscript && script[pos] < 0) { pos++; err_seen = unrec_seen = 1; return 0; }
  pos = nscript;
  deliver(p, n);
  return 1;
}
int CryptReleaseContext(unsigned long c, unsigned f) { (void)c; (void)f; return 1; }

/* verdict: 0 fine, otherwise what went wrong */
int vc_case(uint8_t *buf, uint8_t *w, uint8_t *m, size_t guard, size_t n, const long *s, long ns, long lim, uint64_t seed)
{
  int how;
  size_t i;
  memset(buf, 0xa7, n + 2 * guard);
  memset(m, 0, n + 1);
  base = buf + guard; want = w; mask = m; total = n; pad = guard;
  script = s; nscript = ns; pos = calls = 0; limit = lim; ctr = seed;
  err_seen = unrec_seen = outside = 0;
  how = setjmp(jb);
  if (how == 0) {
    randombytes(base, n);
    if (unrec_seen) return 10;                 /* returned although the source failed */
    for (i = 0; i < n; i++) {
      if (!m[i]) return 11;                    /* returned with a byte the source did not deliver */
      if (base[i] != w[i]) return 12;          /* a delivered byte was changed */
    }
  } else if (how == 1) {
    if (!err_seen) return 20;                  /* aborted without a failure of the source */
  } else {
    return 20 + how;                           /* 23 no progress, 24 delivery outside the buffer, 25 another system call */
  }
  for (i = 0; i < guard; i++)
    if (buf[i] != 0xa7 || buf[guard + n + i] != 0xa7) return 13;
  return 0;
}
