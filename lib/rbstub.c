/* random source under the control of the test: bytes come from a buffer, every request is logged */
#include <stddef.h>
#include <stdint.h>
static uint8_t *src;
static size_t have, used, ncalls;
void vc_rb_set(uint8_t *p, size_t n) { src = p; have = n; used = 0; ncalls = 0; }
size_t vc_rb_used(void) { return used; }
size_t vc_rb_calls(void) { return ncalls; }
void randombytes(uint8_t *out, size_t n)
{
  size_t i;
  ncalls++;
  for (i = 0; i < n; i++, used++)
    out[i] = used < have ? src[used] : 0xEE;
}
