/* SHAKE128 replaced by scripted streams for messages seed||x||y with the marker seed; anything else is the real function.
   Linked with --wrap, so only calls between files are replaced. */
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#define MAGIC 0x5c717074656d6b79ULL
static const uint8_t *tab[16][16];
static size_t len;
static unsigned engaged, odd;
static uint8_t marker[32];
void vc_xof_set(const uint8_t *m, const uint8_t *streams, size_t k, size_t n)
{
  size_t i, j;
  memcpy(marker, m, 32);
  for(i=0;i<k;i++)
    for(j=0;j<k;j++)
      tab[i][j] = streams + (i*k+j)*n;
  len = n;
  engaged = odd = 0;
}
unsigned vc_xof_engaged(void) { return odd ? 0 : engaged; }

static int mine(const uint8_t *in, size_t n) { return n == 34 && !memcmp(in, marker, 32) && in[32] < 16 && in[33] < 16 && tab[in[32]][in[33]]; }
static void emit(uint8_t *out, size_t n, const uint8_t *t, uint64_t *pos)
{
  for(;n;n--,(*pos)++)
    *out++ = *pos < len ? t[*pos] : 0;
}
#define CAT_(a,b) a##b
#define CAT(a,b) CAT_(a,b)
#ifdef VC_X4
#define W(f) CAT(__wrap_pqcrystals_kyber_fips202_avx2_,f)
#define R(f) CAT(__real_pqcrystals_kyber_fips202_avx2_,f)
#else
#define W(f) CAT(__wrap_pqcrystals_kyber_fips202_ref_,f)
#define R(f) CAT(__real_pqcrystals_kyber_fips202_ref_,f)
#endif
void R(shake128_init)(uint64_t *s);
void W(shake128_init)(uint64_t *s) { odd = 1; R(shake128_init)(s); }
void R(shake128_absorb_once)(uint64_t *s, const uint8_t *in, size_t n);
void W(shake128_absorb_once)(uint64_t *s, const uint8_t *in, size_t n)
{
  if(!mine(in, n)) { R(shake128_absorb_once)(s, in, n); return; }
  memset(s, 0, 204);
  s[0] = MAGIC; s[1] = in[32]; s[2] = in[33];
  engaged++;
}
void R(shake128_squeezeblocks)(uint8_t *out, size_t n, uint64_t *s);
void W(shake128_squeezeblocks)(uint8_t *out, size_t n, uint64_t *s)
{
  if(s[0] == MAGIC) emit(out, 168*n, tab[s[1]][s[2]], &s[3]); else R(shake128_squeezeblocks)(out, n, s);
}
void R(shake128_squeeze)(uint8_t *out, size_t n, uint64_t *s);
void W(shake128_squeeze)(uint8_t *out, size_t n, uint64_t *s)
{
  if(s[0] == MAGIC) emit(out, n, tab[s[1]][s[2]], &s[3]); else R(shake128_squeeze)(out, n, s);
}
#ifdef VC_X4
#define W4(f) CAT(__wrap_pqcrystals_kyber_fips202x4_avx2_,f)
#define R4(f) CAT(__real_pqcrystals_kyber_fips202x4_avx2_,f)
void R4(shake128x4_absorb_once)(uint64_t *s, const uint8_t *a, const uint8_t *b, const uint8_t *c, const uint8_t *d, size_t n);
void W4(shake128x4_absorb_once)(uint64_t *s, const uint8_t *a, const uint8_t *b, const uint8_t *c, const uint8_t *d, size_t n)
{
  const uint8_t *in[4] = {a, b, c, d};
  int i, m = 0;
  for(i=0;i<4;i++) m += mine(in[i], n);
  if(m != 4) { odd |= m != 0; R4(shake128x4_absorb_once)(s, a, b, c, d, n); return; }
  memset(s, 0, 800);
  s[0] = MAGIC;
  for(i=0;i<4;i++) { s[4+i] = in[i][32]; s[8+i] = in[i][33]; }
  engaged += 4;
}
void R4(shake128x4_squeezeblocks)(uint8_t *a, uint8_t *b, uint8_t *c, uint8_t *d, size_t n, uint64_t *s);
void W4(shake128x4_squeezeblocks)(uint8_t *a, uint8_t *b, uint8_t *c, uint8_t *d, size_t n, uint64_t *s)
{
  uint8_t *out[4] = {a, b, c, d};
  int i;
  if(s[0] != MAGIC) { R4(shake128x4_squeezeblocks)(a, b, c, d, n, s); return; }
  for(i=0;i<4;i++) emit(out[i], 168*n, tab[s[4+i]][s[8+i]], &s[12+i]);
}
#endif
