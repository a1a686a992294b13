/* Runs public operations on exactly sized heap buffers; built with AddressSanitizer and UBSan by vc/safety.py. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "params.h"
#include "kem.h"
#include "fips202.h"
#ifdef VC_NOISE
#include "poly.h"
#endif
#ifdef VC_X4
#include "fips202x4.h"
#endif

static const uint8_t *in;
static size_t left;
static const uint8_t *coins;
static size_t ncoins;

static void need(size_t n) { if(left < n) exit(3); }
static uint8_t u8(void) { need(1); left--; return *in++; }
static uint32_t u32(void) { uint32_t r = u8(); r |= (uint32_t)u8() << 8; r |= (uint32_t)u8() << 16; r |= (uint32_t)u8() << 24; return r; }

struct buf { uint8_t *m, *p; const uint8_t *src; size_t n; };
static struct buf bufs[64];
static int nb;

static uint8_t *mk(size_t n, size_t off, const uint8_t *src) {
  struct buf *b = &bufs[nb++];
  b->m = malloc(n + off + (n + off == 0));
  b->p = b->m + off;
  b->n = n; b->src = src;
  if(src && n) memcpy(b->p, src, n);
  return b->p;
}
static uint8_t *inp(size_t n, size_t off) { const uint8_t *s = in; need(n); in += n; left -= n; return mk(n, off, s); }
static void done(void) {
  while(nb) {
    struct buf *b = &bufs[--nb];
    if(b->src && b->n && memcmp(b->p, b->src, b->n)) { fprintf(stderr, "VC: an input buffer was modified\n"); _Exit(77); }
    free(b->m);
  }
}
void randombytes(uint8_t *o, size_t n) { if(n > ncoins) { fprintf(stderr, "VC: too many random bytes\n"); _Exit(78); } memcpy(o, coins, n); coins += n; ncoins -= n; }

int main(int argc, char **argv) {
  FILE *f = fopen(argv[1], "rb");
  size_t cap = 1 << 20, n = 0, r;
  uint8_t *d = malloc(cap);
  unsigned i, c = 0;
  while((r = fread(d + n, 1, cap - n, f))) { n += r; if(n == cap) d = realloc(d, cap *= 2); }
  in = d; left = n;
  while(left) {
    uint8_t op = u8(), off = u8(), alg;
    fprintf(stderr, "@%u\n", c++);
    if(op == 0 || op == 3) {
      uint8_t *co = inp(64, off), *pk = mk(CRYPTO_PUBLICKEYBYTES, off, NULL), *sk = mk(CRYPTO_SECRETKEYBYTES, off, NULL);
      coins = co; ncoins = 64;
      if(op == 0) crypto_kem_keypair_derand(pk, sk, co); else crypto_kem_keypair(pk, sk);
    } else if(op == 1 || op == 4) {
      uint8_t *pk = inp(CRYPTO_PUBLICKEYBYTES, off), *co = inp(32, off), *ct = mk(CRYPTO_CIPHERTEXTBYTES, off, NULL), *ss = mk(32, off, NULL);
      coins = co; ncoins = 32;
      if(op == 1) crypto_kem_enc_derand(ct, ss, pk, co); else crypto_kem_enc(ct, ss, pk);
    } else if(op == 2) {
      uint8_t *ct = inp(CRYPTO_CIPHERTEXTBYTES, off), *sk = inp(CRYPTO_SECRETKEYBYTES, off), *ss = mk(32, off, NULL);
      crypto_kem_dec(ss, ct, sk);
    } else if(op == 5) {
      uint32_t ml, ol; uint8_t *m, *o;
      alg = u8(); ml = u32(); ol = u32(); m = inp(ml, off); o = mk(ol, off, NULL);
      if(alg == 0) shake128(o, ol, m, ml); else if(alg == 1) shake256(o, ol, m, ml); else if(alg == 2) sha3_256(o, m, ml); else sha3_512(o, m, ml);
    } else if(op == 6) {
      uint32_t p[32], q[32], np, no, ml = 0, k; uint8_t *m, *o; keccak_state *st = malloc(sizeof(keccak_state));
      int once;
      alg = u8(); once = u8(); np = u8(); for(i=0;i<np;i++) { p[i] = u32(); ml += p[i]; }
      no = u8(); for(i=0;i<no;i++) q[i] = u32();
      if(once) { m = inp(ml, off); if(alg) shake256_absorb_once(st, m, ml); else shake128_absorb_once(st, m, ml); }
      else {
        if(alg) shake256_init(st); else shake128_init(st);
        for(i=0;i<np;i++) { m = inp(p[i], off); if(alg) shake256_absorb(st, m, p[i]); else shake128_absorb(st, m, p[i]); }
        if(alg) shake256_finalize(st); else shake128_finalize(st);
      }
      for(i=0;i<no;i++) {
        k = q[i] & 0x7fffffff;
        if(q[i] >> 31) { o = mk((size_t)k*(alg ? 136 : 168), off, NULL); if(alg) shake256_squeezeblocks(o, k, st); else shake128_squeezeblocks(o, k, st); }
        else { o = mk(k, off, NULL); if(alg) shake256_squeeze(o, k, st); else shake128_squeeze(o, k, st); }
      }
      free(st);
    }
#ifdef VC_X4
    else if(op == 7 || op == 8) {
      uint32_t ml, ol, no; uint8_t *m[4], *o[4]; int l;
      static uint8_t pad[4][1 << 16];
      alg = u8(); ml = u32();
      /* the 4-way absorb reads whole words */
      if(((ml + 7) & ~7u) > sizeof pad[0]) exit(3);
      for(l=0;l<4;l++) { need(ml); memset(pad[l], 0, (ml + 7) & ~7u); memcpy(pad[l], in, ml); in += ml; left -= ml; m[l] = mk((ml + 7) & ~7u, off, pad[l]); }
      if(op == 7) {
        ol = u32();
        for(l=0;l<4;l++) o[l] = mk(ol, off, NULL);
        if(alg) shake256x4(o[0],o[1],o[2],o[3],ol,m[0],m[1],m[2],m[3],ml); else shake128x4(o[0],o[1],o[2],o[3],ol,m[0],m[1],m[2],m[3],ml);
      } else {
        keccakx4_state *st = aligned_alloc(32, sizeof(keccakx4_state));
        if(alg) shake256x4_absorb_once(st,m[0],m[1],m[2],m[3],ml); else shake128x4_absorb_once(st,m[0],m[1],m[2],m[3],ml);
        no = u8();
        while(no--) {
          uint32_t k = u32();
          for(l=0;l<4;l++) o[l] = mk((size_t)k*(alg ? 136 : 168), off, NULL);
          if(alg) shake256x4_squeezeblocks(o[0],o[1],o[2],o[3],k,st); else shake128x4_squeezeblocks(o[0],o[1],o[2],o[3],k,st);
        }
        free(st);
      }
    }
#endif
#ifdef VC_NOISE
    else if(op == 9) {
      uint8_t *sd; unsigned nn;
      poly *p[4]; int l;
      alg = u8(); nn = u8(); sd = inp(32, off);
      for(l=0;l<4;l++) p[l] = aligned_alloc(32, sizeof(poly));
      if(alg == 0) poly_getnoise_eta1(p[0], sd, nn);
      if(alg == 1) poly_getnoise_eta2(p[0], sd, nn);
#ifdef VC_X4
      if(alg == 2) poly_getnoise_eta1_4x(p[0], p[1], p[2], p[3], sd, nn, nn+1, nn+2, nn+3);
#if KYBER_K == 2
      if(alg == 3) poly_getnoise_eta1122_4x(p[0], p[1], p[2], p[3], sd, nn, nn+1, nn+2, nn+3);
#endif
#endif
      for(l=0;l<4;l++) free(p[l]);
    }
#endif
    else exit(3);
    done();
  }
  fprintf(stderr, "VC: all %u cases done\n", c);
  return 0;
}
