From 4f5b5ec5381e33bdfbb2a439afd6b39e46d04c9d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:12:36 +0000
Subject: [PATCH] fix: align rho8/rho56 to 32 bytes, they are read with aligned
 256-bit loads

---
 avx2/keccak4x/KeccakP-1600-times4-SIMD256.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/avx2/keccak4x/KeccakP-1600-times4-SIMD256.c b/avx2/keccak4x/KeccakP-1600-times4-SIMD256.c
index 54c4a1e..9702406 100644
--- a/avx2/keccak4x/KeccakP-1600-times4-SIMD256.c
+++ b/avx2/keccak4x/KeccakP-1600-times4-SIMD256.c
@@ -46,8 +46,8 @@ typedef __m256i V256;
     #define ROL64in256(d, a, o)     d = _mm256_or_si256(_mm256_slli_epi64(a, o), _mm256_srli_epi64(a, 64-(o)))
     #define ROL64in256_8(d, a)      d = _mm256_shuffle_epi8(a, CONST256(rho8))
     #define ROL64in256_56(d, a)     d = _mm256_shuffle_epi8(a, CONST256(rho56))
-static const UINT64 rho8[4] = {0x0605040302010007, 0x0E0D0C0B0A09080F, 0x1615141312111017, 0x1E1D1C1B1A19181F};
-static const UINT64 rho56[4] = {0x0007060504030201, 0x080F0E0D0C0B0A09, 0x1017161514131211, 0x181F1E1D1C1B1A19};
+static ALIGN(KeccakP1600times4_statesAlignment) const UINT64 rho8[4] = {0x0605040302010007, 0x0E0D0C0B0A09080F, 0x1615141312111017, 0x1E1D1C1B1A19181F};
+static ALIGN(KeccakP1600times4_statesAlignment) const UINT64 rho56[4] = {0x0007060504030201, 0x080F0E0D0C0B0A09, 0x1017161514131211, 0x181F1E1D1C1B1A19};
     #define STORE256(a, b)          _mm256_store_si256((V256 *)&(a), b)
     #define STORE256u(a, b)         _mm256_storeu_si256((V256 *)&(a), b)
     #define STORE2_128(ah, al, v)   _mm256_storeu2_m128d((V128*)&(ah), (V128*)&(al), v)
-- 
2.43.0

