/* Instantiates the inline functions and macros of libcork/core/u128.h and byte-order.h on memory operands. */
#include <string.h>
#include "libcork/core.h"
#define BIN(n) void w_##n(cork_u128 *r, const cork_u128 *a, const cork_u128 *b) { *r = cork_u128_##n(*a, *b); }
#define CMP(n) int w_##n(const cork_u128 *a, const cork_u128 *b) { return cork_u128_##n(*a, *b); }
BIN(add) BIN(sub)
CMP(eq) CMP(ne) CMP(lt) CMP(le) CMP(gt) CMP(ge)
void w_shl(cork_u128 *r, const cork_u128 *a, unsigned int n) { *r = cork_u128_shl(*a, n); }
void w_shr(cork_u128 *r, const cork_u128 *a, unsigned int n) { *r = cork_u128_shr(*a, n); }
void w_from_32(cork_u128 *r, uint32_t a, uint32_t b, uint32_t c, uint32_t d) { *r = cork_u128_from_32(a, b, c, d); }
void w_from_64(cork_u128 *r, uint64_t a, uint64_t b) { *r = cork_u128_from_64(a, b); }
void w_zero(cork_u128 *r) { *r = cork_u128_zero(); }
uint8_t w_be8(const cork_u128 *a, unsigned int i) { return cork_u128_be8(*a, i); }
uint16_t w_be16(const cork_u128 *a, unsigned int i) { return cork_u128_be16(*a, i); }
uint32_t w_be32(const cork_u128 *a, unsigned int i) { return cork_u128_be32(*a, i); }
uint64_t w_be64(const cork_u128 *a, unsigned int i) { return cork_u128_be64(*a, i); }
void w_set8(cork_u128 *a, unsigned int i, uint8_t v) { cork_u128_be8(*a, i) = v; }
void w_set16(cork_u128 *a, unsigned int i, uint16_t v) { cork_u128_be16(*a, i) = v; }
void w_set32(cork_u128 *a, unsigned int i, uint32_t v) { cork_u128_be32(*a, i) = v; }
void w_set64(cork_u128 *a, unsigned int i, uint64_t v) { cork_u128_be64(*a, i) = v; }

#define SW(n, t) \
  t w_swap##n(t x) { return CORK_SWAP_UINT##n(x); } \
  t w_swap_expr##n(uint64_t x) { return CORK_SWAP_UINT##n(x >> 3); } \
  void w_swapip##n(t *x) { CORK_SWAP_IN_PLACE_UINT##n(*x); } \
  t w_b2h##n(t x) { return CORK_UINT##n##_BIG_TO_HOST(x); } \
  t w_h2b##n(t x) { return CORK_UINT##n##_HOST_TO_BIG(x); } \
  t w_l2h##n(t x) { return CORK_UINT##n##_LITTLE_TO_HOST(x); } \
  t w_h2l##n(t x) { return CORK_UINT##n##_HOST_TO_LITTLE(x); } \
  void w_b2hip##n(t *x) { CORK_UINT##n##_BIG_TO_HOST_IN_PLACE(*x); } \
  void w_h2bip##n(t *x) { CORK_UINT##n##_HOST_TO_BIG_IN_PLACE(*x); } \
  void w_l2hip##n(t *x) { CORK_UINT##n##_LITTLE_TO_HOST_IN_PLACE(*x); } \
  void w_h2lip##n(t *x) { CORK_UINT##n##_HOST_TO_LITTLE_IN_PLACE(*x); }
SW(16, uint16_t)
SW(32, uint32_t)
SW(64, uint64_t)
void w_swap128(cork_u128 *r, cork_u128 *x) { *r = CORK_SWAP_UINT128(*x); }
void w_b2h128(cork_u128 *r, cork_u128 *x) { *r = CORK_UINT128_BIG_TO_HOST(*x); }
void w_h2b128(cork_u128 *r, cork_u128 *x) { *r = CORK_UINT128_HOST_TO_BIG(*x); }
void w_l2h128(cork_u128 *r, cork_u128 *x) { *r = CORK_UINT128_LITTLE_TO_HOST(*x); }
void w_h2l128(cork_u128 *r, cork_u128 *x) { *r = CORK_UINT128_HOST_TO_LITTLE(*x); }
void w_swapip128(cork_u128 *x) { CORK_SWAP_IN_PLACE_UINT128(*x); }
void w_b2hip128(cork_u128 *x) { CORK_UINT128_BIG_TO_HOST_IN_PLACE(*x); }
void w_h2bip128(cork_u128 *x) { CORK_UINT128_HOST_TO_BIG_IN_PLACE(*x); }
void w_l2hip128(cork_u128 *x) { CORK_UINT128_LITTLE_TO_HOST_IN_PLACE(*x); }
void w_h2lip128(cork_u128 *x) { CORK_UINT128_HOST_TO_LITTLE_IN_PLACE(*x); }
/* the host representation: the bytes of the value as they lie in memory */
void w_bytes16(uint8_t *out, uint16_t x) { uint16_t b = CORK_UINT16_HOST_TO_BIG(x); memcpy(out, &b, 2); }
void w_bytes32(uint8_t *out, uint32_t x) { uint32_t b = CORK_UINT32_HOST_TO_BIG(x); memcpy(out, &b, 4); }
void w_bytes64(uint8_t *out, uint64_t x) { uint64_t b = CORK_UINT64_HOST_TO_BIG(x); memcpy(out, &b, 8); }
