/* Stand-in for supranational/blst's public C header: the subset the code under test uses.
   Backed by lib/shim/bls12.hpp (own BLS12-381 implementation).  blst itself cannot be fetched here. */
#ifndef VERIF_BLST_SHIM_H
#define VERIF_BLST_SHIM_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef uint8_t  byte;
typedef uint64_t limb_t;
typedef enum { BLST_SUCCESS = 0,
               BLST_BAD_ENCODING,
               BLST_POINT_NOT_ON_CURVE,
               BLST_POINT_NOT_IN_GROUP,
               BLST_AGGR_TYPE_MISMATCH,
               BLST_VERIFY_FAIL,
               BLST_PK_IS_INFINITY,
               BLST_BAD_SCALAR } BLST_ERROR;
typedef struct { limb_t l[6]; } blst_fp;
typedef struct { blst_fp fp[2]; } blst_fp2;
typedef struct { blst_fp2 fp2[6]; } blst_fp12;
typedef struct { blst_fp x, y, z; } blst_p1;
typedef struct { blst_fp x, y; } blst_p1_affine;
typedef struct { blst_fp2 x, y, z; } blst_p2;
typedef struct { blst_fp2 x, y; } blst_p2_affine;
typedef struct blst_opaque_pairing blst_pairing;
void       blst_fp_from_bendian(blst_fp* out, const byte in[48]);
void       blst_bendian_from_fp(byte out[48], const blst_fp* in);
BLST_ERROR blst_p1_uncompress(blst_p1_affine* out, const byte in[48]);
BLST_ERROR blst_p2_uncompress(blst_p2_affine* out, const byte in[96]);
void       blst_p1_compress(byte out[48], const blst_p1* in);
void       blst_p1_from_affine(blst_p1* out, const blst_p1_affine* in);
void       blst_p2_from_affine(blst_p2* out, const blst_p2_affine* in);
void       blst_p1_to_affine(blst_p1_affine* out, const blst_p1* in);
void       blst_p2_to_affine(blst_p2_affine* out, const blst_p2* in);
void       blst_p1_add(blst_p1* out, const blst_p1* a, const blst_p1* b);
void       blst_p2_add(blst_p2* out, const blst_p2* a, const blst_p2* b);
void       blst_p1_add_or_double(blst_p1* out, const blst_p1* a, const blst_p1* b);
void       blst_p2_add_or_double(blst_p2* out, const blst_p2* a, const blst_p2* b);
void       blst_p1_add_affine(blst_p1* out, const blst_p1* a, const blst_p1_affine* b);
void       blst_p2_add_affine(blst_p2* out, const blst_p2* a, const blst_p2_affine* b);
void       blst_p1_add_or_double_affine(blst_p1* out, const blst_p1* a, const blst_p1_affine* b);
void       blst_p2_add_or_double_affine(blst_p2* out, const blst_p2* a, const blst_p2_affine* b);
void       blst_p1s_add(blst_p1* out, const blst_p1_affine* const p[], size_t n);
void       blst_p1_cneg(blst_p1* p, bool cbit);
void       blst_p2_cneg(blst_p2* p, bool cbit);
bool       blst_p1_is_inf(const blst_p1* a);
bool       blst_p2_is_inf(const blst_p2* a);
bool       blst_p1_affine_on_curve(const blst_p1_affine* p);
bool       blst_p2_affine_on_curve(const blst_p2_affine* p);
bool       blst_p1_affine_in_g1(const blst_p1_affine* p);
bool       blst_p2_affine_in_g2(const blst_p2_affine* p);
bool       blst_p1_affine_is_inf(const blst_p1_affine* p);
bool       blst_p2_affine_is_inf(const blst_p2_affine* p);
void       blst_p1_mult(blst_p1* out, const blst_p1* p, const byte* scalar, size_t nbits);
void       blst_p2_mult(blst_p2* out, const blst_p2* p, const byte* scalar, size_t nbits);
const blst_p1*        blst_p1_generator(void);
const blst_p2*        blst_p2_generator(void);
const blst_p1_affine* blst_p1_affine_generator(void);
const blst_p2_affine* blst_p2_affine_generator(void);
size_t     blst_p1s_mult_pippenger_scratch_sizeof(size_t n);
size_t     blst_p2s_mult_pippenger_scratch_sizeof(size_t n);
void       blst_p1s_mult_pippenger(blst_p1* ret, const blst_p1_affine* const points[], size_t n, const byte* const scalars[], size_t nbits, limb_t* scratch);
void       blst_p2s_mult_pippenger(blst_p2* ret, const blst_p2_affine* const points[], size_t n, const byte* const scalars[], size_t nbits, limb_t* scratch);
void       blst_map_to_g1(blst_p1* out, const blst_fp* u, const blst_fp* v);
void       blst_map_to_g2(blst_p2* out, const blst_fp2* u, const blst_fp2* v);
void       blst_miller_loop_n(blst_fp12* ret, const blst_p2_affine* const Qs[], const blst_p1_affine* const Ps[], size_t n);
void       blst_final_exp(blst_fp12* ret, const blst_fp12* f);
bool       blst_fp12_is_one(const blst_fp12* a);
size_t     blst_pairing_sizeof(void);
void       blst_pairing_init(blst_pairing* ctx, bool hash_or_encode, const byte* dst, size_t dst_len);
BLST_ERROR blst_pairing_chk_n_aggr_pk_in_g1(blst_pairing* ctx, const blst_p1_affine* pk, bool pk_grpchk, const blst_p2_affine* sig, bool sig_grpchk, const byte* msg, size_t msg_len, const byte* aug, size_t aug_len);
BLST_ERROR blst_pairing_aggregate_pk_in_g1(blst_pairing* ctx, const blst_p1_affine* pk, const blst_p2_affine* sig, const byte* msg, size_t msg_len, const byte* aug, size_t aug_len);
void       blst_pairing_commit(blst_pairing* ctx);
bool       blst_pairing_finalverify(const blst_pairing* ctx, const blst_fp12* gtsig);
BLST_ERROR blst_core_verify_pk_in_g1(const blst_p1_affine* pk, const blst_p2_affine* sig, bool hash_or_encode, const byte* msg, size_t msg_len, const byte* dst, size_t dst_len, const byte* aug, size_t aug_len);
#ifdef __cplusplus
}
#endif
#endif
