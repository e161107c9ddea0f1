#include "blst.h"
#include "bls12.hpp"
#include <unordered_map>
using namespace bls12;
static Fp&         F(blst_fp* x) { return *(Fp*) x; }
static const A1&   a1(const blst_p1_affine* x) { return *(const A1*) x; }
static const A2&   a2(const blst_p2_affine* x) { return *(const A2*) x; }
static const G1&   g1(const blst_p1* x) { return *(const G1*) x; }
static const G2&   g2(const blst_p2* x) { return *(const G2*) x; }
static_assert(sizeof(A1) == sizeof(blst_p1_affine) && sizeof(G2) == sizeof(blst_p2) && sizeof(Fp12) == sizeof(blst_fp12), "layout");
template <class D, class S> static void put(D* d, const S& s) {
  static_assert(sizeof(D) == sizeof(S), "sz");
  memcpy((void*) d, &s, sizeof(S));
}
// incomplete addition as in blst's *_add / *_add_affine: equal inputs are not handled (result is the point at infinity, Z = 0)
template <class FF> static Pt<FF> add_nodbl(const Pt<FF>& a, const Pt<FF>& b) {
  if (is_inf(a)) return b;
  if (is_inf(b)) return a;
  FF z1 = a.z * a.z, z2 = b.z * b.z;
  if (a.x * z2 == b.x * z1) return inf<FF>();
  return add(a, b);
}
extern "C" {
void blst_fp_from_bendian(blst_fp* out, const byte in[48]) {
  Fp r;
  if (!fp_from_be(r, in)) r = fp_from_wide(in, 48);
  F(out) = r;
}
void       blst_bendian_from_fp(byte out[48], const blst_fp* in) { fp_to_be(*(const Fp*) in, out); }
struct K48 {
  uint8_t b[48];
  bool    operator==(const K48& o) const { return !memcmp(b, o.b, 48); }
};
struct H48 {
  size_t operator()(const K48& k) const {
    size_t h;
    memcpy(&h, k.b + 30, 8);
    return h;
  }
};
BLST_ERROR blst_p1_uncompress(blst_p1_affine* out, const byte in[48]) {
  static thread_local std::unordered_map<K48, A1, H48> memo; // decompression is a pure function
  K48                                                  k;
  memcpy(k.b, in, 48);
  auto it = memo.find(k);
  if (it != memo.end()) {
    put(out, it->second);
    return BLST_SUCCESS;
  }
  A1  r;
  int e = uncompress(r, in);
  if (e) return e == 1 ? BLST_BAD_ENCODING : BLST_POINT_NOT_ON_CURVE;
  if (memo.size() > 200000) memo.clear();
  memo[k] = r;
  put(out, r);
  return BLST_SUCCESS;
}
BLST_ERROR blst_p2_uncompress(blst_p2_affine* out, const byte in[96]) {
  A2  r;
  int e = uncompress(r, in);
  if (e) return e == 1 ? BLST_BAD_ENCODING : BLST_POINT_NOT_ON_CURVE;
  put(out, r);
  return BLST_SUCCESS;
}
void blst_p1_compress(byte out[48], const blst_p1* in) { compress(to_aff(g1(in)), out); }
void blst_p1_from_affine(blst_p1* out, const blst_p1_affine* in) { put(out, from_aff(a1(in))); }
void blst_p2_from_affine(blst_p2* out, const blst_p2_affine* in) { put(out, from_aff(a2(in))); }
void blst_p1_to_affine(blst_p1_affine* out, const blst_p1* in) { put(out, to_aff(g1(in))); }
void blst_p2_to_affine(blst_p2_affine* out, const blst_p2* in) { put(out, to_aff(g2(in))); }
void blst_p1_add(blst_p1* o, const blst_p1* a, const blst_p1* b) { put(o, add_nodbl(g1(a), g1(b))); }
void blst_p2_add(blst_p2* o, const blst_p2* a, const blst_p2* b) { put(o, add_nodbl(g2(a), g2(b))); }
void blst_p1_add_or_double(blst_p1* o, const blst_p1* a, const blst_p1* b) { put(o, add(g1(a), g1(b))); }
void blst_p2_add_or_double(blst_p2* o, const blst_p2* a, const blst_p2* b) { put(o, add(g2(a), g2(b))); }
void blst_p1_add_affine(blst_p1* o, const blst_p1* a, const blst_p1_affine* b) { put(o, add_nodbl(g1(a), from_aff(a1(b)))); }
void blst_p2_add_affine(blst_p2* o, const blst_p2* a, const blst_p2_affine* b) { put(o, add_nodbl(g2(a), from_aff(a2(b)))); }
void blst_p1_add_or_double_affine(blst_p1* o, const blst_p1* a, const blst_p1_affine* b) { put(o, add(g1(a), from_aff(a1(b)))); }
void blst_p2_add_or_double_affine(blst_p2* o, const blst_p2* a, const blst_p2_affine* b) { put(o, add(g2(a), from_aff(a2(b)))); }
// like blst: p[0] must be set; a NULL entry means "contiguous after the previous one"
void blst_p1s_add(blst_p1* out, const blst_p1_affine* const p[], size_t n) {
  G1                    r = inf<Fp>();
  const blst_p1_affine* cur = nullptr;
  size_t                k   = 0;
  bool                  contiguous = false;
  for (size_t i = 0; i < n; i++) {
    if (!contiguous && p[k]) {
      cur = p[k++];
    }
    else {
      contiguous = true;
      cur++;
    }
    r = add(r, from_aff(a1(cur)));
  }
  put(out, r);
}
void blst_p1_cneg(blst_p1* p, bool c) {
  if (c) put(p, neg(g1(p)));
}
void blst_p2_cneg(blst_p2* p, bool c) {
  if (c) put(p, neg(g2(p)));
}
bool blst_p1_is_inf(const blst_p1* a) { return is_inf(g1(a)); }
bool blst_p2_is_inf(const blst_p2* a) { return is_inf(g2(a)); }
bool blst_p1_affine_on_curve(const blst_p1_affine* p) { return on_curve(a1(p)); }
bool blst_p2_affine_on_curve(const blst_p2_affine* p) { return on_curve(a2(p)); }
bool blst_p1_affine_in_g1(const blst_p1_affine* p) { return in_subgroup(a1(p)); }
bool blst_p2_affine_in_g2(const blst_p2_affine* p) { return in_subgroup(a2(p)); }
bool blst_p1_affine_is_inf(const blst_p1_affine* p) { return is_inf(a1(p)); }
bool blst_p2_affine_is_inf(const blst_p2_affine* p) { return is_inf(a2(p)); }
void blst_p1_mult(blst_p1* o, const blst_p1* p, const byte* s, size_t n) { put(o, mul(g1(p), s, (int) n)); }
void blst_p2_mult(blst_p2* o, const blst_p2* p, const byte* s, size_t n) { put(o, mul(g2(p), s, (int) n)); }
const blst_p1* blst_p1_generator(void) {
  static const G1 g = from_aff(g1_gen());
  return (const blst_p1*) &g;
}
const blst_p2* blst_p2_generator(void) {
  static const G2 g = from_aff(g2_gen());
  return (const blst_p2*) &g;
}
const blst_p1_affine* blst_p1_affine_generator(void) { return (const blst_p1_affine*) &g1_gen(); }
const blst_p2_affine* blst_p2_affine_generator(void) { return (const blst_p2_affine*) &g2_gen(); }
size_t                blst_p1s_mult_pippenger_scratch_sizeof(size_t n) { return n * sizeof(blst_p1) + 64; }
size_t                blst_p2s_mult_pippenger_scratch_sizeof(size_t n) { return n * sizeof(blst_p2) + 64; }
void blst_p1s_mult_pippenger(blst_p1* ret, const blst_p1_affine* const p[], size_t n, const byte* const s[], size_t nb, limb_t*) {
  G1                    r = inf<Fp>();
  const blst_p1_affine* cp = nullptr;
  const byte*           cs = nullptr;
  for (size_t i = 0; i < n; i++) {
    cp = p[i] ? p[i] : cp + 1;
    cs = s[i] ? s[i] : cs + (nb + 7) / 8;
    r  = add(r, mul(from_aff(a1(cp)), cs, (int) nb));
  }
  put(ret, r);
}
void blst_p2s_mult_pippenger(blst_p2* ret, const blst_p2_affine* const p[], size_t n, const byte* const s[], size_t nb, limb_t*) {
  G2                    r = inf<Fp2>();
  const blst_p2_affine* cp = nullptr;
  const byte*           cs = nullptr;
  for (size_t i = 0; i < n; i++) {
    cp = p[i] ? p[i] : cp + 1;
    cs = s[i] ? s[i] : cs + (nb + 7) / 8;
    r  = add(r, mul(from_aff(a2(cp)), cs, (int) nb));
  }
  put(ret, r);
}
void blst_map_to_g1(blst_p1* out, const blst_fp*, const blst_fp*) { put(out, from_aff(g1_gen())); } // not modelled; no check relies on it
void blst_map_to_g2(blst_p2* out, const blst_fp2* u, const blst_fp2* v) {
  G2 q = from_aff(map_to_curve_g2(*(const Fp2*) u));
  if (v) q = add(q, from_aff(map_to_curve_g2(*(const Fp2*) v)));
  put(out, clear_cofactor(q));
}
void blst_miller_loop_n(blst_fp12* ret, const blst_p2_affine* const Q[], const blst_p1_affine* const Ps[], size_t n) {
  std::vector<std::pair<A1, A2>> v;
  const blst_p1_affine*          cp = nullptr;
  const blst_p2_affine*          cq = nullptr;
  for (size_t i = 0; i < n; i++) {
    cp = Ps[i] ? Ps[i] : cp + 1;
    cq = Q[i] ? Q[i] : cq + 1;
    v.push_back({a1(cp), a2(cq)});
  }
  put(ret, miller(v));
}
void blst_final_exp(blst_fp12* r, const blst_fp12* f) { put(r, final_exp(*(const Fp12*) f)); }
bool blst_fp12_is_one(const blst_fp12* a) { return f12_is_one(*(const Fp12*) a); }
// ---- pairing context: plain data, fits in the caller's 4 KB buffer
struct PairCtx {
  u64         magic;
  const byte* dst;
  size_t      dst_len;
  int         n, committed;
  A1          p[4];
  A2          q[4];
  A2          sig;
  bool        has_sig;
};
static_assert(sizeof(PairCtx) < 4096, "ctx");
size_t blst_pairing_sizeof(void) { return 3192; }
void   blst_pairing_init(blst_pairing* c, bool, const byte* dst, size_t dl) {
  PairCtx* x = (PairCtx*) c;
  memset((void*) x, 0, sizeof(*x));
  x->magic   = 0x70616972;
  x->dst     = dst;
  x->dst_len = dl;
}
BLST_ERROR blst_pairing_chk_n_aggr_pk_in_g1(blst_pairing* c, const blst_p1_affine* pk, bool pkc, const blst_p2_affine* sig, bool sc, const byte* msg, size_t ml, const byte* aug, size_t al) {
  PairCtx* x = (PairCtx*) c;
  if (sig) {
    if (sc && !in_subgroup(a2(sig))) return BLST_POINT_NOT_IN_GROUP;
    x->sig     = x->has_sig ? to_aff(add(from_aff(x->sig), from_aff(a2(sig)))) : a2(sig);
    x->has_sig = true;
  }
  if (pk) {
    if (is_inf(a1(pk))) return BLST_PK_IS_INFINITY;
    if (pkc && !in_subgroup(a1(pk))) return BLST_POINT_NOT_IN_GROUP;
    if (x->n >= 4) return BLST_BAD_SCALAR;
    std::vector<uint8_t> m(aug, aug + (aug ? al : 0));
    m.insert(m.end(), msg, msg + ml);
    x->p[x->n]   = a1(pk);
    x->q[x->n++] = hash_to_g2(m.data(), m.size(), x->dst, x->dst_len);
  }
  return BLST_SUCCESS;
}
BLST_ERROR blst_pairing_aggregate_pk_in_g1(blst_pairing* c, const blst_p1_affine* pk, const blst_p2_affine* sig, const byte* msg, size_t ml, const byte* aug, size_t al) {
  return blst_pairing_chk_n_aggr_pk_in_g1(c, pk, false, sig, true, msg, ml, aug, al);
}
void blst_pairing_commit(blst_pairing* c) { ((PairCtx*) c)->committed = 1; }
bool blst_pairing_finalverify(const blst_pairing* c, const blst_fp12* gt) {
  const PairCtx* x = (const PairCtx*) c;
  if (x->magic != 0x70616972 || !x->committed || !x->n) return false;
  std::vector<std::pair<A1, A2>> v;
  for (int i = 0; i < x->n; i++) v.push_back({x->p[i], x->q[i]});
  if (x->has_sig && !gt) {
    A1 ng = {g1_gen().x, neg(g1_gen().y)};
    v.push_back({ng, x->sig});
    return f12_is_one(final_exp(miller(v)));
  }
  return false;
}
BLST_ERROR blst_core_verify_pk_in_g1(const blst_p1_affine* pk, const blst_p2_affine* sig, bool h, const byte* msg, size_t ml, const byte* dst, size_t dl, const byte* aug, size_t al) {
  PairCtx    x;
  BLST_ERROR e;
  blst_pairing_init((blst_pairing*) &x, h, dst, dl);
  if ((e = blst_pairing_chk_n_aggr_pk_in_g1((blst_pairing*) &x, pk, true, sig, true, msg, ml, aug, al))) return e;
  blst_pairing_commit((blst_pairing*) &x);
  return blst_pairing_finalverify((blst_pairing*) &x, nullptr) ? BLST_SUCCESS : BLST_VERIFY_FAIL;
}
}
