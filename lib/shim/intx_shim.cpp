// Stand-in for the intx library behind libs/intx/intx_c_api.h (intx itself cannot be fetched
// offline).  Same contract as libs/intx/wrapper.cpp: big-endian 32-byte values, wrap-around
// arithmetic, division by zero -> all ones, modulo by zero -> 0.
#include <gmp.h>
#include <string.h>
#include <string>
#include "intx_c_api.h"
namespace {
struct Z {
  mpz_t v;
  Z() { mpz_init(v); }
  Z(const intx_uint256_t* a) { mpz_init(v); mpz_import(v, 32, 1, 1, 1, 0, a->bytes); }
  ~Z() { mpz_clear(v); }
  Z(const Z&) = delete;
};
void put(intx_uint256_t* r, Z& z) {
  mpz_fdiv_r_2exp(z.v, z.v, 256);
  unsigned char tmp[32] = {0};
  size_t n = (mpz_sizeinbase(z.v, 2) + 7) / 8;
  if (mpz_sgn(z.v) == 0) n = 0;
  if (n) mpz_export(tmp + 32 - n, nullptr, 1, 1, 1, 0, z.v);
  memcpy(r->bytes, tmp, 32);
}
}
extern "C" {
void intx_init(intx_uint256_t* v) { memset(v->bytes, 0, 32); }
void intx_init_value(intx_uint256_t* v, unsigned long long x) { memset(v->bytes, 0, 32); for (int i = 0; i < 8; i++) v->bytes[31 - i] = (unsigned char) (x >> (8 * i)); }
int intx_from_string(intx_uint256_t* v, const char* s, int base) {
  intx_init(v);
  if (!s || (base != 10 && base != 16)) return 0;
  if (base == 16 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) s += 2;
  if (!*s) return 0;
  for (const char* p = s; *p; p++) { bool d = *p >= '0' && *p <= '9', h = (*p >= 'a' && *p <= 'f') || (*p >= 'A' && *p <= 'F'); if (!(d || (h && base == 16))) return 0; }
  Z z; mpz_set_str(z.v, s, base); put(v, z); return 1;
}
void intx_to_string(const intx_uint256_t* v, char* o, int len, int base) {
  Z z(v); char* s = mpz_get_str(nullptr, base, z.v); size_t n = strlen(s); if (n > (size_t) (len - 1)) n = len - 1; memcpy(o, s, n); o[n] = 0; free(s);
}
#define BIN(name, fn) void intx_##name(intx_uint256_t* r, const intx_uint256_t* a, const intx_uint256_t* b) { Z x(a), y(b), z; fn(z.v, x.v, y.v); put(r, z); }
BIN(add, mpz_add) BIN(sub, mpz_sub) BIN(mul, mpz_mul) BIN(and, mpz_and) BIN(or, mpz_ior) BIN(xor, mpz_xor)
void intx_div(intx_uint256_t* r, const intx_uint256_t* a, const intx_uint256_t* b) { Z x(a), y(b), z; if (mpz_sgn(y.v) == 0) { memset(r->bytes, 0xff, 32); return; } mpz_fdiv_q(z.v, x.v, y.v); put(r, z); }
void intx_mod(intx_uint256_t* r, const intx_uint256_t* a, const intx_uint256_t* b) { Z x(a), y(b), z; if (mpz_sgn(y.v)) mpz_fdiv_r(z.v, x.v, y.v); put(r, z); }
void intx_not(intx_uint256_t* r, const intx_uint256_t* a) { for (int i = 0; i < 32; i++) r->bytes[i] = ~a->bytes[i]; }
void intx_shl(intx_uint256_t* r, const intx_uint256_t* a, unsigned s) { Z x(a), z; if (s < 256) mpz_mul_2exp(z.v, x.v, s); put(r, z); }
void intx_shr(intx_uint256_t* r, const intx_uint256_t* a, unsigned s) { Z x(a), z; if (s < 256) mpz_fdiv_q_2exp(z.v, x.v, s); put(r, z); }
int intx_eq(const intx_uint256_t* a, const intx_uint256_t* b) { return memcmp(a->bytes, b->bytes, 32) == 0; }
int intx_lt(const intx_uint256_t* a, const intx_uint256_t* b) { return memcmp(a->bytes, b->bytes, 32) < 0; }
int intx_gt(const intx_uint256_t* a, const intx_uint256_t* b) { return memcmp(a->bytes, b->bytes, 32) > 0; }
int intx_lte(const intx_uint256_t* a, const intx_uint256_t* b) { return memcmp(a->bytes, b->bytes, 32) <= 0; }
int intx_gte(const intx_uint256_t* a, const intx_uint256_t* b) { return memcmp(a->bytes, b->bytes, 32) >= 0; }
void intx_exp(intx_uint256_t* r, const intx_uint256_t* a, const intx_uint256_t* e) { Z x(a), y(e), z, m; mpz_setbit(m.v, 256); mpz_powm(z.v, x.v, y.v, m.v); put(r, z); }
int intx_is_zero(const intx_uint256_t* v) { for (int i = 0; i < 32; i++) if (v->bytes[i]) return 0; return 1; }
void intx_modexp(intx_uint256_t* r, const intx_uint256_t* a, const intx_uint256_t* e, const intx_uint256_t* m) { Z x(a), y(e), n(m), z; if (mpz_sgn(n.v)) mpz_powm(z.v, x.v, y.v, n.v); put(r, z); }
// the modular operations are the inner loop of the pairing: no allocations
static inline void ld(mp_limb_t* o, const intx_uint256_t* a) { for (int i = 0; i < 4; i++) { mp_limb_t x; memcpy(&x, a->bytes + 8 * (3 - i), 8); o[i] = __builtin_bswap64(x); } }
static inline void st(intx_uint256_t* r, const mp_limb_t* a) { for (int i = 0; i < 4; i++) { mp_limb_t x = __builtin_bswap64(a[i]); memcpy(r->bytes + 8 * (3 - i), &x, 8); } }
static void red(intx_uint256_t* r, mp_limb_t* x, int n, const mp_limb_t* m) { int k = 4; while (k && !m[k - 1]) k--; mp_limb_t q[9], o[4] = {0}; if (k) { if (n >= k) mpn_tdiv_qr(q, o, 0, x, n, m, k); else memcpy(o, x, 8 * n); } st(r, o); }
void intx_add_mod(intx_uint256_t* r, const intx_uint256_t* a, const intx_uint256_t* b, const intx_uint256_t* m) { mp_limb_t x[5], y[4], n[4]; ld(x, a); ld(y, b); ld(n, m); x[4] = mpn_add_n(x, x, y, 4); red(r, x, 5, n); }
void intx_mul_mod(intx_uint256_t* r, const intx_uint256_t* a, const intx_uint256_t* b, const intx_uint256_t* m) { mp_limb_t x[4], y[4], n[4], z[8]; ld(x, a); ld(y, b); ld(n, m); mpn_mul_n(z, x, y, 4); red(r, z, 8, n); }
void intx_sub_mod(intx_uint256_t* r, const intx_uint256_t* a, const intx_uint256_t* b, const intx_uint256_t* m) {
  mp_limb_t x[4], y[4], n[4]; ld(x, a); ld(y, b); ld(n, m);
  if (mpn_cmp(x, n, 4) < 0 && mpn_cmp(y, n, 4) < 0) { if (mpn_sub_n(x, x, y, 4)) mpn_add_n(x, x, n, 4); st(r, x); return; }
  Z p(a), q(b), w(m), z; mpz_sub(z.v, p.v, q.v); if (mpz_sgn(w.v)) mpz_fdiv_r(z.v, z.v, w.v); else mpz_set_ui(z.v, 0); put(r, z);
}
void intx_from_bytes(intx_uint256_t* r, const bytes_t b) {
  memset(r->bytes, 0, 32);
  unsigned n = b.len > 32 ? 32 : b.len;
  if (n) memcpy(r->bytes + 32 - n, b.data + (b.len - n), n);
}
}
