// BLS12-381 arithmetic written for this verification harness (not taken from blst).
// Straightforward, readable formulas; used (a) by the blst.h stand-in so that the code under
// test can be linked and run, (b) by the reference model to sign messages.
#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
namespace bls12 {
typedef unsigned __int128 u128;
typedef uint64_t          u64;
struct Fp {
  u64 l[6];
};
static const u64 P[6] = {0xb9feffffffffaaabULL, 0x1eabfffeb153ffffULL, 0x6730d2a0f6b0f624ULL, 0x64774b84f38512bfULL, 0x4b1ba7b6434bacd7ULL, 0x1a0111ea397fe69aULL};
static const u64 PINV = 0x89f3fffcfffcfffdULL; // -p^-1 mod 2^64
inline bool      geq(const u64* a, const u64* b) {
  for (int i = 5; i >= 0; i--)
    if (a[i] != b[i]) return a[i] > b[i];
  return true;
}
inline u64 sub6(u64* r, const u64* a, const u64* b) {
  u64 bor = 0;
  for (int i = 0; i < 6; i++) {
    u128 d = (u128) a[i] - b[i] - bor;
    r[i]   = (u64) d;
    bor    = (u64) (d >> 64) & 1;
  }
  return bor;
}
inline u64 add6(u64* r, const u64* a, const u64* b) {
  u64 c = 0;
  for (int i = 0; i < 6; i++) {
    u128 d = (u128) a[i] + b[i] + c;
    r[i]   = (u64) d;
    c      = (u64) (d >> 64);
  }
  return c;
}
inline Fp operator+(const Fp& a, const Fp& b) {
  Fp r;
  add6(r.l, a.l, b.l);
  if (geq(r.l, P)) sub6(r.l, r.l, P);
  return r;
}
inline Fp operator-(const Fp& a, const Fp& b) {
  Fp r;
  if (sub6(r.l, a.l, b.l)) add6(r.l, r.l, P);
  return r;
}
inline Fp operator*(const Fp& a, const Fp& b) {
  u64 t[8] = {0};
  for (int i = 0; i < 6; i++) {
    u64 c = 0;
    for (int j = 0; j < 6; j++) {
      u128 x = (u128) a.l[j] * b.l[i] + t[j] + c;
      t[j]   = (u64) x;
      c      = (u64) (x >> 64);
    }
    u128 x = (u128) t[6] + c;
    t[6]   = (u64) x;
    t[7]   = (u64) (x >> 64);
    u64 m  = t[0] * PINV;
    x      = (u128) m * P[0] + t[0];
    c      = (u64) (x >> 64);
    for (int j = 1; j < 6; j++) {
      x        = (u128) m * P[j] + t[j] + c;
      t[j - 1] = (u64) x;
      c        = (u64) (x >> 64);
    }
    x    = (u128) t[6] + c;
    t[5] = (u64) x;
    t[6] = t[7] + (u64) (x >> 64);
  }
  Fp r;
  memcpy(r.l, t, 48);
  if (t[6] || geq(r.l, P)) sub6(r.l, r.l, P);
  return r;
}
inline bool operator==(const Fp& a, const Fp& b) { return !memcmp(a.l, b.l, 48); }
inline bool operator!=(const Fp& a, const Fp& b) { return !(a == b); }
inline Fp   fp_zero() { return Fp{{0, 0, 0, 0, 0, 0}}; }
inline const Fp& R2() { // 2^768 mod p
  static const Fp r = [] {
    Fp x = {{1, 0, 0, 0, 0, 0}};
    for (int i = 0; i < 768; i++) x = x + x;
    return x;
  }();
  return r;
}
inline Fp fp_raw(const u64* l) {
  Fp r;
  memcpy(r.l, l, 48);
  return r * R2();
}
inline Fp fp_u64(u64 v) {
  u64 l[6] = {v, 0, 0, 0, 0, 0};
  return fp_raw(l);
}
inline const Fp& fp_one() {
  static const Fp o = fp_u64(1);
  return o;
}
inline void fp_limbs(const Fp& a, u64* out) { // canonical limbs
  Fp one = {{1, 0, 0, 0, 0, 0}};
  Fp r   = a * one;
  memcpy(out, r.l, 48);
}
inline bool is_zero(const Fp& a) { return a == fp_zero(); }
inline Fp   neg(const Fp& a) { return fp_zero() - a; }
inline bool fp_from_be(Fp& r, const uint8_t* b, bool mask_top = false) {
  u64 l[6];
  for (int i = 0; i < 6; i++) {
    u64 v = 0;
    for (int j = 0; j < 8; j++) {
      uint8_t x = b[(5 - i) * 8 + j];
      if (mask_top && i == 5 && j == 0) x &= 0x1f;
      v = v << 8 | x;
    }
    l[i] = v;
  }
  bool ok = !geq(l, P);
  if (!ok) return false;
  r = fp_raw(l);
  return true;
}
inline void fp_to_be(const Fp& a, uint8_t* b) {
  u64 l[6];
  fp_limbs(a, l);
  for (int i = 0; i < 6; i++)
    for (int j = 0; j < 8; j++) b[(5 - i) * 8 + j] = (uint8_t) (l[i] >> (56 - 8 * j));
}
inline Fp fp_pow(const Fp& a, const u64* e, int n) {
  Fp   r     = fp_one();
  bool start = false;
  for (int i = n * 64 - 1; i >= 0; i--) {
    if (start) r = r * r;
    if (e[i / 64] >> (i % 64) & 1) {
      r     = start ? r * a : a;
      start = true;
    }
  }
  return r;
}
inline Fp inv(const Fp& a) {
  u64 e[6];
  memcpy(e, P, 48);
  e[0] -= 2;
  return fp_pow(a, e, 6);
}
inline void shr6(u64* a, int n) {
  for (int k = 0; k < n; k++) {
    for (int i = 0; i < 5; i++) a[i] = a[i] >> 1 | a[i + 1] << 63;
    a[5] >>= 1;
  }
}
inline bool fp_sqrt(const Fp& a, Fp& r) {
  u64 e[6];
  memcpy(e, P, 48);
  e[0] += 1;
  shr6(e, 2);
  r = fp_pow(a, e, 6);
  return r * r == a;
}
inline bool fp_is_large(const Fp& a) { // a > (p-1)/2
  u64 l[6], h[6];
  fp_limbs(a, l);
  memcpy(h, P, 48);
  h[0] -= 1;
  shr6(h, 1);
  return geq(l, h) && memcmp(l, h, 48);
}
inline int fp_parity(const Fp& a) {
  u64 l[6];
  fp_limbs(a, l);
  return l[0] & 1;
}
inline Fp fp_hex(const char* s) {
  uint8_t     b[48] = {0};
  std::string h(s);
  if (h.size() & 1) h = "0" + h;
  size_t n = h.size() / 2;
  for (size_t i = 0; i < n; i++) b[48 - n + i] = (uint8_t) std::stoi(h.substr(2 * i, 2), nullptr, 16);
  Fp r;
  fp_from_be(r, b);
  return r;
}
// ---- Fp2 = Fp[u]/(u^2+1)
struct Fp2 {
  Fp a, b;
};
inline Fp2  operator+(const Fp2& x, const Fp2& y) { return {x.a + y.a, x.b + y.b}; }
inline Fp2  operator-(const Fp2& x, const Fp2& y) { return {x.a - y.a, x.b - y.b}; }
inline Fp2  operator*(const Fp2& x, const Fp2& y) {
  Fp t0 = x.a * y.a, t1 = x.b * y.b;
  return {t0 - t1, (x.a + x.b) * (y.a + y.b) - t0 - t1};
}
inline Fp2  mulfp(const Fp2& x, const Fp& y) { return {x.a * y, x.b * y}; }
inline bool operator==(const Fp2& x, const Fp2& y) { return x.a == y.a && x.b == y.b; }
inline bool operator!=(const Fp2& x, const Fp2& y) { return !(x == y); }
inline Fp2  fp2_zero() { return {fp_zero(), fp_zero()}; }
inline Fp2  fp2_one() { return {fp_one(), fp_zero()}; }
inline bool is_zero(const Fp2& x) { return is_zero(x.a) && is_zero(x.b); }
inline Fp2  neg(const Fp2& x) { return {neg(x.a), neg(x.b)}; }
inline Fp2  conj(const Fp2& x) { return {x.a, neg(x.b)}; }
inline Fp2  inv(const Fp2& x) {
  Fp n = inv(x.a * x.a + x.b * x.b);
  return {x.a * n, neg(x.b * n)};
}
inline Fp2 xi() { return {fp_one(), fp_one()}; }
inline Fp2 mulxi(const Fp2& x) { return {x.a - x.b, x.a + x.b}; }
inline Fp2 fp2_pow(const Fp2& a, const u64* e, int n) {
  Fp2 r = fp2_one();
  for (int i = n * 64 - 1; i >= 0; i--) {
    r = r * r;
    if (e[i / 64] >> (i % 64) & 1) r = r * a;
  }
  return r;
}
inline bool fp2_sqrt(const Fp2& x, Fp2& r) {
  if (is_zero(x)) {
    r = x;
    return true;
  }
  // complex method: n = sqrt(a^2+b^2); c = sqrt((a+n)/2) or sqrt((a-n)/2); d = b/(2c)
  if (is_zero(x.b)) {
    Fp s;
    if (fp_sqrt(x.a, s)) {
      r = {s, fp_zero()};
      return true;
    }
    fp_sqrt(neg(x.a), s);
    r = {fp_zero(), s};
    return r * r == x;
  }
  Fp n;
  if (!fp_sqrt(x.a * x.a + x.b * x.b, n)) return false;
  static const Fp half = inv(fp_u64(2));
  Fp              t = (x.a + n) * half, c;
  if (!fp_sqrt(t, c)) {
    t = (x.a - n) * half;
    if (!fp_sqrt(t, c)) return false;
  }
  Fp d = x.b * half * inv(c);
  r    = {c, d};
  return r * r == x;
}
inline bool fp2_is_large(const Fp2& y) { return is_zero(y.b) ? fp_is_large(y.a) : fp_is_large(y.b); }
// ---- points (Jacobian)
template <class F> struct Pt {
  F x, y, z;
};
template <class F> struct Aff {
  F x, y;
};
inline Fp  one_of(const Fp&) { return fp_one(); }
inline Fp2 one_of(const Fp2&) { return fp2_one(); }
inline Fp  zero_of(const Fp&) { return fp_zero(); }
inline Fp2 zero_of(const Fp2&) { return fp2_zero(); }
template <class F> Pt<F> inf() {
  F z;
  return {one_of(z), one_of(z), zero_of(z)};
}
template <class F> bool is_inf(const Pt<F>& p) { return is_zero(p.z); }
template <class F> bool is_inf(const Aff<F>& p) { return is_zero(p.x) && is_zero(p.y); }
template <class F> Pt<F> from_aff(const Aff<F>& a) {
  if (is_inf(a)) return inf<F>();
  return {a.x, a.y, one_of(a.x)};
}
template <class F> Aff<F> to_aff(const Pt<F>& p) {
  if (is_inf(p)) return {zero_of(p.x), zero_of(p.x)};
  F zi = inv(p.z), z2 = zi * zi;
  return {p.x * z2, p.y * z2 * zi};
}
template <class F> Pt<F> dbl(const Pt<F>& p) {
  if (is_inf(p) || is_zero(p.y)) return inf<F>();
  F A = p.x * p.x, B = p.y * p.y, C = B * B;
  F t = p.x + B;
  F D = t * t - A - C;
  D   = D + D;
  F E = A + A + A, G = E * E;
  F x3 = G - D - D;
  F c8 = C + C;
  c8   = c8 + c8;
  c8   = c8 + c8;
  F y3 = E * (D - x3) - c8;
  F z3 = p.y * p.z;
  z3   = z3 + z3;
  return {x3, y3, z3};
}
template <class F> Pt<F> add(const Pt<F>& p, const Pt<F>& q) {
  if (is_inf(p)) return q;
  if (is_inf(q)) return p;
  F z1 = p.z * p.z, z2 = q.z * q.z;
  F u1 = p.x * z2, u2 = q.x * z1;
  F s1 = p.y * q.z * z2, s2 = q.y * p.z * z1;
  if (u1 == u2) return s1 == s2 ? dbl(p) : inf<F>();
  F H = u2 - u1, I = (H + H) * (H + H), J = H * I, r = s2 - s1;
  r    = r + r;
  F V  = u1 * I;
  F x3 = r * r - J - V - V;
  F s  = s1 * J;
  F y3 = r * (V - x3) - s - s;
  F t  = p.z + q.z;
  F z3 = (t * t - z1 - z2) * H;
  return {x3, y3, z3};
}
template <class F> Pt<F> neg(const Pt<F>& p) { return {p.x, neg(p.y), p.z}; }
template <class F> Pt<F> mul(const Pt<F>& p, const uint8_t* le, int nbits) {
  Pt<F> r = inf<F>();
  for (int i = nbits - 1; i >= 0; i--) {
    r = dbl(r);
    if (le[i / 8] >> (i % 8) & 1) r = add(r, p);
  }
  return r;
}
template <class F> Pt<F> mul64(const Pt<F>& p, u64 e) {
  uint8_t b[8];
  memcpy(b, &e, 8);
  return mul(p, b, 64);
}
typedef Pt<Fp>   G1;
typedef Pt<Fp2>  G2;
typedef Aff<Fp>  A1;
typedef Aff<Fp2> A2;
inline bool on_curve(const A1& p) { return is_inf(p) || p.y * p.y == p.x * p.x * p.x + fp_u64(4); }
inline bool on_curve(const A2& p) {
  Fp2 b = mulfp(xi(), fp_u64(4));
  return is_inf(p) || p.y * p.y == p.x * p.x * p.x + b;
}
static const uint8_t ORDER_LE[32] = {0x01, 0x00, 0x00, 0x00, 0xff, 0xff, 0xff, 0xff, 0xfe, 0x5b, 0xfe, 0xff, 0x02, 0xa4, 0xbd, 0x53, 0x05, 0xd8, 0xa1, 0x09, 0x08, 0xd8, 0x39, 0x33, 0x48, 0x7d, 0x9d, 0x29, 0x53, 0xa7, 0xed, 0x73};
template <class F> bool in_subgroup(const Aff<F>& a) { return is_inf(mul(from_aff(a), ORDER_LE, 255)); }
inline const A1& g1_gen() {
  static const A1 g = {fp_hex("17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb"),
                       fp_hex("08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1")};
  return g;
}
inline const A2& g2_gen() {
  static const A2 g = {{fp_hex("024aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8"),
                        fp_hex("13e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e")},
                       {fp_hex("0ce5d527727d6e118cc9cdc6da2e351aadfd9baa8cbdd3a76d429a695160d12c923ac9cc3baca289e193548608b82801"),
                        fp_hex("0606c4a02ea734cc32acd2b02bc28b99cb3e287e85a763af267492ab572e99ab3f370d275cec1da1aaa9075ff05f79be")}};
  return g;
}
// ---- serialization (zcash format); returns 0 ok, 1 bad encoding, 2 not on curve
inline int uncompress(A1& r, const uint8_t* in) {
  if (!(in[0] & 0x80)) return 1;
  if (in[0] & 0x40) {
    if (in[0] & 0x3f) return 1;
    for (int i = 1; i < 48; i++)
      if (in[i]) return 1;
    r = {fp_zero(), fp_zero()};
    return 0;
  }
  Fp x;
  if (!fp_from_be(x, in, true)) return 1;
  Fp y;
  if (!fp_sqrt(x * x * x + fp_u64(4), y)) return 2;
  if (fp_is_large(y) != !!(in[0] & 0x20)) y = neg(y);
  r = {x, y};
  return 0;
}
inline int uncompress(A2& r, const uint8_t* in) {
  if (!(in[0] & 0x80)) return 1;
  if (in[0] & 0x40) {
    if (in[0] & 0x3f) return 1;
    for (int i = 1; i < 96; i++)
      if (in[i]) return 1;
    r = {fp2_zero(), fp2_zero()};
    return 0;
  }
  Fp2 x;
  if (!fp_from_be(x.b, in, true) || !fp_from_be(x.a, in + 48)) return 1;
  Fp2 y, b = mulfp(xi(), fp_u64(4));
  if (!fp2_sqrt(x * x * x + b, y)) return 2;
  if (fp2_is_large(y) != !!(in[0] & 0x20)) y = neg(y);
  r = {x, y};
  return 0;
}
inline void compress(const A1& p, uint8_t* out) {
  if (is_inf(p)) {
    memset(out, 0, 48);
    out[0] = 0xc0;
    return;
  }
  fp_to_be(p.x, out);
  out[0] |= 0x80 | (fp_is_large(p.y) ? 0x20 : 0);
}
inline void compress(const A2& p, uint8_t* out) {
  if (is_inf(p)) {
    memset(out, 0, 96);
    out[0] = 0xc0;
    return;
  }
  fp_to_be(p.x.b, out);
  fp_to_be(p.x.a, out + 48);
  out[0] |= 0x80 | (fp2_is_large(p.y) ? 0x20 : 0);
}
// ---- Fp12 = Fp2[w]/(w^6 - xi)
struct Fp12 {
  Fp2 c[6];
};
inline Fp12 f12_one() {
  Fp12 r;
  for (auto& x : r.c) x = fp2_zero();
  r.c[0] = fp2_one();
  return r;
}
inline Fp12 operator*(const Fp12& x, const Fp12& y) {
  Fp2 t[11];
  for (auto& v : t) v = fp2_zero();
  for (int i = 0; i < 6; i++)
    for (int j = 0; j < 6; j++) t[i + j] = t[i + j] + x.c[i] * y.c[j];
  Fp12 r;
  for (int i = 0; i < 6; i++) r.c[i] = i < 5 ? t[i] + mulxi(t[i + 6]) : t[i];
  return r;
}
inline Fp12 mul_line(const Fp12& x, const Fp2& c0, const Fp2& c2, const Fp2& c3) {
  Fp2 t[9];
  for (auto& v : t) v = fp2_zero();
  for (int i = 0; i < 6; i++) {
    t[i]     = t[i] + x.c[i] * c0;
    t[i + 2] = t[i + 2] + x.c[i] * c2;
    t[i + 3] = t[i + 3] + x.c[i] * c3;
  }
  Fp12 r;
  for (int i = 0; i < 6; i++) r.c[i] = i < 3 ? t[i] + mulxi(t[i + 6]) : t[i];
  return r;
}
inline bool f12_is_one(const Fp12& x) {
  if (x.c[0] != fp2_one()) return false;
  for (int i = 1; i < 6; i++)
    if (!is_zero(x.c[i])) return false;
  return true;
}
inline Fp12 f12_conj(const Fp12& x) {
  Fp12 r = x;
  for (int i = 1; i < 6; i += 2) r.c[i] = neg(r.c[i]);
  return r;
}
inline const Fp2* gammas() { // xi^(i(p-1)/6)
  static const std::array<Fp2, 6> g = [] {
    u64 e[6];
    memcpy(e, P, 48);
    e[0] -= 1;
    // divide by 6
    u128 rem = 0;
    for (int i = 5; i >= 0; i--) {
      u128 cur = rem << 64 | e[i];
      e[i]     = (u64) (cur / 6);
      rem      = cur % 6;
    }
    std::array<Fp2, 6> r;
    Fp2                g1 = fp2_pow(xi(), e, 6);
    r[0]                  = fp2_one();
    for (int i = 1; i < 6; i++) r[i] = r[i - 1] * g1;
    return r;
  }();
  return g.data();
}
inline Fp12 f12_frob(const Fp12& x) {
  Fp12       r;
  const Fp2* g = gammas();
  for (int i = 0; i < 6; i++) r.c[i] = conj(x.c[i]) * g[i];
  return r;
}
inline Fp12 f12_inv(const Fp12& x) {
  Fp12 f = x, acc = f12_one();
  for (int i = 1; i < 12; i++) {
    f   = f12_frob(f);
    acc = acc * f;
  }
  Fp12 n  = acc * x; // norm, in Fp
  Fp   ni = inv(n.c[0].a);
  for (auto& v : acc.c) v = mulfp(v, ni);
  return acc;
}
static const u64 BLS_X = 0xd201000000010000ULL;
inline Fp12      f12_exp_x(const Fp12& a) { // a^x, x negative, a cyclotomic
  Fp12 r = a;
  for (int i = 62; i >= 0; i--) {
    r = r * r;
    if (BLS_X >> i & 1) r = r * a;
  }
  return f12_conj(r);
}
inline Fp12 miller(const std::vector<std::pair<A1, A2>>& in) {
  struct S {
    A1 p;
    A2 q, t;
  };
  std::vector<S> v;
  for (auto& e : in)
    if (!is_inf(e.first) && !is_inf(e.second)) v.push_back({e.first, e.second, e.second});
  Fp12 f    = f12_one();
  auto step = [&](S& s, bool dblstep) {
    Fp2 lam;
    if (dblstep) {
      Fp2 x2 = s.t.x * s.t.x;
      lam    = (x2 + x2 + x2) * inv(s.t.y + s.t.y);
    }
    else
      lam = (s.q.y - s.t.y) * inv(s.q.x - s.t.x);
    Fp2 c0 = lam * s.t.x - s.t.y, c2 = neg(mulfp(lam, s.p.x)), c3 = {s.p.y, fp_zero()};
    f      = mul_line(f, c0, c2, c3);
    Fp2 x3 = lam * lam - s.t.x - (dblstep ? s.t.x : s.q.x);
    Fp2 y3 = lam * (s.t.x - x3) - s.t.y;
    s.t    = {x3, y3};
  };
  for (int i = 62; i >= 0; i--) {
    f = f * f;
    for (auto& s : v) step(s, true);
    if (BLS_X >> i & 1)
      for (auto& s : v) step(s, false);
  }
  return f12_conj(f);
}
inline Fp12 final_exp(const Fp12& f) {
  Fp12 t = f12_conj(f) * f12_inv(f);     // ^(p^6-1)
  t      = f12_frob(f12_frob(t)) * t;    // ^(p^2+1)
  // hard part (times 3): (x-1)^2 (x+p) (x^2+p^2-1) + 3
  Fp12 a = f12_exp_x(t) * f12_conj(t);   // t^(x-1)
  a      = f12_exp_x(a) * f12_conj(a);   // ^(x-1)^2
  a      = f12_exp_x(a) * f12_frob(a);   // ^(x+p)
  a      = f12_exp_x(f12_exp_x(a)) * f12_frob(f12_frob(a)) * f12_conj(a);
  return a * t * t * t;
}
// ---- SHA-256 (own, small)
inline void sha256_raw(const uint8_t* d, size_t n, uint8_t* out) {
  static const uint32_t K[64] = {0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174, 0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967, 0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070, 0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2};
  uint32_t              h[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
  auto                  blk  = [&](const uint8_t* p) {
    uint32_t w[64];
    for (int i = 0; i < 16; i++) w[i] = (uint32_t) p[4 * i] << 24 | p[4 * i + 1] << 16 | p[4 * i + 2] << 8 | p[4 * i + 3];
    auto rr = [](uint32_t x, int k) { return x >> k | x << (32 - k); };
    for (int i = 16; i < 64; i++) w[i] = w[i - 16] + (rr(w[i - 15], 7) ^ rr(w[i - 15], 18) ^ w[i - 15] >> 3) + w[i - 7] + (rr(w[i - 2], 17) ^ rr(w[i - 2], 19) ^ w[i - 2] >> 10);
    uint32_t a = h[0], b = h[1], c = h[2], dd = h[3], e = h[4], f = h[5], g = h[6], hh = h[7];
    for (int i = 0; i < 64; i++) {
      uint32_t t1 = hh + (rr(e, 6) ^ rr(e, 11) ^ rr(e, 25)) + ((e & f) ^ (~e & g)) + K[i] + w[i];
      uint32_t t2 = (rr(a, 2) ^ rr(a, 13) ^ rr(a, 22)) + ((a & b) ^ (a & c) ^ (b & c));
      hh = g, g = f, f = e, e = dd + t1, dd = c, c = b, b = a, a = t1 + t2;
    }
    h[0] += a, h[1] += b, h[2] += c, h[3] += dd, h[4] += e, h[5] += f, h[6] += g, h[7] += hh;
  };
  size_t i = 0;
  for (; i + 64 <= n; i += 64) blk(d + i);
  uint8_t buf[128] = {0};
  size_t  r        = n - i;
  if (r) memcpy(buf, d + i, r);
  buf[r]     = 0x80;
  size_t len = r < 56 ? 64 : 128;
  for (int k = 0; k < 8; k++) buf[len - 1 - k] = (uint8_t) ((u64) n * 8 >> (8 * k));
  blk(buf);
  if (len == 128) blk(buf + 64);
  for (int k = 0; k < 8; k++)
    for (int j = 0; j < 4; j++) out[4 * k + j] = (uint8_t) (h[k] >> (24 - 8 * j));
}
// ---- hash to G2 (RFC 9380, BLS12381G2_XMD:SHA-256_SSWU_RO_)
inline std::vector<uint8_t> expand_xmd(const uint8_t* msg, size_t mlen, const uint8_t* dst, size_t dlen, size_t len) {
  size_t               ell = (len + 31) / 32;
  std::vector<uint8_t> z(64, 0), dp(dst, dst + dlen);
  dp.push_back((uint8_t) dlen);
  z.insert(z.end(), msg, msg + mlen);
  z.push_back((uint8_t) (len >> 8));
  z.push_back((uint8_t) len);
  z.push_back(0);
  z.insert(z.end(), dp.begin(), dp.end());
  uint8_t b0[32], bi[32];
  sha256_raw(z.data(), z.size(), b0);
  std::vector<uint8_t> out, t(b0, b0 + 32);
  t.push_back(1);
  t.insert(t.end(), dp.begin(), dp.end());
  sha256_raw(t.data(), t.size(), bi);
  out.insert(out.end(), bi, bi + 32);
  for (size_t i = 2; i <= ell; i++) {
    t.clear();
    for (int j = 0; j < 32; j++) t.push_back(b0[j] ^ bi[j]);
    t.push_back((uint8_t) i);
    t.insert(t.end(), dp.begin(), dp.end());
    sha256_raw(t.data(), t.size(), bi);
    out.insert(out.end(), bi, bi + 32);
  }
  out.resize(len);
  return out;
}
inline Fp fp_from_wide(const uint8_t* b, int n) {
  Fp              r    = fp_zero();
  static const Fp c256 = fp_u64(256);
  for (int i = 0; i < n; i++) r = r * c256 + fp_u64(b[i]);
  return r;
}
inline Fp2 h2(const char* a, const char* b) { return {a ? fp_hex(a) : fp_zero(), b ? fp_hex(b) : fp_zero()}; }
inline A2  map_to_curve_g2(const Fp2& u) { // SSWU + 3-isogeny, result on E2 (not cofactor cleared)
  static const Fp2 A = {fp_zero(), fp_u64(240)}, B = {fp_u64(1012), fp_u64(1012)}, Z = {neg(fp_u64(2)), neg(fp_u64(1))};
  static const char *P_ = "1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffff";
  static const std::string S(P_);
  static const Fp2 xn[4] = {h2("5c759507e8e333ebb5b7a9a47d7ed8532c52d39fd3a042a88b58423c50ae15d5c2638e343d9c71c6238aaaaaaaa97d6", "5c759507e8e333ebb5b7a9a47d7ed8532c52d39fd3a042a88b58423c50ae15d5c2638e343d9c71c6238aaaaaaaa97d6"),
                            h2(nullptr, "11560bf17baa99bc32126fced787c88f984f87adf7ae0c7f9a208c6b4f20a4181472aaa9cb8d555526a9ffffffffc71a"),
                            h2("11560bf17baa99bc32126fced787c88f984f87adf7ae0c7f9a208c6b4f20a4181472aaa9cb8d555526a9ffffffffc71e", "8ab05f8bdd54cde190937e76bc3e447cc27c3d6fbd7063fcd104635a790520c0a395554e5c6aaaa9354ffffffffe38d"),
                            h2("171d6541fa38ccfaed6dea691f5fb614cb14b4e7f4e810aa22d6108f142b85757098e38d0f671c7188e2aaaaaaaa5ed1", nullptr)};
  static const Fp2 xd[3] = {h2(nullptr, (S + "aa63").c_str()), h2("c", (S + "aa9f").c_str()), fp2_one()};
  static const Fp2 yn[4] = {h2("1530477c7ab4113b59a4c18b076d11930f7da5d4a07f649bf54439d87d27e500fc8c25ebf8c92f6812cfc71c71c6d706", "1530477c7ab4113b59a4c18b076d11930f7da5d4a07f649bf54439d87d27e500fc8c25ebf8c92f6812cfc71c71c6d706"),
                            h2(nullptr, "5c759507e8e333ebb5b7a9a47d7ed8532c52d39fd3a042a88b58423c50ae15d5c2638e343d9c71c6238aaaaaaaa97be"),
                            h2("11560bf17baa99bc32126fced787c88f984f87adf7ae0c7f9a208c6b4f20a4181472aaa9cb8d555526a9ffffffffc71c", "8ab05f8bdd54cde190937e76bc3e447cc27c3d6fbd7063fcd104635a790520c0a395554e5c6aaaa9354ffffffffe38f"),
                            h2("124c9ad43b6cf79bfbf7043de3811ad0761b0f37a1e26286b0e977c69aa274524e79097a56dc4bd9e1b371c71c718b10", nullptr)};
  static const Fp2 yd[4] = {h2((S + "a8fb").c_str(), (S + "a8fb").c_str()), h2(nullptr, (S + "a9d3").c_str()), h2("12", (S + "aa99").c_str()), fp2_one()};
  Fp2 u2 = u * u, zu2 = Z * u2, tv = zu2 * zu2 + zu2;
  Fp2 x1;
  if (is_zero(tv))
    x1 = B * inv(Z * A);
  else
    x1 = neg(B) * inv(A) * (fp2_one() + inv(tv));
  Fp2 gx = x1 * x1 * x1 + A * x1 + B, x = x1, y;
  if (!fp2_sqrt(gx, y)) {
    x  = zu2 * x1;
    gx = x * x * x + A * x + B;
    fp2_sqrt(gx, y);
  }
  auto sgn0 = [](const Fp2& v) { return fp_parity(v.a) | (is_zero(v.a) ? fp_parity(v.b) : 0); };
  if (sgn0(u) != sgn0(y)) y = neg(y);
  Fp2 x2 = x * x, x3 = x2 * x;
  Fp2 XN = xn[0] + xn[1] * x + xn[2] * x2 + xn[3] * x3;
  Fp2 XD = xd[0] + xd[1] * x + xd[2] * x2;
  Fp2 YN = yn[0] + yn[1] * x + yn[2] * x2 + yn[3] * x3;
  Fp2 YD = yd[0] + yd[1] * x + yd[2] * x2 + yd[3] * x3;
  return {XN * inv(XD), y * YN * inv(YD)};
}
inline G2 psi(const G2& p) {
  static const Fp2 c1 = inv(gammas()[2]), c2 = inv(gammas()[3]);
  return {conj(p.x) * c1, conj(p.y) * c2, conj(p.z)};
}
inline G2 clear_cofactor(const G2& p) {
  // [x^2-x-1]P + [x-1]psi(P) + psi^2([2]P),  x = -|x|
  G2 xP  = neg(mul64(p, BLS_X));
  G2 x2P = neg(mul64(xP, BLS_X));
  G2 r   = add(x2P, add(neg(xP), neg(p)));
  G2 q   = psi(add(xP, neg(p)));
  return add(add(r, q), psi(psi(dbl(p))));
}
inline A2 hash_to_g2(const uint8_t* msg, size_t mlen, const uint8_t* dst, size_t dlen) {
  auto b  = expand_xmd(msg, mlen, dst, dlen, 256);
  Fp2  u0 = {fp_from_wide(&b[0], 64), fp_from_wide(&b[64], 64)}, u1 = {fp_from_wide(&b[128], 64), fp_from_wide(&b[192], 64)};
  G2   q = add(from_aff(map_to_curve_g2(u0)), from_aff(map_to_curve_g2(u1)));
  return to_aff(clear_cofactor(q));
}
static const char ETH_DST[] = "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_";
} // namespace bls12
