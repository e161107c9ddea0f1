// Independent BN254 arithmetic (GMP, affine) for Groth16 proofs and precompiles with known discrete logarithms.
#pragma once
#include "ref.hpp"
namespace bn {
using namespace ref;
inline const Zn& P() { static Zn z("30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47"); return z; }
inline const Zn& R() { static Zn z("30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001"); return z; }
inline Zn zdec(const char* s) { Zn z; mpz_set_str(z.v, s, 10); return z; }
inline Zn zu(uint64_t x) { Zn z; mpz_set_ui(z.v, x); return z; }
inline Zn add(const Zn& a, const Zn& b, const Zn& m) { Zn z; mpz_add(z.v, a.v, b.v); mpz_mod(z.v, z.v, m.v); return z; }
inline Zn sub(const Zn& a, const Zn& b, const Zn& m) { Zn z; mpz_sub(z.v, a.v, b.v); mpz_mod(z.v, z.v, m.v); return z; }
inline Zn mul(const Zn& a, const Zn& b, const Zn& m) { Zn z; mpz_mul(z.v, a.v, b.v); mpz_mod(z.v, z.v, m.v); return z; }
inline Zn inv(const Zn& a, const Zn& m) { Zn z; if (!mpz_invert(z.v, a.v, m.v)) mpz_set_ui(z.v, 0); return z; }
inline Zn rnd(Rng& r) { Zn z(r.raw(40)); mpz_mod(z.v, z.v, R().v); if (!mpz_sgn(z.v)) mpz_set_ui(z.v, 7); return z; }
struct F1 { Zn v; F1() {} F1(const Zn& z) : v(z) {} static F1 n(uint64_t x) { return F1(zu(x)); }
  F1 operator+(const F1& o) const { return bn::add(v, o.v, P()); } F1 operator-(const F1& o) const { return bn::sub(v, o.v, P()); } F1 operator*(const F1& o) const { return bn::mul(v, o.v, P()); } F1 i() const { return bn::inv(v, P()); } bool z() const { return !mpz_sgn(v.v); } bool operator==(const F1& o) const { return !mpz_cmp(v.v, o.v.v); } };
struct F2 { Zn a, b; F2() {} F2(const Zn& x, const Zn& y) : a(x), b(y) {} static F2 n(uint64_t x) { return F2(zu(x), zu(0)); }
  F2 operator+(const F2& o) const { return {bn::add(a, o.a, P()), bn::add(b, o.b, P())}; } F2 operator-(const F2& o) const { return {bn::sub(a, o.a, P()), bn::sub(b, o.b, P())}; }
  F2 operator*(const F2& o) const { return {bn::sub(bn::mul(a, o.a, P()), bn::mul(b, o.b, P()), P()), bn::add(bn::mul(a, o.b, P()), bn::mul(b, o.a, P()), P())}; }
  F2 i() const { Zn n = bn::inv(bn::add(bn::mul(a, a, P()), bn::mul(b, b, P()), P()), P()); return {bn::mul(a, n, P()), bn::sub(zu(0), bn::mul(b, n, P()), P())}; } bool z() const { return !mpz_sgn(a.v) && !mpz_sgn(b.v); } bool operator==(const F2& o) const { return !mpz_cmp(a.v, o.a.v) && !mpz_cmp(b.v, o.b.v); } };
template <class F> struct Pt { F x, y; bool inf = true; };
template <class F> Pt<F> padd(const Pt<F>& p, const Pt<F>& q) {
  if (p.inf) return q; if (q.inf) return p; F l;
  if (p.x == q.x) { if ((p.y + q.y).z()) return Pt<F>(); l = F::n(3) * p.x * p.x * (p.y + p.y).i(); } else l = (q.y - p.y) * (q.x - p.x).i();
  Pt<F> r; r.inf = false; r.x = l * l - p.x - q.x; r.y = l * (p.x - r.x) - p.y; return r;
}
template <class F> Pt<F> pmul(const Zn& k, const Pt<F>& g) { Pt<F> r; for (long i = (long) mpz_sizeinbase(k.v, 2) - 1; i >= 0; i--) { r = padd(r, r); if (mpz_tstbit(k.v, i)) r = padd(r, g); } return r; }
template <class F> Pt<F> pneg(const Pt<F>& p) { Pt<F> r = p; if (!p.inf) r.y = F() - p.y; return r; }
using G1 = Pt<F1>; using G2 = Pt<F2>;
inline G1 g1() { G1 g; g.x = F1::n(1); g.y = F1::n(2); g.inf = false; return g; }
inline G2 g2() { G2 g; g.inf = false;
  g.x = F2(zdec("10857046999023057135944570762232829481370756359578518086990519993285655852781"), zdec("11559732032986387107991004021392285783925812861821192530917403151452391805634"));
  g.y = F2(zdec("8495653923123431417604973247489272438418190587263600148770280649306958101930"), zdec("4082367875863433681332203403145435568316851327593401208105741076214120093531")); return g; }
inline F2 twist_b() { return F2::n(3) * F2(zu(9), zu(1)).i(); }
inline bool on(const G1& p) { return p.inf || p.y * p.y == p.x * p.x * p.x + F1::n(3); }
inline bool on(const G2& p) { return p.inf || p.y * p.y == p.x * p.x * p.x + twist_b(); }
template <class F> Pt<F> fixmul(const Zn& k, const Pt<F>& g, std::vector<Pt<F>>& pw) { if (pw.empty()) { Pt<F> q = g; for (int i = 0; i < 256; i++) { pw.push_back(q); q = padd(q, q); } } Pt<F> r; for (size_t i = 0; i < 256; i++) if (mpz_tstbit(k.v, i)) r = padd(r, pw[i]); return r; }
inline G1 G1g(const Zn& k) { static std::vector<G1> pw; return fixmul(k, g1(), pw); }
inline G2 G2g(const Zn& k) { static std::vector<G2> pw; return fixmul(k, g2(), pw); }
inline B enc(const G1& p) { return p.inf ? B(64, 0) : cat({p.x.v.b32(), p.y.v.b32()}); }
inline B enc_eth(const G2& p) { return p.inf ? B(128, 0) : cat({p.x.b.b32(), p.x.a.b32(), p.y.b.b32(), p.y.a.b32()}); }
inline B enc_raw(const G2& p) { return p.inf ? B(128, 0) : cat({p.x.a.b32(), p.x.b.b32(), p.y.a.b32(), p.y.b.b32()}); }
inline bool fsqrt(const Zn& a, Zn& o) { Zn e, t; mpz_add_ui(e.v, P().v, 1); mpz_fdiv_q_2exp(e.v, e.v, 2); mpz_powm(o.v, a.v, e.v, P().v); mpz_mul(t.v, o.v, o.v); mpz_mod(t.v, t.v, P().v); return !mpz_cmp(t.v, a.v); }
// square root in Fp2 by the norm method
inline bool fsqrt(const F2& z, F2& o) {
  Zn n = add(mul(z.a, z.a, P()), mul(z.b, z.b, P()), P()), s; if (!fsqrt(n, s)) return false; Zn h = inv(zu(2), P());
  for (int k = 0; k < 2; k++) { Zn t = mul(k ? sub(z.a, s, P()) : add(z.a, s, P()), h, P()), x; if (!fsqrt(t, x) || !mpz_sgn(x.v)) continue; Zn y = mul(z.b, inv(add(x, x, P()), P()), P()); o = F2(x, y); if (o * o == z) return true; }
  return false;
}
// a point of the curve, for G2 (almost) never one of the right subgroup
inline G1 any1(Rng& r) { for (;;) { G1 p; Zn x(r.raw(40)); mpz_mod(x.v, x.v, P().v); p.x = F1(x); F1 y2 = p.x * p.x * p.x + F1::n(3); Zn y; if (!fsqrt(y2.v, y)) continue; p.y = F1(y); p.inf = false; return p; } }
inline G2 any2(Rng& r) { for (;;) { G2 p; Zn x(r.raw(40)), w(r.raw(40)); mpz_mod(x.v, x.v, P().v); mpz_mod(w.v, w.v, P().v); p.x = F2(x, w); F2 y2 = p.x * p.x * p.x + twist_b(); if (!fsqrt(y2, p.y)) continue; p.inf = false; return p; } }
inline bool in_subgroup(const G2& p) { return pmul(R(), p).inf; }
} // namespace bn
