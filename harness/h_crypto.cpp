// Hash functions, secp256k1 and aggregated BLS signatures of src/util/crypto.c against independent implementations and known keys.
#include "repo.hpp"
#include "bls12.hpp"
#include <thread>
static const Zn& rr() { static Zn z("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001"); return z; }
// ---- hashes ----------------------------------------------------------------------------------------------------
static void hashes() {
  Rng& r = M().rng;
  for (int i = 0; i < 12; i++) {
    size_t n = r.chance(1, 2) ? r.below(300) : r.pick<size_t>({0, 1, 31, 32, 33, 55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 135, 136, 137, 271, 272, 273, 407, 408, 1000, 4096, 70000}); B d = r.chance(1, 6) ? B(n, 0) : r.raw(n); size_t cut = r.below(n + 1); B a = sub(d, 0, cut), b = sub(d, cut);
    HB h(d), ha(a), hb(b), out(B(32, 0xaa)); M().label("hash of " + std::to_string(n) + " bytes cut " + std::to_string(cut)); M().evals += 3;
    ::keccak(h.b(), out.p); if (B(out.p, out.p + 32) != ref::keccak(d)) M().viol("keccak", std::to_string(n) + " bytes " + hex(sub(d, 0, 100)));
    ::sha256(h.b(), out.p); if (B(out.p, out.p + 32) != ref::sha256(d)) M().viol("sha256", std::to_string(n) + " bytes " + hex(sub(d, 0, 100)));
    sha256_merkle(ha.b(), hb.b(), out.p); if (B(out.p, out.p + 32) != ref::sha256(d)) M().viol("sha256-merkle", std::to_string(cut) + "+" + std::to_string(n - cut) + " bytes");
    if (toB(h.b()) != d) M().viol("input-changed", "hash functions must not change their input");
    if (n >= 32) { HB x(d); ::sha256(x.b(), x.p); if (B(x.p, x.p + 32) != ref::sha256(d)) M().viol("sha256", "in place"); HB y(d); ::keccak(y.b(), y.p); if (B(y.p, y.p + 32) != ref::keccak(d)) M().viol("keccak", "in place"); HB z(a); if (cut >= 32) { sha256_merkle(z.b(), hb.b(), z.p); if (B(z.p, z.p + 32) != ref::sha256(d)) M().viol("sha256-merkle", "in place"); } }
    M().obs("hash " + std::to_string(std::min<size_t>(n, 300)) + "/" + std::to_string(cut % 64));
  }
}
// ---- secp256k1 -------------------------------------------------------------------------------------------------
static bool ecdsa_ok(const B& digest, const B& rb, const B& sb, const B& pub) { // textbook verification
  Zn x(sub(pub, 0, 32)), y(sub(pub, 32)), rz(rb), sz(sb), z(digest), t, u; const Zn &p = Secp::p(), &n = Secp::n(); if (mpz_cmp(x.v, p.v) >= 0 || mpz_cmp(y.v, p.v) >= 0 || !mpz_sgn(rz.v) || !mpz_sgn(sz.v) || mpz_cmp(rz.v, n.v) >= 0 || mpz_cmp(sz.v, n.v) >= 0) return false;
  mpz_powm_ui(t.v, x.v, 3, p.v); mpz_add_ui(t.v, t.v, 7); mpz_mul(u.v, y.v, y.v); mpz_sub(t.v, t.v, u.v); mpz_mod(t.v, t.v, p.v); if (mpz_sgn(t.v)) return false;
  Zn w, u1, u2; mpz_invert(w.v, sz.v, n.v); mpz_mul(u1.v, z.v, w.v); mpz_mod(u1.v, u1.v, n.v); mpz_mul(u2.v, rz.v, w.v); mpz_mod(u2.v, u2.v, n.v); Secp::P q; q.x = x; q.y = y; q.inf = false; Secp::P s = Secp::add(Secp::mulG(u1), Secp::mul(u2, q)); if (s.inf) return false; mpz_mod(t.v, s.x.v, n.v); return !mpz_cmp(t.v, rz.v);
}
static void secp() {
  Rng& r = M().rng; auto special = [&]() -> B { Zn z; switch (r.below(9)) { case 0: return B(32, 0); case 1: z = Secp::n(); break; case 2: z = Secp::n(); mpz_sub_ui(z.v, z.v, 1); break; case 3: z = Secp::n(); mpz_add_ui(z.v, z.v, 1 + r.below(5)); break; case 4: z = Secp::p(); break; case 5: return B(32, 0xff); case 6: { B b(32, 0); b[31] = (uint8_t) (1 + r.below(4)); return b; } case 7: { z = Secp::n(); mpz_fdiv_q_2exp(z.v, z.v, 1); mpz_add_ui(z.v, z.v, r.below(3)); break; } default: return Secp::G().x.b32(); } return z.b32(); };
  for (int i = 0; i < 6; i++) {
    B sk = r.raw(32), dg = r.chance(1, 4) ? special() : r.raw(32); if (r.chance(1, 8)) { sk = B(32, 0); sk[31] = (uint8_t) (1 + r.below(3)); } if (r.chance(1, 8)) { sk = special(); }
    Zn kz(sk); bool skok = mpz_sgn(kz.v) && mpz_cmp(kz.v, Secp::n().v) < 0; S what = "honest"; B R, s; int v = 0;
    { HB hs(sk), hd(dg), out(B(65, 0)); M().label("sign with " + hex(sk) + " " + hex(dg)); M().evals++; if (skok) { if (!secp256k1_sign(hs.p, hd.p, out.p)) { Zn dz(dg); mpz_mod(dz.v, dz.v, Secp::n().v); if (mpz_sgn(dz.v)) /* nobody can find a message with such a digest */ M().viol("sign-failed", hex(sk) + " " + hex(dg)); } else { B g(out.p, out.p + 65); if (Secp::recover(dg, sub(g, 0, 32), sub(g, 32, 32), g[64] - 27) != Secp::pub(sk)) M().viol("sign-wrong", "the signature does not recover to the key: sk " + hex(sk) + " digest " + hex(dg) + " sig " + hex(g)); HB o2(B(65, 0)); secp256k1_sign(hs.p, hd.p, o2.p); if (memcmp(o2.p, out.p, 65)) M().viol("sign-nondeterministic", "two signatures of the same digest differ"); R = sub(g, 0, 32); s = sub(g, 32, 32); v = g[64]; } } }
    if (R.empty() || r.chance(1, 2)) { B k2 = skok ? sk : r.raw(31); auto g = Secp::sign(k2, dg, r.chance(1, 2)); R = g.r; s = g.s; v = g.v + (r.chance(1, 2) ? 27 : 0); }
    for (int k = 0; k < 5; k++) {
      B R2 = R, s2 = s, d2 = dg; int v2 = v; what = "honest";
      if (k) switch (r.below(8)) { case 0: R2 = special(); what = "r"; break; case 1: s2 = special(); what = "s"; break; case 2: v2 ^= 1; what = "parity"; break; case 3: v2 = (int) r.pick({2, 3, 4, 5, 7, 26, 29, 30, 31, 32, 35, 100, 255}); what = "v"; break; case 4: d2 = r.chance(1, 2) ? special() : r.raw(32); what = "digest"; break; case 5: R2[r.below(32)] ^= (uint8_t) (1 << r.below(8)); what = "r bit"; break;
        case 6: { R2 = Secp::G().x.b32(); s2 = d2; v2 = mpz_odd_p(Secp::G().y.v) ? 28 : 27; what = "infinity"; break; } // R = G, s = z: the key would be the point at infinity
        case 7: { Zn z(s2), t(Secp::n()); mpz_sub(t.v, t.v, z.v); s2 = t.b32(); v2 ^= 1; what = "mirrored"; break; } }
      if (v2 == 26) v2 = 25; B sig = cat({R2, s2, B{(uint8_t) v2}}); size_t cut = 65; if (k && r.chance(1, 12)) { cut = r.pick<size_t>({0, 1, 64, 66, 130}); sig.resize(cut, 1); what = "length"; }
      HB hd(d2), hsig(sig), out(B(64, 0xee)); M().label("recover " + what + " digest " + hex(d2) + " sig " + hex(sig)); bool ok = secp256k1_recover(hd.p, hsig.b(), out.p); M().evals++; B got(out.p, out.p + 64); M().obs("recover " + what + (what == "v" ? std::to_string(v2) : S()) + (ok ? "+" : "-"));
      if (cut != 65) { if (ok) M().viol("recover-length", std::to_string(cut) + " bytes are accepted as signature"); continue; }
      if (ok && !ecdsa_ok(d2, R2, s2, got)) M().viol("recover-unsound", what + ": the recovered key does not verify the signature: digest " + hex(d2) + " sig " + hex(sig) + " key " + hex(got));
      if (v2 == 0 || v2 == 1 || v2 == 27 || v2 == 28) { B want = Secp::recover(d2, R2, s2, v2 % 27); if (ok != !want.empty()) M().viol(ok ? "recover-invalid" : "recover-rejects", what + ": digest " + hex(d2) + " sig " + hex(sig)); else if (ok && got != want) M().viol("recover-wrong", what + ": digest " + hex(d2) + " sig " + hex(sig)); }
      else if (v2 == 2 || v2 == 3 || v2 == 29 || v2 == 30) { B want = Secp::recover(d2, R2, s2, v2 % 27); if (ok && got != want) M().viol("recover-wrong", what + ": digest " + hex(d2) + " sig " + hex(sig)); }
    }
  }
}
// ---- BLS -------------------------------------------------------------------------------------------------------
struct Key { Zn sk; B pk; }; static std::vector<Key> keys; // also with their negations
static B le32(const Zn& z) { return rev(z.b32()); }
static void mkkeys(Rng& r) { if (keys.size()) return; Rng g(77); Zn s(g.raw(31)), d(g.raw(8)); using namespace bls12; G1 p = mul(from_aff(g1_gen()), le32(s).data(), 255), dd = mul(from_aff(g1_gen()), le32(d).data(), 255); for (int i = 0; i < 30; i++) { Key k; k.sk = s; uint8_t o[48]; compress(to_aff(p), o); k.pk = B(o, o + 48); keys.push_back(k); Key m; mpz_sub(m.sk.v, rr().v, s.v); m.pk = k.pk; m.pk[0] ^= 0x20; keys.push_back(m); mpz_add(s.v, s.v, d.v); p = add(p, dd); } (void) r; }
static int pfmode; static Rng* pfr; static int pfcalls;
static void pfor(int b, int e, c4_parallel_for_body_fn body, void* ctx) {
  pfcalls++; std::vector<int> ix; for (int i = b; i < e; i++) ix.push_back(i);
  if (pfmode == 1) { for (size_t i = 0; i < ix.size(); i++) std::swap(ix[i], ix[i + pfr->below(ix.size() - i)]); for (int i : ix) body(i, ctx); }
  else { std::vector<std::thread> t; for (int k = 0; k < 3; k++) t.emplace_back([&, k] { for (size_t i = (size_t) k; i < ix.size(); i += 3) body(ix[i], ctx); }); for (auto& x : t) x.join(); }
}
static B sigof(const Zn& k, const B& msg) { using namespace bls12; A2 h = hash_to_g2(msg.data(), msg.size(), (const uint8_t*) ETH_DST, sizeof ETH_DST - 1); uint8_t o[96]; if (!mpz_sgn(k.v)) { memset(o, 0, 96); o[0] = 0xc0; } else compress(to_aff(mul(from_aff(h), le32(k).data(), 255)), o); return B(o, o + 96); }
static void bls() {
  Rng& r = M().rng; mkkeys(r); int n = r.chance(1, 3) ? (int) r.range(1, 24) : (int) r.pick({1, 7, 8, 9, 15, 16, 17, 31, 33, 64, 127, 128, 129, 130, 135, 200, 512}); int distinct = r.chance(1, 3) ? (int) r.range(1, 3) : 30; bool negs = r.chance(1, 8);
  std::vector<int> who; B comp; for (int i = 0; i < n; i++) { int k = 2 * (int) r.below((uint64_t) distinct) + (negs && r.chance(1, 2)); who.push_back(k); put(comp, keys[k].pk); }
  B bits((size_t) (n + 7) / 8, 0); int dens = (int) r.below(5); int cnt = 0; for (int i = 0; i < n; i++) if (dens == 0 ? i == 0 : dens == 1 ? i == n - 1 : dens == 2 ? true : r.chance((uint64_t) dens - 2, 3)) { bits[i / 8] |= (uint8_t) (1 << (i % 8)); cnt++; }
  if (r.chance(1, 20)) { bits.assign(bits.size(), 0); cnt = 0; } if (n % 8 && r.chance(1, 4)) bits.back() |= (uint8_t) (1 << 7); // padding bits are no keys
  B msg = r.raw(32); auto sum = [&](const B& b, bool set) { Zn k; for (int i = 0; i < n; i++) if ((b[i / 8] >> (i % 8) & 1) == set) mpz_add(k.v, k.v, keys[who[i]].sk.v); mpz_mod(k.v, k.v, rr().v); return k; };
  B sig = sigof(sum(bits, true), msg); bool inf = !mpz_sgn(sum(bits, true).v);
  pfmode = (int) r.below(3); pfr = &r; pfcalls = 0; c4_set_parallel_for(pfmode ? pfor : NULL);
  for (int k = 0; k < 5; k++) {
    B m2 = msg, s2 = sig, b2 = bits, c2 = comp; S what = "honest"; bool bad = false;
    if (k) switch (r.below(8)) {
      case 0: m2[r.below(32)] ^= (uint8_t) (1 << r.below(8)); what = "message"; break;
      case 1: { int i = (int) r.below((uint64_t) n); b2[i / 8] ^= (uint8_t) (1 << (i % 8)); what = "bit"; break; }
      case 2: s2[0] ^= 0x20; what = "negated"; break;
      case 3: s2 = B(96, 0); s2[0] = 0xc0; what = "infinite signature"; break;
      case 4: s2[r.below(96)] ^= (uint8_t) (1 << r.below(8)); what = "signature bit"; break;
      case 5: s2 = sigof(sum(bits, false), msg); what = "the others signed"; break;
      case 6: if (n > 1) { int i = (int) r.below((uint64_t) n), j = (int) r.below((uint64_t) n); std::swap_ranges(c2.begin() + 48 * i, c2.begin() + 48 * i + 48, c2.begin() + 48 * j); std::swap(who[i], who[j]); sig = sigof(sum(bits, true), msg); comp = c2; inf = !mpz_sgn(sum(bits, true).v); } s2 = sig; what = "keys moved"; break;
      case 7: { Zn t = sum(bits, true); Zn e(B{(uint8_t) r.range(1, 200)}); mpz_add(t.v, t.v, e.v); s2 = sigof(t, msg); what = "near"; break; } }
    if (r.chance(1, 10)) { int i = (int) r.below((uint64_t) n); if (r.chance(1, 2)) c2[48 * (size_t) i] &= 0x7f; else { c2[48 * (size_t) i] |= 0x1f; for (int x = 1; x < 48; x++) c2[48 * (size_t) i + (size_t) x] = 0xff; } what += " broken key"; bad = true; }
    Zn t = sum(b2, true); int used = 0; for (int i = 0; i < n; i++) used += b2[i / 8] >> (i % 8) & 1; bool want = used && mpz_sgn(t.v) && s2 == sigof(t, m2);
    HB hm(m2), hs(s2), hc(c2), hb(b2); M().label("bls " + std::to_string(n) + " keys " + what + " parallel " + std::to_string(pfmode) + " bits " + hex(b2)); M().evals++;
    bool ok = blst_verify(hm.p, hs.p, hc.p, n, hb.b(), false);
    if (!bad && ok != want) M().viol(ok ? "bls-accepts" : "bls-rejects", "compressed: " + what + " " + std::to_string(n) + " keys (" + std::to_string(distinct) + " distinct) bits " + hex(b2) + " parallel " + std::to_string(pfmode));
    if (bad && ok && !want) M().viol("bls-accepts", "compressed, broken key: " + what);
#ifdef BLS_DESERIALIZE
    { HB hc2(c2); size_t sz = 96; bool own = r.chance(1, 2); HB buf(B((size_t) n * sz, 0)); bytes_t ks = blst_deserialize_p1_affine(hc2.p, n, own ? NULL : buf.p); M().evals++; if (bad) { if (ks.data) { M().viol("bls-broken-key", "a key which is no point was deserialized: " + what); if (own) free(ks.data); } } else if (!ks.data) M().viol("bls-key-rejected", std::to_string(n) + " keys parallel " + std::to_string(pfmode)); else { if (ks.len != (size_t) n * sz) M().viol("bls-key-size", std::to_string(ks.len)); bool ok2 = blst_verify(hm.p, hs.p, ks.data, n, hb.b(), true); if (ok2 != want) M().viol(ok2 ? "bls-accepts" : "bls-rejects", "deserialized: " + what + " " + std::to_string(n) + " keys (" + std::to_string(distinct) + " distinct) bits " + hex(b2)); if (own) free(ks.data); } }
#endif
    { B b3 = b2; if (r.chance(1, 2)) b3.push_back(0); else b3.pop_back(); HB h3(b3); M().evals++; if (blst_verify(hm.p, hs.p, hc.p, n, h3.b(), false)) M().viol("bls-bitmap", "a bitmap of the wrong length is accepted"); }
    M().obs("bls " + what + (want ? "+" : "-") + (n >= 128 ? " many" : "") + " p" + std::to_string(pfmode) + " d" + std::to_string(dens)); if (inf) M().hit("keys cancel out");
  }
  if (pfcalls) M().hit("parallel loops", (uint64_t) pfcalls); c4_set_parallel_for(NULL);
}
int main(int argc, char** argv) { M().init(argc, argv); return M().loop([] { Rng& r = M().rng; switch (r.below(4)) { case 0: hashes(); break; case 1: secp(); break; default: bls(); } }); }
