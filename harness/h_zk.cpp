// Committees learned from zero knowledge sync data.
//  part 1: Groth16 proofs for a verification key whose trapdoor is known here, so that exactly the intended statements can be proven
//  part 2: whole sync data (keys, header, checkpoint chain, witness signatures) given to the verifier, honest and hostile
//  part 3: the recorded proofs of the default key, altered
#include "drive.hpp"
#include "../lib/bn.hpp"
#include "../lib/lc.hpp"
#include "../lib/mut.hpp"
#include "../lib/truth.hpp"
extern "C" {
#include "zk_verifier.h"
#include "../lib/shim/blst.h"
}
#include <fstream>
using namespace drive;
using synth::World; using synth::Spec; using synth::Bs; using synth::bits_n; using synth::pool; using synth::fork_slot; using synth::period_of;
using bn::Zn; using bn::G1; using bn::G2;
static const Zn& RR() { return bn::R(); }
static Zn rmul(const Zn& a, const Zn& b) { return bn::mul(a, b, RR()); }
static Zn radd(const Zn& a, const Zn& b) { return bn::add(a, b, RR()); }
static Zn rneg(const Zn& a) { return bn::sub(bn::zu(0), a, RR()); }
// a key with known trapdoor
struct Key {
  Zn al, be, ga, de, ic[3]; B hash;
  explicit Key(uint64_t seed) {
    Rng r(mix(seed, 0x2b)); al = bn::rnd(r); be = bn::rnd(r); ga = bn::rnd(r); de = bn::rnd(r); for (auto& x : ic) x = bn::rnd(r); hash = r.raw(32); hash[0] &= 0x1f;
    zk_vk_t vk; memset(&vk, 0, sizeof vk); memcpy(vk.program_hash, hash.data(), 32);
    auto g1 = [](bn254_g1_t* o, const Zn& k) { HB b(bn::enc(bn::G1g(k))); if (!bn254_g1_from_bytes_be(o, b.p)) M().viol("key-rejected@G1", "a point of the curve is refused"); };
    auto g2 = [](bn254_g2_t* o, const Zn& k) { HB b(bn::enc_raw(bn::G2g(k))); if (!bn254_g2_from_bytes_raw(o, b.p)) M().viol("key-rejected@G2", "a point of the curve is refused"); };
    g1(&vk.alpha, al); g2(&vk.beta_neg, rneg(be)); g2(&vk.gamma_neg, rneg(ga)); g2(&vk.delta_neg, rneg(de));
    bn254_g1_t ics[3]; for (int i = 0; i < 3; i++) g1(&ics[i], ic[i]); vk.ic = ics; vk.ic_count = 3; c4_zk_register_vk(&vk);
  }
  Zn lin(const B& pub) const { B h = sha256(pub); h[0] &= 0x1f; return radd(ic[0], radd(rmul(ic[1], Zn(hash)), rmul(ic[2], Zn(h)))); }
  struct Pf { Zn a, b, c; B prefix; B ser() const { return cat({prefix, bn::enc(bn::G1g(a)), bn::enc_eth(bn::G2g(b)), bn::enc(bn::G1g(c))}); } };
  Pf prove(const B& pub, Rng& r) const { Pf p; p.a = bn::rnd(r); p.b = bn::rnd(r); p.prefix = r.raw(4); Zn t = bn::sub(bn::sub(rmul(p.a, p.b), rmul(al, be), RR()), rmul(lin(pub), ga), RR()); p.c = rmul(t, bn::inv(de, RR())); return p; }
  bool holds(const Pf& p, const B& pub) const { return !mpz_cmp(rmul(p.a, p.b).v, radd(radd(rmul(al, be), rmul(lin(pub), ga)), rmul(p.c, de)).v); }
};
static Key& key(int i) { static std::map<int, std::unique_ptr<Key>> k; auto& x = k[i]; if (!x) x.reset(new Key(77 + i)); return *x; }
static bool check(const B& proof, const B& pub, const B& h) { HB p(proof), q(pub), k(h); M().evals++; return c4_verify_zk_proof(p.b(), q.b(), k.p); }
static B bump(B b, Rng& r) { b[r.below(b.size())] ^= (uint8_t) (1 << r.below(8)); return b; }
// coordinates which are not reduced denote the same point: not judged
static void groth(Rng& r) {
  Key& k = key((int) r.below(3)); B pub = r.raw(136); if (r.chance(1, 6)) pub = r.raw(r.below(300)); auto p = k.prove(pub, r); S how; B pf; bool want = false; B pb = pub, kh = k.hash;
  switch (r.below(16)) {
    case 0: case 1: pf = p.ser(); want = true; how = "honest"; break;
    case 2: { Zn s = bn::rnd(r); p.a = rmul(p.a, s); p.b = rmul(p.b, bn::inv(s, RR())); pf = p.ser(); want = true; how = "honest, randomised"; break; }
    case 3: { // the identity as part of a valid proof
      // the identity cannot be encoded as a point of the curve; proofs containing it are refused
      pf = p.ser(); int o = r.pick({4, 68, 196}), n = o == 68 ? 128 : 64; std::fill(pf.begin() + o, pf.begin() + o + n, 0); how = "identity in place of a point"; break; }
    case 4: pb = pub.empty() ? r.raw(3) : bump(pub, r); pf = p.ser(); how = "other statement"; break;
    case 5: { pf = p.ser(); size_t o = 4 + r.below(256); pf[o] ^= (uint8_t) (1 << r.below(8)); how = "bit of the proof flipped"; break; }
    case 6: { int w = (int) r.below(3); (w == 0 ? p.a : w == 1 ? p.b : p.c) = bn::rnd(r); pf = p.ser(); how = S("other point ") + "ABC"[w]; break; }
    case 7: { int w = (int) r.below(3); Zn& z = w == 0 ? p.a : w == 1 ? p.b : p.c; z = rneg(z); pf = p.ser(); how = S("negated point ") + "ABC"[w]; break; }
    case 8: { p.a = rneg(p.a); p.b = rneg(p.b); pf = p.ser(); want = true; how = "honest, both signs changed"; break; }
    case 9: { Key& o = key((int) (3 + r.below(2))); auto q = o.prove(pub, r); pf = q.ser(); how = "proof for another key"; break; }
    case 10: { Key& o = key((int) (3 + r.below(2))); pf = p.ser(); kh = o.hash; how = "verified with another key"; break; }
    case 11: kh = r.raw(32); pf = p.ser(); how = "unknown key"; break;
    case 12: pf = p.ser(); if (r.chance(1, 2)) pf.resize(r.below(260)); else put(pf, r.raw(r.range(1, 70))); how = "other length"; break;
    case 13: { pf = p.ser(); B b = bn::enc_eth(bn::any2(r)); std::copy(b.begin(), b.end(), pf.begin() + 68); how = "B is no element of the group"; break; }
    case 14: { // the algebraic forgery which works when one of the four terms is forgotten
      int w = (int) r.below(4); Zn t = rmul(p.a, p.b); Zn L = rmul(k.lin(pub), k.ga), ab = rmul(k.al, k.be); Zn s = w == 0 ? bn::sub(t, ab, RR()) : w == 1 ? bn::sub(t, L, RR()) : w == 2 ? bn::sub(t, rmul(bn::sub(k.lin(pub), k.ic[0], RR()), k.ga), RR()) : t; if (w == 2) s = bn::sub(s, ab, RR()); p.c = rmul(s, bn::inv(k.de, RR())); pf = p.ser(); how = S("proof without term ") + std::to_string(w); break; }
    default: { // the same hash without the mask, input reversed, key hash missing
      B h = sha256(pub); int w = (int) r.below(3); Zn in; if (w == 0) { if (!(h[0] & 0xe0)) { pf = p.ser(); want = true; how = "honest"; break; } in = Zn(h); } else if (w == 1) { h[0] &= 0x1f; std::reverse(h.begin(), h.end()); in = Zn(h); } else { h[0] &= 0x1f; in = Zn(h); } Zn L = radd(k.ic[0], radd(w == 2 ? bn::zu(0) : rmul(k.ic[1], Zn(k.hash)), rmul(k.ic[2], in))); p.c = rmul(bn::sub(bn::sub(rmul(p.a, p.b), rmul(k.al, k.be), RR()), rmul(L, k.ga), RR()), bn::inv(k.de, RR())); pf = p.ser(); how = "proof of another input encoding " + std::to_string(w); want = k.holds(p, pub); }
  }
  M().label("groth16: " + how); bool got = check(pf, pb, kh);
  if (got != want) M().viol((want ? "honest-rejected@groth16: " : "forged-accepted@groth16: ") + how, "proof " + hex(pf) + " public values " + hex(pb));
  M().hit(S("groth16 ") + (got ? "accepted" : "rejected")); M().obs("g16 " + how + (got ? "+" : "-"));
}
static B slurp(const S& f) { std::ifstream i(f, std::ios::binary); return B((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); }
static void recorded(Rng& r) {
  S dir = getenv("VERIF_REPO") ? getenv("VERIF_REPO") : "/repo"; S per = r.pick({"1620", "1621"}); S oth = per == "1620" ? "1621" : "1620"; auto rd = [&](const S& p, const S& f) { return slurp(dir + "/test/data/zk_data/" + p + "/" + f); };
  B pf = rd(per, "zk_proof_g16.bin"), pub = rd(per, "zk_pub.bin"), pf2 = rd(oth, "zk_proof_g16.bin"), pub2 = rd(oth, "zk_pub.bin"); if (pf.size() != 260 || pf2.size() != 260 || pub.size() != 136) { M().hit("recorded proof missing"); return; }
  S how; bool want = false;
  switch (r.below(6)) { case 0: case 1: want = true; how = "honest"; break; case 2: pub = bump(pub, r); how = "other statement"; break; case 3: { size_t o = 4 + r.below(256); pf[o] ^= (uint8_t) (1 << r.below(8)); how = "bit flipped"; break; } case 4: pub = pub2; how = "statement of another period"; break; default: { int o = r.pick({4, 68, 196}), n = o == 68 ? 128 : 64; std::copy(pf2.begin() + o, pf2.begin() + o + n, pf.begin() + o); how = "point of another proof"; } }
  M().label("recorded: " + how); HB p(pf), q(pub); M().evals++; bool got = verify_zk_proof(p.b(), q.b());
  if (got != want) M().viol((want ? "honest-rejected@recorded: " : "forged-accepted@recorded: ") + how, "period " + per);
  M().hit(S("recorded ") + (got ? "accepted" : "rejected")); M().obs("rec " + how + per + (got ? "+" : "-"));
}
// ---------------------------------------------------------------- sync data
struct Zk {
  Rng& r; const Spec& sp; std::unique_ptr<World> w; S id; B anchor;
  Zk(Rng& rr, const Spec& s) : r(rr), sp(s), w(new World(s, rr.u64())), id(std::to_string(s.id)) {
    static const std::map<uint64_t, S> an = {{1, "908C6572059DA36BB66BAC9A7159B7C91E020F2574A2D655F2302985E5282483"}, {11155111, "CD94A32F4AFED68840D26E657D48F944B57B7435E0331BA83C4F9CAA2ED075ED"}, {100, "910C4591FF6B258D8059B0B3F351A73C1394E806A768D8A6B823056FF27E3F69"}};
    auto it = an.find(s.id); if (it != an.end()) anchor = unhex(it->second); }
  int sh() const { return sp.eb + sp.pb; }
  Result ask(const B& proof, const B& witness) {
    Result res; HB pr(proof); char* m = strdup("eth_blockNumber"); char* a = strdup("[]"); verify_ctx_t c; memset(&c, 0, sizeof c); c4_verify_init(&c, pr.b(), m, json_parse(a), (chain_id_t) sp.id);
    if (witness.size()) { HB wk(witness); c.witness_keys = bytes_dup(wk.b()); }
    for (int i = 0;; i++) { if (i > 50) { res.hang = true; break; } c4_status_t s = c4_verify(&c); if (s == C4_SUCCESS) { res.ok = true; break; } if (s == C4_ERROR) { res.error = c.state.error ? c.state.error : ""; break; }
      bool any = false; while (data_request_t* q = c4_state_get_pending_request(&c.state)) { any = true; q->error = strdup("no upstream"); } if (!any) { res.hang = true; break; } }
    c4_verify_free_data(&c); free(m); free(a); M().evals++; return res;
  }
  B pubin(const B& anch, const Val& keys, uint64_t per, const Val& h, const B& dom) { return cat({anch, htr(keys), le(per, 8), htr(h), dom}); }
  void run() {
    int fork = (int) r.range(synth::DENEB, sp.fe[5] == ~0ULL ? synth::ELECTRA : synth::FULU); uint64_t slot = synth::slot_in(sp, fork, r); for (int f = 0; f < 6; f++) if (sp.fe[f] != ~0ULL && slot == sp.fe[f] << sp.eb) slot++;
    if (r.chance(1, 5)) slot = ((slot >> sh()) << sh()) + r.pick({1, 2, 8190, 8191}); for (int f = 0; f < 6; f++) if (sp.fe[f] != ~0ULL && slot == sp.fe[f] << sp.eb) slot++;
    uint64_t per = period_of(sp, slot) + 1; Key& k = key((int) r.below(3)); const auto& good = w->com(per); const auto& evil = pool(3);
    store() = Store(); install(r.pick({3, 3, 2, 4, 8}));
    int start = (int) r.below(4); std::set<uint64_t> have; // nothing, checkpoint, other periods, the period itself
    if (start == 1) { B st = {2}; put(st, r.raw(32)); store().kv["states_" + id] = st; }
    if (start >= 2) { B st = {1}; uint64_t q = start == 2 ? per - 1 - r.below(3) : per; have.insert(q); put(st, le(q, 4)); store().kv["sync_" + id + "_" + std::to_string(q)] = w->sync_file(q); store().kv["states_" + id] = st; }
    int nwit = r.chance(1, 2) ? 0 : (int) r.range(1, 4); Bs sks; B wit; for (int i = 0; i < nwit; i++) { sks.push_back(r.raw(32)); sks.back()[0] &= 0x7f; put(wit, Secp::addr(sks.back())); }
    Val zk(synth::ty::zksync()); Val hd = w->mkheader(slot, r.raw(32), r.raw(32), r.raw(32)); Val keys = good.val["pubkeys"]; B dom = synth::domain(sp, fork_slot(sp, slot)); uint64_t pper = per; B anch = anchor; B vk = k.hash; B witcfg = wit;
    std::vector<Val> mid; Val head = hd; int n = r.chance(1, 3) ? -1 : (int) r.below(5); uint64_t s = slot; Val cur = hd; // -1: the attested header itself is the checkpoint
    for (int i = 0; i < n; i++) { s += 1 + r.below(3); mid.push_back(w->mkheader(s, htr(cur), r.raw(32), r.raw(32))); cur = mid.back(); } if (n >= 0) { s += 1 + r.below(3); head = w->mkheader(s, htr(cur), r.raw(32), r.raw(32)); }
    auto digest = [&](const B& root) { S p = "\x19"; p += "Ethereum Signed Message:\n32"; B b(p.begin(), p.end()); put(b, root); return keccak(b); };
    auto sig = [&](const B& sk, const B& d) { auto x = Secp::sign(sk, d); B o = cat({x.r, x.s}); o.push_back((uint8_t) (x.v + (r.chance(1, 2) ? 27 : 0))); return o; };
    Bs sigs; for (auto& sk : sks) sigs.push_back(sig(sk, digest(htr(head)))); for (size_t i = sigs.size(); i > 1; i--) std::swap(sigs[i - 1], sigs[r.below(i)]);
    S how = "honest"; bool want = true; bool after = false; std::function<void()> late; bool swapkeys = false;
    int c = (int) r.below(34);
    switch (c) {
      case 0: case 1: case 2: case 3: break;
      case 4: keys = evil.val["pubkeys"]; pper = per; late = [&] {}; after = true; how = "keys exchanged"; break; // proof made for the good keys
      case 5: after = true; keys.e[r.below(512)].b = evil.val["pubkeys"].e[r.below(512)].b; how = "one key exchanged"; break;
      case 6: after = true; { int i = (int) r.below(512), j; do j = (int) r.below(512); while (keys.e[j].b == keys.e[i].b); std::swap(keys.e[i], keys.e[j]); } how = "two keys swapped"; break;
      case 7: anch = r.chance(1, 2) ? r.raw(32) : bump(anchor, r); want = false; how = "other anchor"; break;
      case 8: { static const char* o[] = {"908C6572059DA36BB66BAC9A7159B7C91E020F2574A2D655F2302985E5282483", "CD94A32F4AFED68840D26E657D48F944B57B7435E0331BA83C4F9CAA2ED075ED", "910C4591FF6B258D8059B0B3F351A73C1394E806A768D8A6B823056FF27E3F69"}; do anch = unhex(S(o[r.below(3)])); while (anch == anchor); want = false; how = "anchor of another chain"; break; }
      case 9: pper = r.pick(std::vector<uint64_t>{per - 1, per + 1, 0, per + 256, per ^ (1ULL << 32)}); want = false; how = "proof for another period"; break;
      case 10: dom = synth::domain(sp, fork_slot(sp, slot) + (fork_slot(sp, slot) < synth::FULU && r.chance(1, 2) ? 1 : -1)); want = false; how = "domain of another fork"; break;
      case 11: { const Spec* o; do o = &r.pick(synth::specs()); while (o->id == sp.id); dom = synth::domain(*o, fork_slot(sp, slot)); want = false; how = "domain of another chain"; break; }
      case 12: dom[r.below(32)] ^= 1; want = false; how = "domain changed"; break;
      case 13: vk = r.raw(32); want = false; how = "unknown key"; break;
      case 14: { vk = key(3).hash; want = false; how = "proof of another key"; break; }
      case 15: late = [&] { B& b = zk["proof"].b; b[r.range(4, 259)] ^= (uint8_t) (1 << r.below(8)); }; want = false; how = "proof changed"; break;
      case 16: late = [&] { zk["proof"].b = r.chance(1, 2) ? B(260, 0) : r.raw(260); }; want = false; how = "no proof"; break;
      case 17: late = [&] { S f = r.pick({"proposerIndex", "parentRoot", "stateRoot", "bodyRoot"}); B& b = zk["header"][f].b; b[r.below(b.size())] ^= (uint8_t) (1 << r.below(8)); }; want = false; how = "attested header changed"; break;
      case 18: late = [&] { uint64_t d = r.pick(std::vector<uint64_t>{1, 8192, 16384, 8192ULL << 32}); zk["header"]["slot"].u(slot + d); }; want = false; how = "slot of the attested header changed"; break;
      case 19: if (n < 0) { Val e = w->mkheader(slot + 2, htr(hd), r.raw(32), r.raw(32)); head = w->mkheader(slot + 3, r.raw(32), r.raw(32), r.raw(32)); sigs.clear(); for (auto& sk : sks) sigs.push_back(sig(sk, digest(htr(head)))); } else { head["parentRoot"].set(r.raw(32)); sigs.clear(); for (auto& sk : sks) sigs.push_back(sig(sk, digest(htr(head)))); } want = false; how = "checkpoint is no descendant"; break;
      case 20: if (mid.empty()) { if (n < 0) { head = w->mkheader(slot + 1, htr(hd), r.raw(32), r.raw(32)); sigs.clear(); for (auto& sk : sks) sigs.push_back(sig(sk, digest(htr(head)))); } mid.push_back(w->mkheader(slot + 1, htr(hd), r.raw(32), r.raw(32))); } else if (r.chance(1, 2)) mid.erase(mid.begin() + r.below(mid.size())); else { Val& m = mid[r.below(mid.size())]; S f = r.pick({"slot", "proposerIndex", "stateRoot", "bodyRoot"}); m[f].b[r.below(m[f].b.size())] ^= (uint8_t) (1 << r.below(8)); } want = false; how = "header chain broken"; break;
      case 21: if (sks.empty()) break; sigs.erase(sigs.begin() + r.below(sigs.size())); want = false; how = "signature missing"; break;
      case 22: if (sks.empty()) break; sigs.clear(); want = false; how = "no signatures"; break;
      case 23: if (sks.empty()) break; sigs[r.below(sigs.size())] = sig(r.raw(32), digest(htr(head))); want = false; how = "signature of a stranger"; break;
      case 24: if (sks.size() < 2) break; sigs[0] = sigs[1]; want = false; how = "signature twice in place of another"; break;
      case 25: if (sks.empty()) break; { size_t i = r.below(sks.size()); Bs ns; for (auto& sk : sks) ns.push_back(sig(sk, &sk == &sks[i] ? (r.chance(1, 2) ? htr(head) : digest(htr(w->mkheader(slot, r.raw(32), r.raw(32), r.raw(32))))) : digest(htr(head)))); sigs = ns; } want = false; how = "signature of another message"; break;
      case 26: sigs.push_back(sig(r.raw(32), digest(htr(head)))); how = "honest, additional signature"; break;
      case 27: if (sigs.empty()) break; { B& x = sigs[r.below(sigs.size())]; x[r.below(64)] ^= (uint8_t) (1 << r.below(8)); } want = false; how = "signature changed"; break;
      case 28: late = [&] { Val& u = zk["checkpoint"].choose(0); u["sync_committee_bits"].b = bits_n(400, r); u["sync_committee_signature"].b = r.raw(96); }; want = false; how = "checkpoint is no chain of headers"; break;
      case 29: { std::vector<Val*> don; Val d2(synth::ty::zksync()); synth::fill(d2, r); late = [&, d2]() mutable { std::vector<Val*> dn = {&d2}; S x; B before = zk.ser(); for (int t = 0; t < 5 && zk.ser() == before; t++) x = mut::one(zk, dn, r, r.pick({"", "header", "pubkeys", "checkpoint"})); how = "altered: " + x; if (zk.ser() == before) { how = "honest"; want = true; } }; want = false; how = "altered"; break; }
      case 30: if (sks.empty()) break; { B sk = r.raw(32); sk[0] &= 0x7f; put(witcfg, Secp::addr(sk)); } want = false; how = "key without signature"; break;
      case 31: late = [&] { zk["signatures"].e.clear(); for (int i = 0; i < 16; i++) zk["signatures"].add().set(sig(r.raw(32), digest(htr(head)))); }; if (sks.empty()) how = "honest, only strangers"; else { want = false; how = "only strangers"; } break;
      case 32: if (sks.size() >= 2) { sigs.push_back(sigs[0]); how = "honest, signature twice"; } break;
      default: break;
    }
    if (anchor.empty()) return;
    Val pk = after ? good.val["pubkeys"] : keys; B pub = pubin(anch, pk, pper, hd, dom); auto pf = key(vk == k.hash || how == "unknown key" ? (int) (&k == &key(0) ? 0 : &k == &key(1) ? 1 : 2) : (int) (&k == &key(0) ? 0 : &k == &key(1) ? 1 : 2)).prove(pub, r); if (after) want = false;
    zk["vk_hash"].b = vk; zk["proof"].b = pf.ser(); zk["header"] = hd; zk["pubkeys"] = keys; { Val& u = zk["checkpoint"].choose(2); for (auto& m : mid) { Val& h = u["headers"].add(); for (const char* f : {"slot", "proposerIndex", "stateRoot", "bodyRoot"}) h[f].b = m[f].b; } u["header"] = head; u["sync_committee_bits"].b = r.raw(64); u["sync_committee_signature"].b = r.raw(96); }
    for (auto& x : sigs) zk["signatures"].add().set(x); B pf0 = zk["proof"].b, vk0 = zk["vk_hash"].b; if (late) late(); (void) swapkeys;
    if (c == 29) { // an alteration may leave everything as it was which matters
      bool zkok = ref::sub(zk["proof"].b, 4) == ref::sub(pf0, 4) && zk["vk_hash"].b == vk0 && htr(zk["header"]) == htr(hd) && htr(zk["pubkeys"]) == htr(keys), lk = zk["checkpoint"].sel == 2, sg = true;
      if (lk) { Val& u = zk["checkpoint"].e[0]; if (u["header"].ser() != zk["header"].ser()) { B root = htr(zk["header"]); for (auto& h : u["headers"].e) { Val x = hd; for (const char* f : {"slot", "proposerIndex", "stateRoot", "bodyRoot"}) x[f].b = h[f].b; x["parentRoot"].b = root; root = htr(x); } lk = root == u["header"]["parentRoot"].b; }
        std::set<B> found; B d = digest(htr(u["header"])); for (auto& x : zk["signatures"].e) { if (x.b.size() != 65) continue; int vv = x.b[64]; if (vv >= 27) vv -= 27; B pk = Secp::recover(d, ref::sub(x.b, 0, 32), ref::sub(x.b, 32, 32), vv); if (pk.empty()) { sg = false; } else found.insert(ref::sub(keccak(pk), 12)); } for (auto& sk : sks) if (!found.count(Secp::addr(sk))) sg = false; }
      want = zkok && lk && sg; if (want) how += " (harmless)"; }
    // the question: a header signed by the committee of the period (or by the foreign one)
    uint64_t as = (per << sh()) + 1 + r.below(8000); bool forged = !want && (after || r.chance(1, 2)); int f2 = fork_slot(sp, as); (void) f2;
    Val rq = World::req(); Val& p = rq["proof"].choose(8); uint64_t num = r.below(1u << 30); B nl = le(num, 32), tl = le(r.below(1ULL << 33), 32); std::map<uint64_t, B> leaves; 
    { auto g = [&](uint64_t gi, const B& leaf) { return synth::upto(leafn(leaf), gi, r); }; (void) g; }
    // body tree with the two leaves 806 and 809
    N body = two(nl, tl); Val bh = w->mkheader(as, r.raw(32), r.raw(32), body->h); p["blockNumber"].u(num); p["timestamp"].b = ref::sub(tl, 0, 8); synth::setlist(p["proof"], multiproof(body, {806, 809})); p["header"] = bh; B bits = bits_n(342 + (int) r.below(171), r); Val hp(synth::ty::hproof()); Val& sg = hp.choose(0); sg["sync_committee_bits"].b = bits; sg["sync_committee_signature"].b = (forged ? evil : good).sign(synth::signing_root(sp, htr(bh), as + 1), bits); p["header_proof"] = hp;
    rq["sync_data"].choose(2) = zk; auto before = store().kv; M().label("zk sync: " + how + " chain " + id + " slot " + std::to_string(slot)); bool known = have.count(per);
    Result v = ask(rq.ser(), witcfg); S where = "chain " + id + " slot " + std::to_string(slot) + " start " + std::to_string(start) + " witnesses " + std::to_string(nwit) + " headers " + std::to_string(n) + " error " + v.error;
    if (v.hang) M().viol("hang@" + how, where);
    // what is stored
    for (auto& x : store().kv) { uint64_t cc, q; if (sscanf(x.first.c_str(), "sync_%lu_%lu", &cc, &q) != 2) continue; auto it = before.find(x.first); if (it != before.end() && it->second == x.second) continue;
      const auto& rc = w->com(q); bool mine = q == per || have.count(q), ok = mine && x.second.size() >= 512 * 48 && ref::sub(x.second, 0, 512 * 48) == rc.keys; if (!ok) ok = mine && x.second.size() >= 512 * 96 && ref::sub(x.second, 0, 512 * 96) == affine(rc);
      if (ok && have.count(q)) { M().hit("known committee rewritten"); continue; }
      if (!ok) M().viol("foreign-committee-stored@" + key_of(how), where + " period " + std::to_string(q)); else if (!want && !known) M().viol("unproven-committee-stored@" + key_of(how), where + " period " + std::to_string(q)); else M().hit("committee stored"); }
    if (v.ok && forged) M().viol("untrusted-accepted@" + key_of(how), where); 
    if (v.ok && !want && !known) M().viol("untrusted-accepted@" + key_of(how), where);
    if (want && !v.ok) M().viol("honest-rejected@" + key_of(how), where);
    if (want && v.ok && !store().kv.count("sync_" + id + "_" + std::to_string(per))) M().viol("committee-not-stored@" + key_of(how), where);
    M().hit(v.ok ? "sync accepted" : "sync rejected"); M().obs(how + " start" + std::to_string(start) + (v.ok ? "+" : "-" + v.error.substr(0, 40)));
    if (M().samples.size() < 3) M().sample(how + " " + where);
  }
  static S key_of(const S& h) { return h.substr(0, 40); }
  static const B& affine(const synth::Committee& c) { static std::map<const void*, B> m; auto& b = m[&c]; if (b.empty()) { b.resize(512 * 96); for (int i = 0; i < 512; i++) blst_p1_uncompress((blst_p1_affine*) &b[i * 96], &c.keys[i * 48]); } return b; }
  N two(const B& num, const B& ts) { // tree in which 806 and 809 have the given leaves and everything else is random
    std::function<N(uint64_t, int)> mk = [&](uint64_t g, int d) -> N { auto under = [&](uint64_t t) { while (t > g) t >>= 1; return t == g; }; if (g == 806) return leafn(num); if (g == 809) return leafn(ts); if (!under(806) && !under(809)) return leafn(r.raw(32)); return pairn(mk(g * 2, d + 1), mk(g * 2 + 1, d + 1)); };
    return mk(1, 0);
  }
};
int main(int argc, char** argv) {
  M().init(argc, argv);
  return M().loop([] { auto& r = M().rng; for (int i = 0; i < 3; i++) groth(r); if (r.chance(1, 3)) recorded(r); for (int i = 0; i < 3; i++) { const Spec* s; do s = &r.pick(synth::specs()); while (s->id == 10200); Zk z(r, *s); z.run(); } });
}
