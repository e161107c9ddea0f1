// Which headers and committees a client trusts.
//  T01  headers signed (or not properly signed) in every way, at fork and period boundaries, direct, chained and historic
//  T02  histories of bootstraps and updates, honest and forged, from upstream or inside of the proof
//  T03  the same histories with storage faults, crashes and corrupted files
#include "drive.hpp"
#include "../lib/lc.hpp"
#include "../lib/mut.hpp"
#include "../lib/truth.hpp"
extern "C" {
#include "../lib/shim/blst.h"
}
using namespace drive;
using synth::World; using synth::Spec; using synth::Bs; using synth::bits_n; using synth::pool; using synth::fork_slot; using synth::period_of; using synth::epoch_of;
static Ans noans(const Req&) { return Ans::fail("no upstream"); }
// a slot in one of the supported forks, often right at a fork or period boundary
static uint64_t rnd_slot(const Spec& sp, Rng& r) {
  int fork = (int) r.range(synth::DENEB, sp.fe[5] == ~0ULL ? synth::ELECTRA : synth::FULU); uint64_t s = synth::slot_in(sp, fork, r); int sh = sp.eb + sp.pb;
  switch (r.below(5)) {
    case 0: s = (((s >> sh) + 1) << sh) - 1 - r.below(3); break;                                                 // end of a period
    case 1: s = (((s >> sh) + 1) << sh) + r.below(3); break;                                                     // start of a period
    case 2: s = (sp.fe[fork - 1] << sp.eb) + r.below(3); break;                                                  // start of the fork
    case 3: if (fork > synth::DENEB) s = (sp.fe[fork - 1] << sp.eb) - 1 - r.below(2); break;                     // end of the previous fork
    default: break;
  }
  return s;
}
struct T01 {
  Rng& r; const Spec& sp; std::unique_ptr<World> w; int n = 0;
  T01(Rng& rr, const Spec& s) : r(rr), sp(s), w(new World(s, rr.u64())) {}
  void state(uint64_t slot) { store() = Store(); install(8); S id = std::to_string(sp.id); B st = {1}; uint64_t p = period_of(sp, slot + 1); for (uint64_t q = p - 2; q <= p + 3; q++) { put(st, le(q, 4)); store().kv["sync_" + id + "_" + std::to_string(q)] = w->sync_file(q); } store().kv["states_" + id] = st; }
  // header with a body proving a fresh block number
  struct Hd { Val h; N body; uint64_t num, ts; };
  Hd mk(uint64_t slot, const B& parent, const B& state) { Hd x; x.num = r.u64() >> 20; x.ts = r.u64() >> 20; N pl; { std::vector<N> c; for (int i = 0; i < 17; i++) c.push_back(leafn(r.raw(32))); auto u = [&](uint64_t v) { B b = le(v, 8); b.resize(32, 0); return leafn(b); }; c[6] = u(x.num); c[9] = u(x.ts); pl = merkle(c, 5); } x.body = upto(pl, 25, r); x.h = w->mkheader(slot, parent, state, x.body->h); return x; }
  static N upto(N n, uint64_t g, Rng& r) { return synth::upto(n, g, r); }
  Val req(const Hd& x, const Val& hp) { Val v = World::req(); Val& p = v["proof"].choose(8); p["blockNumber"].u(x.num); p["timestamp"].u(x.ts); synth::setlist(p["proof"], multiproof(x.body, {806, 809})); p["header"] = x.h; p["header_proof"] = hp; return v; }
  Val sigp(const B& bits, const B& sig) { Val u(synth::ty::hproof()); Val& s = u.choose(0); s["sync_committee_bits"].b = bits; s["sync_committee_signature"].b = sig; return u; }
  B msg(const Val& h) { return synth::signing_root(sp, htr(h), h["slot"].u() + 1); }
  const synth::Committee& duty(const Val& h, int off = 0) { return w->com(period_of(sp, h["slot"].u() + 1) + off); }
  void judge(const S& how, const Hd& x, const Val& hp, bool accept, uint64_t chain = 0) {
    Val q = req(x, hp); M().label(how + " slot " + std::to_string(x.h["slot"].u()));
    Result v = verify(q.ser(), "eth_blockNumber", "[]", chain ? chain : sp.id, "", noans); M().evals++;
    if (!accept && !v.ok && r.chance(1, 3)) { v = verify(q.ser(), "eth_blockNumber", "[]", chain ? chain : sp.id, "", noans); M().evals++; M().hit("rejected proof offered again"); }
    S where = " chain " + std::to_string(sp.id) + " slot " + std::to_string(x.h["slot"].u()) + " fork " + std::to_string(fork_slot(sp, x.h["slot"].u()));
    if (v.hang) M().viol("hang@" + how, where);
    else if (accept && !v.ok) M().viol("honest-rejected@" + how, where + ": " + v.error);
    else if (!accept && v.ok) M().viol("untrusted-accepted@" + how, where + ": header accepted, answer " + jdump(v.result));
    else { if (accept && v.result.s != qhex(x.num)) M().viol("wrong-answer@" + how, where); M().hit(accept ? "accepted as it should" : "rejected as it should"); M().obs(how + (accept ? "+" : "-") + std::to_string(fork_slot(sp, x.h["slot"].u()))); }
  }
  int enough() { return r.chance(1, 3) ? 342 : r.chance(1, 4) ? 512 : 342 + (int) r.below(171); }
  int few() { return r.pick({0, 1, 2, 170, 256, 300, 340, 341, 341, 341}); }
  B sign(const Val& h, const B& bits, int off = 0) { return duty(h, off).sign(msg(h), bits); }
  B inf() { B s(96, 0); s[0] = 0xc0; return s; }
  // attack on bits/sig of a header that is otherwise linked correctly
  bool spoil(const Val& h, B& bits, B& sig, S& how) {
    const auto& d = duty(h);
    switch (r.below(17)) {
      case 0: { int k = few(); bits = bits_n(k, r); sig = k ? sign(h, bits) : inf(); how = "only " + S(k < 3 ? std::to_string(k) : k < 341 ? "some" : "341") + " of 512 signed"; return true; }
      case 1: sig = sign(h, bits); { bool full = synth::popcount(bits) > 342 && r.chance(1, 2); int i; do i = (int) r.below(512); while (synth::popcount(bits) < 512 && !!(bits[i / 8] >> (i % 8) & 1) != full); bits[i / 8] ^= (uint8_t) (1 << (i % 8)); } how = "participation bit flipped after signing"; return true;
      case 2: sig = r.raw(96); how = "random signature"; return true;
      case 3: sig = inf(); how = "point at infinity as signature"; return true;
      case 4: sig = sign(h, bits); sig[0] ^= 0x20; how = "negated signature"; return true;
      case 5: { Val o = h; o["proposerIndex"].u(o["proposerIndex"].u() ^ 1); sig = sign(o, bits); how = "signature of another header"; return true; }
      case 6: sig = pool(3).sign(msg(h), bits); how = "signed by a foreign committee"; return true;
      case 7: sig = sign(h, bits, 1); how = "signed by the committee of the next period"; return true;
      case 8: { const Spec* o; do o = &r.pick(synth::specs()); while (o->id == sp.id); Val t = h; sig = d.sign(hash2(htr(h), synth::domain(*o, fork_slot(sp, h["slot"].u()))), bits); how = "signed under the domain of another chain"; return true; }
      case 9: { int f = fork_slot(sp, h["slot"].u()); sig = d.sign(hash2(htr(h), synth::domain(sp, f + (r.chance(1, 2) && f < 6 ? 1 : -1))), bits); how = "signed under the domain of another fork"; return true; }
      case 10: { B dm = synth::domain(sp, fork_slot(sp, h["slot"].u())); dm[0] = (uint8_t) r.below(7); sig = d.sign(hash2(htr(h), dm), bits); how = "signed under another domain type"; return true; }
      case 11: sig = d.sign(htr(h), bits); how = "signed without domain"; return true;
      case 12: { B b2 = bits; sig = sign(h, b2); std::fill(bits.begin(), bits.end(), 0xff); if (b2 == bits) b2[0] = 0; else { how = "all participation bits claimed"; return true; } bits = b2; sig = sign(h, bits_n(400, r)); how = "other participants"; return true; }
      case 13: std::fill(bits.begin(), bits.end(), 0); sig = inf(); how = "empty bits and infinity signature"; return true;
      case 14: { B dm = synth::domain(sp, fork_slot(sp, h["slot"].u())); for (int i = 4; i < 32; i++) dm[i] = 0; sig = d.sign(hash2(htr(h), dm), bits); how = "signed under a domain without fork and genesis"; return true; }
      case 15: sig = sign(h, bits); sig[r.range(1, 95)] ^= (uint8_t) (1 << r.below(8)); how = "signature bit flipped"; return true;
      default: { sig = sign(h, bits); sig[0] &= 0x7f; how = "signature without compression flag"; return true; }
    }
  }
  void run() {
    uint64_t slot = rnd_slot(sp, r); state(slot);
    for (int k = 0; k < 4; k++) direct(slot);
    for (int k = 0; k < 4; k++) chained(slot);
    for (int k = 0; k < 4; k++) historic(slot);
    if (r.chance(1, 3)) odd(slot);
  }
  void direct(uint64_t slot) {
    Hd x = mk(slot + r.below(2), r.raw(32), r.raw(32)); B bits = bits_n(enough(), r), sig; S how; bool good = r.chance(1, 4);
    if (good) { sig = sign(x.h, bits); judge("direct: honest", x, sigp(bits, sig), true); if (r.chance(1, 2)) judge("direct: honest, repeated", x, sigp(bits, sig), true); 
      // a header that was accepted must not make other headers trusted
      Hd y = x; const char* f[] = {"slot", "proposerIndex", "parentRoot", "stateRoot"}; S fn = f[r.below(4)]; y.h[fn].b[r.below(y.h[fn].b.size() > 8 ? 32 : 2)] ^= (uint8_t) (1 << r.below(8)); judge("direct: " + fn + " changed after signing", y, sigp(bits, sig), false);
      if (sp.id != synth::specs()[0].id || r.chance(1, 2)) for (auto& o : synth::specs()) if (o.id != sp.id && fork_slot(o, x.h["slot"].u()) >= synth::DENEB) { // same proof, other chain, same keys trusted there
        S id = std::to_string(o.id); B st = {1}; uint64_t p = period_of(o, x.h["slot"].u() + 1); for (uint64_t q = p ? p - 1 : 0; q <= p; q++) { put(st, le(q, 4)); store().kv["sync_" + id + "_" + std::to_string(q)] = w->sync_file(period_of(sp, x.h["slot"].u() + 1)); } store().kv["states_" + id] = st; judge("direct: proof of another chain", x, sigp(bits, sig), false, o.id); break; }
      return; }
    if (spoil(x.h, bits, sig, how)) judge("direct: " + how, x, sigp(bits, sig), false);
    if (r.chance(1, 4)) { bits = bits_n(enough(), r); judge("direct: honest after a wrong signature", x, sigp(bits, sign(x.h, bits)), true); B b2 = bits_n(few(), r); judge("direct: accepted header with too few signers", x, sigp(b2, synth::popcount(b2) ? sign(x.h, b2) : inf()), false); }
  }
  Val chainp(const std::vector<Val>& mid, const Val& head, const B& bits, const B& sig) { Val u(synth::ty::hproof()); Val& s = u.choose(2); for (auto& m : mid) { Val& h = s["headers"].add(); for (const char* f : {"slot", "proposerIndex", "stateRoot", "bodyRoot"}) h[f].b = m[f].b; } s["header"] = head; s["sync_committee_bits"].b = bits; s["sync_committee_signature"].b = sig; return u; }
  void chained(uint64_t slot) {
    uint64_t s = slot - r.below(12); Hd x = mk(s, r.raw(32), r.raw(32)); std::vector<Val> mid; Val cur = x.h; int n = r.chance(1, 3) ? 0 : (int) r.below(8);
    for (int i = 0; i < n; i++) { s += 1 + r.below(2); mid.push_back(w->mkheader(s, htr(cur), r.raw(32), r.raw(32))); cur = mid.back(); }
    s += 1 + r.below(2); Val head = w->mkheader(s, htr(cur), r.raw(32), r.raw(32)); B bits = bits_n(enough(), r), sig = sign(head, bits); S how;
    int c = (int) r.below(8);
    if (c < 2) { judge("chain: honest", x, chainp(mid, head, bits, sig), true); return; }
    if (c < 4) { spoil(head, bits, sig, how); judge("chain: " + how, x, chainp(mid, head, bits, sig), false); return; }
    if (c == 4) { Val h2 = w->mkheader(s, r.raw(32), r.raw(32), r.raw(32)); sig = sign(h2, bits); judge("chain: signed header has another parent", x, chainp(mid, h2, bits, sig), false); return; }
    if (c == 5) { Val h2 = head; h2["parentRoot"].set(r.raw(32)); head["stateRoot"].b[0] ^= 1; judge("chain: signed header changed", x, chainp(mid, r.chance(1, 2) ? h2 : head, bits, sig), false); return; }
    if (c == 6) { if (mid.empty()) { Val extra = w->mkheader(s, htr(x.h), r.raw(32), r.raw(32)); mid.push_back(extra); how = "additional header"; } else if (mid.size() > 1 && r.chance(1, 2)) { std::swap(mid[0], mid.back()); how = "headers reordered"; } else if (r.chance(1, 2)) { mid.erase(mid.begin() + r.below(mid.size())); how = "header missing"; } else { Val& m = mid[r.below(mid.size())]; S f = r.pick({"slot", "proposerIndex", "stateRoot", "bodyRoot"}); m[f].b[r.below(m[f].b.size())] ^= (uint8_t) (1 << r.below(8)); how = "intermediate " + f + " changed"; } judge("chain: " + how, x, chainp(mid, head, bits, sig), false); return; }
    { Hd y = mk(x.h["slot"].u(), r.raw(32), r.raw(32)); judge("chain: forged block below a signed chain", y, chainp(mid, head, bits, sig), false); }
  }
  Val histp(const Bs& proof, uint64_t g, const Val& head, const B& bits, const B& sig) { Val u(synth::ty::hproof()); Val& s = u.choose(1); synth::setlist(s["proof"], proof); s["header"] = head; s["gindex"].u(g); s["sync_committee_bits"].b = bits; s["sync_committee_signature"].b = sig; return u; }
  void historic(uint64_t slot) {
    uint64_t lo = sp.fe[2] << sp.eb; uint64_t s = lo + r.below(slot - lo - 8192 > 0 ? slot - lo - 8192 : 1); if (r.chance(1, 3)) s = slot - 8192 - r.below(100); Hd x = mk(s, r.raw(32), r.raw(32)); uint64_t g = w->hist_gi(slot, s);
    B bits = bits_n(enough(), r), sig; S how; int c = (int) r.below(8); uint64_t pg = g; B leaf = htr(x.h);
    if (c == 4) { // the root really is in the signed state, but at a place which has nothing to do with past blocks
      int f; do f = (int) r.below(28); while (f == 5 || f == 27); uint64_t base = (w->electra(slot) ? 64 : 32) + f; pg = r.chance(1, 3) ? base : gcat(base, (1ULL << r.range(1, 30))); how = "root found in another field of the state"; if (r.chance(1, 4)) { pg = gcat(w->summaries_gi(slot), 2); how = "root found in place of the summaries list"; } }
    else if (c == 5) { pg = g ^ (1ULL << 14); how = "root found in the state summary"; // state roots are not block roots
      if (r.chance(1, 2)) { uint64_t o; do o = r.below(8192); while (o == s % 8192); pg = (g & ~8191ULL) | o; how = "root found at the position of another slot"; } }
    N st = upto(leafn(leaf), pg, r); Val head = w->mkheader(slot, r.raw(32), st->h, r.raw(32)); Bs br = branch(st, pg); sig = sign(head, bits);
    if (c < 2) { judge("historic: honest", x, histp(br, g, head, bits, sig), true); return; }
    if (c < 4) { spoil(head, bits, sig, how); judge("historic: " + how, x, histp(br, g, head, bits, sig), false); return; }
    if (c < 6) { judge("historic: " + how, x, histp(br, pg, head, bits, sig), false); return; }
    if (c == 6) { int k = (int) r.below(6); uint64_t g2 = g; Bs b2 = br; Val h2 = head; if (k == 0) { b2[r.below(b2.size())][r.below(32)] ^= 1; how = "proof node changed"; } else if (k == 1) { b2.pop_back(); how = "proof cut"; } else if (k == 2) { b2.push_back(r.raw(32)); how = "proof extended"; } else if (k == 3) { g2 ^= 1ULL << r.below(20); how = "gindex changed"; } else if (k == 4) { b2.clear(); g2 = 1; how = "empty proof"; h2["stateRoot"].set(r.raw(32)); } else { g2 = r.pick(std::vector<uint64_t>{0, 1, 2, 3, ~0ULL, 1ULL << 63}); how = "odd gindex"; } judge("historic: " + how, x, histp(b2, g2, h2, bits, sig), false); return; }
    { // the header itself is the signed one, proven by an empty proof: state root equal to its own root is impossible, so use the state root trick
      Hd y = mk(s, r.raw(32), r.raw(32)); judge("historic: forged block below a signed state", y, histp(br, g, head, bits, sig), false); }
  }
  void odd(uint64_t slot) {
    S id = std::to_string(sp.id); B bits = bits_n(enough(), r);
    Hd x = mk(~0ULL, r.raw(32), r.raw(32)); judge("direct: slot overflow", x, sigp(bits, inf()), false);
    { Hd y = mk(slot, r.raw(32), r.raw(32)); B sig = sign(y.h, bits); auto kv = store().kv; store().kv.clear(); judge("direct: nothing trusted yet and no upstream", y, sigp(bits, sig), false); store().kv = kv; }
    { Hd y = mk(slot, r.raw(32), r.raw(32)); B sig = sign(y.h, bits); judge("direct: unknown chain", y, sigp(bits, sig), false, 424242); }
  }
};

// ---------------------------------------------------------------- histories
static const B& affine(const synth::Committee& c) { static std::map<const void*, B> m; auto& b = m[&c]; if (b.empty()) { b.resize(512 * 96); for (int i = 0; i < 512; i++) blst_p1_uncompress((blst_p1_affine*) &b[i * 96], &c.keys[i * 48]); } return b; }
struct Hist {
  Rng& r; const Spec& sp; std::unique_ptr<World> w; synth::Lc lc; T01 q; S id; bool faults; uint32_t maxs; std::map<uint64_t, Val> upds; std::map<uint64_t, B> roots; std::map<B, B> boots; B trusted; bool lighthouse; S trace;
  uint64_t head;       // current slot of the chain
  std::set<B> chkpts;  // roots a client may legitimately trust
  Hist(Rng& rr, const Spec& s, bool f) : r(rr), sp(s), w(new World(s, rr.u64())), lc(*w), q(rr, s), id(std::to_string(s.id)), faults(f) { q.w.reset(new World(s, rr.u64())); q.w->salt = w->salt; }
  int sh() const { return sp.eb + sp.pb; }
  // the honest chain: one update per period, created on demand
  const Val& upd(uint64_t p) { auto it = upds.find(p); if (it != upds.end()) return it->second; uint64_t a = (p << sh()) + 200 + r.below(7000); 
    if (r.chance(1, 4)) for (int f = synth::ELECTRA; f <= synth::FULU; f++) if (sp.fe[f - 1] != ~0ULL && period_of(sp, sp.fe[f - 1] << sp.eb) == p && (sp.fe[f - 1] << sp.eb) % 8192) a = (sp.fe[f - 1] << sp.eb) + (r.chance(1, 2) ? 0 : r.below(3)); // right at a fork
    if (r.chance(1, 6)) a = (p << sh()) + 64 + r.below(32); if (r.chance(1, 6)) a = ((p + 1) << sh()) - 2 - r.below(3);
    synth::LcOpt o; if (r.chance(1, 5) && period_of(sp, a + 3) == p) o.sigslot = a + 1 + r.below(3); uint64_t fs; B fr; Val u = lc.update(a, o, &fs, &fr); roots[fs] = fr; return upds[p] = u; }
  B checkpoint(uint64_t slot) { B root; Val b = lc.bootstrap(slot, &root); boots[root] = b.ser(); chkpts.insert(root); return root; }
  uint64_t boot_period(const B& root) { auto it = boots.find(root); if (it == boots.end()) return period_of(sp, finslot); const B& b = it->second; size_t o = (size_t) b[0] | (size_t) b[1] << 8 | (size_t) b[2] << 16; uint64_t sl = 0; memcpy(&sl, &b[o], 8); return period_of(sp, sl); }
  B upd_list(uint64_t p0, uint64_t n) { std::vector<B> us; std::vector<uint64_t> sl; uint64_t ph = period_of(sp, head); for (uint64_t p = p0; p < p0 + n && p <= ph && us.size() < 128; p++) { us.push_back(upd(p).ser()); sl.push_back(synth::Lc::aslot_of(upd(p))); } return lc.list(us, sl, lighthouse); }
  B finalized; uint64_t finslot = 0;
  static S jroot(const B& b) { return "{\"data\":{\"root\":\"" + hex(b) + "\"}}"; }
  Ans honest(const Req& x) {
    trace += " <" + x.url + ">";
    if (x.url.find("light_client/bootstrap/0x") != S::npos) { B root = unhex(x.url.substr(x.url.find("0x") + 2)); auto it = boots.find(root); return it == boots.end() ? Ans::fail("404 not found") : Ans::ok(it->second); }
    uint64_t a, b; size_t p;
    if ((p = x.url.find("light_client/updates?start_period=")) != S::npos) { if (sscanf(x.url.c_str() + p + 34, "%lu&count=%lu", &a, &b) == 2) return b > 128 ? Ans::fail("count too big") : b == 0 ? Ans::fail("count must be positive") : Ans::ok(upd_list(a, b)); }
    if (x.url.find("finality_checkpoints") != S::npos) return Ans::ok(S("{\"data\":{\"previous_justified\":{\"epoch\":\"1\",\"root\":\"") + hex(B(32, 1)) + "\"},\"finalized\":{\"epoch\":\"" + std::to_string(finslot >> sp.eb) + "\",\"root\":\"" + hex(finalized) + "\"}}}");
    if ((p = x.url.find("beacon/blocks/")) != S::npos) { if (sscanf(x.url.c_str() + p + 14, "%lu", &a) == 1 && roots.count(a)) return Ans::ok(jroot(roots[a])); return Ans::fail("404 not found"); }
    return Ans::fail("404 unknown url");
  }
  // ---- attacker
  S attack; uint64_t long_from = 0; std::map<uint64_t, Val> fake; std::map<uint64_t, B> fakeroots;
  const synth::Committee& evil() { return pool(3); }
  Val forged_update(uint64_t p, S& how) {
    synth::LcOpt o; uint64_t a = (p << sh()) + 300 + r.below(7000); Val v; std::vector<Val*> don; Val donor = upd(p > 2 ? p - 1 : p); don.push_back(&donor);
    switch (r.below(14)) {
      case 13: { a = (p << sh()) + r.below(1ULL << sp.eb); uint64_t fs = ((a >> sp.eb) - 2) << sp.eb; N fst = lc.state(fs, r.raw(32), o); Val fin = w->mkheader(fs, r.raw(32), fst->h, r.raw(32)); o.fin = &fin; v = lc.update(a, o); v["nextSyncCommittee"] = w->com(period_of(sp, fs) + 1).val; synth::setvec(v["nextSyncCommitteeBranch"], branch(fst, lc.gi(23, fs))); how = "next committee of the finalized header"; break; }
      case 0: o.next = &evil(); o.signer = &evil(); how = "signed by itself"; v = lc.update(a, o); break;
      case 1: o.next = &evil(); o.bits = r.pick({1, 2, 170, 341, 341}); how = "too few signers"; v = lc.update(a, o); break;
      case 2: o.next = &evil(); o.bits = 0; how = "no signers"; v = lc.update(a, o); break;
      case 3: o.field = &evil(); how = "committee exchanged"; v = lc.update(a, o); break;
      case 4: o.field = &w->com(p); o.wrong_branch = true; how = "current committee as next"; v = lc.update(a, o); break;
      case 5: o.next = &evil(); o.signer = &w->com(p + 1); how = "signed by the next committee"; v = lc.update(a, o); break;
      case 6: { o.next = &evil(); int f = fork_slot(sp, a); o.fork_domain = f - 1; how = "signed in another fork"; v = lc.update(a, o); break; }
      case 7: v = upd(p); v["nextSyncCommittee"] = evil().val; how = "committee exchanged in a good update"; break;
      case 8: { v = upd(p); v["nextSyncCommittee"]["pubkeys"].e[r.below(512)].b = evil().val["pubkeys"].e[r.below(512)].b; how = "one key exchanged"; break; }
      case 9: { v = upd(p); how = "mutated: " + mut::one(v, don, r, "nextSyncCommittee"); break; }
      case 10: { v = upd(p); uint64_t s = synth::Lc::aslot_of(v); v["attestedHeader"]["beacon"]["slot"].u(s + r.pick({8192, 16384, 1, 32})); how = "slot of the attested header changed"; break; }
      case 11: { o.next = &evil(); v = lc.update(a, o); Val g = upd(p); v["syncAggregate"] = g["syncAggregate"]; how = "signature of another update"; break; }
      default: { v = upd(p); how = "mutated: " + mut::one(v, don, r, r.pick({"attestedHeader", "syncAggregate", "", "nextSyncCommittee"})); break; }
    }
    return v;
  }
  B mess(B b, S& how) { switch (r.below(9)) { case 0: how = "cut"; b.resize(r.below(b.size() + 1)); break; case 1: how = "few bytes"; b = r.raw(r.below(40)); break; case 2: how = "garbage"; b = r.raw(r.below(30000)); break; case 3: how = "length field changed"; if (b.size() > 8) { uint64_t l = r.pick(std::vector<uint64_t>{0, 1, 3, 4, 5, 12, 13, ~0ULL, ~0ULL - 8, 1ULL << 32, b.size(), b.size() - 8, b.size() - 7}); B x = le(l, 8); std::copy(x.begin(), x.end(), b.begin()); } break; case 4: how = "json error"; { S j = r.pick({"{\"code\":404,\"message\":\"not found\"}", "{}", "{", "[]", "{\"message\":", "{\"message\":\"%s%n\"}"}); b.assign(j.begin(), j.end()); } break; case 5: how = "empty"; b.clear(); break; case 6: how = "appended"; put(b, r.raw(r.below(30))); break; case 7: how = "byte changed"; if (b.size()) b[r.below(std::min<size_t>(b.size(), r.chance(1, 2) ? 300 : 100000))] ^= (uint8_t) (1 << r.below(8)); break; default: how = "offset changed"; if (b.size() > 30) { uint32_t v = (uint32_t) r.pick(std::vector<uint64_t>{0, 1, 4, 100, 0xffffffff, 0xfffffff0, b.size()}); size_t at = r.pick({(size_t) 0, (size_t) 4, (size_t) 12, (size_t) 16, (size_t) 20}); B x = le(v, 4); std::copy(x.begin(), x.end(), b.begin() + at); } } return b; }
  Ans hostile(const Req& x) {
    if (r.chance(1, 8)) { attack += " [upstream failure]"; trace += " <" + x.url + " FAIL>"; return Ans::fail(r.pick({"timeout", "500 \"internal\"", ""})); }
    if (r.chance(1, 4)) return honest(x);
    trace += " <" + x.url + " HOSTILE>"; uint64_t a, b; size_t p; S how; Ans h = honest(x);
    if (x.url.find("light_client/bootstrap/0x") != S::npos) {
      synth::LcOpt o; uint64_t slot = head - r.below(2000); int c = (int) r.below(6); if (c == 0) { o.cur = &evil(); attack += " [bootstrap of a foreign chain]"; return Ans::ok(lc.bootstrap(slot, nullptr, o).ser()); }
      if (h.err) return h; Val v(fork_slot(sp, head) <= synth::DENEB ? synth::ty::boot_d() : synth::ty::boot_e()); 
      if (c == 1) { attack += " [bootstrap of another checkpoint]"; return Ans::ok(lc.bootstrap(slot).ser()); }
      if (c == 2) { o.field = &evil(); attack += " [bootstrap with exchanged committee]"; B bb = h.data; B k = evil().val.ser(); if (bb.size() > k.size() + 300) { size_t fix = 4 + k.size() + 32 * synth::Lc::depth(fork_slot(sp, slot)); (void) fix; std::copy(k.begin(), k.end(), bb.begin() + 4); } return Ans::ok(bb); }
      B m = mess(h.data, how); attack += " [bootstrap " + how + "]"; return Ans::ok(m);
    }
    if ((p = x.url.find("light_client/updates?start_period=")) != S::npos && sscanf(x.url.c_str() + p + 34, "%lu&count=%lu", &a, &b) == 2) {
      if (h.err || r.chance(1, 4)) { B m = mess(h.data, how); attack += " [updates " + how + "]"; return Ans::ok(m); }
      std::vector<B> us; std::vector<uint64_t> sl; uint64_t bad = a + r.below(std::min<uint64_t>(b, 4)); int c = (int) r.below(8);
      for (uint64_t pp = a; pp < a + b && us.size() < 20; pp++) { Val v = pp == bad && c < 6 ? forged_update(pp, how) : upd(pp); us.push_back(v.ser()); sl.push_back(synth::Lc::aslot_of(upd(pp))); }
      if (c == 6) { how = "other order"; for (size_t i = us.size(); i > 1; i--) { size_t j = r.below(i); std::swap(us[i - 1], us[j]); std::swap(sl[i - 1], sl[j]); } }
      else if (c == 7) { how = "other periods"; us.clear(); sl.clear(); uint64_t s = a + r.below(6) - 3; for (uint64_t i = 0, n = r.range(1, 4); i < n; i++) { us.push_back(upd(s + i).ser()); sl.push_back(synth::Lc::aslot_of(upd(s + i))); } }
      attack += " [updates " + how + "]"; return Ans::ok(lc.list(us, sl, lighthouse));
    }
    if (x.url.find("finality_checkpoints") != S::npos) { S j = r.pick({"{\"data\":{\"finalized\":{\"epoch\":\"1\"}}}", "{\"data\":{\"finalized\":{\"epoch\":\"99999999999999999999\",\"root\":\"0x12\"}}}", "{}", "not json", "{\"data\":{\"finalized\":{\"epoch\":1,\"root\":\"0x00\"}}", "{\"data\":null}"}); attack += " [finality checkpoints malformed]"; return Ans::ok(j); }
    if (x.url.find("beacon/blocks/") != S::npos) { S j = r.pick(std::vector<S>{jroot(r.raw(32)), "{\"data\":{\"root\":\"0x\"}}", "{\"data\":{}}", "{}", "x", "{\"data\":{\"root\":\"0xzz" + S(62, 'z') + "\"}}"}); attack += " [block root wrong]"; return Ans::ok(j); }
    return Ans::fail("404");
  }
  // attacker that owns the keys of an old committee and builds a chain of its own on it
  void prepare_long(uint64_t from, uint64_t to, bool realfin) { bool first = !realfin && r.chance(1, 2); /* only the oldest update names a real finalized block */ long_from = from; for (uint64_t p = from; p <= to; p++) { synth::LcOpt o; o.next = &evil(); if (p > from) { o.cur = &evil(); o.signer = &evil(); } uint64_t fs; B fr; uint64_t at = (p << sh()) + 400 + r.below(6000); Val rf; if ((realfin && p + 1 >= to) || (first && p == from)) { at = synth::Lc::aslot_of(upd(p)); rf = upd(p)["finalizedHeader"]["beacon"]; o.fin = &rf; } fake[p] = lc.update(at, o, &fs, &fr); fakeroots[fs] = fr; if (!roots.count(fs)) roots[fs] = r.raw(32); } if (first) M().hit("long range with a real finalized block at first"); }
  Ans longrange(const Req& x) {
    uint64_t a, b; size_t p;
    if ((p = x.url.find("light_client/updates?start_period=")) != S::npos && sscanf(x.url.c_str() + p + 34, "%lu&count=%lu", &a, &b) == 2) { trace += " <" + x.url + " FORGED>"; std::vector<B> us; std::vector<uint64_t> sl; for (uint64_t pp = a; pp < a + b; pp++) if (fake.count(pp)) { us.push_back(fake[pp].ser()); sl.push_back(synth::Lc::aslot_of(fake[pp])); } return Ans::ok(lc.list(us, sl)); }
    return honest(x); // the checkpoint source is honest
  }
  // ---- monitor over the stored state
  std::vector<uint64_t> periods() { std::vector<uint64_t> o; auto it = store().kv.find("states_" + id); if (it == store().kv.end() || it->second.empty() || it->second[0] != 1) return o; for (size_t i = 1; i + 4 <= it->second.size(); i += 4) { uint64_t p = 0; for (int k = 3; k >= 0; k--) p = p << 8 | it->second[i + k]; o.push_back(p); } return o; }
  bool monitor(const S& when) {
    auto& kv = store().kv; bool good = true; auto bad = [&](const S& k, const S& t) { M().viol(k, t + " after " + when + attack + "; trace" + trace.substr(0, 1500)); good = false; };
    for (auto& x : kv) { uint64_t c, p; if (sscanf(x.first.c_str(), "sync_%lu_%lu", &c, &p) != 2) continue; if (damaged.count(x.first)) continue; const auto& k = w->com(p);
      bool ok48 = (x.second.size() == 512 * 48 || x.second.size() == 512 * 48 + 32) && sub(x.second, 0, 512 * 48) == k.keys, ok96 = x.second.size() >= 512 * 96 && x.second.size() <= 512 * 96 + 32 && sub(x.second, 0, 512 * 96) == affine(k);
      if (!ok48 && !ok96) { bool ev = sub(x.second, 0, 48) == sub(evil().keys, 0, 48) || sub(x.second, 0, 96) == sub(affine(evil()), 0, 96); if (ev || !corrupt) bad(ev ? "foreign-committee-stored" : "wrong-committee-stored", "period " + std::to_string(p) + " (" + std::to_string(x.second.size()) + " bytes)"); } }
    if (corrupt) return good; // what a damaged state file lists is not the choice of the client
    auto it = kv.find("states_" + id); if (it == kv.end()) return good;
    if (it->second.size() == 33 && it->second[0] == 2) { if (!chkpts.count(sub(it->second, 1))) bad("untrusted-checkpoint-stored", hex(sub(it->second, 1))); return good; }
    auto ps = periods(); std::set<uint64_t> u(ps.begin(), ps.end());
    if (u.size() != ps.size()) bad("period-stored-twice", std::to_string(ps.size()) + " entries, " + std::to_string(u.size()) + " periods");
    if (ps.size() > std::max<uint32_t>(1, std::min<uint32_t>(maxs ? maxs : 3, 8))) bad("too-many-periods", std::to_string(ps.size()) + " with limit " + std::to_string(maxs));
    if (!faults || !nf) { for (auto p : ps) if (!kv.count("sync_" + id + "_" + std::to_string(p))) bad("period-without-keys", std::to_string(p)); size_t files = 0; for (auto& x : kv) if (x.first.compare(0, 5, "sync_") == 0) files++; if (files > ps.size()) bad("orphaned-keys", std::to_string(files) + " files for " + std::to_string(ps.size()) + " periods"); }
    return good;
  }
  std::set<S> damaged;
  // ---- one question
  struct Ask { Val req; uint64_t num; uint64_t period; bool forged; };
  Ask ask(uint64_t slot, bool forged) { Ask a; auto x = q.mk(slot, r.raw(32), r.raw(32)); B bits = bits_n(342 + (int) r.below(171), r); uint64_t p = period_of(sp, slot + 1); B sig = (forged ? evil() : w->com(p)).sign(synth::signing_root(sp, htr(x.h), slot + 1), bits); a.req = q.req(x, q.sigp(bits, sig)); a.num = x.num; a.period = p; a.forged = forged; return a; }
  S show(const Ask& a) { S s; for (auto p : periods()) s += " " + std::to_string(p); return "chain " + id + " question in period " + std::to_string(a.period) + " head " + std::to_string(period_of(sp, head)) + " limit " + std::to_string(maxs) + " known now {" + s + " }" + (lighthouse ? " lighthouse" : "") + "; trace" + trace.substr(0, 900); }
  void syncdata(Val& rq, uint64_t from, uint64_t to, const B* cp, bool evilone, S& how) {
    Val& s = rq["sync_data"].choose(1); if (cp && boots.count(*cp)) { int sel = 1; Val v(synth::ty::boot_d()); if (!de(synth::ty::boot_d(), boots[*cp], v)) { sel = 2; v = Val(synth::ty::boot_e()); de(synth::ty::boot_e(), boots[*cp], v); } s["bootstrap"].choose(sel) = v; } else s["bootstrap"].choose(0);
    if (evilone && r.chance(1, 2)) { synth::LcOpt o; o.cur = &evil(); Val v = lc.bootstrap(head - r.below(1000), nullptr, o); s["bootstrap"].choose(v.t == synth::ty::boot_d() ? 1 : 2) = v; how += " [forged bootstrap inside]"; }
    uint64_t bad = from + r.below(to > from ? to - from : 1);
    for (uint64_t p = from; p < to; p++) { S h; Val u = evilone && p == bad ? forged_update(p, h) : upd(p); if (h.size()) how += " [update inside: " + h + "]"; Val& e = s["update"].add(); e.choose(u.t == synth::ty::upd_d() ? 0 : 1) = u; if (evilone && r.chance(1, 6)) { e.choose(u.t == synth::ty::upd_d() ? 1 : 0); how += " [wrong fork variant]"; } }
  }
  void run() {
    int fork = (int) r.range(synth::DENEB, sp.fe[5] == ~0ULL ? synth::ELECTRA : synth::FULU); if (M().cur == 0) fork = synth::ELECTRA; head = synth::slot_in(sp, fork, r); if (r.chance(1, 4)) head = (sp.fe[fork - 1] << sp.eb) + r.below(20000); if (period_of(sp, head) < period_of(sp, sp.fe[3] << sp.eb) + 40) head += 40ULL << sh();
    if (fork_slot(sp, head) < synth::DENEB) head = (sp.fe[3] + 20000) << sp.eb; lighthouse = r.chance(1, 5); maxs = r.pick({3, 3, 3, 2, 4, 5, 8}); if (faults && r.chance(1, 4)) maxs = r.pick({0, 1, 9, 16, 255});
    store() = Store(); install(maxs); trace = ""; attack = "";
    uint64_t ph = period_of(sp, head), start = ph - r.below(6); uint64_t low = period_of(sp, sp.fe[3] << sp.eb) + 1; if (start < low) start = low;
    finslot = ((head >> sp.eb) - 2) << sp.eb; finalized = checkpoint(finslot);
    bool forcelr = M().cur == 0 && !faults; int init = (int) r.below(4); if (forcelr) init = 2; S tc; bool unknown = false;
    if (init == 0) { trusted = checkpoint((start << sh()) + r.below(8192)); tc = hex(trusted); }
    else if (init == 1) { unknown = true; start = period_of(sp, finslot); }   // no checkpoint: the checkpoint source is asked
    else { // already synced to some periods
      B st = {1}; std::set<uint64_t> ps = {start}; if (maxs != 1 && r.chance(1, 3)) ps.insert(start + 1); bool gap = maxs != 1 && start + 2 <= ph && ps.size() == 1 && r.chance(1, 3); // a period is missing before the highest one
      if (gap) { B f = w->com(start + 2).keys; B hs = sha256(affine(w->com(start + 1))); if (r.chance(1, 4)) hs = r.raw(32); else if (r.chance(1, 4)) hs = B(32, 0); put(f, hs); put(st, le(start + 2, 4)); store().kv["sync_" + id + "_" + std::to_string(start + 2)] = f; }
      for (auto p : ps) { put(st, le(p, 4)); store().kv["sync_" + id + "_" + std::to_string(p)] = w->sync_file(p); } store().kv["states_" + id] = st; if (r.chance(1, 3)) { trusted = checkpoint(head - 50); tc = hex(trusted); } }
    // long range attack on a client which was offline for longer than the weak subjectivity period
    uint64_t wp = sp.wsp >> sp.pb; bool lr = (forcelr || (r.chance(1, 6) && init >= 2)) && period_of(sp, head) > low + wp + 3; 
    if (lr) { start = ph - wp - 1 - r.below(2); if (start < low) lr = false; else { store().kv.clear(); B st = {1}; put(st, le(start, 4)); store().kv["sync_" + id + "_" + std::to_string(start)] = w->sync_file(start); store().kv["states_" + id] = st; } }
    int steps = 2 + (int) r.below(5); int honest_ok = 0; S shape = std::to_string(init);
    if (lr) {
      bool attackit = forcelr || r.chance(2, 3); shape += attackit ? "L" : "l"; uint64_t slot = head - 5; Ask a = ask(slot, attackit);
      if (attackit) {
        bool realfin = !faults && (forcelr || r.chance(1, 5)), inside = !realfin && r.chance(1, 2); S kind = realfin ? "long range claiming the real finality" : inside ? "long range inside of the proof" : "long range"; prepare_long(start, ph, realfin); trace = ""; int cut = forcelr || r.chance(1, 2) ? MAXROUNDS : (int) r.range(1, 5);
        if (inside) { Val& sd = a.req["sync_data"].choose(1); sd["bootstrap"].choose(0); for (uint64_t p = start; p < ph; p++) { Val& e = sd["update"].add(); e.choose(fake[p].t == synth::ty::upd_d() ? 0 : 1) = fake[p]; } }
        M().label(kind); attack = " [" + kind + "]"; bool up = !inside || r.chance(1, 2); Result v = verify(a.req.ser(), "eth_blockNumber", "[]", sp.id, tc, [&](const Req& x) { return up ? longrange(x) : honest(x); }, cut); M().evals++; M().hit(kind);
        if (v.ok) M().viol("untrusted-accepted@" + S(realfin ? "longrange-real-finality" : kind), show(a)); else { M().obs(kind + " rejected: " + v.error.substr(0, 40) + v.status); }
        if (v.hang) M().viol("hang@long range", show(a)); if (realfin) return; monitor("a long range attack"); attack = "";
      }
      else { trace = ""; M().label("long gap"); Result v = verify(a.req.ser(), "eth_blockNumber", "[]", sp.id, tc, [&](const Req& x) { return honest(x); }); M().evals++; if (!v.ok) M().viol("honest-rejected@long gap:" + v.error.substr(0, 50), show(a) + " error " + v.error); else M().obs("long gap accepted"); monitor("a long gap"); }
      if (periods().empty()) unknown = true;
    }
    for (int i = 0; i < steps; i++) {
      if (r.chance(1, 3)) { head += r.below(3ULL << sh()); if (sp.fe[5] == ~0ULL ? false : false) {} ph = period_of(sp, head); finslot = ((head >> sp.eb) - 2) << sp.eb; finalized = checkpoint(finslot); }
      if (faults) fault();
      auto ps = periods(); uint64_t lo = ps.empty() ? (tc.size() ? boot_period(trusted) : period_of(sp, finslot)) : *std::min_element(ps.begin(), ps.end());
      if (ps.empty() && store().kv.count("states_" + id)) { auto& s = store().kv["states_" + id]; if (s.size() == 33 && s[0] == 2) lo = boot_period(sub(s, 1)); }
      uint64_t hp = period_of(sp, head); uint64_t tp = lo > hp ? hp : r.range(lo, hp); if (r.chance(1, 2)) tp = hp; if (tp + 12 < hp && false) tp = hp;
      uint64_t slot = (tp << sh()) + r.below(8191); if (r.chance(1, 8)) slot = (tp << sh()) + 8191; if (slot > head) slot = head; if (slot < (lo << sh())) slot = (lo << sh()) + 5; if (slot > head) head = slot;
      bool hon = r.chance(2, 5), forged = !hon && r.chance(1, 2); Ask a = ask(slot, forged); trace = ""; attack = ""; bool sd = r.chance(1, 3); S how;
      auto ps2 = periods(); uint64_t hi = ps2.empty() ? lo : *std::max_element(ps2.begin(), ps2.end()); B cpr; if (store().kv.count("states_" + id) && store().kv["states_" + id].size() == 33) cpr = sub(store().kv["states_" + id], 1); else if (ps2.empty() && tc.size()) cpr = trusted;
      if (sd && (ps2.size() || cpr.size()) && a.period > hi && a.period - hi < 12) { if (cpr.empty() && r.chance(1, 3)) { cpr = finalized; M().hit("bootstrap for a client that needs none"); } syncdata(a.req, hi, a.period, cpr.size() ? &cpr : nullptr, !hon && r.chance(2, 3), how); } else sd = false;
      attack = how; int cut = !hon && r.chance(1, 4) ? (int) r.range(1, 4) : MAXROUNDS; B bytes = a.req.ser(); if (!hon && r.chance(1, 6)) { Val m = a.req; std::vector<Val*> none; attack += " [request " + mut::one(m, none, r, "sync_data") + "]"; bytes = m.ser(); }
      S kind = S(hon ? "honest" : forged ? "forged" : "hostile") + (sd ? "+sync" : ""); M().label(kind + " question, period " + std::to_string(a.period) + " init " + std::to_string(init) + attack);
      Result v = verify(bytes, "eth_blockNumber", "[]", sp.id, tc, [&](const Req& x) { return hon ? honest(x) : hostile(x); }, cut); M().evals++;
      if (v.hang) M().viol("hang@" + kind + " " + v.status, show(a) + attack);
      if (v.ok && forged) M().viol("untrusted-accepted@" + kind, show(a) + attack);
      else if (v.ok && v.result.s != qhex(a.num)) M().viol("wrong-answer@" + kind, show(a) + attack + " answer " + jdump(v.result));
      bool excused = faults;
      if (hon && !v.ok && !excused) M().viol("honest-rejected@" + kind + ":" + v.error.substr(0, 50), show(a) + " lo " + std::to_string(lo) + " step " + std::to_string(i) + " init " + std::to_string(init) + " error " + v.error);
      if (hon && v.ok) honest_ok++;
      monitor(kind); M().hit(kind + (v.ok ? ": accepted" : ": rejected")); M().obs(kind + " init" + std::to_string(init) + " lim" + std::to_string(maxs) + " gap" + std::to_string(std::min<uint64_t>(a.period > hi ? a.period - hi : 0, 5)) + (v.ok ? "+" : "-" + v.error.substr(0, 30)) + attack.substr(0, 60));
    }
    if (faults) recover(tc);
    if (M().samples.size() < 3) M().sample("chain " + id + " periods " + std::to_string(start) + ".." + std::to_string(period_of(sp, head)) + " steps " + std::to_string(steps) + " honest accepted " + std::to_string(honest_ok) + trace);
  }
  bool corrupt = false; std::vector<std::map<S, B>> snaps; int budget = -1; uint64_t nf = 0; S flog;
  void note(const S& x) { nf++; flog += " [" + x + "]"; M().hit("fault: " + x); M().obs("fault " + x + " lim" + std::to_string(maxs)); }
  S anysync() { std::vector<S> k; for (auto& x : store().kv) if (x.first.compare(0, 5, "sync_") == 0) k.push_back(x.first); return k.empty() ? S() : r.pick(k); }
  size_t cutlen(size_t n) { size_t l = r.pick(std::vector<size_t>{0, 1, 4, 5, 31, 32, 33, 47, 48, 96, 24575, 24576, 24577, 24607, 24608, 24609, 49151, 49152, 49153, 49183, n ? n - 1 : 0, n ? r.below(n) : 0}); return std::min(l, n); }
  // faults of the storage while a question is answered
  void arm() {
    auto& st = store(); budget = -1; int get = 0, lost = 0, torn = 0; int c = (int) r.below(6);
    if (c == 0) { budget = (int) r.below(8); note("power loss"); } else if (c == 1) { get = 4; note("reads fail"); } else if (c == 2) { lost = 3; note("writes lost"); } else if (c == 3) { torn = 3; note("writes torn"); } else if (c == 4) { get = lost = torn = 6; note("reads and writes fail"); } else { disarm(); return; }
    st.fail_get = [this, get](const S&) { return get && r.chance(1, get); };
    st.on_set = [this, lost, torn](const S& k, B& v) {
      if (budget == 0) return false; bool tear = false; if (budget > 0 && --budget == 0) tear = r.chance(1, 2);
      if (lost && r.chance(1, lost)) { M().hit("write lost"); return false; }
      if (tear || (torn && r.chance(1, torn))) { v.resize(cutlen(v.size())); damaged.insert(k); M().hit("write torn"); return true; }
      damaged.erase(k); return true; };
    st.on_del = [this, lost](const S&) { if (budget == 0) return false; if (budget > 0) budget--; return !(lost && r.chance(1, lost)); };
  }
  void disarm() { auto& st = store(); st.fail_get = nullptr; st.on_del = nullptr; budget = -1; st.on_set = [this](const S& k, B&) { damaged.erase(k); return true; }; }
  // faults between two questions
  void fault() {
    auto& kv = store().kv; if (snaps.size() < 8) snaps.push_back(kv); S sk = "states_" + id, k = anysync();
    switch (r.below(14)) {
      case 0: if (k.size()) { kv.erase(k); note("keys deleted"); } break;
      case 1: if (k.size()) { kv[k].resize(cutlen(kv[k].size())); damaged.insert(k); note("keys cut"); } break;
      case 2: kv.erase(sk); note("state deleted"); break;
      case 3: if (kv.count(sk)) { kv[sk].resize(r.below(kv[sk].size() + 1)); note("state cut"); } break;
      case 4: if (k.size() && kv[k].size()) { kv[k][r.below(kv[k].size())] ^= (uint8_t) (1 << r.below(8)); damaged.insert(k); corrupt = true; note("keys bit flipped"); } break;
      case 5: if (kv.count(sk) && kv[sk].size()) { kv[sk][r.chance(1, 3) ? 0 : r.below(kv[sk].size())] ^= (uint8_t) (1 << r.below(8)); damaged.insert(sk); corrupt = true; note("state bit flipped"); } break;
      case 6: { auto& o = r.pick(snaps); if (o.count(sk)) { kv[sk] = o.at(sk); note("stale state"); } break; }
      case 7: { auto o = r.pick(snaps); bool d = false; for (auto& x : o) if (r.chance(1, 2)) { kv[x.first] = x.second; d = true; } if (d) { for (auto& x : kv) if (x.first[0] == 's' && x.first[1] == 'y' && x.second.size() != 24576 && x.second.size() != 24608 && x.second.size() != 49152 && x.second.size() != 49184) damaged.insert(x.first); note("stale mix"); for (auto& x : o) if (corrupt) damaged.insert(x.first); } break; }
      case 8: { B g = r.raw(r.below(60)); if (g.size() && r.chance(2, 3)) g[0] = (uint8_t) r.below(4); kv[sk] = g; damaged.insert(sk); corrupt = true; note("state garbage"); break; }
      case 9: { B g = {1}; for (int i = 0, n = (int) r.range(1, 12); i < n; i++) put(g, le(r.pick(std::vector<uint64_t>{0, 1, period_of(sp, head), period_of(sp, head) + 1, 0xffffffff, 0x7fffffff, period_of(sp, head) - r.below(10)}), 4)); kv[sk] = g; damaged.insert(sk); corrupt = true; note("state with arbitrary periods"); break; }
      case 10: if (k.size()) { put(kv[k], r.raw(r.range(1, 64))); damaged.insert(k); note("keys extended"); } break;
      case 11: for (auto it = kv.begin(); it != kv.end();) if (it->first.compare(0, 5, "sync_") == 0 && r.chance(2, 3)) it = kv.erase(it); else ++it; note("several keys deleted"); break;
      default: break;
    }
    if (r.chance(1, 2)) arm(); else disarm();
  }
  void recover(const S& tc) {
    disarm(); auto ps = periods(); uint64_t top = period_of(sp, head); for (auto p : ps) if (p > top && p < top + 10) top = p;
    S last; bool ok = false; int tries = 5;
    for (int i = 0; i < tries && !ok; i++) {
      uint64_t slot = (top << sh()) + 300 + r.below(7000); if (head < slot + 100) head = slot + 100; finslot = ((head >> sp.eb) - 2) << sp.eb; finalized = checkpoint(finslot);
      Ask a = ask(slot, false); trace = ""; attack = ""; M().label("recovery " + std::to_string(i) + flog); Result v = verify(a.req.ser(), "eth_blockNumber", "[]", sp.id, tc, [&](const Req& x) { return honest(x); }); M().evals++; last = v.error; ok = v.ok;
      if (v.hang) M().viol("hang@recovery", show(a) + flog); if (v.ok && v.result.s != qhex(a.num)) M().viol("wrong-answer@recovery", show(a)); monitor("recovery" + flog);
      if (v.ok) { M().hit("recovered after " + std::to_string(i + 1) + " runs"); M().obs("recovered " + std::to_string(i + 1) + flog.substr(0, 50)); }
      else if (i == tries - 1 && !corrupt) M().viol("no-recovery@" + last.substr(0, 50), show(a) + flog + " error " + last);
      else if (i == tries - 1) M().hit("not recovered from corruption");
    }
  }
};
int main(int argc, char** argv) {
  M().init(argc, argv); S mode = M().opt["--mode"];
  return M().loop([&] {
    Rng& r = M().rng; auto& sps = synth::specs(); const Spec& sp = sps[M().cur == 0 || r.chance(1, 2) ? 0 : r.below(sps.size())];
    if (mode == "T01") T01(r, sp).run();
    else Hist(r, sp, mode == "T03").run();
  });
}
