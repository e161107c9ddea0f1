// OP stack: the verifier trusts exactly the blocks the sequencer of the chain signed. Honest proofs of every question have
// to be accepted with the true answer; forged blocks, spliced or misdirected proofs must not give a false one.
#include "attack.hpp"
#include "../lib/node.hpp"
#include "../lib/op.hpp"
#include "scene.hpp"
#include "opseq.hpp"
static Ans noans(const Req&) { return Ans::fail("no upstream"); }
// an upstream of the prover: execution node plus the preconfirmations of the sequencer
struct OpNode {
  synth::Upstream up; OpChain c; Rng& r; bool evil = false; int hurt = 0; World* other = nullptr;
  OpNode(World& w, Rng& rr) : up(w, rr.u64()), c(w, key0()), r(rr) { up.extras = r.chance(1, 4); }
  int tag(S t) { if (t.size() && t[0] == '"') t = t.substr(1, t.size() - 2); if (t == "pre_latest") return std::max(0, up.head - 1); if (t.compare(0, 2, "0x")) return up.head; return up.by_tag(World::js(t)); }
  Ans answer(const Req& q) {
    B d; size_t p = q.url.find("preconf/");
    if (q.type == "internal" && p != S::npos) { int i = tag(q.url.substr(p + 8)); if (i < 0) return Ans::fail("404 no such block"); d = c.preconf(i, r); if (evil && r.chance(1, 6)) { hurt++; d = c.preconf((int) r.below(c.w.b.size()), r); } if (evil && other && r.chance(1, 6)) { hurt++; d = OpChain(*other, r.chance(1, 2) ? key0() : keccak(r.raw(4))).preconf(i, r); if (r.chance(1, 2)) { B t = c.preconf(i, r); std::copy(t.end() - 65, t.end(), d.end() - 65); } else { B w = keccak(r.raw(4)); d = OpChain(*other, w).preconf(i, r); } } }
    else { auto o = up.answer(q.url, q.rpc_method, q.rpc_params); if (o.err) return Ans::fail(o.text); d = o.text.size() ? B(o.text.begin(), o.text.end()) : o.ssz; }
    if (evil && r.chance(1, 5)) { hurt++; switch (r.below(6)) { case 0: d.clear(); break; case 1: d.resize(r.below(d.size() + 1)); break; case 2: if (d.size()) d[r.below(d.size())] ^= 1 << r.below(8); break; case 3: d = r.raw(r.below(120)); break; case 4: if (d.size() > 70) d.erase(d.begin() + 30, d.begin() + 30 + r.below(40)); break; default: return Ans::fail("down"); } }
    return Ans::ok(d);
  }
};
static void together(Env& e, const Q& q, World* other) {
  Rng& r = e.r; OpNode n(*e.w, r); uint64_t id = e.w->sp.id; uint32_t fl = r.chance(1, 2) ? C4_PROVER_FLAG_UNSTABLE_LATEST : 0; J par; jparse(q.params, par); reset_caches();
  if (q.method == "eth_getLogs" && q.params.find("latest") != S::npos) return;
  for (int k = 0; k < 4; k++) {
    n.evil = k > 0; n.other = other; n.hurt = 0; M().label("prove" + S(n.evil ? " (damaged answers)" : "") + " chain " + std::to_string(id) + " " + q.method + " " + q.params.substr(0, 1000)); S why;
    Result p = prove(q.method, q.params, id, fl, [&](const Req& x) { return n.answer(x); }); M().evals++;
    if (!n.evil && n.up.unknown) M().viol("upstream-rejects@" + q.method, n.up.last_unknown);
    if (p.hang) { M().viol("hang@prove " + q.method, q.params); return; }
    if (!p.ok) { if (!n.hurt) M().viol("not-proven@" + q.method + ":" + p.error.substr(0, 60), q.params + " " + p.error); else M().hit("damaged: not proven"); continue; }
    Result v = verify(p.proof, q.method, q.params, id, "", noans);
    if (!v.ok) { if (!n.hurt) M().viol("prover-rejected@" + q.method + ":" + v.error.substr(0, 60), q.params + " kind " + q.kind + " " + v.error); else M().hit("damaged: rejected"); continue; }
    if (!truth::ok(*e.w, q.method, par, v.result, why)) { M().viol((n.hurt ? "damaged-false@" : "prover-wrong@") + q.method + ":" + why.substr(0, 40), q.params + " kind " + q.kind + " " + why + " result " + jdump(v.result).substr(0, 500)); continue; }
    truth::ssz_withdrawals() = false; M().hit(n.hurt ? "damaged: true answer" : "proven and verified"); M().obs((n.hurt ? "damaged " : "together ") + q.kind);
  }
  reset_caches();
}
int main(int argc, char** argv) {
  M().init(argc, argv); int per = M().opt.count("--mut") ? atoi(M().opt["--mut"].c_str()) : 60;
  std::vector<uint64_t> ids = patch(); std::map<uint64_t, Spec> sps;
  for (auto i : ids) if (c4_chain_type(i) == C4_CHAIN_TYPE_OP) sps.emplace(i, synth::op_spec(i));
  return M().loop([&] {
    Rng& r = M().rng; Env e(r); auto it = sps.begin(); std::advance(it, r.below(sps.size())); const Spec& sp = it->second;
    e.w.reset(new World(sp, r.u64())); e.w->op = true; e.w->build(synth::slot_in(sp, synth::DENEB, r), (int) r.range(3, 5), r.chance(1, 4) ? r.range(1, 4000) : r.range(100000, 30000000), 10, 5);
    for (int i = 0; i < (int) e.w->b.size(); i++) if (e.w->b[i].txs.size()) e.withtx.push_back(i);
    store() = Store(); install();
    auto run = [&](const B& b, const S& m, const S& p) { return verify(b, m, p, sp.id, "", noans); };
    auto ask = [&](Q& q, const S& key, bool any) { if (!(any ? e.askany(q) : e.ask(q, r.pick({"A01", "A02", "A03", "A04"})))) return false; q.req = OpChain(*e.w, B(key.begin(), key.end())).convert(q.req, e.used, r); return true; };
    S k0(key0().begin(), key0().end()); std::unique_ptr<World> alt;
    for (int qi = 0; qi < 3; qi++) {
      if (!alt || r.chance(1, 2)) alt = e.w->alt(r);
      B wrong = keccak(r.raw(8)); int kind = (int) r.below(4);
      Rng r0 = r, w0 = e.w->r; Q q, fq; if (!ask(q, k0, false)) continue;
      // the same question on a chain nobody signed: by a stranger, by the sequencer but for another chain, or with the signature of the true block
      { Rng r1 = r; r = r0; alt->r = w0; std::swap(e.w, alt); if (!ask(fq, S(wrong.begin(), wrong.end()), false)) fq = q; std::swap(e.w, alt); r = r1; }
      auto proofs = [](Val& v) { std::vector<Val*> o; Val& p = v["proof"]; if (p.sel == 4) for (auto& b : p.e[0].e) o.push_back(&b["block_proof"].e[0]); else if (p.sel) o.push_back(&p.e[0]["block_proof"].e[0]); return o; };
      auto fp = proofs(fq.req), tp = proofs(q.req);
      for (size_t i = 0; i < fp.size(); i++) {
        Val& f = *fp[i]; B pl(1 << 24); const B& z = f["payload"].e[0].b; size_t n = ZSTD_decompress(pl.data(), pl.size(), z.data(), z.size()); if (ZSTD_isError(n)) { M().viol("harness", "zstd"); continue; } pl.resize(n);
        if (kind == 1) { uint64_t o = r.chance(1, 2) ? ids[r.below(ids.size())] : r.pick({1, 100, 0}); if (o == sp.id) o = sp.id + 1; f["signature"].b = OpChain::sign(key0(), pl, o, 27); }
        else if (kind == 2 && i < tp.size()) f["signature"] = (*tp[i])["signature"];
        else if (kind == 3) { B sg = f["signature"].b; switch (r.below(6)) { case 5: f["payload"].e[0].b = cat({unhex("28b52ffde0"), le(1ULL << r.range(24, 62), 8), r.raw(20)}); break; case 0: sg.assign(65, 0); break; case 1: sg[64] = (uint8_t) r.below(256); break; case 2: std::fill(sg.begin(), sg.begin() + 32, 0); break; case 3: std::fill(sg.begin() + 32, sg.begin() + 64, 0); break; default: std::fill(sg.begin(), sg.begin() + 32, 0xff); } f["signature"].b = sg; }
        if (pl == [&] { B t(1 << 24); if (i >= tp.size()) return B(); const B& y = (*tp[i])["payload"].e[0].b; size_t m = ZSTD_decompress(t.data(), t.size(), y.data(), y.size()); t.resize(ZSTD_isError(m) ? 0 : m); return t; }()) M().hit("forged block equals the true one");
      }
      B pf = q.req.ser(); J par; jparse(q.params, par); M().label("honest chain " + std::to_string(sp.id) + " " + q.method + " " + q.params.substr(0, 1000));
      Result v = run(pf, q.method, q.params); M().evals++; S why;
      if (!v.ok) M().viol("honest-rejected@" + q.method + ":" + v.error.substr(0, 60), show(e, q.method, q.params, q.req) + " kind " + q.kind + " error: " + v.error + " status " + v.status);
      else if (!truth::ok(*e.w, q.method, par, v.result, why)) M().viol("honest-wrong@" + q.method + ":" + why.substr(0, 40), show(e, q.method, q.params, q.req) + " kind " + q.kind + " " + why + " result " + jdump(v.result).substr(0, 800));
      else { M().hit("honest:true answer"); M().obs("honest " + std::to_string(sp.id) + " " + q.kind); M().sample(q.method + " " + q.params.substr(0, 120) + " -> " + jdump(v.result).substr(0, 120)); }
      if (truth::ssz_withdrawals()) { truth::ssz_withdrawals() = false; M().viol("withdrawalsRoot-ssz", q.method + " " + q.params + " reports the SSZ root of the withdrawals as withdrawalsRoot"); }
      together(e, q, alt.get());
      // the whole forged answer
      if (fq.req.ser() != pf) { J fpar; jparse(fq.params, fpar); M().label("forged " + std::to_string(kind) + " " + fq.method + " " + fq.params.substr(0, 500)); Result z = run(fq.req.ser(), fq.method, fq.params); M().evals++; if (z.ok && fp.size()) { if (!truth::ok(*e.w, fq.method, fpar, z.result, why)) M().viol("forged-accepted@" + std::to_string(kind), show(e, fq.method, fq.params, fq.req) + " accepted although " + why); else M().hit("forged block equals the true one: accepted"); } else M().hit("forged:rejected" + std::to_string(kind)); truth::ssz_withdrawals() = false; }
      std::vector<Q> other; for (int i = 0; i < 4; i++) { Q o; if (ask(o, k0, true)) other.push_back(o); }
      attack(e, q, fq, other, per, run);
    }
  });
}
