// Verifier against a synthetic chain: honest proofs of every question must be accepted with the true answer, and
// whatever an attacker hands over (altered, spliced, misdirected) must be rejected or still give a true answer.
#include "attack.hpp"
static Ans noans(const Req&) { return Ans::fail("no upstream"); }
static Result run(Env& e, const B& proof, const S& m, const S& p) { return verify(proof, m, p, e.w->sp.id, "", noans); }
int main(int argc, char** argv) {
  M().init(argc, argv); S mode = M().opt["--mode"]; int per = M().opt.count("--mut") ? atoi(M().opt["--mut"].c_str()) : 60;
  return M().loop([&] {
    Rng& r = M().rng; Env e(r); e.make(); std::unique_ptr<World> alt; S id = "fork" + std::to_string(e.w->b[0].fork) + (e.w->sp.gnosis ? "g" : "");
    for (int qi = 0; qi < 3; qi++) {
      if (!alt || r.chance(1, 2)) alt = e.w->alt(r);
      Rng r0 = r, w0 = e.w->r; Q q, fq; if (!e.ask(q, mode)) continue; { Rng r1 = r; r = r0; alt->r = w0; std::swap(e.w, alt); if (!e.ask(fq, mode)) fq = q; std::swap(e.w, alt); r = r1; } B pf = q.req.ser(); J par; jparse(q.params, par);
      M().label("honest " + q.method + " " + q.params.substr(0, 1000));
      Result v = run(e, pf, q.method, q.params); M().evals++; S why;
      if (!v.ok) { M().viol("honest-rejected@" + q.method + ":" + v.error.substr(0, 60), show(e, q.method, q.params, q.req) + " kind " + q.kind + " error: " + v.error + " status " + v.status + " slots " + std::to_string(e.w->b[0].slot) + ".." + std::to_string(e.w->b.back().slot) + " seen requests " + std::to_string(v.requests)); }
      else if (!truth::ok(*e.w, q.method, par, v.result, why)) M().viol("honest-wrong@" + q.method + ":" + why.substr(0, 40), show(e, q.method, q.params, q.req) + " kind " + q.kind + " " + why);
      else { M().hit("honest:true answer"); M().obs("honest " + id + " " + q.kind); M().sample(q.method + " " + q.params.substr(0, 120) + " -> " + jdump(v.result).substr(0, 120)); }
      if (truth::ssz_withdrawals()) { truth::ssz_withdrawals() = false; M().viol("withdrawalsRoot-ssz", q.method + " " + q.params + " reports the SSZ root of the withdrawals as withdrawalsRoot, not the trie root of the header"); }
      // attacker
      std::vector<Q> other; for (int i = 0; i < 4; i++) { Q o; if (i < 2 ? e.ask(o, mode) : e.askany(o)) other.push_back(o); }
      attack(e, q, fq, other, per, [&](const B& b, const S& m, const S& p) { return run(e, b, m, p); });
    }
  });
}
