// Prover and verifier together on a synthetic chain with an execution and beacon node that answers everything the two ask for.
#include "evil.hpp"
static void a06() {
  Rng& r = M().rng; Scene s(r); s.big = true; s.make(); S where = "chain " + s.id + " fork " + std::to_string(s.w->b[0].fork) + " blocks " + std::to_string(s.w->b.size()) + (s.gapped() ? " gap after " + std::to_string(s.w->gap_at) + " of " + std::to_string(s.w->gap) : S(""));
  for (int k = 0; k < 6; k++) {
    if (k) s.advance(); Scene::Ask q; if (!s.ask(q)) continue; s.client(q.i); uint32_t fl = s.flags(); B given = r.chance(3, 4) ? s.cs : B(); if (s.ckind.substr(0, 5) == "newer") given = s.cs;
    S desc = where + " head " + std::to_string(s.n->head) + " block " + std::to_string(q.i) + " client " + s.ckind + (given.empty() ? " (not told)" : "") + " flags " + std::to_string(fl) + " " + q.method + " " + q.params.substr(0, 700);
    M().label("prove " + desc); s.n->unknown = false; bool lh = s.n->lighthouse; if (fl & C4_PROVER_FLAG_INCLUDE_SYNC) s.n->lighthouse = false; // the prover only reads the standard encoding of updates
    Result p = prove(q.method, q.params, s.w->sp.id, fl, [&](const Req& x) { return s.answer(x); }, given); M().evals++;
    if (s.n->unknown) { M().viol("upstream-rejects@" + q.method, desc + ": the node does not know " + s.n->last_unknown); }
    if (!p.ok) { s.n->lighthouse = lh; M().viol("not-proven@" + q.method + ":" + p.status + p.error.substr(0, 50), desc + ": " + p.error); continue; }
    M().label("verify " + desc); s.n->unknown = false; s.n->lighthouse = lh;
    Result v = verify(p.proof, q.method, q.params, s.w->sp.id, s.trusted, [&](const Req& x) { return s.answer(x); }); S why;
    if (s.n->unknown) { M().viol("upstream-rejects@verify", desc + ": the node does not know " + s.n->last_unknown); }
    if (!v.ok) { M().viol("honest-rejected@" + q.method + ":" + v.status + v.error.substr(0, 50), desc + ": " + v.error); continue; }
    if (!s.right(q, v.result, why)) { M().viol("honest-wrong@" + q.method + ":" + why.substr(0, 40), desc + ": " + why); continue; }
    truth::ssz_withdrawals() = false;
    J pj; Val pr(synth::ty::request()); M().hit("proven and verified"); M().hit("requests of the prover", p.requests); M().hit("requests of the verifier", v.requests);
    int fk = s.w->b[q.i].fork; M().obs(q.kind + " fork" + std::to_string(fk) + (s.w->sp.gnosis ? "g" : "")); M().obs("client " + s.ckind + (given.empty() ? " not told" : " told") + " sync" + std::to_string(fl >> 5 & 1) + " store" + std::to_string(fl >> 3 & 1) + (q.i <= s.w->gap_at ? " before gap" : "")); M().sample(desc.substr(0, 200) + " -> " + jdump(v.result).substr(0, 80));
  }
}

// ---- R01: order, batching and failures of responses ----------------------------------------------------
// A host as the bindings implement it: several nodes per request, skips excluded ones, reports an error only if no node is left.
struct Host {
  struct Rec { S key; uint32_t mask = 0; bool open = true, done = false; int round = 0, bad_node = -1; }; Rng& r; Answer honest; int nodes = 1, lazy = 0, maxlag = 0; S tag; std::map<S, int> behave; std::map<data_request_t*, Rec> rec; std::set<S> done; int round = 0, late = 0, retries = 0, failed = 0, asked = 0; bool fatal = false; S trace;
  S fail_key; // this request fails on every node
  static S key(const Req& q) { return q.type + " " + q.method + " " + q.encoding + " " + q.url + " " + q.payload; }
  static S mask(const J& j, data_request_t* p, bool& ok) { auto* rs = jget(j, "requests"); ok = false; for (auto& x : rs->a) if (jstr(x, "req_ptr") == std::to_string((uint64_t) (uintptr_t) p)) { ok = true; return jstr(x, "exclude_mask"); } return ""; }
  // 0 good, 1 answers which have to be retried, 2 transport failure
  int how(const S& k, const Req& q, int node) { auto it = behave.find(k + "#" + std::to_string(node)); if (it != behave.end()) return it->second; int good = (int) (std::hash<S>{}(k) % (size_t) nodes), b = node == good ? 0 : (int) r.below(3); if (b == 1 && q.type != "eth_rpc") b = 2; return behave[k + "#" + std::to_string(node)] = b; }
  Ans bad(const Req& q) { switch (r.below(q.rpc_method == "eth_getBlockReceipts" ? 4 : 3)) { case 0: return Ans::ok(S("{\"jsonrpc\":\"2.0\",\"id\":1,\"error\":{\"code\":-32602,\"message\":\"unknown block\"}}")); case 1: return Ans::ok(S("{\"jsonrpc\":\"2.0\",\"id\":1}")); case 2: return Ans::ok(S("{}")); default: return Ans::ok(S("{\"jsonrpc\":\"2.0\",\"id\":1,\"result\":null}")); } }
  template <class T> void shuf(std::vector<T>& v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]); }
  void note(const S& e) { if (trace.size() < 3000) trace += e + "; "; }
  // checks one pending status and answers some of the requests
  bool handle(const S& raw, const std::vector<Req>& rs) {
    J j; jparse(raw, j); round++; std::set<data_request_t*> here; std::set<S> keys; if (rs.empty()) { M().viol("no-requests@" + tag, "pending without a request to answer: " + trace); return false; }
    for (auto& q : rs) {
      S k = key(q); if (!here.insert(q.ptr).second) { M().viol("listed-twice@" + tag, k + " | " + trace); return false; } if (!keys.insert(k).second) { M().viol("asked-twice@" + tag, "the same data is requested by two requests: " + k + " | " + trace); return false; }
      auto it = rec.find(q.ptr); bool ok; uint32_t mask_ = (uint32_t) strtoul(mask(j, q.ptr, ok).c_str(), 0, 10);
      if (it == rec.end()) { if (done.count(k)) { M().viol("asked-again@" + tag, "already answered: " + k + " | " + trace); return false; } Rec n; n.key = k; n.round = round; rec[q.ptr] = n; asked++; note("new " + k.substr(0, 90)); it = rec.find(q.ptr); }
      else { Rec& c = it->second; if (c.key != k) { M().viol("request-changed@" + tag, c.key + " became " + k); return false; } if (c.done) { M().viol("asked-again@" + tag, "request was answered: " + k + " | " + trace); return false; }
        if (c.bad_node >= 0) { if (!(mask_ & (1u << c.bad_node))) { M().viol("retry-same-node@" + tag, "the node " + std::to_string(c.bad_node) + " with the unusable answer is not excluded: " + k); return false; } c.bad_node = -1; retries++; } if ((c.mask & ~mask_) != 0) { M().viol("exclusion-lost@" + tag, k); return false; } c.open = true; c.mask = mask_; }
    }
    for (auto& c : rec) if (!c.second.done && !here.count(c.first)) { if (c.second.bad_node >= 0 && c.second.open == false) continue; M().viol("request-lost@" + tag, "not reported any more, but never answered: " + c.second.key + " | " + trace); return false; }
    std::vector<Req> o = rs; shuf(o); size_t n = lazy == 0 ? o.size() : lazy == 1 ? 1 : r.below(o.size() + 1); int answered = 0;
    for (size_t i = 0; i < n; i++) { const Req& q = o[i]; Rec& c = rec[q.ptr]; if (c.round < round) late++; answered++;
      if (c.key == fail_key) { Ans a = Ans::fail("all nodes failed"); respond(q, a); c.done = true; failed++; note("fail " + c.key.substr(0, 60)); continue; }
      bool sent = false; std::vector<int> ord; for (int x = 0; x < nodes; x++) ord.push_back(x); shuf(ord);
      for (int x : ord) { if (c.mask & (1u << x)) continue; int h = how(c.key, q, x); if (h == 2) continue; Ans a = h ? bad(q) : honest(q); a.node = (uint16_t) x; respond(q, a); note((h ? "bad " : "ok ") + c.key.substr(0, 60)); if (h) { c.bad_node = x; c.open = false; } else if (a.err) { c.done = true; failed++; } else { c.done = true; done.insert(c.key); } sent = true; break; }
      if (!sent) { Ans a = Ans::fail("no node left"); respond(q, a); c.done = true; failed++; M().viol("good-node-excluded@" + tag, "every node is excluded or down, although a good one exists: " + c.key + " | " + trace); return false; } }
    if (!answered) note("spurious");
    return true;
  }
};
static Result hosted_prove(Host& h, const S& method, const S& params, uint64_t chain, uint32_t flags, const B& cs0) {
  Result r; HB m(method), p(params), cs(cs0); prover_t* ctx = c4_create_prover_ctx((char*) m.p, (char*) p.p, chain, flags); if (cs0.size()) ((prover_ctx_t*) ctx)->client_state = cs.b();
  for (int i = 0;; i++) { if (i > 2000) { r.status = "hang"; r.hang = true; break; } char* js = c4_prover_execute_json_status(ctx); S raw = js ? js : ""; free(js); std::vector<Req> rs; if (!step(raw, r, rs)) break; if (!h.handle(raw, rs)) { r.status = "stuck"; break; } }
  if (r.ok) r.proof = toB(c4_prover_get_proof(ctx)); if (cs0.size()) ((prover_ctx_t*) ctx)->client_state = NULL_BYTES; c4_free_prover_ctx(ctx); return r;
}
static Result hosted_verify(Host& h, const B& proof, const S& method, const S& params, uint64_t chain, const S& trusted) {
  Result r; HB pr(proof), m(method), p(params), t(trusted); void* ctx = c4_verify_create_ctx(pr.b(), (char*) m.p, (char*) p.p, chain, trusted.size() ? (char*) t.p : nullptr);
  for (int i = 0;; i++) { if (i > 2000) { r.status = "hang"; r.hang = true; break; } char* js = c4_verify_execute_json_status(ctx); S raw = js ? js : ""; free(js); std::vector<Req> rs; if (!step(raw, r, rs)) break; if (!h.handle(raw, rs)) { r.status = "stuck"; break; } }
  c4_verify_free_ctx(ctx); return r;
}
static S kindof(S k) { k = k.substr(0, k.find("0x")).substr(0, 80); S o; for (char c : k) if (c < '0' || c > '9') o += c; return o; }
static void r01() {
  Rng& r = M().rng; Scene s(r); s.make(); s.n->lighthouse = false;
  for (int k = 0; k < 3; k++) {
    Scene::Ask q; if (!s.ask(q)) continue; s.client(q.i); uint32_t fl = s.flags(); B given = r.chance(3, 4) || s.ckind.substr(0, 5) == "newer" ? s.cs : B(); auto honest = [&](const Req& x) { return s.answer(x); };
    S desc = "chain " + s.id + " client " + s.ckind + (given.empty() ? " (not told)" : "") + " flags " + std::to_string(fl) + " " + q.method + " " + q.params.substr(0, 500); M().label("R01 " + desc);
    reset_caches(); auto kv0 = store().kv; Result p0 = prove(q.method, q.params, s.w->sp.id, fl, honest, given); if (!p0.ok) continue; auto start = [&] { store().kv = kv0; };
    std::vector<Req> vr; Result v0 = verify(p0.proof, q.method, q.params, s.w->sp.id, s.trusted, [&](const Req& x) { vr.push_back(x); return s.answer(x); }); if (!v0.ok) continue; auto kv1 = store().kv;
    for (int z = 0; z < 6; z++) {
      Host h{r, honest}; h.tag = "prove:" + q.method; h.nodes = (int) r.range(1, 4); h.lazy = (int) r.below(4); reset_caches(); start(); M().label("R01 " + desc + " prove nodes " + std::to_string(h.nodes) + " lazy " + std::to_string(h.lazy));
      Result p = hosted_prove(h, q.method, q.params, s.w->sp.id, fl, given); M().evals++;
      if (p.status == "stuck") continue; if (!p.ok) { M().viol("order-changes-outcome@prove:" + q.method + ":" + p.status, desc + ": in order a proof, now " + p.status + " " + p.error + " | " + h.trace); continue; }
      if (p.proof != p0.proof) { M().viol("order-changes-result@prove:" + q.method, desc + ": another proof of " + std::to_string(p.proof.size()) + " instead of " + std::to_string(p0.proof.size()) + " bytes | " + h.trace); continue; }
      M().hit("prover schedules"); M().hit("prover requests", h.asked); M().hit("late answers", h.late); M().hit("retries", h.retries); M().obs("prove " + q.method + " rounds" + std::to_string(std::min(h.round, 8)) + " lazy" + std::to_string(h.lazy) + " retries" + std::to_string(std::min(h.retries, 3)));
      // one request fails on all nodes
      if (h.done.size() && r.chance(1, 2)) { Host f{r, honest}; f.tag = h.tag; f.nodes = 1; f.lazy = (int) r.below(4); auto it = h.done.begin(); std::advance(it, r.below(h.done.size())); f.fail_key = *it; reset_caches(); start(); Result e = hosted_prove(f, q.method, q.params, s.w->sp.id, fl, given); M().evals++; if (e.ok && e.proof != p0.proof) M().viol("failure-changes-result@prove:" + q.method, desc + " " + *it); else if (!e.ok && e.status != "error" && e.status != "stuck") M().viol("failure-hangs@prove:" + q.method, desc + " " + e.status + " after failing " + *it); else if (e.status == "error" && e.error.empty()) M().viol("failure-without-message@prove", desc); M().obs("prove " + q.method + " failing " + kindof(f.fail_key) + " " + e.status); M().hit("failed requests", f.failed); }
    }
    for (int z = 0; z < 5 && vr.size(); z++) {
      Host h{r, honest}; h.tag = "verify:" + q.method; h.nodes = (int) r.range(1, 3); h.lazy = (int) r.below(4); start(); M().label("R01 " + desc + " verify nodes " + std::to_string(h.nodes) + " lazy " + std::to_string(h.lazy));
      Result v = hosted_verify(h, p0.proof, q.method, q.params, s.w->sp.id, s.trusted); M().evals++; if (v.status == "stuck") continue;
      if (!v.ok) { M().viol("order-changes-outcome@verify:" + q.method + ":" + v.status, desc + ": in order a result, now " + v.status + " " + v.error + " | " + h.trace); continue; }
      if (jdump(v.result) != jdump(v0.result)) { M().viol("order-changes-result@verify:" + q.method, desc + ": " + jdump(v.result).substr(0, 200)); continue; }
      if (store().kv != kv1) { M().viol("order-changes-state@verify:" + q.method, desc + ": the stored client state differs | " + h.trace); continue; }
      M().hit("verifier schedules"); M().hit("verifier requests", h.asked); M().hit("late answers", h.late); M().obs("verify " + s.ckind + " rounds" + std::to_string(std::min(h.round, 8)) + " lazy" + std::to_string(h.lazy));
      if (h.done.size() && r.chance(1, 2)) { Host f{r, honest}; f.tag = h.tag; f.nodes = 1; f.lazy = (int) r.below(4); auto it = h.done.begin(); std::advance(it, r.below(h.done.size())); f.fail_key = *it; start(); Result e = hosted_verify(f, p0.proof, q.method, q.params, s.w->sp.id, s.trusted); M().evals++; if (e.ok && jdump(e.result) != jdump(v0.result)) M().viol("failure-changes-result@verify:" + q.method, desc + " " + *it); else if (!e.ok && e.status != "error" && e.status != "stuck") M().viol("failure-hangs@verify:" + q.method, desc + " " + e.status); else if (e.status == "error" && e.error.empty()) M().viol("failure-without-message@verify", desc); M().obs("verify failing " + kindof(f.fail_key) + " " + e.status); M().hit("failed requests", f.failed); }
    }
  }
}

// ---- M02: hostile, broken and failing upstreams ----------------------------------------------------------
static void m02() {
  Rng& r = M().rng; Scene s(r); s.gap_1in = 2; s.make(); Evil e{r, s, {}, {}, 4}; World& w = *s.w;
  s.n->more = [&](const S& m, const J&, J& res) {
    if (m != "debug_traceCall" && m != "eth_createAccessList") return false; J o; o.k = J::OBJ; J al = World::jarr(); std::set<B> as; for (uint64_t k = r.range(1, 4); k > 0; k--) as.insert(r.chance(4, 5) ? r.pick(w.addrs) : r.raw(20));
    for (auto& a : as) { J x, st, ks = World::jarr(); x.k = st.k = J::OBJ; for (uint64_t k = r.below(3); k > 0; k--) { B key = s.key(a, s.n->latest()); st.o.push_back({hex(key), World::js(hex(r.raw(32)))}); ks.a.push_back(World::js(hex(key))); } x.o.push_back({"balance", World::js("0x1")}); if (r.chance(1, 2)) x.o.push_back({"code", World::js("0x6001")}); if (st.o.size()) x.o.push_back({"storage", st}); o.o.push_back({hex(a), x}); J l; l.k = J::OBJ; l.o = {{"address", World::js(hex(a))}, {"storageKeys", ks}}; al.a.push_back(l); }
    if (m == "debug_traceCall") res = o; else { res = J(); res.k = J::OBJ; res.o = {{"accessList", al}, {"gasUsed", World::js("0x5208")}}; } return true; };
  for (int k = 0; k < 8; k++) {
    if (k) s.advance(); Scene::Ask q; if (!s.ask(q)) continue; e.aim(); s.newer_2in = e.focus.size() ? 2 : 1; s.client(q.i); uint32_t fl = s.flags(); if (r.chance(1, 10)) fl |= C4_PROVER_FLAG_ZK_PROOF; e.rate = (int) r.pick({2ULL, 4ULL, 8ULL, 30ULL}); B given = s.cs;
    int c = (int) r.below(12); if (c == 0) { q.method = r.pick<S>({"eth_call", "colibri_simulateTransaction"}); std::set<int> may; S b = s.blk(q.i, may); q.params = "[{\"to\":" + qs(hex(r.pick(w.addrs))) + ",\"data\":" + qs(hex(r.raw(r.below(70)))) + "}," + b + (r.chance(1, 3) ? ",{" + qs(hex(r.pick(w.addrs))) + ":{\"balance\":\"0x1\",\"code\":\"0x60\",\"stateDiff\":{" + qs(hex(r.raw(32))) + ":" + qs(hex(r.raw(32))) + "}}}" : S("")) + "]"; }
    else if (c == 1) { q.method = "eth_proof_sync"; q.params = "[" + r.pick<S>({std::to_string(s.per(s.n->head)), "2", "1", "\"0x500\""}) + "]"; } else if (c == 2) { q.method = "c4_witness"; q.params = "[\"blockhash\"," + qs(qhex(w.b[q.i].number)) + "]"; }
    bool hostile_params = r.chance(1, 6); if (hostile_params) { J p; if (jparse(q.params, p)) { e.mutate(p); if (p.k == J::ARR) q.params = jdump(p); if (r.chance(1, 12)) q.params.resize(r.below(q.params.size() + 1)); } if (r.chance(1, 10)) q.method = r.pick<S>({"", "eth_", "eth_getBalance", "eth_getLogs", "nope"}); }
    if (r.chance(1, 10)) { given = r.raw(r.below(40)); if (given.size() && r.chance(2, 3)) given[0] = (uint8_t) r.range(1, 2); }
    S desc = "M02 chain " + s.id + " fork " + std::to_string(w.b[0].fork) + " client " + s.ckind + " state " + hex(given).substr(0, 80) + " flags " + std::to_string(fl) + " rate " + (e.focus.size() ? "all " + e.focus : std::to_string(e.rate)) + " " + q.method + " " + q.params.substr(0, 800); M().label(desc); s.n->unknown = false; e.n.clear(); e.changed = 0; S trail;
    Result p = prove(q.method, q.params, s.w->sp.id, fl, [&](const Req& x) { Ans a = e(x); if (e.last.size()) { trail += "; " + e.last + " for " + x.rpc_method + x.url + (e.last == "json" ? " = " + S(a.data.begin(), a.data.end()).substr(0, 300) : S("")); M().label(desc + trail.substr(0, 6000)); } return a; }, given); M().evals++;
    if (p.hang) M().viol("prover-" + p.status + "@" + q.method, desc + trail.substr(0, 1500)); else if (p.status == "error" && p.error.empty()) M().viol("error-without-message@" + q.method, desc + trail.substr(0, 1500));
    M().hit("answers changed", e.changed); M().hit("status " + p.status); M().obs(q.method + " " + p.status + " " + (hostile_params ? "params " : "") + (e.changed ? e.last : S("honest")) + " " + p.error.substr(0, 25));
    if (p.ok) { M().label("verify of " + desc + trail.substr(0, 4000)); Result v = verify(p.proof, q.method, q.params, s.w->sp.id, s.trusted, [&](const Req& x) { return s.answer(x); }); M().hit(S("proof then ") + v.status); if (v.hang) M().viol("verifier-" + v.status + "@" + q.method, desc + trail.substr(0, 1500)); }
  }
}
int main(int argc, char** argv) { M().init(argc, argv); S mode = M().opt["--mode"]; return M().loop([&] { if (mode == "R01") r01(); else if (mode == "M02") m02(); else a06(); }); }
