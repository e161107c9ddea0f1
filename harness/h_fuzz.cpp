// Verification with arbitrary proof bytes, parameters, upstream answers, stored values and checkpoints.
#include "evil.hpp"
struct Seed { B proof; S method, params, trusted; std::map<S, B> kv; uint64_t chain; };
static S bytes_attack(B& b, Rng& r, const std::vector<B>& others) {
  S how; for (uint64_t k = r.pick({1ULL, 1ULL, 2ULL, 6ULL}); k > 0; k--) {
    if (b.empty()) { b = r.raw(r.below(200)); return "random"; } size_t win = std::min<size_t>(b.size(), r.pick({24ULL, 120ULL, 800ULL, 1000000ULL}));
    switch (r.below(11)) {
      case 0: b[r.below(win)] ^= (uint8_t) (1 << r.below(8)); how = "bit"; break;
      case 1: case 2: { size_t p = r.below(win); if (r.chance(2, 3)) p &= ~3ULL; uint64_t cur = 0; for (int i = 0; i < 4 && p + i < b.size(); i++) cur |= (uint64_t) b[p + i] << 8 * i; uint64_t v = r.pick<uint64_t>({0ULL, 0xffffffffULL, (uint64_t) b.size(), (uint64_t) b.size() - 1, 4ULL, 0x80000000ULL, 0xfffffff0ULL, cur + 1, cur - 1, cur + 4, cur - 4, cur * 2, r.below(b.size() + 1)}); for (int i = 0; i < 4 && p + i < b.size(); i++) b[p + i] = (uint8_t) (v >> 8 * i); how = "u32"; break; }
      case 3: { size_t p = r.below(win), l = std::min<size_t>(b.size() - p, r.range(1, 70)); b.erase(b.begin() + p, b.begin() + p + l); how = "erase"; break; }
      case 4: { size_t p = r.below(win); B x = r.raw(r.range(1, 70)); b.insert(b.begin() + p, x.begin(), x.end()); how = "insert"; break; }
      case 5: b.resize(r.below(b.size() + 1)); how = "cut"; break;
      case 6: b[r.below(win)] = (uint8_t) r.pick({0ULL, 1ULL, 2ULL, 3ULL, 5ULL, 9ULL, 0x7fULL, 0x80ULL, 0xb8ULL, 0xbfULL, 0xc0ULL, 0xf8ULL, 0xffULL}); how = "byte"; break;
      case 7: { if (others.empty()) break; const B& o = r.pick(others); if (o.empty()) break; size_t p = r.below(b.size()), q = r.below(o.size()), l = std::min({b.size() - p, o.size() - q, (size_t) r.range(1, 3000)}); std::copy(o.begin() + q, o.begin() + q + l, b.begin() + p); how = "splice"; break; }
      case 8: { size_t p = r.below(b.size()), l = std::min<size_t>(b.size() - p, r.range(1, 40)); uint8_t v = r.chance(1, 2) ? 0 : 0xff; for (size_t i = 0; i < l; i++) b[p + i] = v; how = "run"; break; }
      case 9: { size_t p = r.below(b.size()), l = std::min<size_t>(b.size() - p, r.range(1, 600)); B c(b.begin() + p, b.begin() + p + l); b.insert(b.begin() + p, c.begin(), c.end()); how = "repeat"; break; }
      default: { if (!r.chance(1, 6)) break; uint8_t f = b[0]; b = r.raw(r.pick({0ULL, 1ULL, 3ULL, 4ULL, 17ULL, 200ULL, 3000ULL})); if (b.size() && r.chance(3, 4)) b[0] = f; how = "random"; }
    }
  }
  return how.size() ? how : S("same");
}
static const std::vector<S>& methods() { static std::vector<S> m = {"eth_call", "colibri_simulateTransaction", "eth_getProof", "eth_getBalance", "eth_getBlockByHash", "eth_getBlockByNumber", "eth_getCode", "eth_getLogs", "eth_verifyLogs", "eth_getTransactionCount", "eth_getStorageAt", "eth_getTransactionReceipt", "eth_getTransactionByHash", "eth_getTransactionByBlockHashAndIndex", "eth_getTransactionByBlockNumberAndIndex", "eth_blockNumber", "eth_subscribe", "eth_chainId", "eth_accounts", "eth_getUncleByBlockHashAndIndex", "eth_getUncleCountByBlockNumber", "eth_protocolVersion", "web3_clientVersion", "web3_sha3", "net_version", "colibri_decodeTransaction", "eth_gasPrice", "eth_proof_sync", "c4_witness", "", "nope", S(300, 'x')}; return m; }
static S local_params(Rng& r, Evil& e, World& w) {
  switch (r.below(6)) {
    case 0: return "[" + jdump(e.junk()) + "]"; case 1: return "[]"; case 2: return "[\"" + hex(r.raw(r.below(200))) + "\"]";
    default: { std::vector<B> raws; for (auto& k : w.b) for (auto& t : k.txs) raws.push_back(t.raw); B t = raws.empty() ? r.raw(100) : r.pick(raws); if (r.chance(2, 3)) bytes_attack(t, r, raws); return "[\"" + hex(t) + "\"]"; }
  }
}
static void m01() {
  Rng& r = M().rng; Scene s(r); s.make(); Evil e{r, s, {}, {}, 4}; World& w = *s.w; std::vector<Seed> seeds; std::vector<B> pool; std::vector<Val> vals;
  s.n->more = [&](const S& m, const J&, J& res) {
    if (m != "debug_traceCall" && m != "eth_createAccessList") return false; J o; o.k = J::OBJ; std::set<B> as; for (uint64_t k = r.range(1, 4); k > 0; k--) as.insert(r.chance(4, 5) ? r.pick(w.addrs) : r.raw(20)); J al = World::jarr();
    for (auto& a : as) { J x, st, ks = World::jarr(); x.k = st.k = J::OBJ; for (uint64_t k = r.below(3); k > 0; k--) { B key = s.key(a, s.n->latest()); st.o.push_back({hex(key), World::js(hex(r.raw(32)))}); ks.a.push_back(World::js(hex(key))); } x.o.push_back({"balance", World::js("0x1")}); if (r.chance(1, 2)) x.o.push_back({"code", World::js("0x6001")}); if (st.o.size()) x.o.push_back({"storage", st}); o.o.push_back({hex(a), x}); J l; l.k = J::OBJ; l.o = {{"address", World::js(hex(a))}, {"storageKeys", ks}}; al.a.push_back(l); }
    if (m == "debug_traceCall") res = o; else { res = J(); res.k = J::OBJ; res.o = {{"accessList", al}, {"gasUsed", World::js("0x5208")}}; } return true; };
  for (int k = 0; k < 5; k++) {
    if (k) s.advance(); Scene::Ask q; if (!s.ask(q)) continue; s.client(q.i); uint32_t fl = s.flags(); bool lh = s.n->lighthouse; if (fl & C4_PROVER_FLAG_INCLUDE_SYNC) s.n->lighthouse = false;
    if (r.chance(1, 5)) { q.method = r.pick<S>({"eth_call", "colibri_simulateTransaction"}); std::set<int> may; S b = s.blk(q.i, may); q.params = "[{\"to\":" + qs(hex(r.pick(w.addrs))) + ",\"data\":" + qs(hex(r.raw(r.below(70)))) + (r.chance(1, 3) ? ",\"from\":" + qs(hex(r.pick(w.addrs))) + ",\"value\":\"0x1\"" : S("")) + "}," + b + (r.chance(1, 2) ? ",{" + qs(hex(r.pick(w.addrs))) + ":{\"balance\":\"0x1\",\"code\":\"0x60\",\"stateDiff\":{" + qs(hex(r.raw(32))) + ":" + qs(hex(r.raw(32))) + "}}}" : S("")) + "]"; }
    M().label("seed " + q.method + " " + q.params.substr(0, 500)); Result p = prove(q.method, q.params, w.sp.id, fl, [&](const Req& x) { return s.answer(x); }, s.cs); s.n->lighthouse = lh;
    if (p.ok) { Seed d{p.proof, q.method, q.params, s.trusted, store().kv, w.sp.id}; seeds.push_back(d); pool.push_back(p.proof); Val v; if (de(synth::ty::request(), p.proof.data(), p.proof.size(), v)) vals.push_back(v); else vals.push_back(Val(synth::ty::request())); }
  }
  if (seeds.empty()) return; std::vector<Val*> donors; for (auto& v : vals) donors.push_back(&v);
  for (int k = 0; k < 60; k++) {
    size_t si = r.below(seeds.size()); Seed d = seeds[si]; S how; bool evil = false; int maxr = MAXROUNDS;
    int c = (int) r.below(10);
    if (c < 4) how = "bytes:" + bytes_attack(d.proof, r, pool);
    else if (c < 7) { Val v = vals[si]; for (uint64_t n = r.pick({1ULL, 1ULL, 2ULL, 4ULL}); n > 0; n--) how = "struct:" + mut::one(v, donors, r); d.proof = v.ser(); if (r.chance(1, 5)) how += "+" + bytes_attack(d.proof, r, pool); }
    if (r.chance(1, 4)) { how += " params"; J p; if (r.chance(1, 12)) { d.params = r.pick<S>({"", " ", "  []", "{}", "\"x\"", "1", "null", "[", "[[", "\n[\"0x\"]\n", S(2000, '['), "[" + S(5000, ' ') + "]", "true", "[\"\\u00\"]", "[\"\\"}); } else if (r.chance(1, 12)) d.params = " " + d.params + " "; else if (jparse(d.params, p)) { for (uint64_t n = r.pick({1ULL, 1ULL, 3ULL}); n > 0; n--) e.mutate(p); d.params = jdump(p); if (r.chance(1, 12)) d.params.resize(r.below(d.params.size() + 1)); } }
    if (r.chance(1, 5)) { how += " method"; d.method = r.chance(1, 2) ? r.pick(seeds).method : r.pick(methods()); if (r.chance(1, 3)) d.params = r.pick(seeds).params; if (r.chance(1, 4)) { d.params = local_params(r, e, w); } if (r.chance(1, 4)) { d.proof.clear(); } }
    if (r.chance(1, 25)) { how += " nomethod"; d.method = NOARG; if (r.chance(1, 2)) d.params = NOARG; if (r.chance(1, 3)) d.proof.clear(); }
    if (r.chance(1, 40)) { how += " noargs"; d.params = NOARG; }
    if (r.chance(1, 12)) { how += " local"; d.method = r.pick<S>({"web3_sha3", "colibri_decodeTransaction", "eth_chainId", "net_version", "eth_accounts", "web3_clientVersion"}); d.params = local_params(r, e, w); d.proof.clear(); }
    store() = Store(); store().kv = d.kv; if (r.chance(1, 6)) { how += " storage"; auto& kv = store().kv; if (kv.size() && r.chance(4, 5)) { auto it = kv.begin(); std::advance(it, r.below(kv.size())); if (r.chance(1, 4)) kv.erase(it); else if (r.chance(1, 5)) it->second = std::next(kv.begin(), r.below(kv.size()))->second; else bytes_attack(it->second, r, pool); } else { kv["states_" + s.id] = r.raw(r.below(80)); auto& b = kv["states_" + s.id]; if (b.size() && r.chance(3, 4)) b[0] = (uint8_t) r.below(4); } if (r.chance(1, 6)) store().fail_get = [&](const S&) { return r.chance(1, 3); }; install((uint32_t) r.pick({0ULL, 1ULL, 2ULL, 3ULL, 8ULL, 9ULL, 1000000ULL})); } else install();
    if (r.chance(1, 12)) { how += " checkpoint"; d.trusted = r.pick<S>({hex(r.raw(32)), hex(r.raw(31)), "0x", "0x" + S(64, 'z'), "", hex(r.raw(33)), hex(r.raw(400)), hex(w.b[0].root)}); if (r.chance(1, 2)) store().kv.clear(); }
    if (r.chance(1, 12)) { how += " chain"; d.chain = r.pick<uint64_t>({0ULL, 1ULL, 100ULL, 11155111ULL, 10200ULL, 10ULL, 8453ULL, ~0ULL, 999ULL}); }
    if (c >= 7 || r.chance(1, 4)) { evil = true; how += " upstream"; e.rate = (int) r.pick({1ULL, 2ULL, 4ULL, 10ULL}); if (r.chance(1, 3)) { for (auto it = store().kv.begin(); it != store().kv.end();) it = it->first.compare(0, 5, "code_") && it->first.compare(0, 5, "sync_") ? std::next(it) : r.chance(1, 2) ? store().kv.erase(it) : std::next(it); } }
    if (r.chance(1, 25)) { maxr = (int) r.below(3); how += " abandoned"; }
    S desc = "M01" + (how.size() ? " " + how : S("")) + " chain " + std::to_string(d.chain) + " trusted " + d.trusted.substr(0, 80) + " " + d.method + " " + d.params.substr(0, 700) + " proof " + std::to_string(d.proof.size()) + " bytes"; M().label(desc); e.n.clear(); e.changed = 0; S trail;
    Result v = verify(d.proof, d.method, d.params, d.chain, d.trusted, [&](const Req& x) { if (!evil) { if (e.n[x.ptr]++ > 3) return Ans::fail("no node left"); return s.answer(x); } Ans a = e(x); if (e.last.size()) { trail += "; " + e.last + " for " + x.rpc_method + x.url + (e.last == "json" ? " = " + S(a.data.begin(), a.data.end()).substr(0, 300) : S("")); M().label(desc + trail.substr(0, 6000)); } return a; }, maxr); M().evals++;
    if (v.hang) M().viol("verifier-" + v.status + "@" + d.method.substr(0, 40), desc + trail.substr(0, 1500)); else if (v.status == "error" && v.error.empty()) M().viol("error-without-message@" + d.method.substr(0, 40), desc + trail.substr(0, 1500));
    M().hit("status " + v.status); M().hit("answers changed", e.changed); M().obs(d.method.substr(0, 40) + " " + v.status + " " + how.substr(0, how.find(' ', 8)).substr(0, 24) + " " + v.error.substr(0, 30)); M().sample(desc.substr(0, 200) + " -> " + v.status + " " + v.error.substr(0, 60));
  }
}
int main(int argc, char** argv) { M().init(argc, argv); return M().loop(m01); }
