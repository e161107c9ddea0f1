// A synthetic chain served by an execution and beacon node, questions about it and client states (shared by h_prove and h_cache).
#pragma once
#include "ask.hpp"
#include "../lib/node.hpp"
extern "C" {
#include "logs_cache.h"
#include "tx_cache.h"
}
using synth::Upstream; using synth::Lc; using synth::period_of;
static void reset_caches() {
#ifdef PROVER_CACHE
  c4_prover_cache_cleanup(UINT64_MAX, 0); c4_eth_tx_cache_reset(); c4_eth_logs_cache_disable();
#endif
}
struct Scene {
  Rng& r; std::unique_ptr<World> w; std::unique_ptr<Upstream> n; std::set<int> lat; // lat: heads which a cache may still report
  std::set<int> justs, fins; S trusted, ckind; B cs; bool chain_store = false; S id; int lastask = 0; bool cachey = false; // cachey: block numbers after a gap which only differ in trailing zeros, no logs up to latest
  std::function<void(World&, std::map<B, synth::Acct>&)> prep;
  int gap_1in = 4, newer_2in = 1; bool big = false; // sometimes a block with hundreds of transactions
  explicit Scene(Rng& rr) : r(rr) {}
  bool gapped() const { return w->gap_at >= 0; }
  const Spec* op = nullptr; // an OP chain
  void make() {
    auto& sps = synth::specs(); const Spec& sp = op ? *op : sps[r.chance(1, 2) ? 0 : r.below(sps.size())];
    int fork = (int) r.range(synth::DENEB, sp.fe[5] == ~0ULL ? synth::ELECTRA : synth::FULU);
    if (op) { w.reset(new World(sp, r.u64())); w->op = true; w->prep = prep; w->build(synth::slot_in(sp, synth::DENEB, r), (int) r.range(3, 6), r.range(1000, 30000000), 10, 5); n.reset(new Upstream(*w, r.u64())); }
    else for (;;) {
      w.reset(new World(sp, r.u64())); uint64_t slot = synth::slot_in(sp, fork, r); if (period_of(sp, slot) < (sp.fe[3] >> sp.pb) + 6) continue; // light client data before deneb is not supported
      int nb = (int) r.range(4, 8);
      if (r.chance(1, 2)) w->unsigned_1in = 3;
      if (r.chance(1, gap_1in)) { nb = (int) r.range(7, 9); w->gap_at = (int) r.range(1, nb - 5); w->gap = (uint64_t) (8192 * r.range(1, 5)) + r.below(3000); }
      uint64_t num0 = r.chance(1, 5) ? r.range(1, 300) : r.range(1000, 30000000); if (cachey && gapped() && r.chance(1, 2)) { num0 = r.range(1, 30000); w->num_after = (num0 + r.below((uint64_t) w->gap_at + 1)) << r.pick({8ULL, 8ULL, 16ULL, 24ULL}); }
      w->prep = prep; if (big && r.chance(1, 60)) w->many = (int) r.range(1, nb); w->build(slot, nb, num0, 10, 5);
      n.reset(new Upstream(*w, r.u64())); int h0 = gapped() ? w->gap_at + 3 : 2; for (; h0 < nb; h0++) if (head_ok(h0)) break; if (h0 >= nb) continue;
      n->head = h0; break;
    }
    n->lighthouse = r.chance(1, 4); n->shortkeys = r.chance(1, 2); n->extras = r.chance(1, 2);
    reset_caches(); store() = Store(); install(); id = std::to_string(w->sp.id); if (op) return; finality(); lat = {n->latest()};
  }
  bool head_ok(int h) { return h >= 2 && (n->sig(h) || (h >= 3 && n->sig(h - 1))); }
  int lo() const { return gapped() ? w->gap_at + 1 : 0; }
  void finality() { for (int k = 0; k < 20; k++) { int f = (int) r.range(lo(), n->head), j = (int) r.range(f, n->head); if (n->provable(f) && n->provable(j)) { n->fin = f; n->just = j; justs.insert(j); fins.insert(f); return; } } n->fin = n->just = n->latest(); justs.insert(n->just); fins.insert(n->fin); }
  void advance() { if (r.chance(1, 3)) { int h = n->head + 1; while (h < (int) w->b.size() && !head_ok(h)) h++; if (h < (int) w->b.size()) { n->head = h; if (r.chance(1, 2)) finality(); } }
    if (r.chance(1, 3)) { reset_caches(); lat.clear(); justs = {n->just}; fins = {n->fin}; } lat.insert(n->latest()); }
  void set_state(const B& st) { cs = st; store() = Store(); if (st.size()) store().kv["states_" + id] = st; }
  B periods(uint64_t a, uint64_t b) { B st = {1}; for (uint64_t q = a; q <= b; q++) put(st, le(q, 4)); set_state(st); for (uint64_t q = a; q <= b; q++) store().kv["sync_" + id + "_" + std::to_string(q)] = w->sync_file(q); return st; }
  uint64_t per(int i) { return period_of(w->sp, w->b[i].slot); }
  // client state in which a proof of block i can be verified
  void client(int i) {
    uint64_t p = per(i), ph = per(n->head); trusted = ""; chain_store = r.chance(1, 2); int c = (int) r.below(6);
    if (gapped() && i <= w->gap_at && r.chance(newer_2in, 2)) { uint64_t a = r.range(p + 1, ph); periods(a, ph); chain_store = true; ckind = a == ph ? "newer" : "newer+"; if (a != ph && r.chance(1, 2)) { periods(a, a); ckind = "newer,old"; } return; } // historic proof needed
    if (c <= 1) { uint64_t a = p - r.below(2); periods(a, std::min(a + 2, ph + r.below(2))); ckind = "synced"; if (c == 1 && a == p && p == ph) { periods(p, p); ckind = "synced1"; } return; }
    if (c == 2) { uint64_t k = r.range(1, 4), a = p - k; periods(a, a); ckind = "old" + std::to_string(k); return; }
    if (c == 3) { uint64_t a = p - r.below(4); B root = n->checkpoint((a << (w->sp.eb + w->sp.pb)) + r.below(i ? 8000 : 100)); set_state(cat({B{2}, root})); ckind = "checkpoint"; return; }
    if (c == 4) { uint64_t a = p - r.below(4); B root = n->checkpoint((a << (w->sp.eb + w->sp.pb)) + r.below(100)); set_state({}); trusted = hex(root); ckind = "trusted"; return; }
    if (per(n->fin) <= p) { set_state({}); ckind = "empty"; return; }
    periods(p, std::min(p + 2, ph)); ckind = "synced";
  }
  S casehex(S s) { if (r.chance(1, 4)) for (size_t i = 2; i < s.size(); i++) if (s[i] >= 'a' && s[i] <= 'f' && r.chance(1, 2)) s[i] -= 32; return s; }
  std::vector<int> provables() { std::vector<int> o; for (int i = 0; i <= n->head; i++) if (op || n->provable(i)) o.push_back(i); return o; }
  // block argument; out: blocks it may stand for
  S blk(int& i, std::set<int>& may, int kind = -1) {
    if (kind < 0) kind = (int) r.below(5); may = {i};
    if (kind == 0) return qs(casehex(hex(w->b[i].hash))); if (kind <= 2) return qs(qhex(w->b[i].number));
    int c = (int) r.below(4); if (c == 0 && n->provable(n->just)) { i = n->just; may = justs; return qs("safe"); } if (c == 1 && n->provable(n->fin)) { i = n->fin; may = fins; return qs("finalized"); }
    i = n->latest(); may = lat; return qs("latest");
  }
  B key(const B& a, int i) { auto it = w->b[i].st.find(a); if (it != w->b[i].st.end() && it->second.st.size() && r.chance(2, 3)) { auto s = it->second.st.begin(); std::advance(s, r.below(it->second.st.size())); return s->first; } return r.chance(1, 2) ? be(r.below(30), 32) : r.raw(32); }
  struct Ask { S method, params, kind; int i; std::set<int> may; };
  bool ask(Ask& q) {
    auto ps = provables(); if (ps.empty()) return false; q.i = r.pick(ps); if (gapped() && r.chance(1, 2)) { std::vector<int> o; for (int x : ps) if (x <= w->gap_at) o.push_back(x); if (o.size()) q.i = r.pick(o); }
    int c = (int) r.below(10); std::vector<int> tx; for (int x : ps) if (w->b[x].txs.size()) tx.push_back(x);
    if (c < 4) {
      S b = blk(q.i, q.may); B a = r.chance(3, 4) ? r.pick(w->addrs) : r.raw(20); Bs ks; q.method = r.pick({"eth_getBalance", "eth_getTransactionCount", "eth_getCode", "eth_getStorageAt", "eth_getProof"});
      if (q.method == "eth_getStorageAt") ks.push_back(key(a, q.i)); else if (q.method == "eth_getProof") for (uint64_t k = r.below(4); k > 0; k--) ks.push_back(key(a, q.i));
      S kl; for (auto& k : ks) kl += (kl.size() ? "," : "") + qs(casehex(hex(k)));
      q.params = "[" + qs(casehex(hex(a))) + "," + (q.method == "eth_getStorageAt" ? kl + "," : q.method == "eth_getProof" ? "[" + kl + "]," : "") + b + "]"; q.kind = q.method + (w->b[q.i].st.count(a) ? "+acc" : "-acc"); return true;
    }
    if (c == 4) { q.method = "eth_blockNumber"; q.params = "[]"; q.i = n->latest(); q.may = lat; q.kind = q.method; return true; }
    if (c == 5) { bool bh = r.chance(1, 2); q.method = bh ? "eth_getBlockByHash" : "eth_getBlockByNumber"; S b = blk(q.i, q.may, bh ? 0 : (int) r.range(1, 4)); q.params = "[" + b + (r.chance(1, 2) ? ",true]" : ",false]"); q.kind = q.method; return true; }
    if (tx.empty()) return false; q.i = r.pick(tx); q.may = {q.i}; int t = (int) r.below(w->b[q.i].txs.size()); S h = casehex(hex(w->b[q.i].txs[t].hash));
    if (c == 6) { int z = (int) r.below(3); if (z == 0) { q.method = "eth_getTransactionByHash"; q.params = "[" + qs(h) + "]"; } else { q.method = z == 1 ? "eth_getTransactionByBlockHashAndIndex" : "eth_getTransactionByBlockNumberAndIndex"; S b = blk(q.i, q.may, z == 1 ? 0 : 1); q.params = "[" + b + "," + qs(qhex((uint64_t) t)) + "]"; } q.kind = q.method + "/t" + std::to_string(w->b[q.i].txs[t].type); return true; }
    if (c == 7) { q.method = "eth_getTransactionReceipt"; q.params = "[" + qs(h) + "]"; q.kind = q.method + "/t" + std::to_string(w->b[q.i].txs[t].type); return true; }
    // logs: all blocks up to the last provable one
    std::vector<std::array<int, 3>> all; for (int i : tx) for (int u = 0; u < (int) w->b[i].rc.size(); u++) for (int l = 0; l < (int) w->b[i].rc[u].logs.size(); l++) all.push_back({i, u, l});
    if (c == 8) { if (all.empty()) return false; J list = World::jarr(); q.method = "eth_verifyLogs"; int lo = 1 << 30; for (auto& x : all) if (r.chance(1, 3)) { list.a.push_back(w->j_log(x[0], x[1], x[2])); lo = std::min(lo, x[0]); } if (list.a.empty()) return false; q.i = lo; q.params = jdump(list); q.kind = q.method; return true; }
    q.method = "eth_getLogs"; int i0 = q.i, i1 = (int) r.range(q.i, ps.back()); if (gapped() && i0 <= w->gap_at) i1 = std::min(i1, w->gap_at); for (int x = i0; x <= i1; x++) if (!n->provable(x)) { i1 = x - 1; break; }
    const synth::Log* l = nullptr; for (auto& x : all) if (x[0] >= i0 && x[0] <= i1 && r.chance(1, 2)) l = &w->b[x[0]].rc[x[1]].logs[x[2]];
    S f; auto add = [&](const S& s) { f += (f.size() ? "," : "") + s; };
    if (i0 == i1 && r.chance(1, 3)) add("\"blockHash\":" + qs(hex(w->b[i0].hash))); else { add("\"fromBlock\":" + qs(qhex(w->b[i0].number))); if (!cachey && i1 == n->latest() && lat.size() == 1) { if (r.chance(1, 2)) add("\"toBlock\":\"latest\""); } else add("\"toBlock\":" + qs(qhex(w->b[i1].number))); }
    if (l && r.chance(2, 3)) add("\"address\":" + (r.chance(1, 3) ? "[" + qs(hex(l->a)) + "," + qs(hex(r.raw(20))) + "]" : qs(casehex(hex(l->a)))));
    if (l && l->topics.size() && r.chance(2, 3)) { S t2; for (auto& x : l->topics) { if (t2.size() && r.chance(1, 3)) break; t2 += (t2.size() ? "," : ""); int z = (int) r.below(4); t2 += z == 0 ? S("null") : z == 1 ? "[" + qs(hex(r.raw(32))) + "," + qs(casehex(hex(x))) + "]" : qs(hex(x)); } add("\"topics\":[" + t2 + "]"); }
    q.params = "[{" + f + "}]"; q.kind = q.method; for (int x = i1; x >= i0; x--) q.may.insert(x); q.i = i0; return true;
  }
  Ans answer(const Req& q) { auto o = n->answer(q.url, q.rpc_method, q.rpc_params); return o.err ? Ans::fail(o.text) : o.text.size() ? Ans::ok(o.text) : Ans::ok(o.ssz); }
  // is `got` what the node says?
  bool right(const Ask& q, const J& got, S& why) {
    J par; jparse(q.params, par); if (q.method == "eth_blockNumber") { for (int i : lat) if (got.k == J::STR && got.s == qhex(w->b[i].number)) return true; why = "block number " + jdump(got); return false; }
    if (q.method == "eth_getLogs") { J want; n->rpc(q.method, par, want); if (got.k != J::ARR || got.a.size() != want.a.size()) { why = "number of logs: expected " + std::to_string(want.a.size()) + " got " + jdump(got).substr(0, 80); return false; } return truth::ok(*w, q.method, par, got, why); }
    bool tag = false; for (auto& a : par.a) if (a.k == J::STR && truth::istag(a.s)) tag = true; if (!tag) return truth::ok(*w, q.method, par, got, why);
    for (int i : q.may) { J p2 = par; for (auto& a : p2.a) if (a.k == J::STR && truth::istag(a.s)) a.s = qhex(w->b[i].number); if (truth::ok(*w, q.method, p2, got, why)) return true; } return false;
  }
  uint32_t flags() { uint32_t f = 0; if (r.chance(1, 2)) f |= C4_PROVER_FLAG_INCLUDE_CODE; if (r.chance(1, 2)) f |= C4_PROVER_FLAG_INCLUDE_SYNC; if (chain_store) f |= C4_PROVER_FLAG_CHAIN_STORE; if (r.chance(1, 4)) f |= C4_PROVER_FLAG_USE_ACCESSLIST; return f; }
};
