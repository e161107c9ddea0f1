// Questions about a synthetic chain together with their honest proofs (made by the reference model).
#pragma once
#include "drive.hpp"
#include "../lib/mut.hpp"
#include "../lib/truth.hpp"
using namespace drive;
using synth::fill; using synth::World; using synth::Spec; using synth::Bs;
struct Q { S method, params, kind; Val req; };
static S qs(const S& s) { return "\"" + s + "\""; }
static S jparams(const J& j) { return jdump(j); }
struct Env {
  std::unique_ptr<World> w; Rng& r; std::vector<int> withtx, used; /* blocks of the last question */ 
  explicit Env(Rng& rr) : r(rr) {}
  S mode;
  void make() {
    auto& sps = synth::specs(); const Spec& sp = sps[r.chance(1, 2) ? 0 : r.below(sps.size())];
    int fork = (int) r.range(synth::DENEB, sp.fe[5] == ~0ULL ? synth::ELECTRA : synth::FULU);
    w.reset(new World(sp, r.u64())); uint64_t slot = synth::slot_in(sp, fork, r);
    w->grafts = true; if (r.chance(1, 40)) w->many = (int) r.range(1, 3);
    w->build(slot, (int) r.range(3, 5), r.chance(1, 4) ? r.range(1, 4000) : r.range(100000, 30000000), 10, 5);
    for (int i = 0; i < (int) w->b.size(); i++) if (w->b[i].txs.size()) withtx.push_back(i);
    store() = Store(); install();
    state();
  }
  void state() { // client knows the committees of the current and previous period
    uint64_t p = synth::period_of(w->sp, w->b.back().slot + 1), p0 = synth::period_of(w->sp, w->b[0].slot); B st = {1}; S id = std::to_string(w->sp.id);
    std::vector<uint64_t> ps; for (uint64_t q = p0 - 1; q <= p + 2; q++) ps.push_back(q);
    for (auto q : ps) { put(st, le(q, 4)); store().kv["sync_" + id + "_" + std::to_string(q)] = w->sync_file(q); }
    store().kv["states_" + id] = st;
  }
  S blk(int i, int kind) { return kind == 1 ? hex(w->b[i].hash) : kind == 2 ? qhex(w->b[i].number) : S(r.chance(2, 3) ? "latest" : r.pick({"safe", "finalized"})); }
  Val hp(int i) { used.push_back(i); return w->op ? w->hp_sig(w->b[i]) : w->hp(i); }
  B key(const B& a, int i) { auto it = w->b[i].st.find(a); if (it != w->b[i].st.end() && it->second.st.size() && r.chance(2, 3)) { auto s = it->second.st.begin(); std::advance(s, r.below(it->second.st.size())); return s->first; } return r.chance(1, 2) ? be(r.below(30), 32) : r.raw(32); }
  Q account() {
    Q q; int i = (int) r.below(w->b.size()), kind = (int) r.below(3); B a = r.chance(3, 4) ? r.pick(w->addrs) : r.raw(20); Bs ks;
    q.method = r.pick({"eth_getBalance", "eth_getTransactionCount", "eth_getCode", "eth_getStorageAt", "eth_getProof"});
    if (q.method == "eth_getStorageAt") ks.push_back(key(a, i)); else if (q.method == "eth_getProof") for (uint64_t n = r.below(4); n > 0; n--) ks.push_back(key(a, i));
    q.req = w->account(i, a, ks, kind, hp(i)); S b = qs(blk(i, kind));
    if (q.method == "eth_getCode") { auto it = w->b[i].st.find(a); q.req["data"].choose(2).b = it == w->b[i].st.end() ? B() : it->second.code; }
    S kl; for (auto& k : ks) kl += (kl.size() ? "," : "") + qs(hex(k));
    q.params = "[" + qs(hex(a)) + "," + (q.method == "eth_getStorageAt" ? kl + "," : q.method == "eth_getProof" ? "[" + kl + "]," : "") + b + "]";
    q.kind = q.method + (w->b[i].st.count(a) ? "+acc" : "-acc") + "/k" + std::to_string(ks.size()) + "/b" + std::to_string(kind); return q;
  }
  Q block() {
    Q q; int i = (int) r.below(w->b.size()); if (r.chance(1, 4)) { q.method = "eth_blockNumber"; q.params = "[]"; q.req = w->blocknumber(i, hp(i)); q.kind = q.method; return q; }
    bool full = r.chance(1, 2); bool byhash = r.chance(1, 2); q.method = byhash ? "eth_getBlockByHash" : "eth_getBlockByNumber"; q.params = "[" + qs(blk(i, byhash ? 1 : r.chance(1, 3) ? 0 : 2)) + (full ? ",true]" : ",false]"); q.req = w->block(i, hp(i)); q.kind = q.method + (full ? "/full" : "/hashes") + "/" + std::to_string(w->b[i].txs.size()); return q;
  }
  bool tx(Q& q) {
    if (withtx.empty()) return false; int i = r.pick(withtx), t = (int) r.below(w->b[i].txs.size()), c = (int) r.below(3); q.req = w->tx(i, t, hp(i));
    if (c == 0) { q.method = "eth_getTransactionByHash"; q.params = "[" + qs(hex(w->b[i].txs[t].hash)) + "]"; }
    else { q.method = c == 1 ? "eth_getTransactionByBlockHashAndIndex" : "eth_getTransactionByBlockNumberAndIndex"; q.params = "[" + qs(blk(i, c == 1 ? 1 : 2)) + "," + qs(qhex((uint64_t) t)) + "]"; }
    auto& x = w->b[i].txs[t]; q.kind = q.method + "/t" + std::to_string(x.type) + (x.to.empty() ? "/create" : "") + (x.prot ? "" : "/unprot"); return true;
  }
  bool receipt(Q& q) {
    if (withtx.empty()) return false; int i = r.pick(withtx), t = (int) r.below(w->b[i].txs.size()); q.method = "eth_getTransactionReceipt"; q.params = "[" + qs(hex(w->b[i].txs[t].hash)) + "]"; q.req = w->receipt(i, t, hp(i)); q.kind = q.method + "/t" + std::to_string(w->b[i].txs[t].type) + "/l" + std::to_string(w->b[i].rc[t].logs.size()); return true;
  }
  S filter(int i0, int i1, const synth::Log* l) {
    S f; auto add = [&](const S& s) { f += (f.size() ? "," : "") + s; };
    if (i0 == i1 && r.chance(1, 3)) add("\"blockHash\":" + qs(hex(w->b[i0].hash))); else { add("\"fromBlock\":" + qs(qhex(w->b[i0].number))); add("\"toBlock\":" + (r.chance(1, 4) ? qs("latest") : qs(qhex(w->b[i1].number)))); }
    if (l && r.chance(2, 3)) add("\"address\":" + (r.chance(1, 3) ? "[" + qs(hex(l->a)) + "," + qs(hex(r.raw(20))) + "]" : qs(hex(l->a))));
    if (l && l->topics.size() && r.chance(2, 3)) { S t; for (auto& x : l->topics) { if (t.size() && r.chance(1, 3)) break; t += (t.size() ? "," : ""); int c = (int) r.below(4); t += c == 0 ? S("null") : c == 1 ? "[" + qs(hex(r.raw(32))) + "," + qs(hex(x)) + "]" : qs(hex(x)); } add("\"topics\":[" + t + "]"); }
    return "[{" + f + "}]";
  }
  bool logs(Q& q) {
    std::vector<std::array<int, 3>> all; for (int i : withtx) for (int t = 0; t < (int) w->b[i].rc.size(); t++) for (int l = 0; l < (int) w->b[i].rc[t].logs.size(); l++) all.push_back({i, t, l});
    if (all.empty()) return false; bool ver = r.chance(1, 4); q.method = ver ? "eth_verifyLogs" : "eth_getLogs"; auto f = r.pick(all); int i0 = f[0], i1 = (int) r.range(f[0], w->b.size() - 1); if (r.chance(1, 2)) i1 = i0;
    S p = ver ? "" : filter(i0, i1, &w->b[f[0]].rc[f[1]].logs[f[2]]); J fj; if (!ver) { J a; jparse(p, a); fj = a.a[0]; }
    q.req = World::req(ver ? 0 : 6); Val& pr = q.req["proof"].choose(4); std::map<int, std::vector<int>> need; J list = World::jarr(); int n = 0;
    for (auto& x : all) { S why; if (ver ? r.chance(1, 3) : truth::log_matches(*w, x[0], x[1], x[2], fj, why)) { auto& v = need[x[0]]; if (v.empty() || v.back() != x[1]) v.push_back(x[1]); if (ver) list.a.push_back(w->j_log(x[0], x[1], x[2])); else q.req["data"].e[0].e.push_back(w->logval(x[0], x[1], x[2])); n++; } }
    if (ver && !n) return false;
    for (auto& x : need) pr.e.push_back(w->logsblk(x.first, x.second, hp(x.first)));
    q.params = ver ? jdump(list) : p; q.kind = q.method + "/" + std::to_string(std::min(n, 4)) + "/" + std::to_string(need.size()); return true;
  }
  bool ask(Q& q, const S& m) { used.clear(); if (m == "A01") { q = account(); return true; } if (m == "A02") { q = block(); return true; } if (m == "A03") return tx(q); if (m == "A04") return r.chance(1, 2) ? receipt(q) : logs(q); return false; }
  bool askany(Q& q) { return ask(q, r.pick({"A01", "A02", "A03", "A04"})); }
};
