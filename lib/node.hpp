// Execution and beacon node of a synthetic chain: answers every request a prover or verifier sends, honestly.
#pragma once
#include "lc.hpp"
#include "truth.hpp"
#include <functional>
namespace synth {
struct Upstream {
  World& w; Rng r; Lc lc; int head, just = 0, fin = 0; bool lighthouse = false, shortkeys = false, extras = false; std::map<uint64_t, Val> upds; std::map<B, B> boots; std::map<uint64_t, B> roots; std::map<S, uint64_t> calls; bool unknown = false; S last_unknown;
  Upstream(World& x, uint64_t seed) : w(x), r(seed), lc(x), head((int) x.b.size() - 1) {}
  struct Out { bool err; S text; B ssz; }; // ssz used if text is empty
  static Out fail(const S& e) { return {true, e, {}}; }
  static Out text(const S& s) { return {false, s, {}}; }
  static Out bin(const B& b) { return {false, "", b}; }
  bool sig(int i) const { return popcount(w.b[i].sb["message"]["body"]["syncAggregate"]["syncCommitteeBits"].b) > 0; } // does block i carry a signature (of its parent)
  // block whose content is reported for "latest": parent of the newest block with a signature
  int latest() const { int s = head; if (!sig(s)) s--; return s - 1; }
  // can block i be proven now?  (a later block with a signature, not too far away)
  bool provable(int i) const { for (int s = i + 1; s <= head && s <= i + 9; s++) if (w.num_after && i <= w.gap_at && s > w.gap_at) return false; else if (sig(s)) return true; return false; }
  int sh() const { return w.sp.eb + w.sp.pb; }
  uint64_t now() const { return w.b[head].slot; }
  const Val& upd(uint64_t p) { auto it = upds.find(p); if (it != upds.end()) return it->second; uint64_t a = (p << sh()) + 200 + r.below(7000); uint64_t fs; B fr; Val u = lc.update(a, LcOpt(), &fs, &fr); roots[fs] = fr; return upds[p] = u; }
  B upd_list(uint64_t p0, uint64_t n) { std::vector<B> us; std::vector<uint64_t> sl; uint64_t ph = period_of(w.sp, now()); for (uint64_t p = p0; p < p0 + n && p <= ph && us.size() < 128; p++) { us.push_back(upd(p).ser()); sl.push_back(Lc::aslot_of(upd(p))); } return lc.list(us, sl, lighthouse); }
  B bootstrap(int i) { auto& k = w.b[i]; Val v(k.fork <= DENEB ? ty::boot_d() : ty::boot_e()); v["header"] = lc.head(k.header); v["currentSyncCommittee"] = w.com(period_of(w.sp, k.slot)).val; setvec(v["currentSyncCommitteeBranch"], branch(k.state, lc.gi(22, k.slot))); return v.ser(); }
  B checkpoint(uint64_t slot) { B root; Val b = lc.bootstrap(slot, &root); boots[root] = b.ser(); return root; }
  int by_root(const B& x) const { for (int i = 0; i <= head; i++) if (w.b[i].root == x) return i; return -1; }
  int by_tag(const J& a) const { // -1: unknown
    if (a.k != J::STR) return -1; uint64_t n; if (a.s == "latest" || a.s == "pending") return latest(); if (a.s == "safe") return just; if (a.s == "finalized") return fin;
    for (int i = 0; i <= head; i++) if (a.s.size() == 66 ? truth::lower(a.s) == hex(w.b[i].hash) : truth::hexq(a.s, n) && n == w.b[i].number) return i; return -1; }
  static void prune(J& j) { if (j.k == J::OBJ) { std::vector<std::pair<S, J>> o; for (auto& x : j.o) if (x.second.k != J::BAD) o.push_back(x); j.o = o; for (auto& x : j.o) prune(x.second); } else if (j.k == J::ARR) for (auto& x : j.a) prune(x); }
  J extra(J j) { if (extras && j.k == J::OBJ) { j.o.push_back({"blockTimestamp", World::js("0x66")}); j.o.insert(j.o.begin(), {"x\"y\\", World::jarr()}); } prune(j); return j; }
  S hdr(int i) const { auto& h = w.b[i].header; auto n = [&](const char* f) { return std::to_string(h[f].u()); }; return "{\"root\":\"" + hex(w.b[i].root) + "\",\"canonical\":true,\"header\":{\"message\":{\"slot\":\"" + n("slot") + "\",\"proposer_index\":\"" + n("proposerIndex") + "\",\"parent_root\":\"" + hex(h["parentRoot"].b) + "\",\"state_root\":\"" + hex(h["stateRoot"].b) + "\",\"body_root\":\"" + hex(h["bodyRoot"].b) + "\"},\"signature\":\"" + hex(B(96, 1)) + "\"}}"; }
  static J null() { J n; n.k = J::NUL; return n; }
  std::function<bool(const S&, const J&, J&)> more; // additional rpc methods
  bool rpc(const S& m, const J& p, J& res) {
    auto A = [&](size_t i) -> const J& { static J none; return p.k == J::ARR && i < p.a.size() ? p.a[i] : none; }; res = null();
    if (m == "eth_getBlockByNumber" || m == "eth_getBlockByHash") { int i = by_tag(A(0)); if (i >= 0) res = extra(w.j_block(i, A(1).b)); return true; }
    if (m == "eth_getTransactionByHash") { B h = truth::arg_bytes(A(0)); for (int i = 0; i <= head; i++) for (size_t t = 0; t < w.b[i].txs.size(); t++) if (w.b[i].txs[t].hash == h) { res = extra(w.j_tx(i, (int) t)); if (w.b[i].txs[t].type == 0x7e) for (auto f : {"v", "r", "s"}) res.o.push_back({f, World::js("0x0")}); if (!res.get("nonce")) res.o.push_back({"nonce", World::js(qhex(w.b[i].rc[t].depnonce))}); } return true; }
    if (m == "eth_getBlockReceipts") { int i = by_tag(A(0)); if (i >= 0) { res = World::jarr(); for (size_t t = 0; t < w.b[i].txs.size(); t++) { J x = w.j_rcpt(i, (int) t); if (extras) for (auto& f : x.o) if (f.first == "logs") for (auto& l : f.second.a) l = extra(l); res.a.push_back(extra(x)); } } return true; }
    if (m == "eth_getLogs") { J f = A(0); res = World::jarr(); for (auto& x : f.o) if ((x.first == "fromBlock" || x.first == "toBlock") && x.second.k == J::STR) { if (x.second.s == "earliest") x.second.s = "0x0"; else { int i = by_tag(x.second); if (i >= 0) x.second.s = qhex(w.b[i].number); } }
      bool ranged = f.get("blockHash"); if (!ranged) { if (!f.get("toBlock")) f.o.push_back({"toBlock", World::js(qhex(w.b[latest()].number))}); if (!f.get("fromBlock")) f.o.push_back({"fromBlock", World::js(qhex(w.b[latest()].number))}); }
      for (int i = 0; i <= head; i++) for (int t = 0; t < (int) w.b[i].rc.size(); t++) for (int l = 0; l < (int) w.b[i].rc[t].logs.size(); l++) { S why; if (truth::log_matches(w, i, t, l, f, why)) res.a.push_back(extra(w.j_log(i, t, l))); } return true; }
    if (m == "eth_getProof") { int i = by_tag(A(2)); if (i < 0) return true; Bs ks; for (auto& x : A(1).a) ks.push_back(truth::key32(x)); B a = truth::arg_bytes(A(0)); res = w.j_proof(i, a, ks); if (shortkeys) for (auto& f : res.o) if (f.first == "storageProof") for (auto& e : f.second.a) for (auto& x : e.o) if (x.first == "key") { S z = truth::strip0(x.second.s); x.second.s = z == "0x" ? "0x0" : z; } res.o.push_back({"address", A(0)}); prune(res); return true; }
    if (m == "eth_getCode") { int i = by_tag(A(1)); if (i < 0) return false; B a = truth::arg_bytes(A(0)); auto it = w.b[i].st.find(a); res = World::js(hex(it == w.b[i].st.end() ? B() : it->second.code)); return true; }
    return more && more(m, p, res);
  }
  Out answer(const S& url, const S& method, const J& params) {
    if (method.size()) { calls[method]++; J res; if (!rpc(method, params, res)) { unknown = true; last_unknown = method + " " + jdump(params); return text("{\"jsonrpc\":\"2.0\",\"id\":1,\"error\":{\"code\":-32601,\"message\":\"invalid request\"}}"); } return text("{\"jsonrpc\":\"2.0\",\"id\":1,\"result\":" + jdump(res) + "}"); }
    size_t p; uint64_t a, b;
    { S u = url; for (auto& c : u) if (c >= '0' && c <= '9') c = '#'; if ((p = u.find("0x")) != S::npos || (p = u.find("#x")) != S::npos) u = u.substr(0, p); calls[u.substr(0, 60)]++; }
    if ((p = url.find("light_client/bootstrap/0x")) != S::npos) { B root = unhex(url.substr(p + 25)); int i = by_root(root); if (i >= 0) return bin(bootstrap(i)); auto it = boots.find(root); return it == boots.end() ? fail("404 not found") : bin(it->second); }
    if ((p = url.find("light_client/updates?start_period=")) != S::npos && sscanf(url.c_str() + p + 34, "%lu&count=%lu", &a, &b) == 2) return b > 128 || !b ? fail("400 count") : bin(upd_list(a, b));
    if ((p = url.find("lcu_updates?start_period=")) != S::npos && sscanf(url.c_str() + p + 25, "%lu&count=%lu", &a, &b) == 2) return bin(upd_list(a, b));
    if (url.find("finality_checkpoints") != S::npos) { auto cp = [&](int i) { return "{\"epoch\":\"" + std::to_string(w.b[i].slot >> w.sp.eb) + "\",\"root\":\"" + hex(w.b[i].root) + "\"}"; }; return text("{\"data\":{\"previous_justified\":" + cp(fin) + ",\"current_justified\":" + cp(just) + ",\"finalized\":" + cp(fin) + "}}"); }
    if ((p = url.find("eth/v1/beacon/blocks/")) != S::npos) { if (sscanf(url.c_str() + p + 21, "%lu", &a) == 1) { if (roots.count(a)) return text("{\"data\":{\"root\":\"" + hex(roots[a]) + "\"}}"); for (auto& k : w.b) if (k.slot == a) return text("{\"data\":{\"root\":\"" + hex(k.root) + "\"}}"); } return fail("404 not found"); }
    if ((p = url.find("eth/v2/beacon/blocks/")) != S::npos) { S x = url.substr(p + 21); int i = -1; if (x == "head") i = head; else if (!x.compare(0, 2, "0x")) i = by_root(unhex(x.substr(2))); else for (int q = 0; q <= head; q++) if (std::to_string(w.b[q].slot) == x) i = q; return i < 0 ? fail("404 not found") : bin(w.b[i].sb.ser()); }
    if ((p = url.find("eth/v1/beacon/headers?parent_root=0x")) != S::npos) { B x = unhex(url.substr(p + 36)); S l; for (int i = 0; i <= head; i++) if (w.b[i].header["parentRoot"].b == x) l = hdr(i); return text("{\"execution_optimistic\":false,\"finalized\":false,\"data\":[" + l + "]}"); }
    if ((p = url.find("eth/v1/beacon/headers/0x")) != S::npos) { int i = by_root(unhex(url.substr(p + 24))); return i < 0 ? fail("404 not found") : text("{\"finalized\":false,\"data\":" + hdr(i) + "}"); }
    if ((p = url.find("eth/v1/lodestar/states/0x")) != S::npos && url.find("/historical_summaries") != S::npos) { B x = unhex(url.substr(p + 25, 64)); for (int i = 0; i <= head; i++) if (w.b[i].state->h == x) { S l, pr; for (auto& s : w.sums) l += (l.size() ? S(",") : S("")) + "{\"block_summary_root\":\"" + hex(s.first) + "\",\"state_summary_root\":\"" + hex(s.second) + "\"}"; for (auto& n : branch(w.b[i].state, w.summaries_gi(w.b[i].slot))) pr += (pr.size() ? S(",") : S("")) + "\"" + hex(n) + "\""; return text("{\"data\":{\"slot\":" + std::to_string(w.b[i].slot) + ",\"historical_summaries\":[" + l + "],\"proof\":[" + pr + "]},\"version\":\"electra\"}"); } return fail("404 state not found"); }
    if ((p = url.find("period_store/")) != S::npos && sscanf(url.c_str() + p + 13, "%lu/", &a) == 1 && url.find("/blocks.ssz") != S::npos) { auto it = w.rootsfile.find(a); return it == w.rootsfile.end() ? fail("404 no such period") : bin(it->second); }
    unknown = true; last_unknown = url; return fail("404 unknown url " + url);
  }
};
} // namespace synth
