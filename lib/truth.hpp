// What a correct client may answer, judged from the synthetic world (independent of any proof).
#pragma once
#include "synth.hpp"
namespace truth {
using namespace ref;
using namespace synth;
inline S lower(S s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
inline S strip0(const S& s) { if (s.compare(0, 2, "0x")) return s; size_t i = 2; while (i < s.size() && s[i] == '0') i++; return "0x" + s.substr(i); }
inline bool empty(const J& j) { switch (j.k) { case J::NUL: return true; case J::BOOLEAN: return !j.b; case J::ARR: return j.a.empty(); case J::OBJ: return j.o.empty(); case J::STR: { S s = strip0(j.s); return s.empty() || s == "0x"; } default: return false; } }
// every field of t must be in g with the same value; additional fields of g must carry nothing
inline bool match(const J& t, const J& g, const S& path, S& why, const std::set<S>& ignore) {
  if (t.k == J::BAD) return true; // unspecified
  if (t.k == J::OBJ) {
    if (g.k != J::OBJ) { why = path + ": object expected"; return false; }
    for (auto& x : t.o) { if (ignore.count(x.first)) continue; auto* y = g.get(x.first); if (!y) { if (empty(x.second)) continue; why = path + "." + x.first + " missing"; return false; } if (!match(x.second, *y, path + "." + x.first, why, ignore)) return false; }
    for (auto& x : g.o) { if (ignore.count(x.first) || t.get(x.first)) continue; if (!empty(x.second)) { why = path + "." + x.first + " additional with value " + jdump(x.second).substr(0, 100); return false; } }
    std::set<S> names; for (auto& x : g.o) if (!names.insert(x.first).second) { why = path + "." + x.first + " twice"; return false; }
    return true;
  }
  if (t.k == J::ARR) { if (g.k != J::ARR || g.a.size() != t.a.size()) { why = path + ": array of " + std::to_string(t.a.size()) + " expected, got " + jdump(g).substr(0, 80); return false; } for (size_t i = 0; i < t.a.size(); i++) if (!match(t.a[i], g.a[i], path + "[" + std::to_string(i) + "]", why, ignore)) return false; return true; }
  if (t.k == J::NUL) { if (empty(g)) return true; why = path + ": null expected, got " + jdump(g).substr(0, 80); return false; }
  if (t.k == J::STR && g.k == J::STR) {
    S a = lower(t.s), b = lower(g.s); S leafname = path.substr(path.find_last_of('.') + 1);
    if (leafname == "r" || leafname == "s" || leafname == "value") { a = strip0(a); b = strip0(b); }
    if (a == b) return true; why = path + ": expected " + t.s.substr(0, 140) + " got " + g.s.substr(0, 140); return false;
  }
  if (t == g) return true;
  why = path + ": expected " + jdump(t).substr(0, 140) + " got " + jdump(g).substr(0, 140); return false;
}
inline bool hexq(const S& s, uint64_t& v) { if (s.size() < 3 || s.size() > 18 || s.compare(0, 2, "0x")) return false; v = 0; for (size_t i = 2; i < s.size(); i++) { int h = hexd(s[i]); if (h < 0) return false; v = v * 16 + h; } return true; }
inline bool istag(const S& s) { return s.compare(0, 2, "0x") != 0; } // whatever is not a number or hash: which block is meant can not be checked
inline std::vector<int> blocks(const World& w, const J& a) {
  std::vector<int> o; if (a.k != J::STR) return o; uint64_t n;
  for (int i = 0; i < (int) w.b.size(); i++) { if (istag(a.s)) o.push_back(i); else if (a.s.size() == 66) { if (lower(a.s) == hex(w.b[i].hash)) o.push_back(i); } else if (hexq(a.s, n) && w.b[i].number == n) o.push_back(i); }
  return o;
}
inline B arg_bytes(const J& a) { B b; if (a.k == J::STR && a.s.size() >= 2 && !a.s.compare(0, 2, "0x")) { S h = a.s.substr(2); if (h.size() % 2 == 0) { bool ok = true; for (char c : h) if (hexd(c) < 0) ok = false; if (ok) b = unhex(h); } } return b; }
inline B key32(const J& a) { if (a.k != J::STR || a.s.compare(0, 2, "0x") || a.s.size() > 66) return {}; J t = a; t.s = "0x" + S(66 - a.s.size(), '0') + a.s.substr(2); return arg_bytes(t); }
inline bool log_matches(const World& w, int i, int t, int l, const J& f, S& why) {
  auto& k = w.b[i]; auto& L = k.rc[t].logs[l]; uint64_t n;
  if (auto* x = f.get("blockHash")) { if (x->k == J::STR && lower(x->s) != hex(k.hash)) { why = "blockHash"; return false; } }
  if (auto* x = f.get("fromBlock")) if (x->k == J::STR && hexq(x->s, n) && k.number < n) { why = "fromBlock"; return false; }
  if (auto* x = f.get("toBlock")) if (x->k == J::STR && hexq(x->s, n) && k.number > n) { why = "toBlock"; return false; }
  if (auto* x = f.get("address")) { if (x->k == J::STR && lower(x->s) != hex(L.a)) { why = "address"; return false; } if (x->k == J::ARR && x->a.size()) { bool ok = false; for (auto& e : x->a) if (lower(e.s) == hex(L.a)) ok = true; if (!ok) { why = "address list"; return false; } } }
  if (auto* x = f.get("topics")) if (x->k == J::ARR) for (size_t q = 0; q < x->a.size(); q++) { auto& e = x->a[q]; if (e.k == J::NUL) continue; if (e.k == J::ARR && e.a.empty()) continue; if (q >= L.topics.size()) { why = "topics count"; return false; } if (e.k == J::STR) { if (lower(e.s) != hex(L.topics[q])) { why = "topic"; return false; } } else if (e.k == J::ARR) { bool ok = false; for (auto& z : e.a) if (z.k == J::NUL || lower(z.s) == hex(L.topics[q])) ok = true; if (!ok) { why = "topic list"; return false; } } }
  return true;
}
inline bool& ssz_withdrawals() { static bool b = false; return b; } // known finding: the answer was right except for withdrawalsRoot
// blocks of an OP chain always report the hash of no requests
inline J noreq(J g) { if (g.k == J::OBJ) for (size_t i = 0; i < g.o.size(); i++) if (g.o[i].first == "requestsHash" && g.o[i].second.s == "0xe3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855") { g.o.erase(g.o.begin() + i); break; } return g; }
inline const std::set<S>& ign_tx() { static std::set<S> s; return s; }
// may `got` be the answer to (method, params)?  why: reason if not
inline bool ok(const World& w, const S& m, const J& p, const J& got, S& why) {
  auto A = [&](size_t i) -> const J& { static J none; return p.k == J::ARR && i < p.a.size() ? p.a[i] : none; };
  auto any = [&](const std::vector<J>& c, const std::set<S>& ig = {}) { if (c.empty()) { why = "nothing like this exists"; return false; } for (auto& x : c) if (match(x, got, m, why, ig)) return true; return false; };
  std::vector<J> c;
  auto LB = [&](size_t pos) { std::vector<int> o = blocks(w, A(pos)); if (p.k == J::ARR && p.a.size() > pos + 1) for (int i : blocks(w, p.a.back())) o.push_back(i); return o; }; // too many arguments: block may be the last one
  if (m == "eth_getBalance" || m == "eth_getTransactionCount" || m == "eth_getCode") {
    B a = arg_bytes(A(0)); if (a.size() != 20) { why = "no such address"; return false; }
    for (int i : LB(1)) { Acct e; auto it = w.b[i].st.find(a); if (it != w.b[i].st.end()) e = it->second; c.push_back(World::js(m == "eth_getBalance" ? qhex(e.balance) : m == "eth_getCode" ? hex(e.code) : qhex(e.nonce))); }
    return any(c);
  }
  if (m == "eth_getStorageAt") {
    B a = arg_bytes(A(0)), k = key32(A(1)); if (a.size() != 20 || k.size() != 32) { why = "bad args"; return false; }
    for (int i : LB(2)) { B v(32, 0); auto it = w.b[i].st.find(a); if (it != w.b[i].st.end()) { auto s = it->second.st.find(k); if (s != it->second.st.end()) v = padl(s->second, 32); } c.push_back(World::js(hex(v))); }
    return any(c);
  }
  if (m == "eth_getProof") {
    B a = arg_bytes(A(0)); if (a.size() != 20 || A(1).k != J::ARR) { why = "bad args"; return false; } Bs ks; for (auto& x : A(1).a) { ks.push_back(key32(x)); if (ks.back().size() != 32) { why = "bad key"; return false; } }
    for (int i : LB(2)) c.push_back(w.j_proof(i, a, ks));
    return any(c);
  }
  if (m == "eth_blockNumber") { for (auto& k : w.b) c.push_back(World::js(qhex(k.number))); return any(c); }
  if (m == "eth_getBlockByNumber" || m == "eth_getBlockByHash") {
    bool full = A(1).k == J::BOOLEAN && A(1).b;
    for (int i : blocks(w, A(0))) { S x; if (match(w.j_block(i, full, true), w.op ? noreq(got) : got, m, x, {})) { ssz_withdrawals() = true; return true; } }
    for (int i : blocks(w, A(0))) c.push_back(w.j_block(i, full));
    if (w.op) { J g = noreq(got); for (auto& x : c) if (match(x, g, m, why, {})) return true; }
    return any(c);
  }
  auto findtx = [&](const B& h, int& bi, int& ti) { for (bi = 0; bi < (int) w.b.size(); bi++) for (ti = 0; ti < (int) w.b[bi].txs.size(); ti++) if (w.b[bi].txs[ti].hash == h) return true; return false; };
  if (m == "eth_getTransactionByHash") { B h = arg_bytes(A(0)); for (int i = 0; i < (int) w.b.size(); i++) for (int t = 0; t < (int) w.b[i].txs.size(); t++) if (w.b[i].txs[t].hash == h) c.push_back(w.j_tx(i, t)); return any(c, ign_tx()); }
  if (m == "eth_getTransactionByBlockHashAndIndex" || m == "eth_getTransactionByBlockNumberAndIndex") { uint64_t t = 0; bool anyidx = A(1).k != J::STR || A(1).s.compare(0, 2, "0x"); /* not a number at all: no index was asked for */ if (!anyidx && (A(1).k != J::STR || !hexq(A(1).s, t))) { why = "bad index"; return false; } for (int i : blocks(w, A(0))) for (size_t q = 0; q < w.b[i].txs.size(); q++) if (anyidx || q == t) c.push_back(w.j_tx(i, (int) q)); return any(c, ign_tx()); }
  // not provable from a single receipt: gasUsed (needs the predecessor), effectiveGasPrice (needs the base fee), logIndex; contractAddress is not part of the answer type
  static const std::set<S> IGR = {"gasUsed", "effectiveGasPrice", "logIndex", "contractAddress"};
  if (m == "eth_getTransactionReceipt") { B h = arg_bytes(A(0)); int i, t; if (findtx(h, i, t)) c.push_back(w.j_rcpt(i, t)); return any(c, IGR); }
  if (m == "eth_getLogs" || m == "eth_verifyLogs") {
    if (got.k != J::ARR) { why = "list of logs expected"; return false; }
    bool strict = true; // malformed values of the question are normalised (cut or padded); then the logs of the answer count
    auto nohex = [](const S& x) { return x.size() < 2 || x[0] != '0' || x[1] != 'x' || x.find_first_not_of("0123456789abcdefABCDEF", 2) != S::npos; };
    if (m == "eth_verifyLogs") for (auto& g : p.a) { uint64_t n; for (auto& x : g.o) { if (x.second.k == J::STR && nohex(x.second.s)) strict = false; if (x.second.k == J::ARR) for (auto& e : x.second.a) if (nohex(e.s)) strict = false; } for (auto& f : {std::make_pair("blockHash", 66), {"transactionHash", 66}, {"address", 42}}) if (!g.get(f.first) || (int) g.get(f.first)->s.size() != f.second) strict = false; for (auto f : {"blockNumber", "transactionIndex"}) if (!g.get(f) || !hexq(g.get(f)->s, n)) strict = false; if (auto* t = g.get("topics")) for (auto& e : t->a) if (e.s.size() != 66) strict = false; if (auto* d = g.get("data")) if (d->s.size() % 2) strict = false; }
    std::vector<J> judged = m == "eth_verifyLogs" && strict ? p.a : got.a;
    if (m == "eth_verifyLogs" && strict) for (auto& g : judged) for (auto& x : g.o) { uint64_t n; if ((x.first == "blockNumber" || x.first == "transactionIndex") && hexq(x.second.s, n)) x.second.s = qhex(n); } // a question may write 0x000
    for (auto& g : judged) { // success of eth_verifyLogs means: the logs of the question are genuine
      bool found = false; S w2;
      for (int i = 0; i < (int) w.b.size() && !found; i++) for (int t = 0; t < (int) w.b[i].rc.size() && !found; t++) for (int l = 0; l < (int) w.b[i].rc[t].logs.size() && !found; l++) { S w3; if (match(w.j_log(i, t, l), g, m, w3, IGR)) { if (m == "eth_getLogs" && !log_matches(w, i, t, l, A(0), w2)) continue; found = true; } }
      if (!found) { why = "log not in the chain or not matching the filter (" + w2 + "): " + jdump(g).substr(0, 300); return false; }
    }
    if (m == "eth_verifyLogs" && got.a.size() != p.a.size()) { why = "number of logs differs from the question"; return false; }
    return true;
  }
  if (m == "eth_chainId") { c.push_back(World::js(qhex(w.sp.id))); return any(c); }
  if (m == "net_version") { c.push_back(World::js(std::to_string(w.sp.id))); c.push_back(World::js(qhex(w.sp.id))); return any(c); }
  if (m == "eth_accounts") { c.push_back(World::jarr()); return any(c); }
  if (m == "web3_clientVersion" || m == "eth_protocolVersion") return true; // decided elsewhere
  why = "method cannot be answered"; return false;
}
} // namespace truth
