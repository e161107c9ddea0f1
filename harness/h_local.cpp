// Questions answered without any proof: the answer is what the chain and the arguments define, and never something
// taken from the other side; everything that needs a proof is refused without one.
#include "ask.hpp"
#include "scene.hpp"
static Ans noans(const Req&) { return Ans::fail("no upstream"); }
static const std::vector<S> PROOFABLE = {"eth_call", "colibri_simulateTransaction", "eth_getProof", "eth_getBlockByHash", "eth_getBlockByNumber", "eth_getBalance", "eth_getCode", "eth_getLogs", "eth_verifyLogs", "eth_getTransactionCount", "eth_getStorageAt", "eth_getTransactionReceipt", "eth_getTransactionByHash", "eth_getTransactionByBlockHashAndIndex", "eth_getTransactionByBlockNumberAndIndex", "eth_blockNumber"};
static const std::vector<S> UNPROOFABLE = {"eth_getUncleByBlockHashAndIndex", "eth_getUncleByBlockNumberAndIndex", "eth_feeHistory", "eth_blobBaseFee", "eth_createAccessList", "eth_estimateGas", "eth_gasPrice", "eth_getBlockReceipts", "eth_getUncleCountByBlockHash", "eth_getUncleCountByBlockNumber", "eth_maxPriorityFeePerGas", "eth_sendRawTransaction", "eth_getBlockTransactionCountByHash", "eth_getBlockTransactionCountByNumber"};
static const std::vector<S> LOCAL = {"eth_chainId", "eth_accounts", "eth_protocolVersion", "web3_clientVersion", "web3_sha3", "net_version", "colibri_decodeTransaction"};
// a request which carries data but proves nothing
static B noproof(Env& e, Rng& r) {
  if (r.chance(1, 3)) return {};
  Q q; Val v(synth::ty::request()); bool has = r.chance(2, 3) && e.askany(q);
  if (has) { v = q.req; v["proof"].choose(0); if (r.chance(1, 2)) v["data"].choose(0); }
  if (r.chance(1, 2)) { int s = (int) r.below(4); v["data"].choose(s); if (s == 1 || s == 3) v["data"].e[0].b = r.raw(32); if (s == 2) v["data"].e[0].b = r.raw(r.below(90)); }
  return v.ser();
}
static S up(S h, Rng& r) { for (size_t i = 2; i < h.size(); i++) if (h[i] >= 'a' && h[i] <= 'f' && r.chance(1, 2)) h[i] -= 32; return h; }
int main(int argc, char** argv) {
  M().init(argc, argv); const J nul = [] { J j; j.k = J::NUL; return j; }();
  return M().loop([&] {
    Rng& r = M().rng; Env e(r); e.make(); uint64_t id = e.w->sp.id; S sid = std::to_string(id);
    for (int n = 0; n < 40; n++) {
      B pf = noproof(e, r); S m = r.chance(3, 4) ? LOCAL[r.below(LOCAL.size())] : r.chance(1, 2) ? PROOFABLE[r.below(PROOFABLE.size())] : UNPROOFABLE[r.below(UNPROOFABLE.size())], par = "[]", why, kind = "plain"; J want; bool judge = true, mustfail = false;
      if (m == "eth_chainId") want = World::js(synth::qhex(id));
      else if (m == "eth_accounts") want = World::jarr();
      else if (m == "eth_protocolVersion") want = World::js("0x41");
      else if (m == "net_version") want = World::js(sid);
      else if (m == "web3_clientVersion") { judge = true; want.k = J::BAD; }
      else if (m == "web3_sha3") {
        B d = r.raw(r.chance(1, 4) ? r.range(100, 9000) : r.chance(1, 4) ? r.pick({0, 1, 31, 32, 33, 135, 136, 137, 271, 272, 273}) : r.below(80)); kind = d.empty() ? "empty" : d.size() < 32 ? "short" : d.size() < 136 ? "block" : "long";
        S h = hex(d); par = "[" + qs(r.chance(1, 3) ? up(h, r) : h) + "]"; want = World::js(hex(keccak(d)));
        if (r.chance(1, 5)) { mustfail = true; kind = "malformed"; par = r.pick({S("[]"), S("[null]"), S("[1]"), S("[true]"), S("[{}]"), S("[[]]"), S("[\"0xzz\"]"), S("[\"" + hex(d) + "g\"]"), S("[\"" + hex(d) + " \"]"), S("[\"hello\"]"), S("{}")}); }
      }
      else if (m == "colibri_decodeTransaction") {
        synth::Tx x; int bi = -1, ti = -1; for (int k = 0; k < 20 && bi < 0 && e.withtx.size(); k++) { bi = e.withtx[r.below(e.withtx.size())]; ti = (int) r.below(e.w->b[bi].txs.size()); } if (bi < 0) continue;
        x = e.w->b[bi].txs[ti]; kind = "type " + std::to_string(x.type); want = e.w->j_tx(bi, ti); B raw = x.raw;
        for (auto& f : want.o) { if (f.first == "blockHash") f.second = nul; if (f.first == "blockNumber" || f.first == "transactionIndex") f.second = J(); if (f.first == "gasPrice" && x.type >= 2) f.second = J(); }
        if (r.chance(1, 3)) { // damaged: either refused or the hash of what was passed
          kind = "damaged"; int how = (int) r.below(5); if (how == 0) raw.resize(r.below(raw.size())); else if (how == 1) raw[r.below(raw.size())] ^= 1 << r.below(8); else if (how == 2) put(raw, r.raw(r.range(1, 9))); else if (how == 3) raw = r.raw(r.below(60)); else raw.insert(raw.begin() + r.below(raw.size()), r.raw(1)[0]);
          size_t n = std::min(raw.size(), x.raw.size()); bool cut = raw != x.raw && std::equal(raw.begin(), raw.begin() + n, x.raw.begin()); // cut or followed by something
          if (cut) mustfail = true; else if (raw != x.raw) want.k = J::BAD, judge = false;
        }
        par = "[" + qs(r.chance(1, 4) ? up(hex(raw), r) : hex(raw)) + "]";
        if (r.chance(1, 20)) { mustfail = true; kind = "malformed"; par = r.pick({S("[]"), S("[null]"), S("[1]"), S("[{}]"), S("[\"0x\"]"), S("[\"\"]"), S("[\"0xzz\"]")}); }
      } else mustfail = true, kind = "needs proof";
      if (!mustfail && par == "[]" && r.chance(1, 4)) par = r.pick({S("[1]"), S("[\"0x01\",{}]"), S("[null]")});
      M().label(m + " " + par.substr(0, 900) + " chain " + sid + " request " + hex(sub(pf, 0, 300))); M().evals++;
      Result v = verify(pf, m, par, id, "", noans);
      if (v.hang || v.requests) { M().viol("local-asks@" + m, par); continue; }
      if (mustfail) { if (v.ok) M().viol((kind == "needs proof" ? "answered-without-proof@" : "malformed-accepted@") + m, par.substr(0, 400) + " -> " + jdump(v.result).substr(0, 300)); else { M().hit("refused"); M().obs("refused " + m + " " + kind + (pf.empty() ? "" : " with request")); } continue; }
      if (!v.ok) { if (judge) M().viol("refused@" + m + ":" + v.error.substr(0, 60), par.substr(0, 600) + " " + v.error); continue; }
      if (judge && want.k != J::BAD && !truth::match(want, v.result, m, why, {})) M().viol("wrong@" + m + ":" + why.substr(0, 50), par.substr(0, 600) + " " + why);
      else { M().hit("answered"); M().obs("answered " + m + " " + kind + (pf.empty() ? "" : " with request")); M().sample(m + " " + par.substr(0, 80) + " -> " + jdump(v.result).substr(0, 100)); }
    }
    // the classification tells a host what to do with a method
    for (auto& m : LOCAL) if (c4_get_method_support(id, (char*) m.c_str()) != METHOD_LOCAL) M().viol("classification", m);
    for (auto& m : PROOFABLE) if (c4_get_method_support(id, (char*) m.c_str()) != METHOD_PROOFABLE) M().viol("classification", m);
    for (auto& m : UNPROOFABLE) if (c4_get_method_support(id, (char*) m.c_str()) != METHOD_UNPROOFABLE) M().viol("classification", m);
    { S m = r.chance(1, 2) ? "eth_get" + std::to_string(r.below(1000)) : PROOFABLE[r.below(PROOFABLE.size())] + "x"; HB h(m); auto t = c4_get_method_support(id, (char*) h.p); if (t != METHOD_UNDEFINED && t != METHOD_NOT_SUPPORTED) M().viol("classification", m); Result v = verify({}, m, "[]", id, "", noans); if (v.ok) M().viol("answered-without-proof@unknown", m); }
  });
}
