// Recorded mainnet data: every recorded request must be provable and its proof verifiable with the recorded result.
#include "drive.hpp"
#include <dirent.h>
using namespace drive;
static B slurp(const S& p, bool& ok) { FILE* f = fopen(p.c_str(), "rb"); ok = f != nullptr; B b; if (!f) return b; uint8_t t[65536]; size_t n; while ((n = fread(t, 1, sizeof t, f)) > 0) b.insert(b.end(), t, t + n); fclose(f); return b; }
static S DATA;
struct Case { S dir; uint32_t flags; bool state; };
int main(int argc, char** argv) {
  M().init(argc, argv);
  DATA = M().opt.count("--data") ? M().opt["--data"] : "/repo/test/data";
  std::vector<Case> cs;
  { std::vector<S> ds; DIR* d = opendir(DATA.c_str()); while (auto* e = d ? readdir(d) : nullptr) { S n = e->d_name; bool ok; slurp(DATA + "/" + n + "/test.json", ok); if (ok) ds.push_back(n); } if (d) closedir(d); std::sort(ds.begin(), ds.end());
    auto usable = [](const S& d, bool st, uint32_t fl) { // combinations the recordings can answer (others recorded error bodies or lack the sync data)
      if (d == "eth_getBalance_electra" || d == "eth_getTransactionByHash_electra" || d == "eth_getLogs1") return st;
      if (d == "eth_getTransactionByHash2") return st && (fl & 8);
      if (d == "eth_call1" || d == "eth_call3" || d == "eth_call_electra" || !d.compare(0, 10, "precompile") || !d.compare(0, 8, "simulate")) return false; // need an EVM
      return true; };
    for (auto& x : ds) for (int st = 0; st < 2; st++) for (uint32_t fl : {0u, 1u, 8u, 9u}) if (usable(x, st, fl)) cs.push_back({x, fl, st != 0}); }
  if (M().opt.count("--all")) { M().end = cs.size(); }
  return M().loop([&] {
    Case c = cs[M().cur % cs.size()]; bool ok; S tag = c.dir + " flags=" + std::to_string(c.flags) + " state=" + std::to_string(c.state);
    M().label(tag);
    B tj = slurp(DATA + "/" + c.dir + "/test.json", ok); J t; if (!jparse(S(tj.begin(), tj.end()), t)) return;
    S method = t.str("method"), params = jdump(*t.get("params")); uint64_t chain = strtoull(t.str("chain_id").c_str(), 0, 10);
    store() = Store(); install(); c4_prover_cache_cleanup(UINT64_MAX, 0);
    if (c.state) { DIR* d = opendir((DATA + "/" + c.dir).c_str()); while (auto* e = d ? readdir(d) : nullptr) { S n = e->d_name; if (n.find('.') == S::npos) { B b = slurp(DATA + "/" + c.dir + "/" + n, ok); if (ok && b.size()) store().kv[n] = b; } } if (d) closedir(d); }
    bool missing = false; S mname;
    auto ans = [&](const Req& q) { char* n = c4_req_mockname(q.ptr); S f = DATA + "/" + c.dir + "/" + n; free(n); bool ok; B b = slurp(f, ok); if (!ok || b.empty()) { missing = true; mname = f; return Ans::fail("no recorded data"); } return Ans::ok(b); };
    B cst; auto it = store().kv.find("states_" + std::to_string(chain)); if (it != store().kv.end()) cst = it->second;
    Result p = prove(method, params, chain, c.flags, ans, cst);
    if (!p.ok) { if (missing) { M().hit("prove:unrecorded"); if (M().opt.count("--v")) printf("%s PROVE unrecorded %s | %s\n", tag.c_str(), mname.c_str(), p.error.c_str()); } else { M().viol("prove@" + c.dir, tag + " error: " + p.error + " status " + p.status); } return; }
    M().hit("prove:ok");
    Result v = verify(p.proof, method, params, chain, t.str("trusted_blockhash"), ans);
    M().evals++;
    if (!v.ok) { if (missing) { M().hit("verify:unrecorded"); if (M().opt.count("--v")) printf("%s VERIFY unrecorded %s | %s\n", tag.c_str(), mname.c_str(), v.error.c_str()); } else M().viol("verify@" + c.dir, tag + " error: " + v.error + " status " + v.status); return; }
    M().hit("verify:ok");
    auto* e = t.get("expected_result");
    if (e && *e != v.result) M().viol("result@" + c.dir, tag + " got " + jdump(v.result).substr(0, 1500) + " expected " + jdump(*e).substr(0, 1500));
    else M().hit("result:equal");
    M().obs(c.dir + (c.state ? "+state" : "") + " flags " + std::to_string(c.flags)); M().sample(tag + " -> " + jdump(v.result));
  });
}
