// Everything an attacker may do with the proof q of a question: altered, spliced with a forged chain (fq), misdirected.
// An accepted answer has to be true.
#pragma once
#include "ask.hpp"
static S show(const Env& e, const S& m, const S& p, const Val& v) { (void) v; return "chain " + std::to_string(e.w->sp.id) + " fork " + std::to_string(e.w->b[0].fork) + " " + m + " " + p.substr(0, 400); }
// which part of the request a mutation touched, without list noise
static S part(const S& how) { S s; for (char c : how) { if (c == '[' || c == ']') continue; s += c; } return s; }
static void attack(Env& e, const Q& q, const Q& fq, std::vector<Q>& other, int per, const std::function<Result(const B&, const S&, const S&)>& run) {
  Rng& r = e.r; std::vector<Val*> donors; for (auto& o : other) donors.push_back(&o.req);
  for (int k = 0; k < per; k++) {
    Val x = q.req; S m = q.method, p = q.params, how; B bytes; bool raw = false;
    int c = (int) r.below(15);
    if (c >= 10) { S w; int pb = r.pick({10, 30, 50, 70, 90, 100}); mut::cross(x, fq.req, r, 0, pb, w); if (r.chance(2, 3)) x["data"] = fq.req["data"]; how = "parts of a forged chain " + w; if (r.chance(1, 4)) p = fq.params; }
    else if (c < 5 || other.empty()) { how = mut::one(x, donors, r, r.chance(2, 3) ? "proof" : ""); if (r.chance(1, 4)) how += " + " + mut::one(x, donors, r); }
    else if (c == 5) { const Q& o = r.pick(other); p = o.params; how = "params of another question"; }
    else if (c == 6) { const Q& o = r.pick(other); x = o.req; how = "proof of another question"; }
    else if (c == 7) { m = r.pick(std::vector<S>{"eth_getBalance", "eth_getTransactionCount", "eth_getCode", "eth_getStorageAt", "eth_getProof", "eth_blockNumber", "eth_getBlockByHash", "eth_getBlockByNumber", "eth_getTransactionByHash", "eth_getTransactionByBlockHashAndIndex", "eth_getTransactionByBlockNumberAndIndex", "eth_getTransactionReceipt", "eth_getLogs", "eth_verifyLogs", "eth_call", "eth_gasPrice", "eth_chainId", "net_version", "eth_accounts", "eth_estimateGas", "unknown_method", "eth_sendRawTransaction"}); how = "method " + m + " with proof for " + q.method; if (r.chance(1, 3)) { Val& d = x["data"]; d.choose((int) r.below(9)); fill(d.e[0], r); how += " + data"; } if (r.chance(1, 4)) { const Q& o = r.pick(other); p = o.params; } }
    else if (c == 8) { Val& d = x["data"]; const Q& o = r.pick(other); if (r.chance(1, 3)) d = o.req["data"]; else { d.choose((int) r.below(9)); fill(d.e[0], r); } how = "attached data " + std::to_string(d.sel); }
    else { // altered question
      J j; jparse(p, j); if (j.k == J::ARR && j.a.size()) { size_t ai = r.below(j.a.size()); J& a = j.a[ai]; J* t = &a; if (a.k == J::ARR && a.a.size()) { if (r.chance(1, 3)) { if (r.chance(1, 2)) a.a.pop_back(); else a.a.push_back(World::js(hex(r.raw(32)))); t = nullptr; } else t = &a.a[r.below(a.a.size())]; } else if (a.k == J::ARR) { a.a.push_back(World::js(hex(r.raw(32)))); t = nullptr; }
        if (t && t->k == J::OBJ && t->o.size()) t = &t->o[r.below(t->o.size())].second; if (t && t->k == J::ARR && t->a.size()) t = &t->a[r.below(t->a.size())];
        if (t && t->k == J::STR && t->s.size() > 2) { int z = (int) r.below(9); if (z == 6) { if (t->s.size() <= 18 && t->s.compare(0, 2, "0x") == 0) t->s = "0x" + S(1, "1f"[r.below(2)]) + S(18 - t->s.size(), '0') + t->s.substr(2); } else if (z == 7) { if (t->s.size() <= 10 && t->s.compare(0, 2, "0x") == 0) t->s = "0x1" + S(10 - t->s.size(), '0') + t->s.substr(2); } else if (z == 8) { if (t->s.size() <= 64 && t->s.compare(0, 2, "0x") == 0) t->s = "0x" + S(2 * r.range(1, (66 - t->s.size()) / 2), '0') + t->s.substr(2); } else if (z == 0) t->s[t->s.size() - 1] = t->s.back() == '1' ? '2' : '1'; else if (z == 1) t->s[2] = t->s[2] == '1' ? '2' : '1'; else if (z == 2) t->s = "0x" + t->s.substr(2 + (t->s.size() > 4 ? 2 : 0)); else if (z == 3) t->s += "00"; else if (z == 4) t->s = hex(r.raw(32)); else t->s = "latest"; }
        else if (t && t->k == J::BOOLEAN) t->b = !t->b; }
      p = jdump(j); how = "altered question";
    }
    if (k % 20 == 7 && q.method.compare(0, 20, "eth_getTransactionBy") == 0) { std::vector<int> gs; for (int i = 0; i < (int) e.w->b.size(); i++) if (e.w->b[i].gtx.size()) gs.push_back(i);
      if (gs.size()) { int i = r.pick(gs); auto& b = e.w->b[i]; x = e.w->txgraft(i, e.hp(i)); int z = (int) r.below(3); m = z == 0 ? "eth_getTransactionByHash" : z == 1 ? "eth_getTransactionByBlockHashAndIndex" : "eth_getTransactionByBlockNumberAndIndex"; p = z == 0 ? "[" + qs(hex(keccak(b.gtx))) + "]" : "[" + qs(e.blk(i, z)) + "," + qs(qhex(b.gidx)) + "]"; how = "transaction hidden in a value chosen by the proposer"; } }
    bytes = x.ser(); if (r.chance(1, 25)) { bytes[r.below(bytes.size())] ^= (uint8_t) (1 << r.below(8)); raw = true; how += " + byte flip"; }
    (void) raw; J pj; if (!jparse(p, pj)) continue;
    M().label("hostile [" + how + "] " + m + " " + p.substr(0, 1500));
    Result z = run(bytes, m, p); M().evals++;
    if (z.hang) { M().viol("hang@" + m, how); continue; }
    if (!z.ok) { M().hit("hostile:rejected"); M().obs("rejected " + q.method + " " + part(how)); continue; }
    truth::ssz_withdrawals() = false; S w2; if (truth::ok(*e.w, m, pj, z.result, w2)) { M().hit("hostile:still true"); M().obs("true " + m + " " + part(how)); }
    else M().viol("false-answer@" + m + ":" + part(how).substr(0, 80), "[" + how + "] proof for " + q.method + " " + q.kind + "; " + show(e, m, p, x) + "; accepted although " + w2 + "; result " + jdump(z.result).substr(0, 500));
  }
}
