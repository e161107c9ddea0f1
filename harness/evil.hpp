// A node which alters its answers: values, bytes, offsets, cuts, answers of other requests, failures.
#pragma once
#include "scene.hpp"
struct Evil {
  Rng& r; Scene& s; std::vector<B> seen; std::map<data_request_t*, int> n; int rate; int changed = 0; S last, focus; // focus: only requests which contain it are altered, and always
  void aim() { focus = r.chance(1, 3) ? r.pick<S>({"period_store", "period_store", "historical_summaries", "historical_summaries", "updates", "bootstrap", "headers", "eth_getProof", "eth_getBlockReceipts", "eth_getTransactionByHash", "eth_getBlockBy", "eth_getLogs", "beacon/blocks", "finality"}) : S(""); }
  J junk(int d = 0) {
    J j; switch (r.below(14)) {
      case 0: j.k = J::NUL; return j; case 1: j.k = J::BOOLEAN; j.b = r.chance(1, 2); return j; case 2: j.k = J::NUM; j.s = r.pick<S>({"0", "1", "-1", "18446744073709551616", "4294967296", "1e9", "2147483648"}); return j;
      case 3: return World::js(""); case 4: return World::js("0x"); case 5: return World::js(hex(r.raw(r.pick({1ULL, 20ULL, 31ULL, 32ULL, 33ULL, 64ULL, 256ULL, 300ULL, 2000ULL})))); case 6: return World::js("0x" + S(r.range(1, 9), 'f')); case 7: return World::js(S(r.below(600), 'z'));
      case 8: return World::js("0x123"); case 9: return World::js(r.pick<S>({"latest", "0x0", "0xffffffffffffffff", "0x10000000000000000", "\\\"", "\\u0000", "1", "99999999999999999999", "18446744073709551615", "16777216"})); case 10: return World::jarr();
      case 11: { J o; o.k = J::OBJ; return o; } case 12: { J a = World::jarr(); for (uint64_t k = r.below(d > 2 ? 1 : 40); k > 0; k--) a.a.push_back(junk(d + 1)); return a; } default: return World::js(hex(r.raw(32))); } }
  static void walk(J& j, std::vector<J*>& o) { o.push_back(&j); for (auto& x : j.a) walk(x, o); for (auto& x : j.o) walk(x.second, o); }
  void mutate(J& j) { std::vector<J*> ns; walk(j, ns); J& x = *r.pick(ns); switch (r.below(8)) {
      case 0: x = junk(); break; case 1: if (x.k == J::OBJ && x.o.size()) { x.o.erase(x.o.begin() + r.below(x.o.size())); break; } x = junk(); break; case 2: if (x.k == J::ARR && x.a.size()) { x.a.erase(x.a.begin() + r.below(x.a.size())); break; } x = junk(); break;
      case 3: if (x.k == J::ARR && x.a.size()) { J c = r.pick(x.a); for (uint64_t k = r.pick({1ULL, 2ULL, 30ULL}); k > 0; k--) x.a.push_back(c); break; } x = junk(); break; case 4: { J c = *r.pick(ns); x = c; break; } case 5: if (x.k == J::STR && x.s.size() > 2) { x.s.resize(r.range(2, x.s.size() - 1)); break; } x = junk(); break;
      case 6: if (x.k == J::STR && x.s.size() > 2) { size_t p = r.range(2, x.s.size() - 1); x.s[p] = "0123456789abcdefgz"[r.below(18)]; break; } x = junk(); break; default: if (x.k == J::STR) { x.s += hex(r.raw(r.range(1, 40))).substr(2); break; } x = junk(); } }
  Ans operator()(const Req& q) {
    Ans a = s.answer(q); if (++n[q.ptr] > 3) return Ans::fail("no node left"); if (!a.err) { if (seen.size() < 60) seen.push_back(a.data); } last = ""; if (focus.size() ? (q.rpc_method + " " + q.url).find(focus) == S::npos || !r.chance(9, 10) : !r.chance(1, rate)) return a; changed++;
    if (a.err) { if (seen.empty()) return a; last = "answer of another request"; return Ans::ok(r.pick(seen)); }
    int c = (int) r.below(12); if (c == 0) { last = "failure"; return Ans::fail(r.pick<S>({"timeout", "HTTP 500", "a \"quoted\" \\ error\n"})); } if (c == 1) { last = "answer of another request"; return Ans::ok(r.pick(seen)); } if (c == 2) { last = "empty"; return Ans::ok(B()); } if (c == 3) { last = "cut"; B b = a.data; b.resize(r.below(b.size() + 1)); return Ans::ok(b); } if (c == 4) { last = "random bytes"; return Ans::ok(r.raw(r.pick({1ULL, 7ULL, 12ULL, 100ULL, 5000ULL}))); }
    bool json = q.encoding == "json"; J j; if (json && jparse(S(a.data.begin(), a.data.end()), j)) { last = "json"; for (uint64_t k = r.pick({1ULL, 1ULL, 2ULL, 5ULL}); k > 0; k--) mutate(j); S t = jdump(j); if (r.chance(1, 20)) { last = "json cut"; t.resize(r.below(t.size() + 1)); } if (r.chance(1, 30)) { last = "deep"; t = S(3000, '['); } return Ans::ok(t); }
    B b = a.data; if (b.empty()) return a; last = "bytes"; for (uint64_t k = r.pick({1ULL, 1ULL, 2ULL, 8ULL}); k > 0; k--) switch (r.below(5)) {
      case 0: b[r.below(b.size())] ^= (uint8_t) (1 << r.below(8)); break; case 1: { size_t p = r.below(std::min<size_t>(b.size(), r.pick({16ULL, 600ULL, 100000ULL}))) & ~3ULL; uint64_t v = r.pick<uint64_t>({0ULL, 0xffffffffULL, (uint64_t) b.size(), (uint64_t) b.size() - 1, 4ULL, 0x80000000ULL, 0xfffffff0ULL}); for (int i = 0; i < 4 && p + i < b.size(); i++) b[p + i] = (uint8_t) (v >> 8 * i); break; }
      case 2: { size_t p = r.below(b.size()); size_t l = std::min<size_t>(b.size() - p, r.range(1, 64)); b.erase(b.begin() + p, b.begin() + p + l); if (b.empty()) return Ans::ok(b); break; } case 3: { size_t p = r.below(b.size()); B x = r.raw(r.range(1, 40)); b.insert(b.begin() + p, x.begin(), x.end()); break; } default: { size_t p = r.below(std::min<size_t>(b.size(), r.pick({32ULL, 1000ULL, 100000ULL}))); b[p] = (uint8_t) r.pick({0ULL, 1ULL, 0x7fULL, 0x80ULL, 0xffULL}); } }
    return Ans::ok(b);
  }
};
