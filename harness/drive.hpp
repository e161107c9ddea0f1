// Drives prover and verifier through the public C API (bindings/colibri.h) the way a host binding does:
// in-memory storage plugin, JSON status loop, every request answered by a callback.
#pragma once
#include "repo.hpp"
#include <functional>
extern "C" {
#include "beacon_types.h"
#include "colibri.h"
#include "prover.h"
#include "sync_committee.h"
#include "verify.h"
}
namespace drive {
// ---- storage -------------------------------------------------------------
struct Store {
  std::map<S, B> kv; uint64_t gets = 0, sets = 0, dels = 0; std::vector<S> log;
  std::function<bool(const S&)> fail_get;                 // true: read fails
  std::function<bool(const S&, B&)> on_set;               // false: the write is lost; may truncate the value
  std::function<bool(const S&)> on_del;                   // false: the deletion is lost
};
inline Store& store() { static Store s; return s; }
inline bool st_get(char* k, buffer_t* b) {
  auto& s = store(); s.gets++;
  if (s.fail_get && s.fail_get(k)) return false;
  auto it = s.kv.find(k); if (it == s.kv.end()) return false;
  HB h(it->second); buffer_append(b, h.b()); return true;
}
inline void st_set(char* k, bytes_t v) { auto& s = store(); s.sets++; B b = toB(v); s.log.push_back("set " + S(k)); if (s.on_set && !s.on_set(k, b)) return; s.kv[k] = b; }
inline void st_del(char* k) { auto& s = store(); s.dels++; s.log.push_back("del " + S(k)); if (s.on_del && !s.on_del(k)) return; s.kv.erase(k); }
inline void install(uint32_t max_states = 3) { static storage_plugin_t p; p.get = st_get; p.set = st_set; p.del = st_del; p.max_sync_states = max_states; c4_set_storage_config(&p); }
// ---- requests ------------------------------------------------------------
struct Req { data_request_t* ptr = nullptr; S url, payload, type, encoding, method; uint64_t chain = 0; S rpc_method; J rpc_params; };
struct Ans { bool err = false; S error; B data; uint16_t node = 0; static Ans ok(const B& b) { Ans a; a.data = b; return a; } static Ans ok(const S& s) { Ans a; a.data = B(s.begin(), s.end()); return a; } static Ans fail(const S& e) { Ans a; a.err = true; a.error = e; return a; } };
using Answer = std::function<Ans(const Req&)>;
struct Result { bool ok = false, hang = false; S status, error, raw; J result; B proof; int rounds = 0, requests = 0; };
inline const J* jget(const J& o, const S& k) { if (o.k != J::OBJ) return nullptr; for (auto& m : o.o) if (m.first == k) return &m.second; return nullptr; }
inline S jstr(const J& o, const S& k) { auto* p = jget(o, k); if (!p) return ""; return p->k == J::STR ? p->s : p->k == J::NUM ? p->s : ""; }
inline std::vector<Req> requests(const J& j) {
  std::vector<Req> out; auto* rs = jget(j, "requests"); if (!rs || rs->k != J::ARR) return out;
  for (auto& r : rs->a) {
    Req q; q.ptr = (data_request_t*) (uintptr_t) strtoull(jstr(r, "req_ptr").c_str(), 0, 10);
    q.url = jstr(r, "url"); q.type = jstr(r, "type"); q.encoding = jstr(r, "encoding"); q.method = jstr(r, "method"); q.chain = strtoull(jstr(r, "chain_id").c_str(), 0, 10);
    if (auto* p = jget(r, "payload")) { q.payload = jdump(*p); q.rpc_method = jstr(*p, "method"); if (auto* pp = jget(*p, "params")) q.rpc_params = *pp; }
    out.push_back(q);
  }
  return out;
}
inline void respond(const Req& q, const Ans& a) {
  if (a.err) { HB e(a.error); c4_req_set_error(q.ptr, (char*) e.p, a.node); return; }
  HB h(a.data); bytes_t b = h.b(); c4_req_set_response(q.ptr, b, a.node);
}
// one status step; returns false when final
inline bool step(const S& raw, Result& r, std::vector<Req>& rs) {
  J j; r.raw = raw;
  if (!jparse(raw, j)) { M().viol("status-json", "status is not valid JSON: " + raw.substr(0, 600)); r.status = "badjson"; return false; }
  r.status = jstr(j, "status");
  if (r.status == "success") { r.ok = true; if (auto* p = jget(j, "result")) r.result = *p; else M().viol("status-json", "success without result"); return false; }
  if (r.status == "error") { r.error = jstr(j, "error"); return false; }
  if (r.status != "pending") { M().viol("status-json", "unknown status: " + raw.substr(0, 200)); return false; }
  rs = requests(j); r.rounds++; r.requests += rs.size();
  return true;
}
const int MAXROUNDS = 400;
const S NOARG = "<none>"; // no method or no arguments at all
inline Result prove(const S& method, const S& params, uint64_t chain, uint32_t flags, const Answer& ans, const B& client_state = {}) {
  Result r; HB m(method), p(params);
  prover_t* ctx = c4_create_prover_ctx((char*) m.p, (char*) p.p, chain, flags);
  HB cs(client_state); if (client_state.size()) ((prover_ctx_t*) ctx)->client_state = cs.b();
  for (int i = 0;; i++) {
    if (i >= MAXROUNDS) { r.hang = true; r.status = "hang"; break; }
    char* js = c4_prover_execute_json_status(ctx); S raw = js ? js : ""; free(js);
    std::vector<Req> rs; if (!step(raw, r, rs)) break;
    if (rs.empty()) { r.hang = true; r.status = "stuck"; break; }
    for (auto& q : rs) respond(q, ans(q));
  }
  if (r.ok) { bytes_t b = c4_prover_get_proof(ctx); r.proof = toB(b); }
  if (client_state.size()) ((prover_ctx_t*) ctx)->client_state = NULL_BYTES;
  c4_free_prover_ctx(ctx);
  return r;
}
inline Result verify(const B& proof, const S& method, const S& params, uint64_t chain, const S& trusted, const Answer& ans, int maxrounds = MAXROUNDS) {
  Result r; HB pr(proof), m(method), p(params), t(trusted);
  void* ctx = c4_verify_create_ctx(pr.b(), method == NOARG ? nullptr : (char*) m.p, params == NOARG ? nullptr : (char*) p.p, chain, trusted.size() ? (char*) t.p : nullptr);
  for (int i = 0;; i++) {
    if (i >= maxrounds) { r.hang = maxrounds == MAXROUNDS; r.status = r.hang ? "hang" : "abandoned"; break; }
    char* js = c4_verify_execute_json_status(ctx); S raw = js ? js : ""; free(js);
    std::vector<Req> rs; if (!step(raw, r, rs)) break;
    if (rs.empty()) { r.hang = true; r.status = "stuck"; break; }
    for (auto& q : rs) respond(q, ans(q));
  }
  c4_verify_free_ctx(ctx);
  return r;
}
} // namespace drive
