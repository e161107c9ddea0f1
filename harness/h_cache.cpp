// K01: what is cached never changes an answer. Three workloads: the shared value cache of the prover (lifetime of every value),
// the transaction position cache (model) and interleaved prover runs over one chain with all caches, events and evictions.
#include "scene.hpp"
#include <unistd.h>
#include <condition_variable>
#include <deque>
#include <mutex>
#include <thread>
// ---- lifetime of shared values ---------------------------------------------------------------------------------
struct Tok { int id, key; bool freed = false, invalid = false; uint64_t published_by = 0, expires = UINT64_MAX; std::set<int> holders; uint64_t dur = 0; int owner = -1; };
static std::map<void*, Tok>* toks; static int dying = -1;
static void tok_free(void* p) {
  if (!toks) return;
  auto it = toks->find(p); if (it == toks->end()) { M().viol("free-unknown@values", "a value was freed which was never handed over"); return; } Tok& t = it->second;
  if (t.freed) { M().viol("free-twice@values", "value " + std::to_string(t.id) + " of key " + std::to_string(t.key) + " was freed twice"); return; } t.freed = true;
  for (int h : t.holders) if (h != dying) { M().viol("free-in-use@values", "value " + std::to_string(t.id) + " of key " + std::to_string(t.key) + " was freed while run " + std::to_string(h) + " still uses it"); break; }
}
static void values() {
  Rng& r = M().rng; c4_prover_cache_cleanup(UINT64_MAX, 0); std::map<void*, Tok>& all = *(toks = new std::map<void*, Tok>()); struct C { prover_ctx_t* c; int id; std::map<int, void*> mine; std::map<int, void*> got; }; std::vector<C> cs; int ids = 0, tk = 0; std::map<int, int> gets; S trace;
  int nk = (int) r.range(1, 5), nops = (int) r.range(20, 120); bool big = r.chance(1, 3), shortlife = r.chance(1, 3);
  auto key = [&](int k, bytes32_t o) { memset(o, 0, 32); o[k == 0 ? 31 : k == 1 ? 0 : k == 2 ? 8 : k == 3 ? 16 : 24] = (uint8_t) (k + 1); };
  auto note = [&](const S& s) { trace += s + "; "; M().label("values: " + trace.substr(trace.size() > 3000 ? trace.size() - 3000 : 0)); };
  auto release = [&](size_t i) { C x = cs[i]; cs.erase(cs.begin() + (long) i); dying = x.id; note("free run " + std::to_string(x.id)); uint64_t t0 = current_ms(); (void) t0; c4_prover_free(x.c); uint64_t t1 = current_ms(); dying = -1; for (auto& a : all) { a.second.holders.erase(x.id); if (a.second.owner == x.id) { a.second.owner = -1; if (a.second.dur) a.second.expires = t1 + a.second.dur; } } };
  for (int o = 0; o < nops; o++) {
    M().evals++; int op = (int) r.below(12); bytes32_t kb; int k = (int) r.below((uint64_t) nk); key(k, kb);
    if (cs.empty() || (op == 0 && cs.size() < 6)) { char m[] = "eth_blockNumber", p[] = "[]"; C c; c.c = c4_prover_create(m, p, 1, 0); c.id = ids++; cs.push_back(c); note("run " + std::to_string(c.id)); continue; }
    size_t ci = r.below(cs.size()); C& c = cs[ci];
    if (op <= 3) { void* v = malloc(8); Tok t; t.id = tk++; t.key = k; t.owner = c.id; t.dur = r.chance(1, 4) ? 0 : shortlife ? r.range(1, 4) : 1000000; t.holders.insert(c.id); all[v] = t; note("run " + std::to_string(c.id) + " sets key " + std::to_string(k) + " to " + std::to_string(t.id) + " for " + std::to_string(t.dur)); c4_prover_cache_set(c.c, kb, v, (uint32_t) (big ? r.range(1000000, 60000000) : r.range(1, 1000)), t.dur, tok_free); c.mine[k] = v; }
    else if (op <= 7) {
      bool local = r.chance(1, 6); uint64_t now = current_ms(); void* v = (void*) (local ? c4_prover_cache_get_local(c.c, kb) : c4_prover_cache_get(c.c, kb)); note("run " + std::to_string(c.id) + " gets key " + std::to_string(k)); M().hit(v ? "values found" : "values missed");
      if (!v) { if (c.mine.count(k)) M().viol("own-value-lost@values", trace); continue; } auto it = all.find(v); if (it == all.end()) { M().viol("unknown-value@values", trace); return; } Tok& t = it->second;
      if (t.freed) { M().viol("use-after-free@values", "value " + std::to_string(t.id) + " was already freed: " + trace); return; } if (t.key != k) { M().viol("wrong-key@values", "value of key " + std::to_string(t.key) + ": " + trace); return; }
      if (c.mine.count(k) && c.mine[k] != v) { M().viol("own-value-hidden@values", trace); return; } if (!c.mine.count(k)) { auto g = c.got.find(k); if (g != c.got.end()) { if (g->second != v) { M().viol("value-changed@values", "the run got another value before: " + trace); return; } } else { if (t.owner >= 0) { M().viol("foreign-value@values", "value of a run which is not finished: " + trace); return; } if (t.dur == 0) { M().viol("private-value@values", trace); return; } if (t.invalid) { M().viol("invalidated-value@values", "value " + std::to_string(t.id) + " was invalidated before: " + trace); return; } if (now > t.expires + 1) { M().viol("expired-value@values", "value " + std::to_string(t.id) + " expired " + std::to_string(now - t.expires) + " ms before: " + trace); return; } c.got[k] = v; t.holders.insert(c.id); M().hit("values shared"); } }
    } else if (op == 8) { note("invalidate key " + std::to_string(k)); c4_prover_cache_invalidate(kb); for (auto& a : all) if (a.second.key == k && a.second.owner < 0 && a.second.dur) a.second.invalid = true; }
    else if (op == 9) { uint64_t n = r.pick<uint64_t>({current_ms(), current_ms() + 2, current_ms() + 2000000, UINT64_MAX}); note("cleanup"); c4_prover_cache_cleanup(n, r.pick<uint64_t>({0, 0, 1000, 50000000, 200000000})); }
    else if (op == 10 && shortlife) { usleep(2500); note("wait"); } else release(ci);
    M().obs("values op" + std::to_string(op) + " runs" + std::to_string(cs.size()) + (big ? " big" : "") + (shortlife ? " short" : ""));
  }
  while (cs.size()) release(cs.size() - 1); note("final cleanup"); c4_prover_cache_cleanup(UINT64_MAX, 0); uint64_t n, sz, mx, cap; c4_prover_cache_stats(&n, &sz, &mx, &cap);
  if (n || sz) M().viol("not-released@values", std::to_string(n) + " entries of " + std::to_string(sz) + " bytes stay although no run uses them: " + trace); else for (auto& a : all) if (!a.second.freed) { M().viol("leaked-value@values", "value " + std::to_string(a.second.id) + " was never freed: " + trace); break; }
  for (auto& a : all) free(a.first); delete toks; toks = nullptr;
}
// ---- transaction positions ---------------------------------------------------------------------------------------
static void txs() {
  Rng& r = M().rng; c4_eth_tx_cache_reset(); std::map<B, std::pair<uint64_t, uint32_t>> set; std::vector<B> keys; size_t mx = r.pick<size_t>({1, 2, 5, 20, 60, 300}); c4_eth_tx_cache_set_max_size((uint32_t) mx); B base = r.raw(32); if (r.chance(1, 2)) { base[0] = 0xff; base[1] = (uint8_t) (0xff ^ (r.chance(1, 2) ? 0xc0 : 0)); }
  int spread = (int) r.pick({1ULL, 3ULL, 8ULL, 100ULL}); uint64_t bn = r.range(1, 1000000); S trace; bool evicted = false; size_t total = 0;
  auto mk = [&] { B k = r.raw(32); if (!r.chance(1, 8)) { unsigned v = (unsigned) (base[0] | base[1] << 8) + (unsigned) r.below((uint64_t) spread); k[0] = (uint8_t) v; k[1] = (uint8_t) (v >> 8); } return k; };
  auto check = [&](const B& k) { uint64_t b = 0; uint32_t t = 0; HB h(k); bool f = c4_eth_tx_cache_get(h.p, &b, &t); auto it = set.find(k); M().evals++;
    if (f && it == set.end()) { M().viol("unknown-position@txs", "a position was returned for a hash which was never set" + trace); return false; } if (f && (it->second.first != b || it->second.second != t)) { M().viol("wrong-position@txs", "position " + std::to_string(b) + "/" + std::to_string(t) + " instead of " + std::to_string(it->second.first) + "/" + std::to_string(it->second.second)); return false; }
    if (!f && it != set.end() && !evicted) { M().viol("lost-position@txs", "nothing had to be evicted, but a position is gone after " + std::to_string(total) + " entries, limit " + std::to_string(mx)); return false; } return true; };
  M().label("txs limit " + std::to_string(mx) + " spread " + std::to_string(spread));
  if (r.chance(1, 60)) { M().label("txs more entries than buckets"); c4_eth_tx_cache_set_max_size((uint32_t) r.pick({16383ULL, 16384ULL, 20000ULL, 4294967295ULL})); for (uint32_t i = 0; i < 17000; i++) { B k = r.raw(32); HB h(k); c4_eth_tx_cache_set(h.p, 1 + i / 200, i); uint64_t b; uint32_t t; if (!c4_eth_tx_cache_get(h.p, &b, &t) || t != i) { M().viol("not-stored@txs", "entry " + std::to_string(i)); return; } } M().hit("overfull caches"); c4_eth_tx_cache_reset(); c4_eth_tx_cache_set_max_size(10000); return; }
  for (int o = 0, n = (int) r.range(30, 400); o < n; o++) {
    int op = (int) r.below(20);
    if (op < 11) { int cnt = (int) r.range(1, 8); bn += r.below(3); if (r.chance(1, 2)) { c4_eth_tx_cache_reserve((uint32_t) cnt); if (total + (size_t) cnt > mx) evicted = true; } for (int i = 0; i < cnt; i++) { B k = keys.size() && r.chance(1, 6) ? r.pick(keys) : mk(); if (!set.count(k)) { total++; keys.push_back(k); } if (total >= mx) evicted = true; set[k] = {bn, (uint32_t) i}; HB h(k); c4_eth_tx_cache_set(h.p, bn, (uint32_t) i); uint64_t b; uint32_t t; if (!c4_eth_tx_cache_get(h.p, &b, &t) || b != bn || t != (uint32_t) i) { M().viol("not-stored@txs", "an entry is not found directly after it was set"); return; } } }
    else if (op == 11 && r.chance(1, 4)) { c4_eth_tx_cache_reset(); set.clear(); keys.clear(); total = 0; evicted = false; }
    else if (op == 12) { mx = r.pick<size_t>({1, 3, 10, 50, 300}); c4_eth_tx_cache_set_max_size((uint32_t) mx); if (total > mx) evicted = true; }
    else if (keys.size()) { if (!check(r.pick(keys))) return; if (!check(mk())) return; }
    if (c4_eth_tx_cache_size() > std::max<size_t>(mx, 1)) { M().viol("limit-exceeded@txs", std::to_string(c4_eth_tx_cache_size()) + " entries with a limit of " + std::to_string(mx)); return; }
    if (r.chance(1, 10)) { size_t found = 0; for (auto& k : keys) { uint64_t b; uint32_t t; HB h(k); if (!check(k)) return; found += c4_eth_tx_cache_get(h.p, &b, &t); } if (found != c4_eth_tx_cache_size()) { M().viol("size-wrong@txs", std::to_string(c4_eth_tx_cache_size()) + " entries are counted, but " + std::to_string(found) + " can be found"); return; } M().hit("position censuses"); }
    M().obs("txs op" + std::to_string(op) + " limit" + std::to_string(mx) + " spread" + std::to_string(spread) + (evicted ? " evicting" : ""));
  }
  c4_eth_tx_cache_reset(); if (c4_eth_tx_cache_size()) M().viol("reset-keeps@txs", "entries after a reset"); c4_eth_tx_cache_set_max_size(10000);
}
// ---- interleaved runs ------------------------------------------------------------------------------------------
struct Run { Scene::Ask q; prover_t* ctx = nullptr; Result r; std::unique_ptr<HB> cs; std::map<S, B> kv; S trusted, desc, ckind; int steps = 0, works = 0; bool busy = false; };
// like the server: heavy parts of a run are executed in a worker thread, while the event loop goes on with everything else
struct Workers {
  std::mutex m; std::condition_variable cv; std::deque<prover_t*> todo; std::set<prover_t*> done; std::vector<std::thread> th; int live = 0, most = 0;
  void start() { if (th.empty()) for (int i = 0; i < 3; i++) th.emplace_back([this] { for (;;) { prover_t* c; { std::unique_lock<std::mutex> l(m); cv.wait(l, [this] { return !todo.empty(); }); c = todo.front(); todo.pop_front(); if (!c) return; most = std::max(most, ++live); } c4_prover_execute((prover_ctx_t*) c); ((prover_ctx_t*) c)->flags &= ~C4_PROVER_FLAG_UV_WORKER_REQUIRED; std::lock_guard<std::mutex> l(m); live--; done.insert(c); cv.notify_all(); } }); }
  void add(prover_t* c) { start(); std::lock_guard<std::mutex> l(m); todo.push_back(c); cv.notify_all(); }
  void wait(prover_t* c) { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return done.count(c) > 0; }); done.erase(c); }
  void stop() { { std::lock_guard<std::mutex> l(m); for (size_t i = 0; i < th.size(); i++) todo.push_back(nullptr); cv.notify_all(); } for (auto& t : th) t.join(); th.clear(); }
};
static Workers workers;
static void runs(bool work = false) {
  Rng& r = M().rng; Scene s(r); s.cachey = true; s.make(); World& w = *s.w; s.n->lighthouse = false; std::vector<Run> rs; int started = 0, limit = r.chance(3, 4) ? (int) r.range(1, 6) : 0; if (limit) c4_eth_logs_cache_enable((uint32_t) limit); S ev; int fed = -1; uint64_t hits0 = 0, m0 = 0, bs0 = 0; c4_eth_logs_cache_counters(&hits0, &m0, &bs0);
  auto feed = [&](int i) { J a = World::jarr(); for (size_t t = 0; t < w.b[i].txs.size(); t++) a.a.push_back(w.j_rcpt(i, (int) t)); S t = jdump(a); HB h(t), bl(w.b[i].pl["logsBloom"].b); json_t j = json_parse((char*) h.p); c4_eth_logs_cache_add_block(w.b[i].number, bl.p, j); ev += " logs" + std::to_string(i); M().hit("blocks added to the logs cache"); };
  auto logq = [&](Scene::Ask& q) { // wide filters over the blocks of the cache
    auto ps = s.provables(); int i0 = r.pick(ps), i1 = i0; while (i1 < s.n->head && s.n->provable(i1 + 1) && i1 + 1 - i0 < 6 && r.chance(2, 3) && (i1 + 1 <= w.gap_at || i0 > w.gap_at)) i1++; std::vector<const synth::Log*> ls; for (int i = i0; i <= i1; i++) for (auto& rc : w.b[i].rc) for (auto& l : rc.logs) ls.push_back(&l);
    S f; auto add = [&](const S& x) { f += (f.size() ? "," : "") + x; }; if (i0 == i1 && r.chance(1, 3)) add("\"blockHash\":" + qs(hex(w.b[i0].hash))); else { add("\"fromBlock\":" + qs(qhex(w.b[i0].number))); add("\"toBlock\":" + qs(qhex(w.b[i1].number))); }
    auto many = [&](const B& one, size_t n, uint64_t cnt) { S o; uint64_t at = r.below(cnt); for (uint64_t k = 0; k < cnt; k++) o += (k ? "," : "") + qs(hex(k == at ? one : r.raw(n))); return "[" + o + "]"; };
    if (ls.size() && r.chance(3, 4)) { auto* l = r.pick(ls); if (r.chance(1, 2)) add("\"address\":" + (r.chance(1, 2) ? qs(hex(l->a)) : many(l->a, 20, r.range(1, 9)))); if (l->topics.size() && r.chance(2, 3)) { S t; size_t nt = r.range(1, l->topics.size()); for (size_t k = 0; k < nt; k++) t += (k ? "," : "") + (r.chance(1, 4) ? S("null") : r.chance(1, 10) ? S("[]") : r.chance(1, 2) ? qs(hex(l->topics[k])) : many(l->topics[k], 32, r.range(1, 6))); add("\"topics\":[" + t + "]"); } }
    q.method = "eth_getLogs"; q.params = "[{" + f + "}]"; q.kind = "logs/" + std::to_string(i1 - i0); q.i = i0; for (int x = i0; x <= i1; x++) q.may.insert(x); };
  auto finish = [&](Run& x) {
    if (x.r.ok) x.r.proof = toB(c4_prover_get_proof(x.ctx)); ((prover_ctx_t*) x.ctx)->client_state = NULL_BYTES; M().label("free " + x.desc + " | " + ev); c4_free_prover_ctx(x.ctx); M().evals++; S d = x.desc + " | events:" + ev.substr(ev.size() > 1500 ? ev.size() - 1500 : 0);
    if (!x.r.ok) { M().viol("not-proven@" + x.q.method + ":" + x.r.status + x.r.error.substr(0, 50), d + ": " + x.r.error); return; } M().label("verify " + d); auto kv = store().kv; store().kv = x.kv; Result v = verify(x.r.proof, x.q.method, x.q.params, w.sp.id, x.trusted, [&](const Req& q) { return s.answer(q); }); store().kv = kv; S why;
    if (!v.ok) { M().viol("honest-rejected@" + x.q.method + ":" + v.status + v.error.substr(0, 50), d + ": " + v.error); return; } x.q.may.insert(s.lat.begin(), s.lat.end()); for (int i : s.justs) if (x.q.params.find("safe") != S::npos) x.q.may.insert(i); for (int i : s.fins) if (x.q.params.find("finalized") != S::npos) x.q.may.insert(i);
    if (!s.right(x.q, v.result, why)) { M().viol("wrong-answer@" + x.q.method + ":" + why.substr(0, 40), d + ": " + why); return; } truth::ssz_withdrawals() = false;
    if (x.q.method == "eth_getLogs") { J want, par; jparse(x.q.params, par); s.n->rpc(x.q.method, par, want); for (size_t k = 0; k < want.a.size(); k++) if (jstr(v.result.a[k], "blockNumber") != jstr(want.a[k], "blockNumber") || jstr(v.result.a[k], "logIndex") != jstr(want.a[k], "logIndex")) { M().viol("wrong-order@eth_getLogs", d + ": the order of the logs differs"); return; } }
    M().hit("runs proven and verified"); M().hit("requests", x.r.requests); M().obs(x.q.kind + " requests" + std::to_string(std::min(x.r.requests, 6)) + " steps" + std::to_string(std::min(x.steps, 5)) + (work ? " workers" + std::to_string(x.works) : S(""))); };
  if (limit && r.chance(2, 3)) for (int i = (int) r.below(2); i <= s.n->head; i++) { feed(i); fed = i; if (r.chance(1, 8)) feed((int) r.range(0, i)); }
  int total = (int) r.range(6, 12);
  for (int turn = 0; started < total || rs.size(); turn++) {
    int e = (int) r.below(14);
    if (e == 0) { int h = s.n->head; s.advance(); for (int i = 0; i <= s.n->head; i++) s.lat.insert(i), s.justs.insert(i), s.fins.insert(i); if (h != s.n->head) ev += " head" + std::to_string(s.n->head); if (limit && !c4_eth_logs_cache_is_enabled()) { c4_eth_logs_cache_enable((uint32_t) limit); fed = -1; } }
    else if (e == 1) { c4_prover_cache_cleanup(r.chance(1, 2) ? UINT64_MAX : current_ms(), 0); ev += " cleanup"; }
    else if (e <= 5 && limit) { int i = fed < 0 || r.chance(1, 8) ? (int) r.below((uint64_t) s.n->head + 1) : r.chance(1, 6) ? fed : std::min(fed + 1, s.n->head); feed(i); fed = i; }
    else if (e == 6) { uint32_t m = (uint32_t) r.pick({1ULL, 4ULL, 10000ULL}); c4_eth_tx_cache_set_max_size(m); ev += " txlimit" + std::to_string(m); }
    else if (e == 7) { bytes32_t k = {0}; memcpy(k, r.chance(1, 2) ? "Slatest" : "FinalityRoots", 7); c4_prover_cache_invalidate(k); ev += " invalidate"; }
    if (started < total && rs.size() < 4 && r.chance(1, 2)) {
      Run x; bool lq = r.chance(1, 3); if (lq) logq(x.q); else if (!s.ask(x.q)) { started++; continue; } s.client(x.q.i); x.kv = store().kv; x.trusted = s.trusted; uint32_t fl = s.flags() & ~C4_PROVER_FLAG_ZK_PROOF; if (work) fl |= C4_PROVER_FLAG_UV_SERVER_CTX; x.cs.reset(new HB(s.cs)); started++;
      x.desc = "run " + std::to_string(started) + " chain " + s.id + " head " + std::to_string(s.n->head) + " block " + std::to_string(x.q.i) + " first number " + std::to_string(w.b[0].number) + (w.num_after ? " then " + std::to_string(w.num_after) : S("")) + " logs limit " + std::to_string(limit) + " client " + s.ckind + " flags " + std::to_string(fl) + " " + x.q.method + " " + x.q.params.substr(0, 700);
      HB m(x.q.method), p(x.q.params); x.ctx = c4_create_prover_ctx((char*) m.p, (char*) p.p, w.sp.id, fl); if (s.cs.size()) ((prover_ctx_t*) x.ctx)->client_state = x.cs->b(); ev += " start" + std::to_string(started); rs.push_back(std::move(x));
    }
    if (rs.size() && work) { size_t i = r.below(rs.size()); Run& x = rs[i]; prover_ctx_t* c = (prover_ctx_t*) x.ctx;
      if (x.busy) { if (r.chance(2, 3) && rs.size() > 1) continue; workers.wait(x.ctx); x.busy = false; ev += " joined"; continue; }
      if ((c->flags & C4_PROVER_FLAG_UV_WORKER_REQUIRED) && c4_prover_status(c) == C4_PENDING && !c4_state_get_pending_request(&c->state)) { x.busy = true; x.works++; ev += " worker"; M().hit("executions in worker threads"); workers.add(x.ctx); continue; } }
    if (rs.size()) { size_t i = r.below(rs.size()); Run& x = rs[i]; if (x.busy) continue; if (work && (((prover_ctx_t*) x.ctx)->flags & C4_PROVER_FLAG_UV_WORKER_REQUIRED) && c4_prover_status((prover_ctx_t*) x.ctx) == C4_PENDING && !c4_state_get_pending_request(&((prover_ctx_t*) x.ctx)->state)) continue; M().label("step " + x.desc + " | " + ev); ev += " step"; std::vector<Req> q; char* js = c4_prover_execute_json_status(x.ctx); S raw = js ? js : ""; free(js); bool go = step(raw, x.r, q); x.steps++; if (go && work && q.empty() && x.steps <= 400 && (((prover_ctx_t*) x.ctx)->flags & C4_PROVER_FLAG_UV_WORKER_REQUIRED)) continue; if (go && (q.empty() || x.steps > 400)) { x.r.status = "stuck"; go = false; } if (go) { for (auto& y : q) respond(y, s.answer(y)); } else { Run y = std::move(rs[i]); rs.erase(rs.begin() + (long) i); ev += " end"; finish(y); } }
  }
  uint64_t h1, m1, b1; c4_eth_logs_cache_counters(&h1, &m1, &b1); M().hit("answers from the logs cache", h1 > hits0 ? h1 - hits0 : 0); c4_eth_tx_cache_set_max_size(10000); reset_caches();
}
int main(int argc, char** argv) { M().init(argc, argv); int rc = M().loop([&] { if (M().opt["--mode"] == "work") { runs(true); { std::lock_guard<std::mutex> l(workers.m); M().obs("workers at once: " + std::to_string(workers.most)); } return; } int c = (int) M().rng.below(4); if (M().opt["--part"].size()) c = atoi(M().opt["--part"].c_str()); if (c == 0) values(); else if (c == 1) txs(); else runs(); }); workers.stop(); return rc; }
