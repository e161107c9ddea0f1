// Calls: the repository's EVM host (wrapper, call_evmone.c, call_ctx.h, verify_call.c, verify_simulate.c) runs an interpreter on proven state;
// the same interpreter runs on a reference host over the true state.  Honest proofs must give that result; whatever else is handed over must be
// rejected or still give it.
#include "scene.hpp"
#ifdef CHAIN_OP
#include "opseq.hpp"
#endif
#include <evmc/evmc.hpp>
#include <evmone/evmone.h>
using synth::Acct; using synth::setlist; using synth::fill; using synth::Blk; using ref::keccak; using ref::sha256;
static B ab(const evmc_address& a) { return B(a.bytes, a.bytes + 20); }
static B wb(const evmc_bytes32& a) { return B(a.bytes, a.bytes + 32); }
static evmc_bytes32 tow(const B& b) { evmc_bytes32 w{}; B p = padl(b, 32); memcpy(w.bytes, p.data(), 32); return w; }
static evmc_address toa(const B& b) { evmc_address a{}; memcpy(a.bytes, b.data(), 20); return a; }
static B bnum(const B& a, const B& b, bool minus) { B x = padl(a, 32), y = padl(b, 32), o(32); int c = 0; for (int i = 31; i >= 0; i--) { int v = minus ? x[i] - y[i] - c : x[i] + y[i] + c; c = minus ? v < 0 : v > 255; o[i] = (uint8_t) v; } return o; }
struct RLog { B a, data; Bs topics; };
struct RAcc { bool there = false; uint64_t nonce = 0; B bal, code; std::map<B, B> st; bool full = false; bool empty() const { return !nonce && strip(bal).empty() && code.empty(); } };
struct RState { std::map<B, RAcc> acc; std::vector<RLog> logs; std::map<std::pair<B, B>, B> tr; std::set<B> created; };
struct Touched { std::set<B> acc, code; std::map<B, std::set<B>> slots; };
struct RefHost : evmc::Host {
  RState s; const Blk* k; uint64_t chain; B origin, gasprice; Touched t; std::map<B, std::set<B>> fixed; std::set<B> fixed_all; int calls = 0, depth = 0; std::set<S> used; // fixed: slots given by the question
  RAcc& at(const B& a) { t.acc.insert(a); return s.acc[a]; }
  bool account_exists(const evmc::address& a) const noexcept override { auto& x = const_cast<RefHost*>(this)->at(ab(a)); return !x.empty(); }
  evmc::bytes32 get_storage(const evmc::address& a, const evmc::bytes32& key) const noexcept override { auto* h = const_cast<RefHost*>(this); B A = ab(a), K = wb(key); auto& x = h->at(A); h->t.slots[A].insert(K); auto it = x.st.find(K); return it == x.st.end() ? evmc::bytes32() : evmc::bytes32(tow(it->second)); }
  evmc_storage_status set_storage(const evmc::address& a, const evmc::bytes32& key, const evmc::bytes32& v) noexcept override { get_storage(a, key); at(ab(a)).st[wb(key)] = wb(v); return EVMC_STORAGE_MODIFIED; }
  evmc::uint256be get_balance(const evmc::address& a) const noexcept override { return evmc::bytes32(tow(const_cast<RefHost*>(this)->at(ab(a)).bal)); }
  const B& code(const B& a) { auto& x = at(a); t.code.insert(a); return x.code; }
  size_t get_code_size(const evmc::address& a) const noexcept override { return const_cast<RefHost*>(this)->code(ab(a)).size(); }
  evmc::bytes32 get_code_hash(const evmc::address& a) const noexcept override { auto* h = const_cast<RefHost*>(this); auto& x = h->at(ab(a)); return x.empty() ? evmc::bytes32() : evmc::bytes32(tow(keccak(h->code(ab(a))))); }
  size_t copy_code(const evmc::address& a, size_t off, uint8_t* buf, size_t n) const noexcept override { auto& c = const_cast<RefHost*>(this)->code(ab(a)); if (off >= c.size()) return 0; n = std::min(n, c.size() - off); memcpy(buf, c.data() + off, n); return n; }
  void move(const B& from, const B& to, B v) { if (strip(v).empty()) return; at(from).bal = bnum(at(from).bal, v, true); at(to).bal = bnum(at(to).bal, v, false); }
  bool selfdestruct(const evmc::address& a, const evmc::address& b) noexcept override { move(ab(a), ab(b), at(ab(a)).bal); return true; }
  evmc_tx_context get_tx_context() const noexcept override {
    const_cast<RefHost*>(this)->used.insert("txcontext"); evmc_tx_context x{}; auto& p = k->pl; x.tx_gas_price = tow(gasprice); x.tx_origin = toa(origin); x.block_coinbase = toa(p["feeRecipient"].b); x.block_number = (int64_t) k->number; x.block_timestamp = (int64_t) p["timestamp"].u(); x.block_gas_limit = (int64_t) p["gasLimit"].u(); x.block_prev_randao = tow(p["prevRandao"].b); x.chain_id = tow(be(chain, 32)); x.block_base_fee = tow(be(k->basefee, 32)); return x; }
  evmc::bytes32 get_block_hash(int64_t n) const noexcept override { const_cast<RefHost*>(this)->used.insert("blockhash"); return n == (int64_t) k->number - 1 ? evmc::bytes32(tow(k->pl["parentHash"].b)) : evmc::bytes32(); }
  void emit_log(const evmc::address& a, const uint8_t* d, size_t n, const evmc::bytes32 tp[], size_t tn) noexcept override { RLog l; l.a = ab(a); l.data = B(d, d + n); for (size_t i = 0; i < tn; i++) l.topics.push_back(wb(tp[i])); s.logs.push_back(l); }
  evmc_access_status access_account(const evmc::address& a) noexcept override { at(ab(a)); return EVMC_ACCESS_COLD; }
  evmc_access_status access_storage(const evmc::address&, const evmc::bytes32&) noexcept override { return EVMC_ACCESS_COLD; }
  evmc::bytes32 get_transient_storage(const evmc::address& a, const evmc::bytes32& key) const noexcept override { const_cast<RefHost*>(this)->used.insert("transient"); auto it = s.tr.find({ab(a), wb(key)}); return it == s.tr.end() ? evmc::bytes32() : evmc::bytes32(tow(it->second)); }
  void set_transient_storage(const evmc::address& a, const evmc::bytes32& key, const evmc::bytes32& v) noexcept override { used.insert("transient"); s.tr[{ab(a), wb(key)}] = wb(v); }
  struct Out { int status = 0; int64_t gas = 0; B out; };
  static bool precompile(const B& a) { for (int i = 0; i < 19; i++) if (a[i]) return false; return a[19] != 0 && a[19] <= 0x11; }
  Out exec(const evmc_message& m) {
    Out o; RState snap = s; calls++; B to = ab(m.recipient), ca = ab(m.code_address), val = wb(m.value); evmc_message x = m;
    if (m.kind == EVMC_CREATE || m.kind == EVMC_CREATE2) {
      used.insert("create"); B sd = ab(m.sender), in(m.input_data, m.input_data + m.input_size); uint64_t nn = at(sd).nonce++; B na = m.kind == EVMC_CREATE ? sub(keccak(rlp_list({rlp_str(sd), rlp_uint(nn)})), 12) : sub(keccak(cat({B{0xff}, sd, wb(m.create2_salt), keccak(in)})), 12);
      snap = s; at(na).nonce = 1; move(sd, na, val); x.recipient = toa(na); x.input_data = nullptr; x.input_size = 0; evmc_vm* vm = evmc_create_evmone(); evmc_result r = vm->execute(vm, &evmc::Host::get_interface(), (evmc_host_context*) this, EVMC_OSAKA, &x, in.data(), in.size()); vm->destroy(vm);
      o.status = r.status_code; o.gas = r.gas_left; if (r.output_size) o.out = B(r.output_data, r.output_data + r.output_size); if (r.release) r.release(&r); if (o.status) s = snap; else { at(na).code = o.out; o.out = na; } return o;
    }
    if (precompile(ca)) {
      B in(m.input_data, m.input_data + m.input_size); int64_t w = (int64_t) (in.size() + 31) / 32, g = ca[19] == 2 ? 60 + 12 * w : 15 + 3 * w; if (g > m.gas) { o.status = EVMC_OUT_OF_GAS; return o; } if (m.kind == EVMC_CALL) { move(ab(m.sender), to, val); } o.gas = m.gas - g; o.out = ca[19] == 2 ? sha256(in) : in; return o; }
    if (m.kind == EVMC_CALL && strip(val).size()) { move(ab(m.sender), to, val); }
    at(to); B c = code(ca); evmc_vm* vm = evmc_create_evmone(); depth++; evmc_result r = vm->execute(vm, &evmc::Host::get_interface(), (evmc_host_context*) this, EVMC_OSAKA, &x, c.data(), c.size()); depth--; vm->destroy(vm);
    o.status = r.status_code; o.gas = r.gas_left; if (r.output_size) o.out = B(r.output_data, r.output_data + r.output_size); if (r.release) r.release(&r); if (o.status) s = snap; return o;
  }
  evmc::Result call(const evmc_message& m) noexcept override { Out o = exec(m); bool cr = (m.kind == EVMC_CREATE || m.kind == EVMC_CREATE2) && !o.status; uint8_t* d = nullptr; if (o.out.size() && !cr) { d = (uint8_t*) malloc(o.out.size()); memcpy(d, o.out.data(), o.out.size()); } evmc::Result r((evmc_status_code) o.status, o.gas, 0, d, cr ? 0 : o.out.size(), [](const evmc_result* q) { free((void*) q->output_data); }); if (cr) r.create_address = toa(o.out); return r; }
};
struct Over { bool bal = false, code = false, full = false, st = false; B b, c; std::map<B, B> s; };
struct Call { B to, from, data, value; uint64_t gas = 0; bool nofrom = false, sim = false; std::map<B, Over> ov; S feature;
  S tx() const { S o = "{\"to\":" + qs(hex(to)) + ",\"data\":" + qs(hex(data)); if (!nofrom) o += ",\"from\":" + qs(hex(from)); if (gas) o += ",\"gas\":" + qs(qhex(gas)); if (strip(value).size()) o += ",\"value\":" + qs(qhex(value)); return o + "}"; }
  S ovj() const { S o; for (auto& x : ov) { S f; auto add = [&](const S& z) { f += (f.size() ? "," : "") + z; }; if (x.second.bal) add("\"balance\":" + qs(qhex(x.second.b))); if (x.second.code) add("\"code\":" + qs(hex(x.second.c))); if (x.second.st) { S l; for (auto& y : x.second.s) l += (l.size() ? "," : "") + qs(hex(y.first)) + ":" + qs(hex(y.second)); add(S(x.second.full ? "\"state\":{" : "\"stateDiff\":{") + l + "}"); } o += (o.size() ? "," : "") + qs(hex(x.first)) + ":{" + f + "}"; } return "{" + o + "}"; }
  S params(const S& b) const { return "[" + tx() + "," + qs(b) + (ov.size() ? "," + ovj() : S("")) + "]"; } };
struct Truth { int status = 0; B out; std::vector<RLog> logs; Touched t; std::set<S> used; int calls = 0; };
static Truth run_ref(const World& w, int i, const Call& c) {
  RefHost h; h.k = &w.b[i]; h.chain = w.sp.id; h.origin = c.nofrom ? B(20, 0) : c.from; h.gasprice = B(32, 0);
  for (auto& x : w.b[i].st) { RAcc a; a.there = true; a.nonce = x.second.nonce; a.bal = x.second.balance; a.code = x.second.code; for (auto& y : x.second.st) a.st[y.first] = padl(y.second, 32); h.s.acc[x.first] = a; }
  for (auto& x : c.ov) { auto& a = h.s.acc[x.first]; if (x.second.bal) a.bal = x.second.b; if (x.second.code) a.code = x.second.c; if (x.second.st && x.second.full) a.st.clear(); if (x.second.st) for (auto& y : x.second.s) a.st[y.first] = y.second; }
  evmc_message m{}; m.kind = EVMC_CALL; m.gas = c.gas ? (int64_t) c.gas : 10000000; m.recipient = m.code_address = toa(c.to); m.sender = toa(h.origin); m.input_data = c.data.data(); m.input_size = c.data.size(); m.value = tow(c.value);
  if (strip(c.value).size() && padl(h.s.acc[h.origin].bal, 32) < padl(c.value, 32)) { h.t.acc.insert(h.origin); return {17, {}, {}, h.t, h.used, 0}; }
  auto o = h.exec(m); return {o.status, o.out, h.s.logs, h.t, h.used, h.calls};
}
// ---- programs ----------------------------------------------------------------
struct Gen {
  Rng& r; const Bs& addrs; B self; const std::map<B, B>* st; S feature; B o; Bs absent;
  void op(int x) { o.push_back((uint8_t) x); }
  void push(const B& v) { B s = strip(v); if (s.empty() && r.chance(1, 2)) { op(0x5f); return; } if (s.empty()) s = {0}; op(0x5f + (int) s.size()); put(o, s); }
  void push(uint64_t v) { push(be(v, 32)); }
  void mix() { push(0x20); op(0x52); push(0x40); push((uint64_t) 0); op(0x20); push((uint64_t) 0); op(0x52); } // value on the stack becomes part of the result
  B key() { if (st && st->size() && r.chance(2, 3)) { auto it = st->begin(); std::advance(it, r.below(st->size())); return it->first; } return be(r.below(4), 32); }
  B who() { return r.chance(1, 8) ? r.pick(absent) : r.chance(1, 6) ? self : r.pick(addrs); }
  void value() { switch (r.below(6)) { case 0: push((uint64_t) 0); break; case 1: push(r.raw(32)); break; case 2: push(r.below(8) * 32); op(0x35); break; case 3: push((uint64_t) 0); op(0x51); break; case 4: push(key()); op(0x54); break; default: push(r.below(300)); } }
  void callv(uint64_t val) {
    int k = (int) r.pick({0xf1ULL, 0xf1ULL, 0xfaULL, 0xf4ULL, 0xf2ULL}); if (val) k = 0xf1; uint64_t il = r.pick({0ULL, 4ULL, 32ULL, 68ULL}); push(r.pick({0ULL, 0ULL, 32ULL, 64ULL})); push(0x80ULL); push(il); push(r.below(2) * 0x20); if (k == 0xf1 || k == 0xf2) push(val); B to = r.chance(1, 12) ? padl(B{(uint8_t) r.pick({2ULL, 4ULL, 2ULL, 4ULL, 0x12ULL, 0x14ULL, 0xffULL})}, 20) : who(); push(to); if (r.chance(1, 8)) push(r.pick({0ULL, 3ULL, 50ULL, 400ULL, 150000ULL})); else push(0xffffffULL); op(k); mix();
    if (r.chance(2, 3)) { op(0x3d); mix(); op(0x3d); push((uint64_t) 0); push(0xa0ULL); op(0x3e); op(0x3d); push(0xa0ULL); op(0x20); mix(); } if (r.chance(1, 2)) { push(0x80ULL); op(0x51); mix(); }
  }
  void stmt(int d) {
    switch (r.below(d ? 16 : 15)) {
      case 0: case 1: push(key()); op(0x54); mix(); break; case 2: case 3: value(); push(key()); op(0x55); break;
      case 4: push(who()); op(0x31); mix(); break; case 5: push(who()); op(r.chance(1, 2) ? 0x3b : 0x3f); mix(); break;
      case 6: push(r.pick({0ULL, 5ULL, 40ULL, 200ULL})); if (r.chance(1, 4)) push(r.chance(1, 2) ? r.raw(32) : be(r.range(100, 30000), 32)); else push(r.below(40)); push(0x80ULL); push(who()); op(0x3c); push(0x100ULL); push(0x80ULL); op(0x20); mix(); break;
      case 7: op((int) r.pick({0x30ULL, 0x33ULL, 0x34ULL, 0x36ULL, 0x38ULL, 0x47ULL})); mix(); break; case 8: push(r.below(100)); op(0x35); mix(); break;
      case 9: case 10: { int n = (int) r.below(5); for (int i = 0; i < n; i++) value(); push(r.pick({0ULL, 32ULL, 64ULL, 7ULL})); push(r.pick({0ULL, 32ULL})); op(0xa0 + n); break; }
      case 11: case 12: case 13: callv(r.chance(1, 4) ? r.range(1, 3) : 0); break; case 14: value(); op(0x15); mix(); break;
      default: { value(); op(0x61); size_t p = o.size(); op(0); op(0); op(0x57); for (uint64_t n = r.range(1, 3); n > 0; n--) stmt(0); size_t t = o.size(); op(0x5b); o[p] = (uint8_t) (t >> 8); o[p + 1] = (uint8_t) t; }
    }
  }
  void feat() {
    if (feature == "create") { B init = r.chance(1, 2) ? B{0x60, 1, 0x60, 0, 0xf3} : B{0x60, 0x2a, 0x60, 0, 0x53, 0x60, 1, 0x60, 0, 0xf3}; for (size_t i = 0; i < init.size(); i++) { push(init[i]); push(0x200 + i); op(0x53); } bool c2 = r.chance(1, 2); if (c2) push(r.below(9)); push((uint64_t) init.size()); push(0x200ULL); push((uint64_t) 0); op(c2 ? 0xf5 : 0xf0); op(0x80); mix(); op(0x3b); mix(); }
    else if (feature == "transient") { push(r.range(1, 99)); push(1ULL); op(0x5d); push(1ULL); op(0x5c); mix(); } else if (feature == "blockhash") { push(1ULL); op(0x43); op(0x03); op(0x40); mix(); }
    else if (feature == "txcontext") { op((int) r.pick({0x32ULL, 0x3aULL, 0x41ULL, 0x42ULL, 0x43ULL, 0x44ULL, 0x45ULL, 0x46ULL, 0x48ULL})); mix(); }
  }
  B make() {
    o.clear(); for (uint64_t n = r.range(1, 7); n > 0; n--) { stmt(1); if (feature.size() && r.chance(1, 2)) feat(); }
    if (r.chance(1, 12)) { push(who()); op(0xff); return o; }
    switch (r.below(12)) { case 0: break; case 1: op(0x00); break; case 2: push(r.pick({0ULL, 32ULL})); push((uint64_t) 0); op(0xfd); break; case 3: op(r.chance(1, 2) ? 0xfe : 0x0c); break; case 4: push(r.pick({0ULL, 1ULL, 100ULL})); push((uint64_t) 0); op(0xf3); break; default: push(r.chance(1, 4) ? 64ULL : 32ULL); push((uint64_t) 0); op(0xf3); } return o;
  }
};
static const std::vector<S> FEAT = {"create", "transient", "blockhash", "txcontext"}; // what the host interface of the repository has no way to answer
struct Evm {
  Rng& r; Scene s; S feature; Bs absent; bool proverside;
  explicit Evm(Rng& rr) : r(rr), s(rr) {}
  World& w() { return *s.w; }
  void make() {
    for (int i = 0; i < 3; i++) absent.push_back(r.raw(20));
    s.prep = [&](World& wd, std::map<B, Acct>& st) { if (absent.size() == 3) { B a = r.pick(wd.addrs); a[r.range(17, 19)] ^= (uint8_t) r.range(1, 255); absent.push_back(a); B p(20, 0); p[18 - r.below(2)] = (uint8_t) r.range(1, 3); p[19] = (uint8_t) r.pick({2ULL, 4ULL}); absent.push_back(p); } for (auto& x : st) { x.second.code.clear(); if (r.chance(3, 4)) { Gen g{r, wd.addrs, x.first, &x.second.st, feature, {}, absent}; x.second.code = g.make(); } } if (r.chance(1, 3)) { Acct a; a.balance = r.raw(9); a.code = st.begin()->second.code; st[r.pick(wd.addrs)].code = a.code; } };
    s.make();
  }
  Call call() {
    Call c; auto& ad = w().addrs; std::vector<B> con; for (auto& a : ad) { auto it = w().b[0].st.find(a); if (it != w().b[0].st.end() && it->second.code.size()) con.push_back(a); } c.to = con.size() && r.chance(9, 10) ? r.pick(con) : r.chance(4, 5) ? r.pick(ad) : r.pick(absent);
    c.data = r.raw(r.pick({0ULL, 4ULL, 36ULL, 68ULL})); c.nofrom = r.chance(1, 3); c.from = r.pick(ad); if (r.chance(1, 3)) c.gas = r.pick({1000ULL, 100000ULL, 500000ULL, 30000000ULL, 12345678ULL}); c.sim = r.chance(1, 3); c.feature = feature;
    if (r.chance(1, 5)) { c.nofrom = r.chance(1, 8); c.value = be(r.range(1, 5), 32); }
    if (feature.empty() && r.chance(2, 5)) for (uint64_t n = r.range(1, 3); n > 0; n--) {
        B a = r.chance(1, 3) ? c.to : r.chance(4, 5) ? r.pick(ad) : r.pick(absent); if (r.chance(1, 8)) { a = c.to; a[r.range(16, 19)] ^= (uint8_t) r.range(1, 255); } // an address similar to the one called
        auto own = w().b[0].st.find(a); Over o; if (r.chance(1, 2)) { o.bal = true; o.b = r.raw(r.below(12)); if (r.chance(1, 3)) { o.b = B(r.range(9, 32), 0); o.b[0] = (uint8_t) (1 << r.below(7)); } } if (r.chance(1, 3)) { Gen g{r, ad, a, own == w().b[0].st.end() ? nullptr : &own->second.st, "", {}, absent}; o.code = true; o.c = r.chance(1, own == w().b[0].st.end() ? 2 : 6) ? B() : g.make(); }
        if (r.chance(1, 2)) { o.st = true; o.full = r.chance(1, 2); for (uint64_t k = r.below(4); k > 0; k--) o.s[s.key(a, 0)] = r.chance(1, 3) ? B(32, 0) : padl(r.raw(r.range(1, 32)), 32); if (!o.full && o.s.empty()) o.st = false; } if (o.bal || o.code || o.st) c.ov[a] = o; }
    return c;
  }
  // proof of the accounts in t at block i; how codes are handed over: 0 all included, 1 by reference, 2 mixed
  Val proof(int i, const Touched& t, int bk, const Val& hp, int cm, bool extra) {
    Val v = World::req(); Val& p = v["proof"].choose(5); auto& b = w().b[i]; Touched u = t; if (extra) for (auto& a : w().addrs) if (r.chance(1, 4)) { u.acc.insert(a); if (r.chance(1, 2)) u.slots[a].insert(s.key(a, i)); }
    std::vector<B> as(u.acc.begin(), u.acc.end()); if (extra) for (size_t q = 1; q < as.size(); q++) std::swap(as[q], as[r.below(q + 1)]);
    for (auto& a : as) { Val& e = p["accounts"].add(); setlist(e["accountProof"], b.acc.prove(keccak(a))); e["address"].set(a); auto it = b.st.find(a); Mpt m; if (it != b.st.end()) m = it->second.strie(); B code = it == b.st.end() ? B() : it->second.code;
      if (code.empty()) e["code"].choose(0).b = B{(uint8_t) 0}; else if (cm == 0 || (cm == 2 && r.chance(1, 2))) e["code"].choose(1).b = code; else e["code"].choose(0).b = B{1};
      for (auto& k : u.slots[a]) { Val& z = e["storageProof"].add(); z["key"].set(k); setlist(z["proof"], m.prove(keccak(k))); } }
    if (!s.op) w().st_proof(p["state_proof"], i, bk, hp); return v;
  }
  static bool same(const Call& c, const Truth& t, const J& got, S& why) {
    if (t.status) { why = "the call fails with status " + std::to_string(t.status); return false; }
    if (!c.sim) { if (got.k == J::STR && truth::lower(got.s) == hex(t.out)) return true; why = "result is " + hex(t.out).substr(0, 200) + " but got " + jdump(got).substr(0, 200); return false; }
    J e = World::jobj(), ls = World::jarr(); for (auto& l : t.logs) { J x = World::jobj(), raw = World::jobj(), tp = World::jarr(); for (auto& q : l.topics) tp.a.push_back(World::js(hex(q))); raw.o = {{"address", World::js(hex(l.a))}, {"data", World::js(hex(l.data))}, {"topics", tp}}; x.o = {{"raw", raw}}; ls.a.push_back(x); }
    e.o = {{"logs", ls}, {"status", World::js("0x1")}, {"returnValue", World::js(hex(t.out))}}; return truth::match(e, got, "simulation", why, {"gasUsed"});
  }
  Ans upstream(const Req& q) { return s.answer(q); }
};
#ifdef CHAIN_OP
static const Spec* opspec(Rng& r) { static std::map<uint64_t, Spec> sps; if (sps.empty()) for (auto i : patch()) if (c4_chain_type(i) == C4_CHAIN_TYPE_OP) sps.emplace(i, synth::op_spec(i)); auto it = sps.begin(); std::advance(it, r.below(sps.size())); return &it->second; }
static B pack(World& w, const Val& v, int i, Rng& r) { return v["proof"].sel == 5 ? OpChain(w, key0()).convert(v, {i}, r).ser() : B(); }
static Val sigs(World&, int) { return Val(); }
#else
static const Spec* opspec(Rng&) { return nullptr; }
static B pack(World&, const Val& v, int, Rng&) { return v.ser(); }
static Val sigs(World& w, int i) { return w.hp(i); }
#endif
static S M0(const Call& c) { return c.sim ? "colibri_simulateTransaction" : "eth_call"; }
static S fname(const Call& c, const Truth& t) { return c.feature.empty() ? S("") : t.used.count(c.feature) ? "feature:" + c.feature : S(""); }
static void report(const S& kind, const Call& c, const Truth& t, const S& detail) { S f = fname(c, t); M().viol(f.size() && (kind.substr(0, 5) == "false" || kind.substr(0, 5) == "hones" || kind.substr(0, 5) == "prove") ? f : kind, "[" + kind + "] " + detail); }
static void a05() {
  Rng& r = M().rng; Evm e(r); if (r.chance(1, 6)) e.feature = r.pick(FEAT); if (M().opt.count("--feature")) e.feature = M().opt["--feature"]; e.s.op = opspec(r); e.make(); World& w = e.w();
  auto noup = [&](const Req& q) { return e.s.answer(q); };
  for (int n = 0; n < 4; n++) {
    Call c = e.call(); auto ps = e.s.provables(); if (ps.empty()) return; int i = r.pick(ps); Truth t = run_ref(w, i, c); int bk = (int) r.below(3); S blk = bk == 1 ? hex(w.b[i].hash) : bk == 2 ? qhex(w.b[i].number) : S("latest"); S par = c.params(blk);
    if (!e.s.op) e.s.periods(e.s.per(i) - 1, e.s.per((int) w.b.size() - 1) + 2); int cm = (int) r.below(3); Val hp = sigs(w, i); Val pf = e.proof(i, t.t, bk, hp, cm, r.chance(1, 3)); S desc = M0(c) + " " + par.substr(0, 1500) + " block " + std::to_string(i) + " codes " + std::to_string(cm) + " truth " + std::to_string(t.status) + " " + hex(t.out).substr(0, 80) + " calls " + std::to_string(t.calls) + " logs " + std::to_string(t.logs.size()) + " feature " + e.feature; M().label("honest " + desc);
    Bs codes; for (auto& x : w.b[i].st) if (x.second.code.size()) codes.push_back(x.second.code);
    if (n == 0 || r.chance(1, 2)) {
      Result v = verify(pack(w, pf, i, r), M0(c), par, w.sp.id, "", noup); M().evals++; S why; M().obs(S("honest ") + (c.sim ? "sim" : "call") + " status " + std::to_string(t.status) + " codes " + std::to_string(cm) + (c.ov.size() ? " ov" : "") + " calls " + std::to_string(std::min(t.calls, 6)) + " logs " + std::to_string(std::min<size_t>(t.logs.size(), 4)) + " " + e.feature);
      if (v.hang) M().viol("hang-" + v.status, desc); else if (t.status) { if (v.ok) report("false-result", c, t, desc + " accepted " + jdump(v.result).substr(0, 300)); else M().hit("failing call rejected"); }
      else if (!v.ok) report("honest-rejected:" + v.error.substr(0, 24), c, t, desc + " error " + v.error); else if (!Evm::same(c, t, v.result, why)) report("honest-wrong", c, t, desc + " " + why); else { M().hit("honest result right"); M().hit("nested calls executed", t.calls); M().sample(desc + " -> " + jdump(v.result)); }
    }
    if (e.feature.size()) continue;
    // hostile proofs
    for (int k = 0; k < 14; k++) {
      Val x = pf; S how; Call c2 = c; S par2 = par; Val& accs = x["proof"].e[0]["accounts"]; bool poison = false; int wrongcode = 0, xi = i; store().kv.erase("x"); if (r.chance(2, 3)) { for (auto it = store().kv.begin(); it != store().kv.end();) it = it->first.compare(0, 5, "code_") ? std::next(it) : store().kv.erase(it); }
      switch (r.below(14)) {
        case 12: { int j = r.pick(ps); if (j != i) { Truth tj = run_ref(w, j, c); x = e.proof(j, tj.t, bk, sigs(w, j), cm, false); xi = j; how = "proof of another block"; } break; }
        case 0: if (accs.e.size()) { accs.e.erase(accs.e.begin() + r.below(accs.e.size())); how = "account missing"; } break;
        case 1: if (accs.e.size()) { auto& a = accs.e[r.below(accs.e.size())]; if (a["storageProof"].e.size()) { a["storageProof"].e.erase(a["storageProof"].e.begin() + r.below(a["storageProof"].e.size())); how = "slot missing"; } } break;
        case 2: if (accs.e.size()) { auto& a = accs.e[r.below(accs.e.size())]; a["code"].choose(1).b = codes.size() && r.chance(2, 3) ? r.pick(codes) : B{0x60, 0x2a, 0x5f, 0x52, 0x60, 0x20, 0x5f, 0xf3}; how = "other code"; } break;
        case 3: if (accs.e.size()) { auto& a = accs.e[r.below(accs.e.size())]; a["code"].choose(0).b = B{(uint8_t) r.below(2)}; how = "code flag"; } break;
        case 4: if (accs.e.size()) { auto& a = accs.e[r.below(accs.e.size())]; if (a["code"].sel == 1 && a["code"].e[0].b.size()) { B& b = a["code"].e[0].b; b[r.below(b.size())] ^= (uint8_t) (1 << r.below(8)); how = "code bit"; } } break;
        case 5: { int j = r.pick(ps); if (j != i) { Val y = e.proof(j, t.t, bk, hp, cm, false); if (r.chance(1, 2)) { x["proof"].e[0]["accounts"] = y["proof"].e[0]["accounts"]; how = "accounts of another block"; } else { auto& ya = y["proof"].e[0]["accounts"]; for (auto& a : accs.e) for (auto& z : ya.e) if (z["address"].b == a["address"].b && r.chance(1, 2)) a = z; how = "some accounts of another block"; } } break; }
        case 6: if (accs.e.size() > 1) { auto& a = accs.e[r.below(accs.e.size())]; auto& b = accs.e[r.below(accs.e.size())]; const char* f = r.pick({"accountProof", "storageProof", "code", "address"}); if (r.chance(1, 2)) std::swap(a[f], b[f]); else a[f] = b[f]; how = S("swapped ") + f; } break;
        case 7: if (accs.e.size()) { auto& a = accs.e[r.below(accs.e.size())]; auto& sp = a["storageProof"]; if (sp.e.size() > 1) { auto& p = sp.e[r.below(sp.e.size())]; auto& q = sp.e[r.below(sp.e.size())]; if (r.chance(1, 2)) std::swap(p["key"], q["key"]); else p["proof"] = q["proof"]; how = "swapped slots"; } else if (sp.e.size()) { sp.e[0]["key"].set(r.chance(1, 2) ? be(r.below(4), 32) : r.raw(32)); how = "slot key"; } } break;
        case 8: { std::vector<Val*> d; Val o = pf; d.push_back(&o); how = mut::one(x, d, r, "proof"); break; }
        case 9: { poison = true; how = "poisoned code"; break; }
        case 10: { wrongcode = 1 + (int) r.below(3); for (auto& a : accs.e) a["code"].choose(0).b = B{1}; how = "wrong code from the node"; break; }
        case 11: { c2 = e.call(); c2.sim = c.sim; par2 = c2.params(blk); how = "other question"; break; }
        default: { if (x["data"].sel == 0) { int sel = r.chance(1, 2) ? (c.sim ? 9 : 2) : (int) r.pick({1ULL, 2ULL, 3ULL, 9ULL}); x["data"].choose(sel); if (sel == 9) fill(x["data"].e[0], r); else if (r.chance(3, 4) && (sel == 2 || t.out.size() == 32)) x["data"].e[0].set(t.out); else x["data"].e[0].set(r.raw(32)); how = "data attached " + std::to_string(sel); } break; }
      }
      if (how.empty()) continue;
      if (poison) { Val y = pf; bool any = false; for (auto& a : y["proof"].e[0]["accounts"].e) { auto it = w.b[i].st.find(a["address"].b); if (it != w.b[i].st.end() && it->second.code.size()) { a["code"].choose(1).b = codes.size() && r.chance(1, 2) ? r.pick(codes) : B{0x60, 0x2a, 0x5f, 0x52, 0x60, 0x20, 0x5f, 0xf3}; any = true; } } if (!any) continue; verify(pack(w, y, i, r), M0(c), par, w.sp.id, "", noup); M().evals++; for (auto& a : x["proof"].e[0]["accounts"].e) if (a["code"].sel == 1) { if (r.chance(2, 3)) a["code"].choose(0).b = B{1}; } }
      Truth t2 = par2 == par ? t : run_ref(w, i, c2); M().label("hostile " + how + " " + desc + " | " + par2.substr(0, 600));
      B xb = pack(w, x, xi, r); if (xb.empty()) continue; Result z = verify(xb, M0(c2), par2, w.sp.id, "", [&](const Req& q) { Ans a = e.s.answer(q); if (wrongcode && q.rpc_method == "eth_getCode") { if (wrongcode == 1) return Ans::ok("{\"jsonrpc\":\"2.0\",\"id\":1,\"result\":\"" + hex(codes.size() ? r.pick(codes) : B{0}) + "\"}"); if (wrongcode == 2) return Ans::ok(S("{\"jsonrpc\":\"2.0\",\"id\":1,\"result\":\"0x\"}")); return Ans::ok(S("{\"jsonrpc\":\"2.0\",\"id\":1,\"result\":\"0x602a5f5260205ff3\"}")); } return a; });
      M().evals++; if (z.hang) { M().viol("hang-" + z.status + "@" + how.substr(0, 20), desc + " " + how); continue; } M().obs("hostile " + how.substr(0, 40) + (z.ok ? " accepted" : " rejected"));
      if (!z.ok) { M().hit("hostile rejected"); continue; } S why; bool ok = false; std::vector<int> may; if (bk == 0) for (int q = 0; q < (int) w.b.size(); q++) may.push_back(q); else may.push_back(i); for (int q : may) { Truth t3 = q == i ? t2 : run_ref(w, q, c2); if (Evm::same(c2, t3, z.result, why)) { ok = true; break; } }
      if (ok) M().hit("hostile still true"); else M().viol("false-result@" + how.substr(0, 30), desc + " | " + how + " | question " + par2.substr(0, 500) + " | " + why);
    }
  }
}
// prover and verifier together
static void e2e() {
  Rng& r = M().rng; Evm e(r); e.make(); World& w = e.w(); Call cur;
  e.s.n->more = [&](const S& m, const J& p, J& res) {
    if (m != "debug_traceCall" && m != "eth_createAccessList") return false; int i = p.a.size() > 1 ? e.s.n->by_tag(p.a[1]) : -1; if (i < 0) return false; Truth t = run_ref(w, i, cur); std::set<B> from = {cur.nofrom ? B(20, 0) : cur.from};
    if (m == "debug_traceCall") { res = World::jobj(); std::set<B> acc = t.t.acc; acc.insert(*from.begin()); for (auto& a : acc) { J x = World::jobj(); Acct ac; auto it = w.b[i].st.find(a); if (it != w.b[i].st.end()) ac = it->second; x.o.push_back({"balance", World::js(qhex(ac.balance))}); if (ac.nonce) { J nn; nn.k = J::NUM; nn.s = std::to_string(ac.nonce); x.o.push_back({"nonce", nn}); } if (ac.code.size()) x.o.push_back({"code", World::js(hex(ac.code))}); if (t.t.slots.count(a)) { J st = World::jobj(); for (auto& k : t.t.slots[a]) { auto q = ac.st.find(k); st.o.push_back({hex(k), World::js(hex(q == ac.st.end() ? B(32, 0) : padl(q->second, 32)))}); } x.o.push_back({"storage", st}); } res.o.push_back({hex(a), x}); } return true; }
    // like geth: sender and recipient are only listed with slots
    J al = World::jarr(); for (auto& a : t.t.acc) { if (RefHost::precompile(a)) continue; bool sl = t.t.slots.count(a); if (!sl && (a == cur.to || from.count(a))) continue; J x = World::jobj(), ks = World::jarr(); for (auto& k : t.t.slots[a]) ks.a.push_back(World::js(hex(k))); x.o = {{"address", World::js(hex(a))}, {"storageKeys", ks}}; al.a.push_back(x); } res = World::jobj(); res.o = {{"accessList", al}, {"gasUsed", World::js("0x5208")}}; return true; };
  for (int n = 0; n < 5; n++) {
    if (n) e.s.advance(); cur = e.call(); Call c = cur; auto ps = e.s.provables(); if (ps.empty()) return; int i = r.pick(ps); std::set<int> may; S b = e.s.blk(i, may); e.s.client(i); uint32_t fl = e.s.flags(); S par = "[" + c.tx() + "," + b + (c.ov.size() ? "," + c.ovj() : S("")) + "]"; Truth t = run_ref(w, i, c);
    S desc = M0(c) + " " + par.substr(0, 1200) + " block " + std::to_string(i) + " client " + e.s.ckind + " flags " + std::to_string(fl) + " truth " + std::to_string(t.status) + " " + hex(t.out).substr(0, 70); M().label("prove " + desc); e.s.n->unknown = false;
    bool lh = e.s.n->lighthouse; if (fl & C4_PROVER_FLAG_INCLUDE_SYNC) e.s.n->lighthouse = false;
    Result p = prove(M0(c), par, w.sp.id, fl, [&](const Req& q) { return e.s.answer(q); }, e.s.cs); M().evals++; if (e.s.n->unknown) M().hit("request not known " + e.s.n->last_unknown.substr(0, 60));
    if (!p.ok) { e.s.n->lighthouse = lh; M().viol("prove:" + p.error.substr(0, 40), desc + " error " + p.error + " " + p.status); continue; } M().label("verify " + desc); e.s.n->lighthouse = lh;
    Result v = verify(p.proof, M0(c), par, w.sp.id, e.s.trusted, [&](const Req& q) { return e.s.answer(q); }); M().evals++; S why; bool tag = b[1] != '0'; std::vector<int> ms(may.begin(), may.end()); if (!tag) ms = {i}; bool ok = false, fails = true; for (int q : ms) { Truth z = run_ref(w, q, c); if (!z.status) fails = false; if (v.ok && Evm::same(c, z, v.result, why)) ok = true; }
    M().obs(S(c.sim ? "sim" : "call") + " flags " + std::to_string(fl) + (c.ov.size() ? " ov" : "") + " status " + std::to_string(t.status) + " " + v.status); if (v.hang) { M().viol("hang-" + v.status, desc); continue; }
    if (v.ok && !ok) M().viol("false-result", desc + " " + why); else if (!v.ok && !fails) { bool one = false; for (int q : ms) if (!run_ref(w, q, c).status) one = true; bool all = true; for (int q : ms) if (run_ref(w, q, c).status) all = false; bool limit = false; for (auto& a : t.t.acc) if (strip(a).size() <= 1 || a == w.b[i].pl["feeRecipient"].b) limit = true; if (limit && v.error.substr(0, 21) == "Missing account proof") M().hit("limit: zero address, miner or precompile not in the proof"); else if (one && all) M().viol("honest-rejected:" + v.error.substr(0, 40), desc + " error " + v.error); } else M().hit(v.ok ? "right" : "failing call rejected");
  }
}
int main(int argc, char** argv) { M().init(argc, argv); S m = M().opt["--mode"]; return M().loop([&] { if (m == "e2e") e2e(); else a05(); }); }
