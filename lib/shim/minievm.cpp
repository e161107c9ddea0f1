// Small EVM interpreter behind the EVMC interface (evmone itself cannot be fetched offline).  Opcode semantics follow the
// Ethereum specification; the gas schedule is simplified (every call is expensive, so that executions stay short).  The checks run it twice: once under the
// repository's host (libs/evmone wrapper + call_evmone.c), once under the reference host of the harness.
#include "evmc/evmc.hpp"
#include "evmone/evmone.h"
#include "../ref.hpp"
#include <string.h>
#include <stdlib.h>
#include <vector>
namespace {
struct U { uint64_t w[4] = {0, 0, 0, 0}; U() {} U(uint64_t x) { w[0] = x; }
  static U be(const uint8_t* p, size_t n = 32) { U u; for (size_t i = 0; i < n; i++) { size_t pos = n - 1 - i; u.w[pos / 8] |= (uint64_t) p[i] << (8 * (pos % 8)); } return u; }
  void put(uint8_t* p) const { for (int i = 0; i < 32; i++) p[31 - i] = (uint8_t) (w[i / 8] >> (8 * (i % 8))); }
  bool zero() const { return !(w[0] | w[1] | w[2] | w[3]); } bool small() const { return !(w[1] | w[2] | w[3]); }
  bool bit(int i) const { return w[i / 64] >> (i % 64) & 1; } };
bool operator==(const U& a, const U& b) { return !memcmp(a.w, b.w, 32); }
bool operator<(const U& a, const U& b) { for (int i = 3; i >= 0; i--) if (a.w[i] != b.w[i]) return a.w[i] < b.w[i]; return false; }
U operator+(const U& a, const U& b) { U r; unsigned __int128 c = 0; for (int i = 0; i < 4; i++) { c += (unsigned __int128) a.w[i] + b.w[i]; r.w[i] = (uint64_t) c; c >>= 64; } return r; }
U operator~(const U& a) { U r; for (int i = 0; i < 4; i++) r.w[i] = ~a.w[i]; return r; }
U operator-(const U& a, const U& b) { return a + ~b + U(1); }
U operator*(const U& a, const U& b) { U r; for (int i = 0; i < 4; i++) { unsigned __int128 c = 0; for (int j = 0; i + j < 4; j++) { c += (unsigned __int128) a.w[i] * b.w[j] + r.w[i + j]; r.w[i + j] = (uint64_t) c; c >>= 64; } } return r; }
U shl(const U& a, unsigned n) { U r; for (unsigned i = n; i < 256; i++) if (a.bit(i - n)) r.w[i / 64] |= 1ULL << (i % 64); return r; }
U shr(const U& a, unsigned n) { U r; for (unsigned i = 0; i + n < 256; i++) if (a.bit(i + n)) r.w[i / 64] |= 1ULL << (i % 64); return r; }
void divmod(const U& a, const U& b, U& q, U& m) { q = U(); m = U(); if (b.zero()) return; for (int i = 255; i >= 0; i--) { bool top = m.bit(255); m = shl(m, 1); if (a.bit(i)) m.w[0] |= 1; if (top || !(m < b)) { m = m - b; q.w[i / 64] |= 1ULL << (i % 64); } } }
evmc_address addr(const U& u) { uint8_t b[32]; u.put(b); evmc_address a; memcpy(a.bytes, b + 12, 20); return a; }
evmc_bytes32 word(const U& u) { evmc_bytes32 w; u.put(w.bytes); return w; }
U fromaddr(const evmc_address& a) { return U::be(a.bytes, 20); }
U fromword(const evmc_bytes32& w) { return U::be(w.bytes); }
struct Stop { evmc_status_code s; size_t off = 0, len = 0; };
struct Vm {
  const evmc_host_interface* h; evmc_host_context* c; const evmc_message* m; const uint8_t* code; size_t n; std::vector<U> st; std::vector<uint8_t> mem, ret; int64_t gas; size_t pc = 0;
  U pop() { if (st.empty()) throw Stop{EVMC_STACK_UNDERFLOW}; U u = st.back(); st.pop_back(); return u; }
  void push(const U& u) { if (st.size() >= 1024) throw Stop{EVMC_STACK_OVERFLOW}; st.push_back(u); }
  void use(int64_t g) { gas -= g; if (gas < 0) throw Stop{EVMC_OUT_OF_GAS}; }
  size_t need(const U& o, const U& l) { if (l.zero()) return 0; if (!o.small() || !l.small() || o.w[0] > 65536 || l.w[0] > 65536) throw Stop{EVMC_OUT_OF_GAS}; size_t e = (o.w[0] + l.w[0] + 31) / 32 * 32; if (e > mem.size()) { use((int64_t) (e - mem.size()) / 32 * 3); mem.resize(e); } return o.w[0]; }
  void copy(const U& d, const U& s, const U& l, const uint8_t* src, size_t sn) { size_t o = need(d, l); for (size_t i = 0; i < l.w[0]; i++) { U p = s + U(i); mem[o + i] = p.small() && !(p < s) && p.w[0] < sn ? src[p.w[0]] : 0; } }
  bool isdest(size_t t) { for (size_t i = 0; i < n; i++) { if (i == t) return code[i] == 0x5b; if (code[i] >= 0x60 && code[i] <= 0x7f) i += code[i] - 0x5f; } return false; }
  void nostatic() { if (m->flags & EVMC_STATIC) throw Stop{EVMC_STATIC_MODE_VIOLATION}; }
  void call(int op) {
    bool create = op == 0xf0 || op == 0xf5; evmc_message x{}; U value, g;
    if (create) { nostatic(); value = pop(); U o = pop(), l = pop(); if (op == 0xf5) x.create2_salt = word(pop()); size_t off = need(o, l); use(100000); ret.clear(); if (m->depth >= 1024 || fromword(h->get_balance(c, &m->recipient)) < value) { push(U()); return; }
      std::vector<uint8_t> in(mem.begin() + off, mem.begin() + off + l.w[0]); x.kind = op == 0xf0 ? EVMC_CREATE : EVMC_CREATE2; x.depth = m->depth + 1; x.gas = gas - gas / 64; x.sender = m->recipient; x.input_data = in.data(); x.input_size = in.size(); x.value = word(value); gas -= x.gas; evmc_result r = h->call(c, &x); gas += r.gas_left; if (r.output_size) ret.assign(r.output_data, r.output_data + r.output_size); push(r.status_code == EVMC_SUCCESS ? fromaddr(r.create_address) : U()); if (r.status_code == EVMC_SUCCESS) ret.clear(); if (r.release) r.release(&r); return; }
    g = pop(); evmc_address to = addr(pop()); if (op == 0xf1 || op == 0xf2) value = pop(); U io = pop(), il = pop(), oo = pop(), ol = pop(); size_t ip = need(io, il), opos = need(oo, ol); use(100000); h->access_account(c, &to);
    if (op == 0xf1 && !value.zero()) nostatic();
    x.kind = op == 0xf4 ? EVMC_DELEGATECALL : op == 0xf2 ? EVMC_CALLCODE : EVMC_CALL; x.flags = op == 0xfa ? (uint32_t) EVMC_STATIC : m->flags; x.depth = m->depth + 1; x.recipient = op == 0xf1 || op == 0xfa ? to : m->recipient; x.code_address = to; x.sender = op == 0xf4 ? m->sender : m->recipient; x.value = op == 0xf4 ? m->value : word(value);
    if (op == 0xf1 && !value.zero()) h->account_exists(c, &to);
    int64_t avail = gas - gas / 64; x.gas = g.small() && g.w[0] < (uint64_t) avail ? (int64_t) g.w[0] : avail; std::vector<uint8_t> in(mem.begin() + ip, mem.begin() + ip + il.w[0]); x.input_data = in.data(); x.input_size = in.size(); ret.clear();
    if (m->depth >= 1024 || (!value.zero() && fromword(h->get_balance(c, &m->recipient)) < value)) { push(U()); return; }
    gas -= x.gas; evmc_result r = h->call(c, &x); gas += r.gas_left; if (r.output_size) ret.assign(r.output_data, r.output_data + r.output_size); for (size_t i = 0; i < ol.w[0] && i < ret.size(); i++) mem[opos + i] = ret[i]; push(U(r.status_code == EVMC_SUCCESS)); if (r.release) r.release(&r);
  }
  Stop run() {
    try {
      for (;; pc++) {
        if (pc >= n) return {EVMC_SUCCESS}; int op = code[pc]; use(3);
        if (op >= 0x5f && op <= 0x7f) { size_t k = op - 0x5f; uint8_t b[32] = {0}; for (size_t i = 0; i < k; i++) b[32 - k + i] = pc + 1 + i < n ? code[pc + 1 + i] : 0; push(U::be(b)); pc += k; continue; }
        if (op >= 0x80 && op <= 0x8f) { size_t k = op - 0x7f; if (st.size() < k) return {EVMC_STACK_UNDERFLOW}; push(st[st.size() - k]); continue; }
        if (op >= 0x90 && op <= 0x9f) { size_t k = op - 0x8f; if (st.size() < k + 1) return {EVMC_STACK_UNDERFLOW}; std::swap(st.back(), st[st.size() - 1 - k]); continue; }
        if (op >= 0xa0 && op <= 0xa4) { nostatic(); U o = pop(), l = pop(); std::vector<evmc_bytes32> t; for (int i = 0; i < op - 0xa0; i++) t.push_back(word(pop())); size_t off = need(o, l); h->emit_log(c, &m->recipient, mem.data() + off, l.w[0], t.data(), t.size()); continue; }
        U a, b, q, r; evmc_address ad; evmc_bytes32 k, v; evmc_tx_context tx;
        switch (op) {
          case 0x00: return {EVMC_SUCCESS};
          case 0x01: a = pop(); b = pop(); push(a + b); break; case 0x02: a = pop(); b = pop(); push(a * b); break; case 0x03: a = pop(); b = pop(); push(a - b); break;
          case 0x04: a = pop(); b = pop(); divmod(a, b, q, r); push(q); break; case 0x06: a = pop(); b = pop(); divmod(a, b, q, r); push(r); break;
          case 0x10: a = pop(); b = pop(); push(U(a < b)); break; case 0x11: a = pop(); b = pop(); push(U(b < a)); break; case 0x14: a = pop(); b = pop(); push(U(a == b)); break; case 0x15: push(U(pop().zero())); break;
          case 0x16: a = pop(); b = pop(); for (int i = 0; i < 4; i++) a.w[i] &= b.w[i]; push(a); break; case 0x17: a = pop(); b = pop(); for (int i = 0; i < 4; i++) a.w[i] |= b.w[i]; push(a); break; case 0x18: a = pop(); b = pop(); for (int i = 0; i < 4; i++) a.w[i] ^= b.w[i]; push(a); break; case 0x19: push(~pop()); break;
          case 0x1b: a = pop(); b = pop(); push(a.small() && a.w[0] < 256 ? shl(b, (unsigned) a.w[0]) : U()); break; case 0x1c: a = pop(); b = pop(); push(a.small() && a.w[0] < 256 ? shr(b, (unsigned) a.w[0]) : U()); break;
          case 0x20: { a = pop(); b = pop(); size_t o = need(a, b); ref::B x = ref::keccak(mem.data() + o, b.w[0]); push(U::be(x.data())); break; }
          case 0x30: push(fromaddr(m->recipient)); break; case 0x31: ad = addr(pop()); h->access_account(c, &ad); push(fromword(h->get_balance(c, &ad))); break; case 0x32: push(fromaddr(h->get_tx_context(c).tx_origin)); break; case 0x33: push(fromaddr(m->sender)); break; case 0x34: push(fromword(m->value)); break;
          case 0x35: { a = pop(); uint8_t w[32] = {0}; for (size_t i = 0; i < 32; i++) { U p = a + U(i); if (p.small() && !(p < a) && p.w[0] < m->input_size) w[i] = m->input_data[p.w[0]]; } push(U::be(w)); break; }
          case 0x36: push(U(m->input_size)); break; case 0x37: a = pop(); b = pop(); q = pop(); copy(a, b, q, m->input_data, m->input_size); break; case 0x38: push(U(n)); break; case 0x39: a = pop(); b = pop(); q = pop(); copy(a, b, q, code, n); break; case 0x3a: push(fromword(h->get_tx_context(c).tx_gas_price)); break;
          case 0x3b: ad = addr(pop()); h->access_account(c, &ad); push(U(h->get_code_size(c, &ad))); break;
          case 0x3c: { ad = addr(pop()); a = pop(); b = pop(); q = pop(); size_t o = need(a, q); h->access_account(c, &ad); size_t len = q.w[0], off = b.small() && b.w[0] < 0xffffffffULL ? b.w[0] : 0xffffffffULL; if (len) { size_t got = h->copy_code(c, &ad, off, mem.data() + o, len); if (got > len) abort(); memset(mem.data() + o + got, 0, len - got); } break; }
          case 0x3d: push(U(ret.size())); break; case 0x3e: a = pop(); b = pop(); q = pop(); if (!b.small() || !q.small() || b.w[0] > ret.size() || q.w[0] > ret.size() - b.w[0]) return {EVMC_INVALID_MEMORY_ACCESS}; copy(a, b, q, ret.data(), ret.size()); break; case 0x3f: ad = addr(pop()); h->access_account(c, &ad); push(fromword(h->get_code_hash(c, &ad))); break;
          case 0x40: a = pop(); push(a.small() ? fromword(h->get_block_hash(c, (int64_t) a.w[0])) : U()); break; case 0x41: push(fromaddr(h->get_tx_context(c).block_coinbase)); break; case 0x42: push(U((uint64_t) h->get_tx_context(c).block_timestamp)); break; case 0x43: push(U((uint64_t) h->get_tx_context(c).block_number)); break; case 0x44: push(fromword(h->get_tx_context(c).block_prev_randao)); break; case 0x45: push(U((uint64_t) h->get_tx_context(c).block_gas_limit)); break; case 0x46: push(fromword(h->get_tx_context(c).chain_id)); break;
          case 0x47: push(fromword(h->get_balance(c, &m->recipient))); break; case 0x48: push(fromword(h->get_tx_context(c).block_base_fee)); break; case 0x4a: push(fromword(h->get_tx_context(c).blob_base_fee)); break;
          case 0x50: pop(); break; case 0x51: { a = pop(); size_t o = need(a, U(32)); push(U::be(mem.data() + o)); break; } case 0x52: { a = pop(); b = pop(); size_t o = need(a, U(32)); b.put(mem.data() + o); break; } case 0x53: { a = pop(); b = pop(); size_t o = need(a, U(1)); mem[o] = (uint8_t) b.w[0]; break; }
          case 0x54: k = word(pop()); h->access_storage(c, &m->recipient, &k); push(fromword(h->get_storage(c, &m->recipient, &k))); break; case 0x55: nostatic(); k = word(pop()); v = word(pop()); h->access_storage(c, &m->recipient, &k); h->set_storage(c, &m->recipient, &k, &v); use(200); break;
          case 0x56: case 0x57: { a = pop(); if (op == 0x57 && pop().zero()) break; if (!a.small() || a.w[0] >= n || !isdest(a.w[0])) return {EVMC_BAD_JUMP_DESTINATION}; pc = a.w[0]; break; }
          case 0x58: push(U(pc)); break; case 0x59: push(U(mem.size())); break; case 0x5a: push(U((uint64_t) gas)); break; case 0x5b: break;
          case 0x5c: k = word(pop()); push(fromword(h->get_transient_storage(c, &m->recipient, &k))); break; case 0x5d: nostatic(); k = word(pop()); v = word(pop()); h->set_transient_storage(c, &m->recipient, &k, &v); break;
          case 0xf0: case 0xf1: case 0xf2: case 0xf4: case 0xf5: case 0xfa: call(op); break;
          case 0xf3: case 0xfd: { a = pop(); b = pop(); size_t o = need(a, b); return {op == 0xf3 ? EVMC_SUCCESS : EVMC_REVERT, o, (size_t) b.w[0]}; }
          case 0xff: nostatic(); ad = addr(pop()); h->access_account(c, &ad); h->selfdestruct(c, &m->recipient, &ad); return {EVMC_SUCCESS};
          case 0xfe: return {EVMC_INVALID_INSTRUCTION}; default: return {EVMC_UNDEFINED_INSTRUCTION};
        }
      }
    } catch (const Stop& s) { return s; }
  }
};
void rel(const evmc_result* r) { free((void*) r->output_data); }
evmc_result execute(evmc_vm*, const evmc_host_interface* h, evmc_host_context* c, evmc_revision, const evmc_message* m, const uint8_t* code, size_t n) {
  Vm v{h, c, m, code, n}; v.gas = m->gas; Stop s = v.run(); evmc_result r{}; r.status_code = s.s; r.gas_left = s.s == EVMC_SUCCESS || s.s == EVMC_REVERT ? v.gas : 0;
  if (s.len) { uint8_t* o = (uint8_t*) malloc(s.len); memcpy(o, v.mem.data() + s.off, s.len); r.output_data = o; r.output_size = s.len; r.release = rel; }
  return r;
}
void destroy(evmc_vm* v) { delete v; }
}
extern "C" struct evmc_vm* evmc_create_evmone(void) noexcept { return new evmc_vm{EVMC_ABI_VERSION, "minievm", "1", destroy, execute, nullptr, nullptr}; }
