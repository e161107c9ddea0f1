// Stand-in for evmc.hpp: Host base class, Result with ownership.
#pragma once
#include <evmc/evmc.h>
#include <utility>
namespace evmc {
struct address : evmc_address { address() : evmc_address{} {} address(evmc_address a) : evmc_address(a) {} };
struct bytes32 : evmc_bytes32 { bytes32() : evmc_bytes32{} {} bytes32(evmc_bytes32 a) : evmc_bytes32(a) {} };
using uint256be = bytes32;
class Result : private evmc_result {
public:
  using evmc_result::create_address; using evmc_result::gas_left; using evmc_result::gas_refund; using evmc_result::output_data; using evmc_result::output_size; using evmc_result::status_code;
  explicit Result(evmc_status_code s, int64_t gl, int64_t gr, const uint8_t* d, size_t n, void (*rel)(const evmc_result*)) : evmc_result{s, gl, gr, d, n, rel, {}, {}} {}
  explicit Result(evmc_status_code s = EVMC_INTERNAL_ERROR, int64_t gl = 0, int64_t gr = 0) : evmc_result{s, gl, gr, nullptr, 0, nullptr, {}, {}} {}
  explicit Result(const evmc_result& r) : evmc_result{r} {}
  ~Result() noexcept { if (release) release(this); }
  Result(Result&& o) noexcept : evmc_result{o} { o.release = nullptr; }
  Result& operator=(Result&& o) noexcept { this->~Result(); static_cast<evmc_result&>(*this) = o; o.release = nullptr; return *this; }
  evmc_result release_raw() noexcept { const auto out = evmc_result{*this}; this->release = nullptr; return out; }
};
class Host {
public:
  virtual ~Host() noexcept = default;
  virtual bool account_exists(const address&) const noexcept = 0;
  virtual bytes32 get_storage(const address&, const bytes32&) const noexcept = 0;
  virtual evmc_storage_status set_storage(const address&, const bytes32&, const bytes32&) noexcept = 0;
  virtual uint256be get_balance(const address&) const noexcept = 0;
  virtual size_t get_code_size(const address&) const noexcept = 0;
  virtual bytes32 get_code_hash(const address&) const noexcept = 0;
  virtual size_t copy_code(const address&, size_t, uint8_t*, size_t) const noexcept = 0;
  virtual bool selfdestruct(const address&, const address&) noexcept = 0;
  virtual Result call(const evmc_message&) noexcept = 0;
  virtual evmc_tx_context get_tx_context() const noexcept = 0;
  virtual bytes32 get_block_hash(int64_t) const noexcept = 0;
  virtual void emit_log(const address&, const uint8_t*, size_t, const bytes32[], size_t) noexcept = 0;
  virtual evmc_access_status access_account(const address&) noexcept = 0;
  virtual evmc_access_status access_storage(const address&, const bytes32&) noexcept = 0;
  virtual bytes32 get_transient_storage(const address&, const bytes32&) const noexcept = 0;
  virtual void set_transient_storage(const address&, const bytes32&, const bytes32&) noexcept = 0;
  static Host* from(evmc_host_context* c) noexcept { return reinterpret_cast<Host*>(c); }
  static const evmc_host_interface& get_interface() noexcept {
    typedef evmc_host_context C; typedef const evmc_address* A; typedef const evmc_bytes32* W;
    static const evmc_host_interface i = {
      [](C* c, A a) { return from(c)->account_exists(*a); }, [](C* c, A a, W k) -> evmc_bytes32 { return from(c)->get_storage(*a, *k); }, [](C* c, A a, W k, W v) { return from(c)->set_storage(*a, *k, *v); }, [](C* c, A a) -> evmc_bytes32 { return from(c)->get_balance(*a); },
      [](C* c, A a) { return from(c)->get_code_size(*a); }, [](C* c, A a) -> evmc_bytes32 { return from(c)->get_code_hash(*a); }, [](C* c, A a, size_t o, uint8_t* b, size_t n) { return from(c)->copy_code(*a, o, b, n); }, [](C* c, A a, A b) { return from(c)->selfdestruct(*a, *b); },
      [](C* c, const evmc_message* m) { return from(c)->call(*m).release_raw(); }, [](C* c) { return from(c)->get_tx_context(); }, [](C* c, int64_t n) -> evmc_bytes32 { return from(c)->get_block_hash(n); },
      [](C* c, A a, const uint8_t* d, size_t n, const evmc_bytes32 t[], size_t tn) { from(c)->emit_log(*a, d, n, static_cast<const bytes32*>(t), tn); }, [](C* c, A a) { return from(c)->access_account(*a); }, [](C* c, A a, W k) { return from(c)->access_storage(*a, *k); },
      [](C* c, A a, W k) -> evmc_bytes32 { return from(c)->get_transient_storage(*a, *k); }, [](C* c, A a, W k, W v) { from(c)->set_transient_storage(*a, *k, *v); }};
    return i;
  }
};
} // namespace evmc
