// C headers of the repository under test, included once after the reference model.
#pragma once
#include "mon.hpp"
using namespace mon;
extern "C" {
#include "bytes.h"
#include "chains.h"
#include "crypto.h"
#include "json.h"
#include "plugin.h"
#include "ssz.h"
#include "state.h"
}
// exact-size heap copy (so that AddressSanitizer sees any over-read)
struct HB {
  uint8_t* p; size_t n;
  explicit HB(const B& b) : p((uint8_t*) malloc(b.size() ? b.size() : 1)), n(b.size()) { if (n) memcpy(p, b.data(), n); if (!n) { p = (uint8_t*) realloc(p, 1); } }
  explicit HB(const S& s) : p((uint8_t*) malloc(s.size() + 1)), n(s.size()) { memcpy(p, s.c_str(), n + 1); }
  ~HB() { free(p); }
  HB(const HB&) = delete;
  bytes_t b() const { bytes_t r; r.data = p; r.len = (uint32_t) n; return r; }
  const char* c() const { return (const char*) p; }
};
inline B toB(bytes_t b) { return b.data ? B(b.data, b.data + b.len) : B(); }
