// The sequencer key of the OP chains is replaced by one of our own (only in memory).
#pragma once
#include "../lib/op.hpp"
#include <sys/mman.h>
#include <unistd.h>
extern "C" {
#include "op_chains_conf.h"
}
using synth::OpChain;
static const struct { uint64_t id; const char* seq; } KNOWN[] = {{10, "aaaa45d9549eda09e70937013520214382ffc4a2"}, {8453, "af6e19be0f9ce7f8afd49a1824851023a8249e8a"}, {7777777, "3dc8dfd0709c835cad15a6a27e089ff4cf4c9228"}, {130, "833c6f278474a78658af91ae8edc926fe33a230e"}};
static const B& key0() { static B k = keccak(B{'s', 'e', 'q'}); return k; }
// every chain trusts our sequencer from now on
static std::vector<uint64_t> patch() {
  std::vector<uint64_t> ids; const op_chain_config_t* c = op_get_all_chain_configs(); size_t n = op_get_supported_chains_count();
  for (auto& k : KNOWN) { auto* x = op_get_chain_config(k.id); if (!x || B(x->sequencer_address, x->sequencer_address + 20) != unhex(k.seq)) M().viol("sequencer@" + std::to_string(k.id), "chain " + std::to_string(k.id) + " does not trust its sequencer 0x" + S(k.seq)); }
  uintptr_t pg = sysconf(_SC_PAGESIZE), a = (uintptr_t) c & ~(pg - 1), e = ((uintptr_t) (c + n) + pg - 1) & ~(pg - 1);
  if (mprotect((void*) a, e - a, PROT_READ | PROT_WRITE)) { perror("mprotect"); exit(3); }
  for (size_t i = 0; i < n; i++) { ids.push_back(c[i].chain_id); static B ad = Secp::addr(key0()); const_cast<op_chain_config_t*>(c)[i].sequencer_address = (const char*) ad.data(); }
  return ids;
}
