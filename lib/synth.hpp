// Synthetic Ethereum: committees that can really sign, beacon blocks with real SSZ trees, execution state and
// receipts in real tries, and from that own proofs plus the true answer of every question.
// Uses only the reference model (ref.hpp) and the stand-in curve arithmetic, nothing of the repository.
#pragma once
#include "ref.hpp"
#include "shim/bls12.hpp"
#include <algorithm>
#include <functional>
namespace synth {
using namespace ref;
typedef std::vector<B> Bs;
// ---------------------------------------------------------------- chains
enum { DENEB = 4, ELECTRA = 5, FULU = 6 };
struct Spec { uint64_t id; const char* gvr; uint64_t fe[6]; int eb, pb; uint64_t wsp; B (*ver)(int); bool gnosis; };
inline const std::vector<Spec>& specs() {
  static const std::vector<Spec> s = {
    {1, "4b363db94e286120d76eb905340fdd4e54bfe9f06bf33ff6cf5ad27f511bfe95", {74240, 144896, 194048, 269568, 364032, 411392}, 5, 8, 3682, [](int f) { return B{(uint8_t) f, 0, 0, 0}; }, false},
    {11155111, "d8ea171f3c94aea21ebc42a1ed61052acf3f9209c00e4efbaaddac09ed9b8078", {50, 100, 56832, 132608, 222464, 272640}, 5, 8, 3682, [](int f) { return B{0x90, 0, 0, (uint8_t) (0x6f + f)}; }, false},
    {100, "f5dcb5564e829aab27264b9becd5dfaa017085611224cb3036f573368dbb9d47", {512, 385536, 648704, 889856, 1337856, ~0ULL}, 4, 9, 1500, [](int f) { return B{(uint8_t) f, 0, 0, 0x64}; }, true},
    {10200, "9d642dac73058fbf39c0ae41ab1e34e4d889043cb199851ded7095bc99eb4c1e", {90, 180, 244224, 516608, 948224, ~0ULL}, 4, 9, 1500, [](int f) { return B{(uint8_t) f, 0, 0, 0x6f}; }, true}};
  return s;
}
inline int      fork_at(const Spec& s, uint64_t epoch) { int f = 0; for (int i = 0; i < 6; i++) if (epoch >= s.fe[i]) f = i + 1; return f; }
inline uint64_t epoch_of(const Spec& s, uint64_t slot) { return slot >> s.eb; }
inline int      fork_slot(const Spec& s, uint64_t slot) { return fork_at(s, epoch_of(s, slot)); }
inline uint64_t period_of(const Spec& s, uint64_t slot) { return slot >> (s.eb + s.pb); }
inline B        domain(const Spec& s, int fork) { B v = s.ver(fork); v.resize(32, 0); return cat({B{7, 0, 0, 0}, sub(hash2(v, unhex(s.gvr)), 0, 28)}); }
inline B        signing_root(const Spec& s, const B& root, uint64_t sigslot) { return hash2(root, domain(s, fork_slot(s, sigslot ? sigslot - 1 : 0))); }
// ---------------------------------------------------------------- types
namespace ty {
#define TY(name, ...) inline T name() { static T t = __VA_ARGS__; return t; }
TY(b32, tbytes(32)) TY(u64, tuint(8)) TY(u256, tuint(32)) TY(addr, tbytes(20)) TY(raw, tblist(1073741824))
TY(header, tcont({{"slot", u64()}, {"proposerIndex", u64()}, {"parentRoot", b32()}, {"stateRoot", b32()}, {"bodyRoot", b32()}}))
TY(withdrawal, tcont({{"index", u64()}, {"validatorIndex", u64()}, {"address", addr()}, {"amount", u64()}}))
inline T payload_of(int w) { return tcont({{"parentHash", b32()}, {"feeRecipient", addr()}, {"stateRoot", b32()}, {"receiptsRoot", b32()}, {"logsBloom", tbytes(256)}, {"prevRandao", b32()}, {"blockNumber", u64()}, {"gasLimit", u64()}, {"gasUsed", u64()}, {"timestamp", u64()}, {"extraData", tblist(32)}, {"baseFeePerGas", u256()}, {"blockHash", b32()}, {"transactions", tlist(raw(), 1048576)}, {"withdrawals", tlist(withdrawal(), w)}, {"blobGasUsed", u64()}, {"excessBlobGas", u64()}}); }
TY(payload_m, payload_of(16)) TY(payload_g, payload_of(8))
TY(exechead, tcont({{"parentHash", b32()}, {"feeRecipient", addr()}, {"stateRoot", b32()}, {"receiptsRoot", b32()}, {"logsBloom", tbytes(256)}, {"prevRandao", b32()}, {"blockNumber", u64()}, {"gasLimit", u64()}, {"gasUsed", u64()}, {"timestamp", u64()}, {"extraData", tblist(32)}, {"baseFeePerGas", u256()}, {"blockHash", b32()}, {"transactionsRoot", b32()}, {"withdrawalsRoot", b32()}, {"blobGasUsed", u64()}, {"excessBlobGas", u64()}}))
TY(syncagg, tcont({{"syncCommitteeBits", tbitvec(512)}, {"syncCommitteeSignature", tbytes(96)}}))
TY(checkpoint, tcont({{"epoch", u64()}, {"root", b32()}}))
TY(attdata, tcont({{"slot", u64()}, {"index", u64()}, {"beaconBlockRoot", b32()}, {"source", checkpoint()}, {"target", checkpoint()}}))
TY(sighead, tcont({{"message", header()}, {"signature", tbytes(96)}}))
TY(propslash, tcont({{"signedHeader1", sighead()}, {"signedHeader2", sighead()}}))
inline T idxatt(uint64_t lim) { return tcont({{"attestingIndices", tlist(u64(), lim)}, {"data", attdata()}, {"signature", tbytes(96)}}); }
inline T attslash(uint64_t lim) { T i = idxatt(lim); return tcont({{"signedHeader1", i}, {"signedHeader2", i}}); }
TY(att_d, tcont({{"aggregationBits", tbitlist(2048)}, {"data", attdata()}, {"signature", tbytes(96)}}))
TY(att_e, tcont({{"aggregationBits", tbitlist(131072)}, {"data", attdata()}, {"signature", tbytes(96)}, {"committeeBits", tbitvec(64)}}))
TY(deposit, tcont({{"proof", tvec(b32(), 33)}, {"data", tcont({{"pubkey", tbytes(48)}, {"withdrawalCredentials", b32()}, {"amount", u64()}, {"signature", tbytes(96)}})}}))
TY(exitt, tcont({{"message", tcont({{"epoch", u64()}, {"validatorIndex", u64()}})}, {"signature", tbytes(96)}}))
TY(blschange, tcont({{"message", tcont({{"validatorIndex", u64()}, {"fromBlsPubkey", tbytes(48)}, {"toExecutionAddress", addr()}})}, {"signature", tbytes(96)}}))
TY(execreq, tcont({{"deposits", tlist(tcont({{"pubkey", tbytes(48)}, {"withdrawalCredentials", b32()}, {"amount", u64()}, {"signature", tbytes(96)}, {"index", u64()}}), 8192)},
                   {"withdrawals", tlist(tcont({{"sourceAddress", addr()}, {"validatorPubkey", tbytes(48)}, {"amount", u64()}}), 16)},
                   {"consolidations", tlist(tcont({{"sourceAddress", addr()}, {"sourcePubkey", tbytes(48)}, {"targetPubkey", tbytes(48)}}), 2)}}))
inline T body_of(bool electra, bool gno) {
  std::vector<std::pair<S, T>> f = {{"randaoReveal", tbytes(96)}, {"eth1Data", tcont({{"depositRoot", b32()}, {"depositCount", u64()}, {"blockHash", b32()}})}, {"graffiti", b32()}, {"proposerSlashings", tlist(propslash(), 16)},
    {"attesterSlashings", electra ? tlist(attslash(131072), 1) : tlist(attslash(2048), 2)}, {"attestations", electra ? tlist(att_e(), 8) : tlist(att_d(), 128)}, {"deposits", tlist(deposit(), 16)}, {"voluntaryExits", tlist(exitt(), 16)},
    {"syncAggregate", syncagg()}, {"executionPayload", gno ? payload_g() : payload_m()}, {"blsToExecutionChanges", tlist(blschange(), 16)}, {"blobKzgCommitments", tlist(tbytes(48), 4096)}};
  if (electra) f.push_back({"executionRequests", execreq()});
  return tcont(f);
}
inline T body(bool e, bool g) { static T t[4] = {body_of(0, 0), body_of(0, 1), body_of(1, 0), body_of(1, 1)}; return t[(e ? 2 : 0) + (g ? 1 : 0)]; }
inline T block(bool e, bool g) { static T t[4] = {}; int i = (e ? 2 : 0) + (g ? 1 : 0); if (!t[i]) t[i] = tcont({{"message", tcont({{"slot", u64()}, {"proposerIndex", u64()}, {"parentRoot", b32()}, {"stateRoot", b32()}, {"body", body(e, g)}})}, {"signature", tbytes(96)}}); return t[i]; }
TY(committee, tcont({{"pubkeys", tvec(tbytes(48), 512)}, {"aggregatePubkey", tbytes(48)}}))
TY(lchead, tcont({{"beacon", header()}, {"execution", exechead()}, {"executionBranch", tvec(b32(), 4)}}))
inline T boot_of(int d) { return tcont({{"header", lchead()}, {"currentSyncCommittee", committee()}, {"currentSyncCommitteeBranch", tvec(b32(), d)}}); }
inline T upd_of(int d) { return tcont({{"attestedHeader", lchead()}, {"nextSyncCommittee", committee()}, {"nextSyncCommitteeBranch", tvec(b32(), d)}, {"finalizedHeader", lchead()}, {"finalityBranch", tvec(b32(), d + 1)}, {"syncAggregate", syncagg()}, {"signatureSlot", u64()}}); }
TY(boot_d, boot_of(5)) TY(boot_e, boot_of(6)) TY(upd_d, upd_of(5)) TY(upd_e, upd_of(6))
// ---- the library's proof format
TY(sigproof, tcont({{"sync_committee_bits", tbitvec(512)}, {"sync_committee_signature", tbytes(96)}}))
TY(histproof, tcont({{"proof", tlist(b32(), 128)}, {"header", header()}, {"gindex", u64()}, {"sync_committee_bits", tbitvec(512)}, {"sync_committee_signature", tbytes(96)}}))
TY(hdrproof, tcont({{"headers", tlist(tcont({{"slot", u64()}, {"proposerIndex", u64()}, {"stateRoot", b32()}, {"bodyRoot", b32()}}), 128)}, {"header", header()}, {"sync_committee_bits", tbitvec(512)}, {"sync_committee_signature", tbytes(96)}}))
TY(hproof, tunion({{"signature_proof", sigproof()}, {"historic_proof", histproof()}, {"header_proof", hdrproof()}}))
TY(stateproof, tcont({{"block", tunion({{"none", tnone()}, {"blockHash", b32()}, {"blockNumber", u64()}})}, {"proof", tlist(b32(), 256)}, {"header", header()}, {"header_proof", hproof()}}))
inline T mproof(int n) { return tlist(raw(), n); }
TY(storproof, tcont({{"key", b32()}, {"proof", mproof(1024)}}))
TY(accproof, tcont({{"accountProof", mproof(256)}, {"address", addr()}, {"storageProof", tlist(storproof(), 256)}, {"state_proof", stateproof()}}))
TY(txproof, tcont({{"transaction", raw()}, {"transactionIndex", tuint(4)}, {"blockNumber", u64()}, {"blockHash", b32()}, {"baseFeePerGas", u64()}, {"proof", tlist(b32(), 64)}, {"header", header()}, {"header_proof", hproof()}}))
TY(recproof, tcont({{"transaction", raw()}, {"transactionIndex", tuint(4)}, {"blockNumber", u64()}, {"blockHash", b32()}, {"receipt_proof", mproof(64)}, {"block_proof", tlist(b32(), 64)}, {"header", header()}, {"header_proof", hproof()}}))
TY(logsblock, tcont({{"blockNumber", u64()}, {"blockHash", b32()}, {"proof", tlist(b32(), 1024)}, {"header", header()}, {"header_proof", hproof()}, {"txs", tlist(tcont({{"transaction", raw()}, {"transactionIndex", tuint(4)}, {"proof", mproof(256)}}), 256)}}))
TY(callproof, tcont({{"accounts", tlist(tcont({{"accountProof", mproof(256)}, {"address", addr()}, {"code", tunion({{"code_used", tbool()}, {"code", tblist(4194304)}})}, {"storageProof", tlist(storproof(), 4096)}}), 256)}, {"state_proof", stateproof()}}))
TY(syncproof, tcont({{"oldKeys", tvec(tbytes(48), 512)}, {"newKeys", tvec(tbytes(48), 512)}, {"syncCommitteeBits", tbitvec(512)}, {"syncCommitteeSignature", tbytes(96)}, {"gidx", u64()}, {"slot", u64()}, {"proposerIndex", u64()}, {"proof", tlist(b32(), 256)}}))
TY(blockproof, tcont({{"executionPayload", tunion({{"d", payload_m()}, {"g", payload_g()}})}, {"proof", tlist(b32(), 256)}, {"header", header()}, {"header_proof", hproof()}}))
TY(bnproof, tcont({{"blockNumber", u64()}, {"timestamp", u64()}, {"proof", tlist(b32(), 256)}, {"header", header()}, {"header_proof", hproof()}}))
TY(witproof, tcont({{"payload", tunion({{"BlockHashWitness", tcont({{"chainId", u64()}, {"blockHash", b32()}, {"blockNumber", u64()}, {"stateRoot", b32()}, {"receiptsRoot", b32()}, {"transactionsRoot", b32()}})}})}, {"signature", tbytes(65)}}))
TY(acclist, tlist(tcont({{"address", addr()}, {"storageKeys", tlist(b32(), 256)}}), 256))
TY(txdata, tcont({{"_optmask", tuint(4)}, {"blockHash", b32()}, {"blockNumber", u64()}, {"hash", b32()}, {"transactionIndex", tuint(4)}, {"type", tuint(1)}, {"nonce", u64()}, {"input", raw()}, {"r", b32()}, {"s", b32()}, {"chainId", tuint(4)}, {"v", tuint(1)}, {"gas", u64()}, {"from", addr()}, {"to", tblist(20)}, {"value", u256()}, {"gasPrice", u64()}, {"maxFeePerGas", u64()}, {"maxPriorityFeePerGas", u64()}, {"accessList", acclist()},
  {"authorizationList", tlist(tcont({{"address", addr()}, {"chainId", u256()}, {"nonce", u64()}, {"r", b32()}, {"s", b32()}, {"yParity", tuint(1)}}), 256)}, {"blobVersionedHashes", tlist(b32(), 16)}, {"yParity", tuint(1)}, {"sourceHash", b32()}, {"mint", u256()}, {"isSystemTx", tbool()}, {"depositReceiptVersion", tuint(1)}}))
TY(log, tcont({{"blockHash", b32()}, {"blockNumber", u64()}, {"transactionHash", b32()}, {"transactionIndex", tuint(4)}, {"address", addr()}, {"logIndex", tuint(4)}, {"removed", tbool()}, {"topics", tlist(b32(), 8)}, {"data", raw()}}))
TY(recdata, tcont({{"_optmask", tuint(4)}, {"blockHash", b32()}, {"blockNumber", u64()}, {"transactionHash", b32()}, {"transactionIndex", tuint(4)}, {"type", tuint(1)}, {"from", addr()}, {"to", tblist(20)}, {"cumulativeGasUsed", u64()}, {"gasUsed", u64()}, {"logs", tlist(log(), 256)}, {"logsBloom", tbytes(256)}, {"status", tuint(1)}, {"effectiveGasPrice", u64()}, {"depositNonce", u64()}, {"depositReceiptVersion", tuint(4)}}))
TY(blockdata, tcont({{"_optmask", tuint(4)}, {"number", u64()}, {"hash", b32()}, {"transactions", tunion({{"as_hashes", tlist(b32(), 4096)}, {"as_data", tlist(txdata(), 4096)}})}, {"logsBloom", tbytes(256)}, {"receiptsRoot", b32()}, {"extraData", tblist(32)}, {"withdrawalsRoot", b32()}, {"baseFeePerGas", u256()}, {"nonce", tbytes(8)}, {"miner", addr()}, {"withdrawals", tlist(withdrawal(), 4096)}, {"excessBlobGas", u64()}, {"difficulty", u64()}, {"gasLimit", u64()}, {"gasUsed", u64()}, {"timestamp", u64()}, {"mixHash", b32()}, {"parentHash", b32()}, {"uncles", tlist(b32(), 4096)}, {"parentBeaconBlockRoot", b32()}, {"sha3Uncles", b32()}, {"transactionsRoot", b32()}, {"stateRoot", b32()}, {"blobGasUsed", u64()}, {"requestsHash", b32()}}))
TY(proofdata, tcont({{"balance", u256()}, {"codeHash", b32()}, {"nonce", u256()}, {"storageHash", b32()}, {"accountProof", mproof(256)}, {"storageProof", tlist(tcont({{"key", b32()}, {"value", b32()}, {"proof", mproof(1024)}}), 256)}}))
TY(simdata, tcont({{"_optmask", tuint(4)}, {"blockNumber", u64()}, {"cumulativeGasUsed", u64()}, {"gasUsed", u64()}, {"logs", tlist(tcont({{"_optmask", tuint(2)}, {"anonymous", tbool()}, {"inputs", tlist(tcont({{"name", tblist(256)}, {"type", tblist(256)}, {"value", tblist(1024)}}), 256)}, {"name", tblist(256)}, {"raw", tcont({{"address", addr()}, {"data", raw()}, {"topics", tlist(b32(), 8)}})}}), 1024)}, {"logsBloom", tbytes(256)}, {"status", tuint(1)},
  {"trace", tlist(tcont({{"_optmask", tuint(4)}, {"decodedInput", tlist(tcont({{"name", tblist(256)}, {"type", tblist(256)}, {"value", tblist(1024)}}), 256)}, {"decodedOutput", tlist(tcont({{"name", tblist(256)}, {"type", tblist(256)}, {"value", tblist(1024)}}), 256)}, {"from", addr()}, {"gas", u64()}, {"gasUsed", u64()}, {"input", raw()}, {"method", tblist(256)}, {"output", raw()}, {"subtraces", tuint(4)}, {"to", addr()}, {"traceAddress", tlist(tuint(4), 256)}, {"type", tblist(32)}, {"value", u256()}}), 4096)}, {"type", tuint(1)}, {"returnValue", raw()}}))
TY(data, tunion({{"none", tnone()}, {"hash", b32()}, {"bytes", raw()}, {"value", u256()}, {"tx", txdata()}, {"receipt", recdata()}, {"logs", tlist(log(), 1024)}, {"block", blockdata()}, {"proof", proofdata()}, {"sim", simdata()}}))
TY(proof, tunion({{"none", tnone()}, {"account", accproof()}, {"tx", txproof()}, {"receipt", recproof()}, {"logs", tlist(logsblock(), 256)}, {"call", callproof()}, {"sync", syncproof()}, {"block", blockproof()}, {"blocknumber", bnproof()}, {"witness", witproof()}}))
TY(lcsync, tcont({{"bootstrap", tunion({{"none", tnone()}, {"d", boot_d()}, {"e", boot_e()}})}, {"update", tlist(tunion({{"d", upd_d()}, {"e", upd_e()}}), 1024)}}))
TY(zksync, tcont({{"vk_hash", b32()}, {"proof", tbytes(260)}, {"header", header()}, {"pubkeys", tvec(tbytes(48), 512)}, {"checkpoint", hproof()}, {"signatures", tlist(tbytes(65), 16)}}))
TY(request, tcont({{"version", tbytes(4)}, {"data", data()}, {"proof", proof()}, {"sync_data", tunion({{"none", tnone()}, {"lc", lcsync()}, {"zk", zksync()}})}}))
#undef TY
} // namespace ty
inline void setlist(Val& l, const Bs& v) { l.e.clear(); for (auto& x : v) l.add().set(x); }
inline void setvec(Val& l, const Bs& v) { for (size_t i = 0; i < v.size() && i < l.e.size(); i++) l.e[i].set(v[i]); }
// random value of a type
inline void fill(Val& v, Rng& r, int maxlist = 2) {
  switch (v.t->k) {
    case UINT: case BYTEVEC: case OPAQUE: v.b = r.raw(v.t->size()); break;
    case BITVEC: v.b = r.raw(v.t->size()); break;
    case BOOL: v.b = B{(uint8_t) r.below(2)}; break;
    case BYTELIST: v.b = r.raw(r.below(std::min<uint64_t>(v.t->n, 40) + 1)); break;
    case BITLIST: v.bits = r.below(std::min<uint64_t>(v.t->n, 300) + 1); v.b = r.raw(v.bits / 8 + 1); for (uint64_t i = v.bits; i < 8 * v.b.size(); i++) v.b[i / 8] &= (uint8_t) ~(1 << (i % 8)); break;
    case VEC: case CONT: for (auto& x : v.e) fill(x, r, maxlist); break;
    case LIST: { v.e.clear(); uint64_t n = r.below(std::min<uint64_t>(v.t->n, maxlist) + 1); for (uint64_t i = 0; i < n; i++) fill(v.add(), r, maxlist); break; }
    case UNION: { v.choose((int) r.below(v.t->f.size())); fill(v.e[0], r, maxlist); break; }
    default: break;
  }
}
inline N upto(N leaf, uint64_t g, Rng& r) { while (g > 1) { leaf = (g & 1) ? pairn(leafn(r.raw(32)), leaf) : pairn(leaf, leafn(r.raw(32))); g >>= 1; } return leaf; }
// ---------------------------------------------------------------- committees
struct Committee {
  Zn s, d; Val val; B keys; N tr; // val: SyncCommittee
  static const Zn& r() { static Zn z("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001"); return z; }
  static B le32(const Zn& z) { return rev(z.b32()); }
  explicit Committee(uint64_t seed) : val(ty::committee()) {
    Rng g(mix(seed, 0xc0ffee)); s = Zn(g.raw(31)); d = Zn(g.raw(8));
    bls12::G1 p = bls12::mul(bls12::from_aff(bls12::g1_gen()), le32(s).data(), 255), dd = bls12::mul(bls12::from_aff(bls12::g1_gen()), le32(d).data(), 255), sum; bool first = true;
    for (int i = 0; i < 512; i++) {
      if (i && i % 64 != 63) p = bls12::add(p, dd); // every 64th key is a duplicate of its neighbour, as on the real chain
      uint8_t o[48]; bls12::compress(bls12::to_aff(p), o); val["pubkeys"].e[i].b.assign(o, o + 48); put(keys, B(o, o + 48));
      sum = first ? p : bls12::add(sum, p); first = false;
    }
    uint8_t o[48]; bls12::compress(bls12::to_aff(sum), o); val["aggregatePubkey"].b.assign(o, o + 48);
    tr = tree(val);
  }
  B sign(const B& msg, const B& bits) const {
    Zn k, t; for (int i = 0; i < 512; i++) if (bits[i / 8] >> (i % 8) & 1) { int m = i - (i + 1) / 64; mpz_mul_ui(t.v, d.v, m); mpz_add(k.v, k.v, s.v); mpz_add(k.v, k.v, t.v); }
    mpz_mod(k.v, k.v, r().v);
    bls12::A2 h = bls12::hash_to_g2(msg.data(), msg.size(), (const uint8_t*) bls12::ETH_DST, sizeof bls12::ETH_DST - 1);
    uint8_t o[96]; bls12::compress(bls12::to_aff(bls12::mul(bls12::from_aff(h), le32(k).data(), 255)), o); return B(o, o + 96);
  }
};
inline const Committee& pool(int i) { static std::map<int, std::shared_ptr<Committee>> p; auto& x = p[i]; if (!x) x = std::make_shared<Committee>(1000 + i); return *x; }
inline B bits_n(int n, Rng& r) { B b(64, 0); std::vector<int> ix; for (int i = 0; i < 512; i++) ix.push_back(i); for (int i = 0; i < n; i++) { std::swap(ix[i], ix[i + r.below(512 - i)]); b[ix[i] / 8] |= (uint8_t) (1 << (ix[i] % 8)); } return b; }
inline int popcount(const B& b) { int n = 0; for (auto c : b) n += __builtin_popcount(c); return n; }
// ---------------------------------------------------------------- execution layer
struct Acct { uint64_t nonce = 0; B balance; std::map<B, B> st; B code; Mpt strie() const { Mpt m; for (auto& x : st) if (strip(x.second).size()) m.set(keccak(x.first), rlp_str(strip(x.second))); return m; }
  B rlp() const { return rlp_list({rlp_uint(nonce), rlp_str(strip(balance)), rlp_str(strie().root()), rlp_str(keccak(code))}); } };
struct Access { B a; Bs keys; };
struct Auth { B chain; B a; uint64_t nonce; int y; B r, s; };
struct Tx {
  int type = 0; uint64_t nonce = 0, gas = 0, gasPrice = 0, maxFee = 0, prio = 0, chain = 1, maxBlob = 0; bool prot = true; B to, value, input, r, s, raw, hash, from; uint64_t v = 0; int y = 0;
  std::vector<Access> al; Bs blobs; std::vector<Auth> auth; B source, mint; bool sys = false; // the latter for deposits of the OP stack (type 0x7e), which nobody signs
  B sk;
  B fields(bool sig) const {
    if (type == 0x7e) return cat({B{0x7e}, rlp_list({rlp_str(source), rlp_str(from), rlp_str(to), rlp_str(strip(mint)), rlp_str(strip(value)), rlp_uint(gas), rlp_uint(sys), rlp_str(input)})});
    Bs f; auto ls = [&] { Bs l; for (auto& a : al) { Bs k; for (auto& x : a.keys) k.push_back(rlp_str(x)); l.push_back(rlp_list({rlp_str(a.a), rlp_list(k)})); } return rlp_list(l); };
    if (type) f.push_back(rlp_uint(chain));
    f.push_back(rlp_uint(nonce));
    if (type < 2) f.push_back(rlp_uint(gasPrice)); else { f.push_back(rlp_uint(prio)); f.push_back(rlp_uint(maxFee)); }
    f.push_back(rlp_uint(gas)); f.push_back(rlp_str(to)); f.push_back(rlp_str(strip(value))); f.push_back(rlp_str(input));
    if (type) f.push_back(ls());
    if (type == 3) { f.push_back(rlp_uint(maxBlob)); Bs l; for (auto& x : blobs) l.push_back(rlp_str(x)); f.push_back(rlp_list(l)); }
    if (type == 4) { Bs l; for (auto& a : auth) l.push_back(rlp_list({rlp_str(a.chain), rlp_str(a.a), rlp_uint(a.nonce), rlp_uint(a.y), rlp_str(strip(a.r)), rlp_str(strip(a.s))})); f.push_back(rlp_list(l)); }
    if (sig) { f.push_back(rlp_uint(type ? y : v)); f.push_back(rlp_str(strip(r))); f.push_back(rlp_str(strip(s))); }
    else if (!type && prot) { f.push_back(rlp_uint(chain)); f.push_back(rlp_uint(0)); f.push_back(rlp_uint(0)); }
    B l = rlp_list(f); return type ? cat({B{(uint8_t) type}, l}) : l;
  }
  void sign(const B& key) { if (type == 0x7e) { raw = fields(true); hash = keccak(raw); return; } sk = key; auto g = Secp::sign(key, keccak(fields(false))); r = g.r; s = g.s; y = g.v; v = prot ? chain * 2 + 35 + y : 27 + y; raw = fields(true); hash = keccak(raw); from = Secp::addr(key); }
  // any (r,s) with r on the curve belongs to some key: short values which lose leading bytes in RLP
  void sign_short(Rng& g) { B h = keccak(fields(false)), pk; do { r = padl(g.raw(g.range(28, 32)), 32); s = padl(g.raw(g.range(1, 31)), 32); y = (int) g.below(2); pk = Secp::recover(h, r, s, y); } while (pk.empty()); v = prot ? chain * 2 + 35 + y : 27 + y; raw = fields(true); hash = keccak(raw); from = sub(keccak(pk), 12); }
};
struct Log { B a; Bs topics; B data; };
inline void bloom_add(B& bl, const B& x) { B h = keccak(x); for (int i = 0; i < 6; i += 2) { int bit = ((h[i] << 8) | h[i + 1]) & 2047; bl[255 - bit / 8] |= (uint8_t) (1 << (bit % 8)); } }
struct Rcpt { int type = 0; bool status = true; uint64_t cum = 0, used = 0; std::vector<Log> logs; B bloom = B(256, 0), raw; uint64_t log0 = 0, depnonce = 0, depver = 1;
  void enc() { bloom = B(256, 0); Bs ls; for (auto& l : logs) { bloom_add(bloom, l.a); Bs t; for (auto& x : l.topics) { bloom_add(bloom, x); t.push_back(rlp_str(x)); } ls.push_back(rlp_list({rlp_str(l.a), rlp_list(t), rlp_str(l.data)})); }
    Bs f = {status ? rlp_uint(1) : rlp_str({}), rlp_uint(cum), rlp_str(bloom), rlp_list(ls)}; if (type == 0x7e) { f.push_back(rlp_uint(depnonce)); f.push_back(rlp_uint(depver)); } raw = rlp_list(f); if (type) raw = cat({B{(uint8_t) type}, raw}); } };
inline B txkey(uint64_t i) { return rlp_uint(i); }
// ---------------------------------------------------------------- blocks
struct Blk {
  uint64_t slot = 0, number = 0; Val sb, header; N bt; B root, hash; std::map<B, Acct> st; Mpt acc; std::vector<Tx> txs; std::vector<Rcpt> rc; Mpt rt; Val pl; uint64_t basefee = 0; B bits; B sig; // header: BeaconBlockHeader; bits/sig: committee signature over this header
  N state; int fork = 0;
  B gtx; uint64_t gidx = 0; Bs gproof; // a transaction hidden below a value the proposer may choose freely: not part of the block
  const Val& payload() const { return pl; }
};
struct World;
typedef std::shared_ptr<World> WP;
struct World {
  const Spec& sp; Rng r; int salt; bool fake = false; /* nobody signs */ bool op = false; /* OP stack: no committee, but deposits */ std::vector<Blk> b; std::vector<B> sks; Bs addrs; // addrs: existing accounts
  bool electra(uint64_t slot) const { return fork_slot(sp, slot) >= ELECTRA; }
  const Committee& com(uint64_t period) const { return pool((int) ((period + salt) % 3)); }
  World(const Spec& s, uint64_t seed) : sp(s), r(seed), salt((int) (seed % 3)) {}
  // beacon state tree with the fields a light client looks at; the rest are random leaves
  N mkstate(uint64_t slot, const B& finroot, uint64_t finepoch, N summaries = nullptr) {
    int f = fork_slot(sp, slot); int nf = f >= FULU ? 38 : f >= ELECTRA ? 37 : 28; std::vector<N> c; for (int i = 0; i < nf; i++) c.push_back(leafn(r.raw(32)));
    Val cp(ty::checkpoint()); cp["epoch"].u(finepoch); cp["root"].set(finroot); c[20] = tree(cp); uint64_t p = period_of(sp, slot); c[22] = com(p).tr; c[23] = com(p + 1).tr; if (summaries) c[27] = summaries;
    return merkle(c, cdepth(nf));
  }
  Val mkheader(uint64_t slot, const B& parent, const B& state, const B& body) { Val h(ty::header()); h["slot"].u(slot); h["proposerIndex"].u(r.below(1000000)); h["parentRoot"].set(parent); h["stateRoot"].set(state); h["bodyRoot"].set(body); return h; }
  // signature of a header by the committee on duty in slot+1
  void sign(const Val& header, B& bits, B& sig, int n = -1, int period_off = 0) { if (op) { bits.assign(64, 0); sig.assign(96, 0); return; } uint64_t s = header["slot"].u() + 1; if (n < 0) n = 342 + (int) r.below(171); bits = bits_n(n, r); sig = (fake ? pool(3) : com(period_of(sp, s) + period_off)).sign(signing_root(sp, htr(header), s), bits); }
  B rnd_addr() { return r.chance(4, 5) && addrs.size() ? r.pick(addrs) : r.raw(20); }
  B rnd_word() { switch (r.below(5)) { case 0: return B(32, 0); case 1: return be(r.below(300), 32); case 2: { B w = r.raw(32); for (uint64_t i = 0, n = r.below(32); i < n; i++) w[i] = 0; return w; } default: return r.raw(32); } }
  Tx mktx(uint64_t basefee, bool first = false) {
    if (op && (first || r.chance(1, 6))) { Tx t; t.type = 0x7e; t.source = r.raw(32); t.from = rnd_addr(); t.to = r.chance(1, 6) ? B() : rnd_addr(); t.mint = r.chance(1, 2) ? B() : sub(rnd_word(), r.below(32)); t.value = r.chance(1, 2) ? B() : sub(rnd_word(), r.below(32)); t.gas = 21000 + r.below(30000000); t.sys = r.chance(1, 4); t.input = r.raw(r.below(300)); t.nonce = r.chance(1, 4) ? 0 : r.below(100000); t.sign({}); return t; }
    Tx t; t.type = (int) r.below(5); t.chain = sp.id; t.prot = !r.chance(1, 5); t.nonce = r.chance(1, 4) ? 0 : r.chance(1, 8) ? r.u64() >> r.range(1, 40) : r.below(100000); t.gas = 21000 + r.below(30000000); t.to = (t.type < 3 && r.chance(1, 5)) ? B() : rnd_addr(); t.value = r.chance(1, 3) ? B() : sub(rnd_word(), r.below(32));
    t.input = r.raw(r.chance(1, 3) ? 0 : r.below(r.chance(1, 6) ? 900 : 80)); t.gasPrice = basefee + r.below(r.chance(1, 4) ? 1ULL << 44 : 1000000000); t.prio = r.below(r.chance(1, 3) ? 1ULL << r.range(32, 44) : 3000000000ULL); t.maxFee = basefee + r.below(r.chance(1, 3) ? 1ULL << r.range(32, 45) : 5000000000ULL); if (t.prio > t.maxFee) t.prio = t.maxFee;
    bool big = r.chance(1, 6); if (t.type) for (uint64_t i = 0, n = r.below(big ? 12 : 3); i < n; i++) { Access a; a.a = rnd_addr(); for (uint64_t k = r.below(r.chance(1, 5) ? 12 : 3); k > 0; k--) a.keys.push_back(rnd_word()); t.al.push_back(a); }
    if (t.type == 3) { t.maxBlob = r.below(1000000); for (uint64_t i = 0, n = r.range(1, r.chance(1, 3) ? 9 : 3); i < n; i++) { B h = r.raw(32); h[0] = 1; t.blobs.push_back(h); } }
    if (t.type == 4) for (uint64_t i = 0, n = r.range(1, r.chance(1, 4) ? 10 : 3); i < n; i++) { Auth a; a.chain = r.chance(1, 3) ? B() : r.chance(1, 5) ? strip(r.raw(r.range(1, 32))) : strip(be(sp.id, 8)); a.a = rnd_addr(); a.nonce = r.chance(1, 4) ? r.u64() >> r.range(0, 40) : r.below(1000); a.y = (int) r.below(r.chance(1, 4) ? 256 : 2); a.r = rnd_word(); a.s = rnd_word(); t.auth.push_back(a); }
    if (r.chance(1, 5)) t.sign_short(r); else t.sign(r.pick(sks)); return t;
  }
  // options of build(): some blocks carry no sync aggregate; after block gap_at the chain continues gap slots later,
  // with the block roots before the gap in the historical summaries of the states after it
  bool grafts = false; int unsigned_1in = 0, gap_at = -1, many = 0; /* many: number of the block with hundreds of transactions */ uint64_t num_after = 0; uint64_t gap = 0; N sumtree; std::vector<std::pair<B, B>> sums; std::map<uint64_t, B> rootsfile;
  void summarize(uint64_t slot) { // state of slot knows all periods before its own
    uint64_t p0 = sp.fe[2] >> sp.pb, p1 = period_of(sp, slot); std::map<uint64_t, Bs> v; for (auto& k : b) { auto& f = v[period_of(sp, k.slot)]; if (f.empty()) f.assign(8192, B(32, 0)); for (uint64_t q = k.slot % 8192; q < 8192; q++) f[q] = k.root; }
    static T sumt = tlist(tcont({{"block_summary_root", ty::b32()}, {"state_summary_root", ty::b32()}}), 1 << 24); Val l(sumt); sums.clear();
    for (uint64_t p = p0; p < p1; p++) { B br = r.raw(32); auto it = v.find(p); if (it != v.end()) { std::vector<N> c; B raw; for (auto& x : it->second) { c.push_back(leafn(x)); put(raw, x); } br = merkle(c, 13)->h; rootsfile[p] = raw; } sums.push_back({br, r.raw(32)}); Val& e = l.add(); e["block_summary_root"].set(br); e["state_summary_root"].set(sums.back().second); }
    sumtree = tree(l);
  }
  std::function<void(World&, std::map<B, Acct>&)> prep; // changes the initial accounts
  // chain of n blocks starting at slot0 with first execution block number num0
  void build(uint64_t slot0, int n, uint64_t num0, int naccts = 12, int maxtx = 6) {
    for (int i = 0; i < 5; i++) { B k = r.raw(32); k[0] &= 0x7f; sks.push_back(k); }
    std::map<B, Acct> st;
    for (int i = 0; i < naccts; i++) { Acct a; B ad = i < 5 ? Secp::addr(sks[i]) : r.raw(20); a.nonce = r.chance(1, 4) ? 0 : r.below(100000); a.balance = r.chance(1, 6) ? B() : sub(rnd_word(), r.below(31)); if (r.chance(1, 2)) a.code = r.raw(r.chance(1, 8) ? 24000 : r.range(1, 120)); int ns = r.chance(1, 3) ? 0 : r.chance(1, 3) ? 1 : (int) r.below(14); for (int k = 0; k < ns; k++) { B key = r.chance(1, 2) ? be(r.below(20), 32) : r.raw(32); B v = rnd_word(); if (strip(v).empty()) v = be(1, 32); a.st[key] = v; } st[ad] = a; addrs.push_back(ad); }
    if (prep) prep(*this, st);
    B parent = r.raw(32), phash = r.raw(32); uint64_t slot = slot0; B pbits(64, 0), psig(96, 0); psig[0] = 0xc0;
    for (int i = 0; i < n; i++) {
      Blk k; k.slot = slot; k.number = num0 + i; if (num_after && gap_at >= 0 && i > gap_at) k.number = num_after + (uint64_t) (i - gap_at - 1); k.fork = fork_slot(sp, slot); bool el = electra(slot);
      if (i) for (int c = 0; c < 3; c++) { auto& a = st[r.pick(addrs)]; a.nonce++; a.balance = r.raw(r.range(1, 12)); if (a.st.size() && r.chance(1, 2)) a.st.begin()->second = padl(r.raw(3), 32); }
      k.st = st; for (auto& x : st) k.acc.set(keccak(x.first), x.second.rlp());
      k.basefee = 1 + r.below(r.chance(1, 6) ? 1ULL << 44 : 100000000000ULL);
      int nt = r.chance(1, 8) ? 0 : (int) r.below(maxtx + 1); if (many && i == many - 1) nt = (int) r.range(120, 300); uint64_t cum = 0, li = 0; B bloom(256, 0);
      for (int t = 0; t < nt; t++) {
        Tx x = mktx(k.basefee, t == 0); if (op && x.type == 3) { x.type = 2; x.blobs.clear(); x.sign(r.pick(sks)); } Rcpt rc; rc.type = x.type; rc.depnonce = x.nonce; rc.status = !r.chance(1, 4); rc.used = 21000 + r.below(900000); cum += rc.used; rc.cum = cum; rc.log0 = li;
        if (rc.status) for (uint64_t l = 0, m = r.below(nt > 50 ? 2 : r.chance(1, 10) ? 30 : 4); l < m; l++) { Log g; g.a = rnd_addr(); for (uint64_t q = r.below(5); q > 0; q--) g.topics.push_back(rnd_word()); g.data = r.raw(r.chance(1, 3) ? 0 : r.below(r.chance(1, 12) ? 1500 : 100)); rc.logs.push_back(g); li++; }
        rc.enc(); for (int q = 0; q < 256; q++) bloom[q] |= rc.bloom[q]; k.rt.set(txkey(t), rc.raw); k.txs.push_back(x); k.rc.push_back(rc);
      }
      k.sb = Val(ty::block(el, sp.gnosis)); Val& msg = k.sb["message"]; Val& body = msg["body"]; fill(body, r, r.chance(1, 3) ? 3 : 1);
      Val& p = body["executionPayload"]; p["parentHash"].set(phash); p["stateRoot"].set(k.acc.root()); p["receiptsRoot"].set(k.rt.root()); p["logsBloom"].set(bloom); p["blockNumber"].u(k.number); p["gasLimit"].u(30000000 + r.below(10000000)); p["gasUsed"].u(cum); p["timestamp"].u(1600000000 + slot * 12);
      p["baseFeePerGas"].b = le(k.basefee, 32); p["transactions"].e.clear(); for (auto& x : k.txs) p["transactions"].add().b = x.raw; p["blobGasUsed"].u(r.below(6) * 131072); p["excessBlobGas"].u(r.below(100) * 131072); k.hash = p["blockHash"].b;
      body["syncAggregate"]["syncCommitteeBits"].b = pbits; body["syncAggregate"]["syncCommitteeSignature"].b = psig;
      bool gr = grafts && !op && r.chance(1, 3); uint64_t gT = r.chance(2, 3) ? 18 : 68, gG = 0; std::map<uint64_t, B> gn;
      if (gr) { Tx x = mktx(k.basefee); k.gtx = x.raw; int d = (int) r.range(31, 32), dT = gT == 18 ? 4 : 6; gG = (gT << (d - dT)) + (r.u64() & ((1ULL << (d - dT)) - 1)); k.gidx = gG - txgi(0); Val v(ty::raw()); v.b = x.raw; B h = htr(v); for (uint64_t g = gG; g > gT; g >>= 1) { B sib = r.raw(32); gn[g ^ 1] = sib; h = g & 1 ? hash2(sib, h) : hash2(h, sib); } (gT == 18 ? body["graffiti"] : body["eth1Data"]["depositRoot"]).set(h); }
      k.bt = tree(body); if (gr) for (auto g : helper_indices({806, 812, 811, gG})) { auto it = gn.find(g); k.gproof.push_back(it != gn.end() ? it->second : walk(k.bt, g)->h); }
      k.pl = p; k.state = mkstate(slot, r.raw(32), epoch_of(sp, slot) - 2, sumtree);
      k.header = mkheader(slot, parent, k.state->h, k.bt->h); k.root = htr(k.header);
      msg["slot"].u(slot); msg["proposerIndex"].set(k.header["proposerIndex"].b); msg["parentRoot"].set(parent); msg["stateRoot"].set(k.state->h); fill(k.sb["signature"], r);
      sign(k.header, k.bits, k.sig); pbits = k.bits; psig = k.sig; parent = k.root; phash = k.hash;
      if (unsigned_1in && r.chance(1, unsigned_1in)) { pbits.assign(64, 0); psig.assign(96, 0); psig[0] = 0xc0; }
      b.push_back(k); slot += 1 + (r.chance(1, 4) ? r.below(3) : 0); if (i == gap_at) { slot += gap; summarize(slot); }
    }
  }
  // The same chain with other contents and nobody's signature: every part fits to every other part, but not to the signed headers.
  std::unique_ptr<World> alt(Rng& g) const {
    std::unique_ptr<World> a(new World(*this)); a->fake = true; B parent; auto any = [&](auto& v) -> auto& { return v[g.below(v.size())]; };
    for (auto& k : a->b) {
      bool all = g.chance(1, 2), stc = g.chance(3, 4), txc = g.chance(1, 2), rcc = g.chance(3, 4); Val& body = k.sb["message"]["body"]; Val& p = body["executionPayload"];
      if (stc) { for (auto& x : k.st) if (all || g.chance(1, 4)) { auto& c = x.second; int m = (int) g.range(1, 15); if (m & 1) c.balance = g.raw(g.range(1, 14)); if (m & 2) c.nonce += 1 + g.below(5); if (m & 4) for (auto& s : c.st) if (g.chance(2, 3)) s.second = padl(g.raw(4), 32); if (m & 8) c.code = g.raw(g.range(1, 60)); } k.acc = Mpt(); for (auto& x : k.st) k.acc.set(keccak(x.first), x.second.rlp()); }
      if (txc && k.txs.size()) { if (k.txs.size() > 1 && g.chance(1, 3)) { size_t i = g.below(k.txs.size()), j = g.below(k.txs.size()); std::swap(k.txs[i], k.txs[j]); } else for (auto& t : k.txs) if (all || g.chance(1, 3)) { switch (g.below(5)) { case 0: t.value = g.raw(5); break; case 1: t.to = g.raw(20); break; case 2: t.input = g.raw(g.below(50)); break; case 3: t.nonce++; break; default: t.gas++; } t.sign(g.chance(1, 2) && t.sk.size() ? t.sk : g.pick(sks)); } }
      if (rcc && k.rc.size()) { for (auto& c : k.rc) if (all || g.chance(1, 2)) { switch (c.logs.empty() ? 5 + g.below(2) : g.below(7)) { case 0: any(c.logs).data = g.raw(g.range(1, 40)); break; case 1: any(c.logs).a = g.raw(20); break; case 2: { auto& l = any(c.logs); if (l.topics.size()) any(l.topics) = g.raw(32); else l.topics.push_back(g.raw(32)); break; } case 3: any(c.logs).data = g.raw(200); break; case 4: { auto& l = any(c.logs); if (l.topics.size()) l.topics.pop_back(); else l.data.push_back(1); break; } case 5: c.status = !c.status; break; default: c.cum += 7; } c.enc(); } k.rt = Mpt(); for (size_t t = 0; t < k.rc.size(); t++) k.rt.set(txkey(t), k.rc[t].raw); }
      B bloom(256, 0); for (auto& c : k.rc) for (int q = 0; q < 256; q++) bloom[q] |= c.bloom[q];
      p["stateRoot"].set(k.acc.root()); p["receiptsRoot"].set(k.rt.root()); p["logsBloom"].set(bloom); p["transactions"].e.clear(); for (auto& x : k.txs) p["transactions"].add().b = x.raw;
      if (g.chance(1, 3)) { k.hash = g.raw(32); p["blockHash"].set(k.hash); } if (g.chance(1, 4)) p["timestamp"].u(p["timestamp"].u() + 12); if (g.chance(1, 6)) { k.number += g.chance(1, 2) ? 1 : -1; p["blockNumber"].u(k.number); } if (g.chance(1, 4)) { k.basefee ^= 1ULL << g.below(40); p["baseFeePerGas"].b = le(k.basefee, 32); } if (g.chance(1, 3)) { const char* f[] = {"parentHash", "feeRecipient", "prevRandao", "gasLimit", "gasUsed", "excessBlobGas", "blobGasUsed"}; S n = f[g.below(7)]; p[n].b[g.below(4)] ^= 1; }
      k.bt = tree(body); k.pl = p; k.header["bodyRoot"].set(k.bt->h); if (parent.size() && g.chance(1, 2)) k.header["parentRoot"].set(parent); k.root = parent = htr(k.header);
    }
    return a;
  }
  // -------------------------------------------------------------- header proofs
  Val hp_sig(const Blk& k) const { Val u(ty::hproof()); Val& s = u.choose(0); s["sync_committee_bits"].b = k.bits; s["sync_committee_signature"].b = k.sig; return u; }
  // link block i to the signed header of block j>i through the headers in between
  Val hp_chain(int i, int j) const { Val u(ty::hproof()); Val& s = u.choose(2); for (int q = i + 1; q < j; q++) { Val& h = s["headers"].add(); for (const char* f : {"slot", "proposerIndex", "stateRoot", "bodyRoot"}) h[f].b = b[q].header[f].b; } s["header"] = b[j].header; s["sync_committee_bits"].b = b[j].bits; s["sync_committee_signature"].b = b[j].sig; return u; }
  uint64_t summaries_gi(uint64_t slot) const { return electra(slot) ? 64 + 27 : 32 + 27; }
  uint64_t hist_gi(uint64_t signslot, uint64_t slot) const { uint64_t sidx = period_of(sp, slot) - (sp.fe[2] >> sp.pb); return gcat(gcat(gcat(summaries_gi(signslot), 2), (1ULL << 24) + sidx), gcat(2, 8192 + slot % 8192)); }
  // historic proof of block k through a later header at signslot
  Val hp_hist(const Blk& k, uint64_t signslot) {
    uint64_t g = hist_gi(signslot, k.slot); N st = upto(leafn(k.root), g, r); Val h = mkheader(signslot, r.raw(32), st->h, r.raw(32)); B bits, sig; sign(h, bits, sig);
    Val u(ty::hproof()); Val& s = u.choose(1); setlist(s["proof"], branch(st, g)); s["header"] = h; s["gindex"].u(g); s["sync_committee_bits"].b = bits; s["sync_committee_signature"].b = sig; return u;
  }
  Val hp(int i) { int c = (int) r.below(10); if (c < 5) return hp_sig(b[i]); if (c < 8 && i + 1 < (int) b.size()) return hp_chain(i, (int) r.range(i + 1, b.size() - 1)); if (c < 8) return hp_sig(b[i]); return hp_hist(b[i], b.back().slot + 8192 + r.below(20)); }
  // -------------------------------------------------------------- proofs
  static Val req(int datasel = 0) { Val v(ty::request()); v["version"].set({0, 1, 0, 4}); v["data"].choose(datasel); return v; }
  void st_proof(Val& s, int i, int kind, const Val& h) const { std::vector<uint64_t> g = {802}; Val& bl = s["block"]; if (kind == 1) { bl.choose(1).set(b[i].hash); g.push_back(812); } else if (kind == 2) { bl.choose(2).u(b[i].number); g.push_back(806); } else bl.choose(0); setlist(s["proof"], multiproof(b[i].bt, g)); s["header"] = b[i].header; s["header_proof"] = h; }
  Val account(int i, const B& a, const Bs& keys, int kind, const Val& h) const { // kind: 0 latest, 1 by hash, 2 by number
    Val v = req(); Val& p = v["proof"].choose(1); setlist(p["accountProof"], b[i].acc.prove(keccak(a))); p["address"].set(a); auto it = b[i].st.find(a); Mpt m; if (it != b[i].st.end()) m = it->second.strie(); for (auto& k : keys) { Val& s = p["storageProof"].add(); s["key"].set(k); setlist(s["proof"], m.prove(keccak(k))); } st_proof(p["state_proof"], i, kind, h); return v; }
  uint64_t txgi(uint64_t ix) const { return gcat(gcat(25, 32 + 13), gcat(2, (1ULL << 20) + ix)); }
  Val txgraft(int i, const Val& h) const { Val v = req(); Val& p = v["proof"].choose(2); p["transaction"].b = b[i].gtx; p["transactionIndex"].u(b[i].gidx); p["blockNumber"].u(b[i].number); p["blockHash"].set(b[i].hash); p["baseFeePerGas"].u(b[i].basefee); setlist(p["proof"], b[i].gproof); p["header"] = b[i].header; p["header_proof"] = h; return v; }
  Val tx(int i, int t, const Val& h) const { Val v = req(); Val& p = v["proof"].choose(2); p["transaction"].b = b[i].txs[t].raw; p["transactionIndex"].u(t); p["blockNumber"].u(b[i].number); p["blockHash"].set(b[i].hash); p["baseFeePerGas"].u(b[i].basefee); setlist(p["proof"], multiproof(b[i].bt, {806, 812, 811, txgi(t)})); p["header"] = b[i].header; p["header_proof"] = h; return v; }
  Val logval(int i, int t, int l) const { Val g(ty::log()); auto& k = b[i]; auto& L = k.rc[t].logs[l]; g["blockHash"].set(k.hash); g["blockNumber"].u(k.number); g["transactionHash"].set(k.txs[t].hash); g["transactionIndex"].u(t); g["address"].set(L.a); g["logIndex"].u(k.rc[t].log0 + l); setlist(g["topics"], L.topics); g["data"].b = L.data; return g; }
  static uint64_t effprice(const Tx& x, uint64_t base) { return x.type == 0x7e ? 0 : x.type < 2 ? x.gasPrice : base + std::min(x.prio, x.maxFee - base); }
  Val receipt(int i, int t, const Val& h) const {
    Val v = req(5); auto& k = b[i]; auto& x = k.txs[t]; auto& rc = k.rc[t]; Val& d = v["data"].e[0]; d["_optmask"].u(0x3ffe); d["blockHash"].set(k.hash); d["blockNumber"].u(k.number); d["transactionHash"].set(x.hash); d["transactionIndex"].u(t); d["type"].u(x.type); d["from"].set(x.from); d["to"].b = x.to; d["cumulativeGasUsed"].u(rc.cum); d["gasUsed"].u(rc.used); for (size_t l = 0; l < rc.logs.size(); l++) d["logs"].e.push_back(logval(i, t, (int) l)); d["logsBloom"].set(rc.bloom); d["status"].u(rc.status); d["effectiveGasPrice"].u(effprice(x, k.basefee)); if (x.type == 0x7e) { d["_optmask"].u(0xfffe); d["depositNonce"].u(rc.depnonce); d["depositReceiptVersion"].u(rc.depver); }
    Val& p = v["proof"].choose(3); p["transaction"].b = x.raw; p["transactionIndex"].u(t); p["blockNumber"].u(k.number); p["blockHash"].set(k.hash); setlist(p["receipt_proof"], k.rt.prove(txkey(t))); setlist(p["block_proof"], multiproof(k.bt, {806, 812, 803, txgi(t)})); p["header"] = k.header; p["header_proof"] = h; return v; }
  Val logsblk(int i, const std::vector<int>& ts, const Val& h) const { Val p(ty::logsblock()); auto& k = b[i]; p["blockNumber"].u(k.number); p["blockHash"].set(k.hash); std::vector<uint64_t> g = {806, 812, 803}; for (int t : ts) { g.push_back(txgi(t)); Val& x = p["txs"].add(); x["transaction"].b = k.txs[t].raw; x["transactionIndex"].u(t); setlist(x["proof"], k.rt.prove(txkey(t))); } setlist(p["proof"], multiproof(k.bt, g)); p["header"] = k.header; p["header_proof"] = h; return p; }
  Val block(int i, const Val& h) const { Val v = req(); Val& p = v["proof"].choose(7); p["executionPayload"].choose(sp.gnosis ? 1 : 0) = b[i].pl; setlist(p["proof"], branch(b[i].bt, 25)); p["header"] = b[i].header; p["header_proof"] = h; return v; }
  Val blocknumber(int i, const Val& h) const { Val v = req(); Val& p = v["proof"].choose(8); p["blockNumber"].u(b[i].number); p["timestamp"].set(b[i].pl["timestamp"].b); setlist(p["proof"], multiproof(b[i].bt, {806, 809})); p["header"] = b[i].header; p["header_proof"] = h; return v; }
  // -------------------------------------------------------------- client state
  B sync_file(uint64_t period) const { return cat({com(period).keys, sha256(com(period - 1).keys)}); }
  // -------------------------------------------------------------- true answers (normalised JSON)
  static J js(const S& s) { J j; j.k = J::STR; j.s = s; return j; }
  static J jarr() { J j; j.k = J::ARR; return j; }
  static J jobj() { J j; j.k = J::OBJ; return j; }
  J j_tx(int i, int t) const {
    auto& k = b[i]; auto& x = k.txs[t]; J o = jobj(); auto add = [&](const S& n, const J& v) { o.o.push_back({n, v}); };
    add("blockHash", js(hex(k.hash))); add("blockNumber", js(qhex(k.number))); add("hash", js(hex(x.hash))); add("transactionIndex", js(qhex((uint64_t) t))); add("type", js(qhex((uint64_t) x.type))); add("nonce", js(qhex(x.nonce))); add("input", js(hex(x.input))); add("r", js(qhex(x.r))); add("s", js(qhex(x.s)));
    if (x.type == 0x7e) { o.o.clear(); add("blockHash", js(hex(k.hash))); add("blockNumber", js(qhex(k.number))); add("hash", js(hex(x.hash))); add("transactionIndex", js(qhex((uint64_t) t))); add("type", js("0x7e")); add("nonce", J()); add("input", js(hex(x.input))); add("gas", js(qhex(x.gas))); add("from", js(hex(x.from))); if (x.to.size()) add("to", js(hex(x.to))); else { J n; n.k = J::NUL; add("to", n); } add("value", js(qhex(x.value))); add("gasPrice", js("0x0")); add("sourceHash", js(hex(x.source))); add("mint", js(qhex(x.mint))); J sy; sy.k = J::BOOLEAN; sy.b = x.sys; add("isSystemTx", sy); add("depositReceiptVersion", J()); return o; } // nonce and version are not part of the transaction
    add("v", js(qhex(x.type ? (uint64_t) x.y : x.v))); add("gas", js(qhex(x.gas))); add("from", js(hex(x.from))); if (x.to.size()) add("to", js(hex(x.to))); else { J n; n.k = J::NUL; add("to", n); } add("value", js(qhex(x.value))); add("gasPrice", js(qhex(effprice(x, k.basefee))));
    if (x.type || x.prot) add("chainId", js(qhex(x.chain))); else add("chainId", J()); // unspecified for unprotected transactions
    add("yParity", js(qhex((uint64_t) x.y))); if (x.type) { J al = jarr(); for (auto& a : x.al) { J e = jobj(), ks = jarr(); for (auto& q : a.keys) ks.a.push_back(js(hex(q))); e.o = {{"address", js(hex(a.a))}, {"storageKeys", ks}}; al.a.push_back(e); } add("accessList", al); }
    if (x.type >= 2) { add("maxFeePerGas", js(qhex(x.maxFee))); add("maxPriorityFeePerGas", js(qhex(x.prio))); }
    if (x.type == 3) { J l = jarr(); for (auto& q : x.blobs) l.a.push_back(js(hex(q))); add("blobVersionedHashes", l); }
    if (x.type == 4) { J l = jarr(); for (auto& a : x.auth) { J e = jobj(); e.o = {{"address", js(hex(a.a))}, {"chainId", js(qhex(a.chain))}, {"nonce", js(qhex(a.nonce))}, {"r", js(qhex(a.r))}, {"s", js(qhex(a.s))}, {"yParity", js(qhex((uint64_t) a.y))}}; l.a.push_back(e); } add("authorizationList", l); }
    return o;
  }
  J j_log(int i, int t, int l) const { auto& k = b[i]; auto& L = k.rc[t].logs[l]; J o = jobj(), tp = jarr(), f; f.k = J::BOOLEAN; f.b = false; for (auto& x : L.topics) tp.a.push_back(js(hex(x))); o.o = {{"blockHash", js(hex(k.hash))}, {"blockNumber", js(qhex(k.number))}, {"transactionHash", js(hex(k.txs[t].hash))}, {"transactionIndex", js(qhex((uint64_t) t))}, {"address", js(hex(L.a))}, {"logIndex", js(qhex(k.rc[t].log0 + l))}, {"removed", f}, {"topics", tp}, {"data", js(hex(L.data))}}; return o; }
  J j_rcpt(int i, int t) const { auto& k = b[i]; auto& rc = k.rc[t]; auto& x = k.txs[t]; J o = jobj(), ls = jarr(), nul; nul.k = J::NUL; for (size_t l = 0; l < rc.logs.size(); l++) ls.a.push_back(j_log(i, t, (int) l));
    o.o = {{"blockHash", js(hex(k.hash))}, {"blockNumber", js(qhex(k.number))}, {"transactionHash", js(hex(x.hash))}, {"transactionIndex", js(qhex((uint64_t) t))}, {"type", js(qhex((uint64_t) x.type))}, {"from", js(hex(x.from))}, {"to", x.to.size() ? js(hex(x.to)) : nul}, {"cumulativeGasUsed", js(qhex(rc.cum))}, {"gasUsed", js(qhex(rc.used))}, {"logs", ls}, {"logsBloom", js(hex(rc.bloom))}, {"status", js(qhex((uint64_t) rc.status))}, {"effectiveGasPrice", js(qhex(effprice(x, k.basefee)))}};
    if (x.type == 0x7e) { o.o.push_back({"depositNonce", js(qhex(rc.depnonce))}); o.o.push_back({"depositReceiptVersion", js(qhex(rc.depver))}); }
    if (x.to.empty()) o.o.push_back({"contractAddress", js(hex(sub(keccak(rlp_list({rlp_str(x.from), rlp_uint(x.nonce)})), 12)))}); else o.o.push_back({"contractAddress", nul});
    return o; }
  B txroot(int i) const { Mpt m; for (size_t t = 0; t < b[i].txs.size(); t++) m.set(txkey(t), b[i].txs[t].raw); return m.root(); }
  J j_block(int i, bool full, bool sszw = false) const { // sszw: known deviation, SSZ root of the withdrawals in place of the trie root
    auto& k = b[i]; auto& p = k.pl; J o = jobj(); auto add = [&](const S& n, const J& v) { o.o.push_back({n, v}); }; auto num = [&](const S& n) { return js(qhex(rev(p[n].b))); }; auto hx = [&](const S& n) { return js(hex(p[n].b)); };
    J txs = jarr(), ws = jarr(); for (size_t t = 0; t < k.txs.size(); t++) txs.a.push_back(full ? j_tx(i, (int) t) : js(hex(k.txs[t].hash)));
    for (auto& w : p["withdrawals"].e) { J e = jobj(); e.o = {{"index", js(qhex(rev(w["index"].b)))}, {"validatorIndex", js(qhex(rev(w["validatorIndex"].b)))}, {"address", js(hex(w["address"].b))}, {"amount", js(qhex(rev(w["amount"].b)))}}; ws.a.push_back(e); }
    Mpt wm; { size_t n = 0; for (auto& w : p["withdrawals"].e) wm.set(txkey(n++), rlp_list({rlp_str(strip(rev(w["index"].b))), rlp_str(strip(rev(w["validatorIndex"].b))), rlp_str(w["address"].b), rlp_str(strip(rev(w["amount"].b)))})); }
    add("number", num("blockNumber")); add("hash", hx("blockHash")); add("transactions", txs); add("logsBloom", hx("logsBloom")); add("receiptsRoot", hx("receiptsRoot")); add("extraData", hx("extraData")); add("withdrawalsRoot", sszw ? js(hex(htr(p["withdrawals"]))) : js(hex(wm.root()))); add("baseFeePerGas", num("baseFeePerGas")); add("nonce", js("0x0000000000000000")); add("miner", hx("feeRecipient")); add("withdrawals", ws); add("excessBlobGas", num("excessBlobGas")); add("difficulty", js("0x0")); add("gasLimit", num("gasLimit")); add("gasUsed", num("gasUsed")); add("timestamp", num("timestamp")); add("mixHash", hx("prevRandao")); add("parentHash", hx("parentHash")); add("uncles", jarr()); add("parentBeaconBlockRoot", js(hex(k.header["parentRoot"].b))); add("sha3Uncles", js("0x1dcc4de8dec75d7aab85b567b6ccd41ad312451b948a7413f0a142fd40d49347")); add("transactionsRoot", js(hex(txroot(i)))); add("stateRoot", hx("stateRoot")); add("blobGasUsed", num("blobGasUsed"));
    return o;
  }
  J j_proof(int i, const B& a, const Bs& keys) const { auto& k = b[i]; auto it = k.st.find(a); Acct e; if (it != k.st.end()) e = it->second; J o = jobj(), ap = jarr(), sp_ = jarr(); for (auto& n : k.acc.prove(keccak(a))) ap.a.push_back(js(hex(n))); Mpt m = e.strie(); for (auto& q : keys) { J x = jobj(), pr = jarr(); for (auto& n : m.prove(keccak(q))) pr.a.push_back(js(hex(n))); auto si = e.st.find(q); x.o = {{"key", js(hex(q))}, {"value", js(qhex(si == e.st.end() ? B() : si->second))}, {"proof", pr}}; sp_.a.push_back(x); }
    o.o = {{"balance", js(qhex(e.balance))}, {"codeHash", js(hex(keccak(e.code)))}, {"nonce", js(qhex(e.nonce))}, {"storageHash", js(hex(m.root()))}, {"accountProof", ap}, {"storageProof", sp_}}; return o; }
};
// slot near the start of a period inside the given fork (and not at its very first period)
inline uint64_t slot_in(const Spec& s, int fork, Rng& r) { uint64_t e0 = s.fe[fork - 1], e1 = fork < 6 ? s.fe[fork] : ~0ULL; if (e1 == ~0ULL) e1 = e0 + 3000; uint64_t e = e0 + 1 + r.below(e1 - e0 - 2); return (e << s.eb) + r.below(1ULL << s.eb); }
} // namespace synth
