// OP stack on top of the synthetic chain: sequencer signed payloads and the proofs made of them.
#pragma once
#include "synth.hpp"
#include <zstd.h>
namespace synth {
namespace ty {
#define TY(name, ...) inline T name() { static T t = __VA_ARGS__; return t; }
TY(op_bp, tunion({{"preconf", tcont({{"payload", tunion({{"zstd", raw()}, {"plain", raw()}})}, {"signature", tbytes(65)}})}}))
TY(op_rec, tcont({{"transaction", raw()}, {"transactionIndex", tuint(4)}, {"receipt_proof", mproof(64)}, {"tx_proof", mproof(64)}, {"block_proof", op_bp()}}))
TY(op_logs, tcont({{"block_proof", op_bp()}, {"txs", tlist(tcont({{"transactionIndex", tuint(4)}, {"proof", mproof(256)}, {"tx_proof", mproof(64)}}), 256)}}))
TY(op_tx, tcont({{"tx_proof", mproof(64)}, {"transactionIndex", tuint(4)}, {"block_proof", op_bp()}}))
TY(op_acc, tcont({{"accountProof", mproof(256)}, {"address", addr()}, {"storageProof", tlist(storproof(), 256)}, {"block_proof", op_bp()}}))
TY(op_call, tcont({{"accounts", tlist(tcont({{"accountProof", mproof(256)}, {"address", addr()}, {"code", tunion({{"code_used", tbool()}, {"code", tblist(4194304)}})}, {"storageProof", tlist(storproof(), 4096)}}), 256)}, {"block_proof", op_bp()}}))
TY(op_block, tcont({{"block_proof", op_bp()}}))
TY(op_proof, tunion({{"none", tnone()}, {"account", op_acc()}, {"tx", op_tx()}, {"receipt", op_rec()}, {"logs", tlist(op_logs(), 256)}, {"call", op_call()}, {"block", op_block()}}))
TY(op_request, tcont({{"version", tbytes(4)}, {"data", data()}, {"proof", op_proof()}, {"sync_data", tunion({{"none", tnone()}, {"lc", lcsync()}, {"zk", zksync()}})}}))
#undef TY
} // namespace ty
inline Spec op_spec(uint64_t id) { Spec s = specs()[0]; s.id = id; return s; }
inline B zstd(const B& in, int level, bool size) {
  ZSTD_CCtx* c = ZSTD_createCCtx(); ZSTD_CCtx_setParameter(c, ZSTD_c_compressionLevel, level); ZSTD_CCtx_setParameter(c, ZSTD_c_contentSizeFlag, size ? 1 : 0);
  B out(ZSTD_compressBound(in.size())); size_t n = ZSTD_compress2(c, out.data(), out.size(), in.data(), in.size()); ZSTD_freeCCtx(c); out.resize(n); return out;
}
struct OpChain {
  World& w; B key; // of the sequencer
  OpChain(World& x, const B& k) : w(x), key(k) {}
  B beacon_root(int i) const { return w.b[i].header["parentRoot"].b; }
  B payload(int i) const { return cat({beacon_root(i), w.b[i].pl.ser()}); }
  static B sign(const B& key, const B& payload, uint64_t chain, int v0) { B h = keccak(cat({B(32, 0), be(chain, 32), keccak(payload)})); auto g = Secp::sign(key, h); return cat({padl(g.r, 32), padl(g.s, 32), B{(uint8_t) (g.v + v0)}}); }
  Val bp(int i, Rng& r) const { B p = payload(i); Val v(ty::op_bp()); Val& c = v.choose(0); c["payload"].choose(0).b = zstd(p, (int) r.range(1, 12), !r.chance(1, 4)); c["signature"].b = sign(key, p, w.sp.id, r.chance(1, 2) ? 27 : 0); return v; }
  B preconf(int i, Rng& r) const { Val v = bp(i, r); return cat({v.e[0]["payload"].e[0].b, v.e[0]["signature"].b}); }
  // the same proof on the OP stack: blocks[n] is the block of the n-th header proof
  Val convert(const Val& q, const std::vector<int>& blocks, Rng& r) const {
    Val v(ty::op_request()); v["version"].set({6, 1, 0, 4}); v["data"] = q["data"]; const Val& p = q["proof"].e[0]; int s = q["proof"].sel;
    auto cp = [&](Val& d, const Val& f, std::initializer_list<const char*> n) { for (auto x : n) d[x] = f[x]; };
    Val& P = v["proof"];
    if (s == 1) { Val& d = P.choose(1); cp(d, p, {"accountProof", "address", "storageProof"}); d["block_proof"] = bp(blocks[0], r); }
    else if (s == 2) { Val& d = P.choose(2); cp(d, p, {"transactionIndex"}); d["block_proof"] = bp(blocks[0], r); }
    else if (s == 3) { Val& d = P.choose(3); cp(d, p, {"transactionIndex", "receipt_proof"}); d["block_proof"] = bp(blocks[0], r); }
    else if (s == 4) { Val& d = P.choose(4); for (size_t i = 0; i < p.e.size(); i++) { Val& l = d.add(); l["block_proof"] = bp(blocks[i], r); for (auto& t : p.e[i]["txs"].e) { Val& x = l["txs"].add(); cp(x, t, {"transactionIndex", "proof"}); } } }
    else if (s == 5) { Val& d = P.choose(5); cp(d, p, {"accounts"}); d["block_proof"] = bp(blocks[0], r); }
    else { Val& d = P.choose(6); d["block_proof"] = bp(blocks[0], r); }
    return v;
  }
};
} // namespace synth
