// Light client data of a synthetic chain: bootstraps, updates and the upstream nodes which serve them.
#pragma once
#include "synth.hpp"
namespace synth {
struct LcOpt { const Committee *next = nullptr, *cur = nullptr, *field = nullptr, *signer = nullptr; int bits = -1, fork_domain = -1; uint64_t sigslot = 0; bool forged_final = false, wrong_branch = false; const Val* fin = nullptr; };
struct Lc {
  World& w; std::map<uint64_t, B> upd; std::map<B, B> boot; std::map<uint64_t, B> finroot; // by period, by root, by slot
  explicit Lc(World& x) : w(x) {}
  N state(uint64_t slot, const B& fin, const LcOpt& o) { N s; int f = fork_slot(w.sp, slot); int nf = f >= FULU ? 38 : f >= ELECTRA ? 37 : 28; std::vector<N> c; for (int i = 0; i < nf; i++) c.push_back(leafn(w.r.raw(32))); Val cp(ty::checkpoint()); cp["epoch"].u(epoch_of(w.sp, slot) - 2); cp["root"].set(fin); c[20] = tree(cp); uint64_t p = period_of(w.sp, slot); c[22] = (o.cur ? *o.cur : w.com(p)).tr; c[23] = (o.next ? *o.next : w.com(p + 1)).tr; return merkle(c, cdepth(nf)); }
  Val head(const Val& beacon) { Val h(ty::lchead()); fill(h, w.r); h["beacon"] = beacon; return h; }
  static int depth(int fork) { return fork <= DENEB ? 5 : 6; }
  uint64_t gi(int field, uint64_t slot) { return (1ULL << depth(fork_slot(w.sp, slot))) + field; }
  Val update(uint64_t aslot, const LcOpt& o = LcOpt(), uint64_t* fs = nullptr, B* fr = nullptr) {
    int f = fork_slot(w.sp, aslot); Val v(f <= DENEB ? ty::upd_d() : ty::upd_e()); uint64_t fslot = ((aslot >> w.sp.eb) - 2) << w.sp.eb;
    Val fin = o.fin ? *o.fin : w.mkheader(fslot, w.r.raw(32), w.r.raw(32), w.r.raw(32)); if (o.fin) fslot = fin["slot"].u(); B froot = htr(fin); if (fs) *fs = fslot; if (fr) *fr = froot;
    N st = state(aslot, o.forged_final ? w.r.raw(32) : froot, o); Val at = w.mkheader(aslot, w.r.raw(32), st->h, w.r.raw(32));
    uint64_t ss = o.sigslot ? o.sigslot : aslot + 1; B bits = bits_n(o.bits < 0 ? 342 + (int) w.r.below(171) : o.bits, w.r); const Committee& sg = o.signer ? *o.signer : w.com(period_of(w.sp, ss));
    B m = o.fork_domain >= 0 ? hash2(htr(at), domain(w.sp, o.fork_domain)) : signing_root(w.sp, htr(at), ss);
    const Committee& fd = o.field ? *o.field : o.next ? *o.next : w.com(period_of(w.sp, aslot) + 1);
    v["attestedHeader"] = head(at); v["nextSyncCommittee"] = fd.val; setvec(v["nextSyncCommitteeBranch"], branch(st, gi(o.wrong_branch ? 22 : 23, aslot))); v["finalizedHeader"] = head(fin); setvec(v["finalityBranch"], branch(st, gi(20, aslot) * 2 + 1)); v["syncAggregate"]["syncCommitteeBits"].b = bits; if (popcount(bits)) v["syncAggregate"]["syncCommitteeSignature"].b = sg.sign(m, bits); else { B i(96, 0); i[0] = 0xc0; v["syncAggregate"]["syncCommitteeSignature"].b = i; } v["signatureSlot"].u(ss); return v;
  }
  Val bootstrap(uint64_t slot, B* root = nullptr, const LcOpt& o = LcOpt()) { int f = fork_slot(w.sp, slot); Val v(f <= DENEB ? ty::boot_d() : ty::boot_e()); N st = state(slot, w.r.raw(32), o); Val h = w.mkheader(slot, w.r.raw(32), st->h, w.r.raw(32)); v["header"] = head(h); v["currentSyncCommittee"] = (o.field ? *o.field : o.cur ? *o.cur : w.com(period_of(w.sp, slot))).val; setvec(v["currentSyncCommitteeBranch"], branch(st, gi(o.wrong_branch ? 23 : 22, slot))); if (root) *root = htr(h); return v; }
  B digest(uint64_t slot) { B v = w.sp.ver(fork_slot(w.sp, slot)); v.resize(32, 0); return sub(hash2(v, unhex(w.sp.gvr)), 0, 4); }
  static uint64_t aslot_of(const Val& u) { return u["attestedHeader"]["beacon"]["slot"].u(); }
  B list(const std::vector<B>& us, const std::vector<uint64_t>& slots, bool lighthouse = false) { // the two encodings in use
    B o; if (!lighthouse) { for (size_t i = 0; i < us.size(); i++) { put(o, le(us[i].size() + 4, 8)); put(o, digest(slots[i])); put(o, us[i]); } return o; }
    std::vector<B> el; for (size_t i = 0; i < us.size(); i++) el.push_back(cat({le(us[i].size() + 4, 8), le(12, 4), digest(slots[i]), le(8, 4), us[i]})); size_t off = 4 * el.size(); for (auto& e : el) { put(o, le(off, 4)); off += e.size(); } for (auto& e : el) put(o, e); return o;
  }
};
} // namespace synth
