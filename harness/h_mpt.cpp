// Merkle-Patricia tries: builder and proof verifier vs. reference trie.
#include "repo.hpp"
extern "C" {
#include "patricia.h"
}
static const ssz_def_t EL = SSZ_BYTES("Bytes", 1073741824);
static ssz_def_t PROOF = {.name = "p", .type = SSZ_TYPE_LIST, .def = {.vector = {.len = 1024, .type = &EL}}};
static B ser_proof(const std::vector<B>& p) { B f, d; for (auto& x : p) { put(f, le(4 * p.size() + d.size(), 4)); put(d, x); } put(f, d); return f; }
static std::vector<B> de_proof(const B& b) { std::vector<B> r; if (b.size() < 4) return r; uint32_t n = (uint32_t) rd_le(b.data(), 4) / 4; if (n * 4 > b.size()) die("de_proof"); for (uint32_t i = 0; i < n; i++) { uint32_t o = (uint32_t) rd_le(&b[4 * i], 4), e = i + 1 < n ? (uint32_t) rd_le(&b[4 * i + 4], 4) : (uint32_t) b.size(); if (o > e || e > b.size()) return {B{0xde, 0xad}}; r.push_back(sub(b, o, e - o)); } return r; }
struct Res { int res; B root; B val; bool has; };
static Res verify(const B& key, const std::vector<B>& proof) {
  B s = ser_proof(proof); HB h(s), k(key);
  ssz_ob_t ob = {.bytes = h.b(), .def = &PROOF};
  bytes32_t root; memset(root, 0xee, 32); bytes_t v = {0};
  int r = patricia_verify(root, k.b(), ob, &v); M().evals++;
  return {r, B(root, root + 32), toB(v), v.data != NULL};
}
static B genkey(Rng& r, int mode) {
  switch (mode) {
    case 0: return keccak(r.raw(8));
    case 1: return rlp_uint(r.pick<uint64_t>({r.below(4), r.below(200), r.below(3000)}));
    case 2: { B k; int n = (int) r.below(5); for (int i = 0; i < n; i++) k.push_back(r.pick<uint8_t>({0x00, 0x01, 0x10, 0x11, 0xff})); return k; }
    case 3: { B k(r.range(1, 4), 0); for (auto& c : k) c = r.pick<uint8_t>({0x00, 0x11, 0x12, 0x80, 0x0f}); return k; }
    default: { B k(32, 0); k[31] = (uint8_t) r.below(6); k[r.below(32)] ^= (uint8_t) (1 << r.below(8)); return k; }
  }
}
static B genval(Rng& r, int mode) { size_t n = mode == 0 ? 1 + r.below(3) : mode == 1 ? 1 + r.below(40) : r.pick<uint64_t>({1, 20, 31, 32, 33, 70, 110, 300, 600}); B v = r.raw(n); if (v.size() == 1 && v[0] == 0) v[0] = 1; return v; }
static void mutate(Rng& r, std::vector<B>& p, const Mpt& other, const std::vector<B>& all) {
  switch (r.below(9)) {
    case 0: if (!p.empty()) { auto& x = p[r.below(p.size())]; if (!x.empty()) x[r.below(x.size())] ^= (uint8_t) (1 << r.below(8)); } break;
    case 1: if (!p.empty()) p.pop_back(); break;
    case 2: if (!p.empty()) p.erase(p.begin() + r.below(p.size())); break;
    case 3: p.push_back(p.empty() ? r.raw(10) : r.pick(p)); break;
    case 4: if (p.size() > 1) std::swap(p[r.below(p.size())], p[r.below(p.size())]); break;
    case 5: if (!p.empty()) { auto& x = p[r.below(p.size())]; x.resize(r.below(x.size() + 1)); } break;
    case 6: p.clear(); break;
    case 7: if (!p.empty()) { auto& x = p[r.below(p.size())]; put(x, r.raw(1 + r.below(3))); } break;
    case 8: { // crafted node in last position
      B n; switch (r.below(6)) { case 0: n = rlp_list({rlp_str({}), rlp_str(r.raw(4))}); break; case 1: n = rlp_list({rlp_str(B{0x20}), rlp_str(r.raw(3))}); break; case 2: n = rlp_list({rlp_str(B{0x00}), rlp_str(r.raw(32))}); break; case 3: { std::vector<B> c(17, B{0x80}); c[r.below(17)] = r.chance(1, 2) ? rlp_str(r.raw(r.below(40))) : rlp_list({rlp_str(B{0x20}), rlp_str(r.raw(2))}); n = rlp_list(c); break; } case 4: n = r.raw(r.below(50)); break; case 5: n = B{(uint8_t) r.u64()}; }
      if (p.empty()) p.push_back(n); else p.back() = n; break; }
  }
}
// proofs which are consistent with their own root, but end in a node no trie has
static B hp(const B& nib, int flag) { B o; size_t i = 0; if (nib.size() & 1) { o.push_back((uint8_t) (flag << 4 | 0x10 | nib[0])); i = 1; } else o.push_back((uint8_t) (flag << 4)); for (; i < nib.size(); i += 2) o.push_back((uint8_t) (nib[i] << 4 | nib[i + 1])); return o; }
static void crafted(Rng& r) {
  B key = r.raw(r.range(2, 32)), nib; for (auto c : key) { nib.push_back(c >> 4); nib.push_back(c & 15); }
  struct Step { int kind; size_t n; }; std::vector<Step> st; size_t at = 0; for (uint64_t d = r.below(4); d > 0 && at + 2 < nib.size(); d--) { int k = st.size() && st.back().kind == 1 ? 0 : (int) r.below(2); size_t n = k ? 1 + r.below(std::min<size_t>(4, nib.size() - at - 2)) : 1; st.push_back({k, n}); at += n; }
  B rest(nib.begin() + at, nib.end()), val = r.raw(r.range(33, 60)), node; int want = 0; S how; bool odd = rest.size() & 1; (void) odd;
  auto branch = [&](size_t n) { std::vector<B> c(n, B{0x80}); c[15 - (rest.size() ? (rest[0] == 15) : 0)] = rlp_str(r.raw(32)); return c; };
  switch (r.below(14)) {
    case 0: node = rlp_list({rlp_str(hp(rest, 2)), rlp_str(val)}); want = PATRICIA_FOUND; how = "leaf"; break;
    case 1: { B o = rest; o[r.below(o.size())] ^= 1; node = rlp_list({rlp_str(hp(o, 2)), rlp_str(val)}); want = PATRICIA_NOT_EXISTING; how = "other leaf"; break; }
    case 2: node = rlp_list({rlp_str(hp(rest, (int) r.pick<uint64_t>({4, 6, 8, 10, 12, 14}))), rlp_str(val)}); how = "unknown prefix"; break;
    case 3: node = rlp_list({rlp_str(hp(rest, 2)), rlp_str(val), rlp_str(r.raw(3))}); how = "three items"; break;
    case 4: node = rlp_list(branch(r.pick<uint64_t>({16, 18}))); how = "wrong branch size"; break;
    case 5: { size_t n = 1 + r.below(rest.size()); node = rlp_list({rlp_str(hp(B(rest.begin(), rest.begin() + n), 0)), rlp_str(r.raw(r.pick<uint64_t>({0, 1, 31, 33, 40})))}); how = "child which is no hash"; break; }
    case 6: { size_t n = 1 + r.below(rest.size()); node = rlp_list({rlp_str(hp(B(rest.begin(), rest.begin() + n), 0)), rlp_str(r.raw(32))}); how = "open extension"; break; }
    case 7: node = rlp_list({rlp_str(hp(rest, 2)), rlp_list({rlp_str(val)})}); how = "list as value"; break;
    case 8: node = rlp_list({}); how = "empty list"; break;
    case 9: node = rlp_str(val); how = "string"; break;
    case 10: node = rlp_list({rlp_list({rlp_str(hp(rest, 2))}), rlp_str(val)}); how = "list as path"; break;
    case 11: { auto c = branch(17); c[rest[0]] = B{0x80}; node = rlp_list(c); want = PATRICIA_NOT_EXISTING; how = "empty slot"; break; }
    case 12: { auto c = branch(17); c[rest[0]] = rlp_str(r.raw(r.pick<uint64_t>({1, 31, 33}))); node = rlp_list(c); how = "slot which is no hash"; break; }
    default: { auto c = branch(17); c[rest[0]] = rlp_str(r.raw(32)); node = rlp_list(c); how = "open branch"; } // hash without witness
  }
  std::vector<B> pr = {node}; size_t q = at;
  for (size_t i = st.size(); i-- > 0;) { B h = rlp_str(keccak(pr[0])); q -= st[i].n; B n; if (st[i].kind) n = rlp_list({rlp_str(hp(B(nib.begin() + q, nib.begin() + q + st[i].n), 0)), h}); else { std::vector<B> c(17, B{0x80}); c[(nib[q] + 1) % 16] = rlp_str(r.raw(32)); c[nib[q]] = h; n = rlp_list(c); } pr.insert(pr.begin(), n); }
  if (want && r.chance(1, 3)) { pr.push_back(r.chance(1, 2) ? r.raw(20) : rlp_list({rlp_str(hp(rest, 2)), rlp_str(val)})); want = 0; how += " and a further node"; }
  S pn; for (auto& x : pr) pn += hex(x) + " "; M().label("crafted " + how + " key " + hex(key) + " proof " + pn); Res v = verify(key, pr); M().hit("crafted"); M().obs("crafted:" + how + ":" + std::to_string(st.size()));
  if (v.res != want || (want == PATRICIA_FOUND && v.val != val)) M().viol("mpt-crafted:" + how, "key " + hex(key) + " res " + std::to_string(v.res) + " expected " + std::to_string(want) + " proof " + pn.substr(0, 1500));
}
int main(int argc, char** argv) {
  M().init(argc, argv);
  return M().loop([] {
    Rng& r = M().rng;
    int km = (int) r.below(5), vm = (int) r.below(3); int n = (int) r.pick<uint64_t>({1, 2, 3, 4, 6, 10, 20, 40, r.below(150)}); if (km == 2) n = std::min(n, 12);
    if (n == 0) n = 1;
    Mpt m; node_t* t = NULL; node_t* clone = NULL; Mpt mclone; std::vector<B> keys;
    for (int i = 0; i < n; i++) {
      B k = i && r.chance(1, 8) ? r.pick(keys) : genkey(r, km); B v = genval(r, vm);
      M().label("set km=" + std::to_string(km) + " i=" + std::to_string(i));
      HB hk(k), hv(v); patricia_set_value(&t, hk.b(), hv.b()); m.set(k, v); keys.push_back(k); M().evals++;
      if (i < 6 || i % 7 == 0 || i == n - 1) { B root = toB(patricia_get_root(t)); if (root != m.root()) { S ks; for (auto& x : keys) ks += hex(x) + ","; M().viol("mpt-root", "km=" + std::to_string(km) + " after " + std::to_string(i + 1) + " insertions: root " + hex(root) + " want " + hex(m.root()) + " keys " + ks.substr(0, 1500)); patricia_node_free(t); return; } }
      if (!clone && r.chance(1, 10)) { clone = patricia_clone_tree(t); mclone = m; }
    }
    if (clone) { // a clone keeps its own life
      B c0 = toB(patricia_get_root(clone)); M().evals++; M().hit("clone");
      if (c0 != mclone.root()) M().viol("mpt-clone-root", hex(c0));
      B k = genkey(r, km), v = genval(r, vm); HB hk(k), hv(v); patricia_set_value(&clone, hk.b(), hv.b()); mclone.set(k, v);
      if (toB(patricia_get_root(clone)) != mclone.root()) M().viol("mpt-clone-set", hex(k));
      if (toB(patricia_get_root(t)) != m.root()) M().viol("mpt-clone-shared", hex(k));
      patricia_node_free(clone);
    }
    B root = m.root();
    Mpt other = m; { B k = genkey(r, km); other.set(k, genval(r, vm)); if (!keys.empty()) other.set(keys[0], genval(r, 2)); }
    for (int i = 0; i < 12; i++) {
      B k = r.chance(2, 3) ? r.pick(keys) : genkey(r, km);
      if (r.chance(1, 8) && !k.empty()) { k = r.pick(keys); if (!k.empty()) { if (r.chance(1, 2)) k.pop_back(); else k.back() ^= (uint8_t) (1 << r.below(8)); } }
      const B* want = m.get(k);
      std::vector<B> rp = m.prove(k);
      M().label("prove " + hex(k));
      HB hk(k); ssz_ob_t pr = patricia_create_merkle_proof(t, hk.b());
      std::vector<B> cp = de_proof(toB(pr.bytes));
      if (pr.def && ssz_len(pr) != cp.size()) M().viol("mpt-proof-object", "length of the returned proof object is " + std::to_string(ssz_len(pr)) + " but it has " + std::to_string(cp.size()) + " nodes");
      safe_free(pr.bytes.data); M().evals++;
      if (cp != rp) M().viol("mpt-proof", "key " + hex(k) + " km=" + std::to_string(km) + " proof nodes " + std::to_string(cp.size()) + " want " + std::to_string(rp.size()) + (want ? " existing" : " missing"));
      M().label("verify " + hex(k));
      Res v = verify(k, rp);
      if (v.root != root) M().viol("mpt-verify-root", "key " + hex(k) + " root " + hex(v.root));
      if (want ? (v.res != PATRICIA_FOUND || v.val != *want) : (v.res != PATRICIA_NOT_EXISTING)) { S pn; for (auto& x : rp) pn += hex(x) + " "; M().viol(want ? "mpt-verify-complete" : "mpt-verify-absent", "key " + hex(k) + " km=" + std::to_string(km) + " res " + std::to_string(v.res) + " val " + hex(v.val) + " want " + (want ? hex(*want) : S("absent")) + " proof " + pn.substr(0, 1200)); }
      M().obs("proof:" + std::to_string(km) + ":" + std::to_string(rp.size()) + (want ? "+" : "-"));
      // hostile variants: any verdict other than INVALID must be the truth for the root it was computed against
      for (int j = 0; j < 14; j++) {
        std::vector<B> hp = rp; B k2 = k;
        if (r.chance(1, 4)) k2 = r.pick(keys);
        if (r.chance(1, 6)) hp = other.prove(k2); else if (r.chance(1, 6)) { hp = m.prove(r.pick(keys)); }
        if (r.chance(5, 6)) mutate(r, hp, other, rp);
        if (r.chance(1, 6)) mutate(r, hp, other, rp);
        { S pn; for (auto& x : hp) pn += hex(x) + " "; M().label("hostile key " + hex(k2) + " proof " + pn); }
        Res h = verify(k2, hp);
        M().hit(h.res == 0 ? "hostile-rejected" : "hostile-accepted");
        if (h.res != 0 && h.root == root) {
          const B* w = m.get(k2); if (hp != m.prove(k2)) { S pn; for (auto& x : hp) pn += hex(x) + " "; M().viol("mpt-not-canonical", "accepted for key " + hex(k2) + " although it is not the proof of this key: " + pn.substr(0, 1500)); }
          if (w ? (h.res != PATRICIA_FOUND || h.val != *w) : h.res != PATRICIA_NOT_EXISTING) { S pn; for (auto& x : hp) pn += hex(x) + " "; M().viol("mpt-unsound", "key " + hex(k2) + " res " + std::to_string(h.res) + " val " + hex(h.val) + " truth " + (w ? hex(*w) : S("absent")) + " proof " + pn.substr(0, 1500)); }
        }
      }
    }
    for (int i = 0; i < 20; i++) crafted(r);
    if (M().cur < 2) { Res e = verify(keccak(B{1}), {}); if (e.res != 0 && e.root != keccak(B{0x80})) M().viol("mpt-empty-proof", "an empty proof yields result " + std::to_string(e.res) + " for root " + hex(e.root)); }
    M().sample("km=" + std::to_string(km) + " n=" + std::to_string(n) + " root=" + hex(root));
    patricia_node_free(t);
  });
}
