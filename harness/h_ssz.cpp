// SSZ: random types and values; repository codec, validator, accessors, hash tree root and merkle proofs vs. reference.
#include "repo.hpp"
struct Ty { T r; ssz_def_t d; S shape; };
static std::vector<std::unique_ptr<std::vector<ssz_def_t>>> arenas; static std::vector<std::unique_ptr<S>> names;
static const char* nm(const S& s) { names.push_back(std::unique_ptr<S>(new S(s))); return names.back()->c_str(); }
static const ssz_def_t* keep(std::vector<ssz_def_t> v) { arenas.push_back(std::unique_ptr<std::vector<ssz_def_t>>(new std::vector<ssz_def_t>(v))); return arenas.back()->data(); }
static bool deep_ok = true, with_union = false;
static Ty gen(Rng& r, int depth, const S& name) {
  Ty t; ssz_def_t d; memset(&d, 0, sizeof d); d.name = nm(name);
  int k = (int) r.below(depth > 0 ? 11 : 6);
  auto lim = [&]() { return r.pick<uint64_t>({1, 2, 3, 4, 5, 7, 8, 16, 31, 32, 33, 64, 100, 513, 1024, 1 << 20}); };
  switch (k) {
    case 0: { uint64_t n = r.pick<uint64_t>({1, 2, 4, 8, 32}); t.r = tuint(n); d.type = SSZ_TYPE_UINT; d.def.uint.len = (uint32_t) n; t.shape = "u" + std::to_string(n); break; }
    case 1: t.r = tbool(); d.type = SSZ_TYPE_BOOLEAN; d.def.uint.len = 1; t.shape = "b"; break;
    case 2: { uint64_t n = r.pick<uint64_t>({1, 4, 20, 31, 32, 33, 48, 64, 96, 100, 256}); t.r = tbytes(n); d.type = SSZ_TYPE_VECTOR; d.def.vector.len = (uint32_t) n; d.def.vector.type = &ssz_uint8; t.shape = "B" + std::to_string(n); break; }
    case 3: { uint64_t n = lim(); t.r = tblist(n); d.type = SSZ_TYPE_LIST; d.def.vector.len = (uint32_t) n; d.def.vector.type = &ssz_uint8; t.shape = "L" + std::to_string(n); break; }
    case 4: { uint64_t n = r.pick<uint64_t>({1, 4, 7, 8, 9, 64, 255, 256, 257, 512, 513}); t.r = tbitvec(n); d.type = SSZ_TYPE_BIT_VECTOR; d.def.vector.len = (uint32_t) n; t.shape = "bv" + std::to_string(n); break; }
    case 5: { uint64_t n = r.pick<uint64_t>({1, 4, 7, 8, 9, 64, 255, 256, 257, 512, 513, 2048}); t.r = tbitlist(n); d.type = SSZ_TYPE_BIT_LIST; d.def.vector.len = (uint32_t) n; t.shape = "bl" + std::to_string(n); break; }
    case 6: case 7: { // vector of fixed or list of anything
      Ty e = gen(r, depth - 1, name + "e"); bool vec = e.r->fixed() && r.chance(1, 2); if ((e.r->k == UINT && e.r->n == 1)) { t.r = vec ? tbytes(7) : tblist(70); d.type = vec ? SSZ_TYPE_VECTOR : SSZ_TYPE_LIST; d.def.vector.len = vec ? 7 : 70; d.def.vector.type = &ssz_uint8; t.shape = "u8" + S(vec ? "v" : "l"); break; }
      if (e.r->k == BOOL) vec = false; uint64_t n = vec ? r.pick<uint64_t>({1, 2, 3, 4, 5, 8, 9}) : lim(); t.r = vec ? tvec(e.r, n) : tlist(e.r, n); d.type = vec ? SSZ_TYPE_VECTOR : SSZ_TYPE_LIST; d.def.vector.len = (uint32_t) n; d.def.vector.type = keep({e.d}); t.shape = S(vec ? "V" : "L") + std::to_string(n) + "(" + e.shape + ")"; break; }
    default: {
      bool un = with_union && r.chance(1, 6);
      int n = (int) r.pick<uint64_t>({1, 2, 3, 4, 5, 6, 8, 9, 17}); std::vector<std::pair<S, T>> f; std::vector<ssz_def_t> ds; t.shape = un ? "U{" : "C{";
      if (un) { n = 1 + (int) r.below(4); f.push_back({"NONE", tnone()}); ssz_def_t nd; memset(&nd, 0, sizeof nd); nd.name = "NONE"; nd.type = SSZ_TYPE_NONE; ds.push_back(nd); }
      for (int i = 0; i < n; i++) { S fn = name + "f" + std::to_string(i); Ty e = gen(r, depth - 1, fn); if (un && e.r->k == UNION) { i--; continue; } f.push_back({fn, e.r}); e.d.name = nm(fn); ds.push_back(e.d); t.shape += e.shape + ","; }
      t.shape += "}"; t.r = un ? tunion(f) : tcont(f); d.type = un ? SSZ_TYPE_UNION : SSZ_TYPE_CONTAINER; d.def.container.elements = keep(ds); d.def.container.len = (uint32_t) ds.size(); }
  }
  t.d = d; return t;
}
static int budget;
static void fill(Rng& r, Val& v) {
  const Type& t = *v.t; budget--;
  switch (t.k) {
    case UINT: case BYTEVEC: v.b = r.raw(t.size()); if (t.k == UINT && r.chance(1, 3)) { v.b.assign(t.size(), 0); if (r.chance(1, 2)) v.b[0] = (uint8_t) r.below(5); } break;
    case BOOL: v.b = B{(uint8_t) r.below(2)}; break;
    case BITVEC: v.b = r.raw(t.size()); if (t.n % 8) v.b.back() &= (uint8_t) ((1 << (t.n % 8)) - 1); break;
    case BYTELIST: { uint64_t n = std::min<uint64_t>(t.n, r.pick<uint64_t>({0, 1, 31, 32, 33, 64, 65, 100, t.n, r.below(200)})); if (n > 3000) n = r.chance(1, 40) ? std::min<uint64_t>(t.n, r.range(65500, 70000)) : 3000; v.b = r.raw(n); break; }
    case BITLIST: { uint64_t n = std::min<uint64_t>(t.n, r.pick<uint64_t>({0, 1, 7, 8, 9, 255, 256, 257, t.n, r.below(t.n + 1)})); v.bits = n; v.b = r.raw(n / 8 + 1); break; }
    case LIST: { uint64_t n = std::min<uint64_t>(t.n, r.pick<uint64_t>({0, 0, 1, 2, 3, 4, 5, 9, t.n <= 16 ? t.n : 3})); if (budget < 0) n = 0; else if (t.n >= (1 << 20) && t.el->k == UINT && r.chance(1, 12)) n = r.pick<uint64_t>({255, 257, 1000, 65536, 66001}); v.e.clear(); for (uint64_t i = 0; i < n; i++) { v.e.push_back(Val(t.el)); fill(r, v.e.back()); } break; }
    case VEC: case CONT: for (auto& x : v.e) fill(r, x); break;
    case UNION: { int s = (int) r.below(t.f.size()); v.choose(s); fill(r, v.e[0]); break; }
    default: break;
  }
}
static ssz_ob_t OB(const HB& h, const ssz_def_t* d) { ssz_ob_t o; o.bytes = h.b(); o.def = d; return o; }
static bool has_union(const Type& t) { if (t.k == UNION) return true; if (t.el && has_union(*t.el)) return true; for (auto& f : t.f) if (has_union(*f.second)) return true; return false; }
// accessors
static void access(const Val& v, ssz_ob_t o, const S& shape) {
  const Type& t = *v.t; M().evals++;
  if (toB(o.bytes) != v.ser()) { M().viol("ssz-access", "accessor returned other bytes in " + shape); return; }
  if (t.k == CONT) for (size_t i = 0; i < t.f.size(); i++) {
    ssz_ob_t c = ssz_get(&o, t.f[i].first.c_str());
    if (v.e[i].t->k == UNION) { const Val& u = v.e[i]; M().evals++; if (toB(c.bytes) != u.e[0].ser() || !c.def || (c.def->type == SSZ_TYPE_NONE) != (u.e[0].t->k == NONE)) M().viol("ssz-union-get", shape); if (c.def && u.e[0].t->k != NONE) access(u.e[0], c, shape); continue; }
    if (!c.def) { M().viol("ssz-get-missing", shape + " field " + t.f[i].first); return; }
    access(v.e[i], c, shape);
  }
  else if (t.k == VEC || t.k == LIST) {
    M().evals++;
    if (ssz_len(o) != v.e.size()) { M().viol("ssz-len", shape + " len " + std::to_string(ssz_len(o)) + " want " + std::to_string(v.e.size())); return; }
    for (size_t i = 0; i < v.e.size(); i++) { ssz_ob_t c = ssz_at(o, (uint32_t) i); if (!c.def) { M().viol("ssz-at-missing", shape); return; } if (v.e[i].t->k != UNION) access(v.e[i], c, shape); else { M().evals++; if (toB(c.bytes) != v.e[i].ser()) M().viol("ssz-at", shape); ssz_ob_t u = ssz_union(c); if (toB(u.bytes) != v.e[i].e[0].ser()) M().viol("ssz-union", shape); } }
    ssz_ob_t past = ssz_at(o, (uint32_t) v.e.size()); if (past.def) M().viol("ssz-at-past-end", shape);
  }
  else if (t.k == BITLIST) { M().evals++; if (ssz_len(o) != v.bits) M().viol("ssz-bitlist-len", shape + " " + std::to_string(ssz_len(o)) + " want " + std::to_string(v.bits)); }
  else if (t.k == UINT && t.n <= 8) { M().evals++; if (ssz_uint64(o) != v.u()) M().viol("ssz-uint", shape); }
}
// builder
static ssz_ob_t build(const Val& v, const ssz_def_t* d) {
  ssz_builder_t b = ssz_builder_for_def(d); const Type& t = *v.t;
  if (t.k == CONT) for (size_t i = 0; i < t.f.size(); i++) {
    const ssz_def_t* cd = d->def.container.elements + i; const Val& c = v.e[i];
    if (c.t->k == UINT && c.t->n == 8) ssz_add_uint64(&b, c.u());
    else if (c.t->k == UINT && c.t->n == 4) ssz_add_uint32(&b, (uint32_t) c.u());
    else if (c.t->k == UINT && c.t->n == 2) ssz_add_uint16(&b, (uint16_t) c.u());
    else if (c.t->k == UINT && c.t->n == 1) ssz_add_uint8(&b, (uint8_t) c.u());
    else if (c.t->k == UINT && c.t->n == 32) { HB h(rev(c.b)); B mb = strip(rev(c.b)); HB hm(mb); ssz_add_uint256(&b, (c.b[0] & 1) ? h.b() : hm.b()); }
    else if (c.t->k == CONT) { ssz_ob_t o = build(c, cd); ssz_builder_t cb = ssz_builder_for_def(cd); buffer_append(&cb.fixed, o.bytes); safe_free(o.bytes.data); ssz_add_builders(&b, cd->name, cb); }
    else { HB h(c.ser()); ssz_add_bytes(&b, cd->name, h.b()); }
  }
  else if (t.k == LIST && !t.el->fixed()) for (auto& x : v.e) { HB h(x.ser()); ssz_add_dynamic_list_bytes(&b, (int) v.e.size(), h.b()); }
  else { HB h(v.ser()); buffer_append(&b.fixed, h.b()); }
  return ssz_builder_to_bytes(&b);
}
static void collect(N n, uint64_t g, std::vector<uint64_t>& out, int depth) { if (depth > 25 || out.size() > 4000) return; out.push_back(g); for (int z = 0; z < 33; z++) if (n == zeron(z)) return; /* no data below */ if (n->l && g < (1ULL << 40)) { collect(n->l, g * 2, out, depth + 1); if (n->r != n->l) collect(n->r, g * 2 + 1, out, depth + 1); } }
static bool related(uint64_t a, uint64_t b) { if (a < b) std::swap(a, b); while (a > b) a >>= 1; return a == b; }
static void merkle(const Ty& ty, const Val& v, const HB& h) {
  Rng& r = M().rng; N root = tree(v); bytes32_t out;
  ssz_hash_tree_root(OB(h, &ty.d), out); M().evals++;
  if (B(out, out + 32) != root->h) { M().viol("ssz-root", "hash tree root of " + ty.shape.substr(0, 600) + " value " + hex(sub(v.ser(), 0, 200)) + " is " + hex(B(out, out + 32)) + " want " + hex(root->h)); return; }
  std::vector<uint64_t> all; collect(root, 1, all, 0);
  // positions that exist as serialized data: only nodes of the tree
  for (int i = 0; i < 6; i++) {
    std::vector<uint64_t> gs; int n = 1 + (int) r.below(5);
    for (int j = 0; j < n * 3 && (int) gs.size() < n; j++) { uint64_t g = r.pick(all); if (g == 1) continue; bool ok = true; for (auto x : gs) if (related(x, g)) ok = false; if (ok) gs.push_back(g); }
    if (gs.empty()) continue;
    S gl; for (auto g : gs) gl += std::to_string(g) + ",";
    M().label("proof " + gl + " " + ty.shape);
    std::vector<B> wp = multiproof(root, gs); B want; for (auto& x : wp) put(want, x);
    B leaves; for (auto g : gs) put(leaves, walk(root, g)->h);
    // verifier accepts the honest proof and computes the root
    { HB hp(want), hl(leaves); std::vector<gindex_t> g2(gs.begin(), gs.end()); bytes32_t ro; bool ok = ssz_verify_multi_merkle_proof(hp.b(), hl.b(), g2.data(), ro); M().evals++;
      if (!ok || B(ro, ro + 32) != root->h) M().viol("merkle-verify", "honest multiproof rejected gindexes " + gl + " " + ty.shape.substr(0, 500)); }
    if (gs.size() == 1) { HB hp(want); HB hl(leaves); bytes32_t ro; ssz_verify_single_merkle_proof(hp.b(), hl.p, gs[0], ro); M().evals++; if (B(ro, ro + 32) != root->h) M().viol("merkle-verify-single", gl); }
    // prover creates exactly the needed witnesses
    { std::vector<gindex_t> g2(gs.begin(), gs.end()); bytes32_t ro; bytes_t p = ssz_create_multi_proof_for_gindexes(OB(h, &ty.d), ro, g2.data(), (int) gs.size()); M().evals++;
      if (B(ro, ro + 32) != root->h) M().viol("merkle-create-root", gl + ty.shape.substr(0, 500));
      bool reach = true; // a witness below an all-zero subtree is not stored explicitly anywhere
      if (toB(p) != want) { B got = toB(p); if (got.size() == want.size()) { auto hi = helper_indices(gs); for (size_t k = 0; k < hi.size(); k++) if (sub(got, k * 32, 32) != wp[k]) { reach = false; M().viol("merkle-create", "witness " + std::to_string(hi[k]) + " of gindexes " + gl + " wrong in " + ty.shape.substr(0, 500)); break; } } else M().viol("merkle-create-size", "gindexes " + gl + " got " + std::to_string(got.size() / 32) + " want " + std::to_string(wp.size()) + " in " + ty.shape.substr(0, 500)); }
      (void) reach; safe_free(p.data); }
    M().obs("proof:" + std::to_string(gs.size()) + ":" + std::to_string(wp.size() / 3));
    // hostile
    for (int k = 0; k < 8; k++) {
      std::vector<uint64_t> hg = gs; B hl = leaves, hp = want; S what;
      switch (r.below(8)) {
        case 0: if (!hl.empty()) hl[r.below(hl.size())] ^= (uint8_t) (1 << r.below(8)); what = "leaf"; break;
        case 1: if (!hp.empty()) hp[r.below(hp.size())] ^= (uint8_t) (1 << r.below(8)); what = "witness"; break;
        case 2: { size_t q = r.below(hg.size()); hg[q] ^= 1; what = "gindex"; break; }
        case 3: if (hp.size() >= 32) hp.resize(hp.size() - 32); what = "short"; break;
        case 4: put(hp, r.raw(r.pick<uint64_t>({1, 16, 32}))); what = "long"; break;
        case 5: { size_t q = r.below(hg.size()); hg.push_back(hg[q]); put(hl, r.raw(32)); what = "dup"; break; }                         // second claim for the same position
        case 6: { size_t q = r.below(hg.size()); uint64_t g = hg[q] >> 1; if (g < 2) { what = "skip"; break; } hg.push_back(g); put(hl, r.raw(32)); what = "ancestor"; break; } // claim for an inner node above
        case 7: if (hg.size() > 1) { std::swap(hg[0], hg[1]); } what = "swap"; break;
      }
      if (hg == gs && hl == leaves && hp == want) continue;
      if (hg.size() != hl.size() / 32) continue;
      HB a(hp), b(hl); std::vector<gindex_t> g2(hg.begin(), hg.end()); bytes32_t ro; M().label("hostile " + what + " " + gl);
      bool ok = ssz_verify_multi_merkle_proof(a.b(), b.b(), g2.data(), ro); M().evals++; M().hit("hostile-" + what);
      if (ok && what == "long") M().viol("merkle-superfluous", "a proof with superfluous witnesses is accepted for gindexes " + gl);
      if (hg.size() == 1) { bytes32_t r1; ssz_verify_single_merkle_proof(a.b(), b.p, hg[0], r1); M().evals++; if (memcmp(r1, ro, 32)) M().viol("merkle-verify-single", "single and multi proof differ: " + what + " " + gl); }
      if (ok && B(ro, ro + 32) == root->h) { // accepted: every claim must be true
        bool truth = true; for (size_t q = 0; q < hg.size() && truth; q++) { N n = root; uint64_t g = hg[q]; for (int bit = 62 - __builtin_clzll(g); bit >= 0 && n; bit--) n = (g >> bit & 1) ? n->r : n->l; truth = n && n->h == sub(hl, q * 32, 32); }
        if (!truth) M().viol("merkle-unsound", what + ": false leaf accepted for gindexes " + gl + " in " + ty.shape.substr(0, 400));
      }
    }
  }
  // gindex of a path
  const Type* t = ty.r.get(); const ssz_def_t* d = &ty.d;
  if (t->k == CONT) {
    size_t i = r.below(t->f.size()); uint64_t g = (1ULL << cdepth(t->f.size())) + i; const Type* c = t->f[i].second.get(); M().evals++;
    if (ssz_gindex(d, 1, t->f[i].first.c_str()) != g) M().viol("gindex-field", ty.shape.substr(0, 300));
    if ((c->k == LIST || c->k == VEC) && !(c->el->k == UINT || c->el->k == BOOL)) { uint64_t idx = r.below(c->n); uint64_t g2 = gcat(g, c->k == LIST ? gcat(2, (1ULL << cdepth(c->n)) + idx) : (1ULL << cdepth(c->n)) + idx); M().evals++; uint64_t got = ssz_gindex(d, 2, t->f[i].first.c_str(), (int) idx); if (got != g2) M().viol("gindex-element", ty.shape.substr(0, 300) + " idx " + std::to_string(idx) + " got " + std::to_string(got) + " want " + std::to_string(g2)); }
    if (c->k == CONT) { size_t q = r.below(c->f.size()); M().evals++; if (ssz_gindex(d, 2, t->f[i].first.c_str(), c->f[q].first.c_str()) != gcat(g, (1ULL << cdepth(c->f.size())) + q)) M().viol("gindex-nested", ty.shape.substr(0, 300)); }
  }
  for (int i = 0; i < 4; i++) { uint64_t a = r.u64() >> r.below(64), b = r.u64() >> r.below(64); auto dp = [](uint64_t g) { return 63 - __builtin_clzll(g); }; if (!a || !b) continue; M().evals++; uint64_t want = dp(a) + dp(b) > 63 ? 0 : gcat(a, b); if (ssz_add_gindex(a, b) != want) M().viol("gindex-concat", std::to_string(a) + "," + std::to_string(b)); }
  for (int i = 0; i < 4; i++) { uint64_t a = 1 + (r.u64() >> (33 + r.below(30))), b = 1 + (r.u64() >> (34 + r.below(29))); M().evals++; if (ssz_add_gindex(a, b) != gcat(a, b)) M().viol("gindex-concat", std::to_string(a) + "," + std::to_string(b)); }
}
// the same value with one list, vector, bit list, bit vector, boolean or union breaking its bounds
static void spots(Val& v, std::vector<Val*>& out) { const Type& t = *v.t; if (t.k == BOOL || t.k == BITVEC || t.k == BYTEVEC || t.k == UNION || t.k == VEC || ((t.k == LIST || t.k == BYTELIST || t.k == BITLIST) && t.n <= 1024)) out.push_back(&v); for (auto& x : v.e) spots(x, out); }
static void breakit(Rng& r, Val& v) {
  std::vector<Val*> ps; spots(v, ps); if (ps.empty()) return; Val& x = *r.pick(ps); const Type& t = *x.t; uint64_t over = t.n + (r.chance(2, 3) ? 1 : r.range(1, 9));
  switch (t.k) {
    case BOOL: x.b = B{(uint8_t) r.range(2, 255)}; break; case BITVEC: if (t.n % 8) x.b.back() |= (uint8_t) (1 << r.range(t.n % 8, 7)); break; case BYTEVEC: if (r.chance(1, 2)) x.b.push_back(0); else x.b.pop_back(); break; case BYTELIST: x.b = r.raw(over); break; case BITLIST: x.bits = over; x.b = r.raw(over / 8 + 1); break;
    case LIST: { if (over > 40 && !(t.el->k == UINT || t.el->k == BYTEVEC || t.el->k == BYTELIST)) break; if (x.e.empty()) { x.e.push_back(Val(t.el)); fill(r, x.e[0]); } Val one = x.e[0]; if (over > 40 && one.t->k == BYTELIST) one.b.clear(); while (x.e.size() < over) x.e.push_back(one); x.e.resize(over, one); break; } case VEC: if (x.e.size() > 1 && r.chance(1, 2)) x.e.pop_back(); else if (x.e.size()) { Val one = x.e[0]; x.e.push_back(one); } break;
    case UNION: x.sel = (int) r.range(t.f.size(), 255); break; default: break; }
}
static void hostile(const Ty& ty, const Val& v) {
  Rng& r = M().rng;
  for (int i = 0; i < 10; i++) {
    B b = v.ser();
    switch (r.below(8)) {
      case 6: case 7: { Val x = v; breakit(r, x); b = x.ser(); M().hit("bounds broken"); break; }
      case 0: if (!b.empty()) b[r.below(b.size())] = (uint8_t) r.u64(); break;
      case 1: b.resize(r.below(b.size() + 1)); break;
      case 2: put(b, r.raw(1 + r.below(5))); break;
      case 3: if (b.size() >= 4) { size_t o = r.below(std::min<size_t>(b.size() - 3, 40)); B x = le(r.pick<uint64_t>({0, 1, 3, 4, 5, 8, b.size(), b.size() + 1, b.size() - 1, 0xffffffff, 0x80000000, r.below(b.size() + 4)}), 4); memcpy(&b[o], x.data(), 4); } break;
      case 4: if (!b.empty()) { size_t o = r.below(b.size()); b.erase(b.begin() + o, b.begin() + o + 1 + r.below(std::min<size_t>(4, b.size() - o))); } break;
      case 5: b = r.raw(r.below(60)); break;
    }
    M().label("validate " + ty.shape.substr(0, 300) + " " + hex(sub(b, 0, 300)));
    Val q; bool want = de(ty.r, b, q); HB h(b); c4_state_t st; memset(&st, 0, sizeof st);
    bool got = ssz_is_valid(OB(h, &ty.d), true, r.chance(1, 2) ? &st : NULL); M().evals++; free(st.error);
    M().hit(want ? "valid" : "invalid");
    if (got != want) M().viol(want ? "ssz-valid-rejected" : "ssz-invalid-accepted", ty.shape.substr(0, 500) + " bytes " + hex(sub(b, 0, 200)));
    if (got) { if (!(ty.r->k == UNION)) access(q, OB(h, &ty.d), ty.shape.substr(0, 300)); bytes32_t o; if (!has_union(*ty.r)) { ssz_hash_tree_root(OB(h, &ty.d), o); M().evals++; if (B(o, o + 32) != htr(q)) M().viol("ssz-root", "mutated " + ty.shape.substr(0, 400)); } char* s = ssz_dump_to_str(OB(h, &ty.d), false, r.chance(1, 2)); free(s); }
    else { // not validated objects must still be navigable without leaving the buffer
      ssz_ob_t o = OB(h, &ty.d);
      if (ty.r->k == CONT && b.size()) for (auto& f : ty.r->f) { ssz_ob_t c = ssz_get(&o, f.first.c_str()); if (c.def && c.bytes.data && (c.bytes.data < h.p || c.bytes.data + c.bytes.len > h.p + h.n || c.bytes.len > h.n)) M().viol("ssz-get-outside", ty.shape.substr(0, 300) + " bytes " + hex(sub(b, 0, 200))); }
      if (ty.r->k == LIST && b.size()) { for (uint32_t k = 0; k < 4; k++) { ssz_ob_t c = ssz_at(o, k); if (c.def && (c.bytes.data < h.p || c.bytes.data + c.bytes.len > h.p + h.n || c.bytes.len > h.n)) M().viol("ssz-at-outside", ty.shape.substr(0, 300)); } }
    }
  }
}
// JSON: value rendered by the repository re-reads to the same value; uints/hex rendered exactly
static S jref(const Val& v, bool hexu) {
  const Type& t = *v.t;
  switch (t.k) {
    case UINT: if (hexu) return q(qhex(rev(v.b))); if (t.n <= 8) return std::to_string(v.u()); return q(strip(rev(v.b)).empty() ? S("0x00") : hex(strip(rev(v.b))));
    case BOOL: return v.b[0] ? "true" : "false";
    case BYTEVEC: case BYTELIST: case BITVEC: return q(hex(v.b));
    case BITLIST: return q(hex(v.ser()));
    case VEC: case LIST: { S s = "["; for (size_t i = 0; i < v.e.size(); i++) s += (i ? "," : "") + jref(v.e[i], hexu); return s + "]"; }
    case CONT: { S s = "{"; for (size_t i = 0; i < v.e.size(); i++) s += (i ? "," : "") + q(t.f[i].first) + ":" + jref(v.e[i], hexu); return s + "}"; }
    default: return "null";
  }
}
static void json(const Ty& ty, const Val& v, const HB& h) {
  Rng& r = M().rng; bool hx = r.chance(1, 2);
  char* s = ssz_dump_to_str(OB(h, &ty.d), false, hx); J a, b; M().evals++;
  bool okp = jparse(s, a), okr = jparse(jref(v, hx), b); if (!okr) die("jref");
  if (!okp || a != b) { M().viol("ssz-json", "rendered " + S(s).substr(0, 300) + " want " + jref(v, hx).substr(0, 300)); free(s); return; }
  if (ty.r->k == CONT || ty.r->k == LIST || ty.r->k == VEC) {
    HB js{S(s)}; json_t j = json_parse(js.c()); c4_state_t st; memset(&st, 0, sizeof st); M().label("fromjson " + ty.shape.substr(0, 300));
    ssz_ob_t o = ssz_from_json(j, &ty.d, &st); M().evals++;
    if (toB(o.bytes) != v.ser()) M().viol("ssz-from-json", ty.shape.substr(0, 300) + " json " + S(s).substr(0, 400) + " got " + hex(sub(toB(o.bytes), 0, 100)) + " want " + hex(sub(v.ser(), 0, 100)));
    safe_free(o.bytes.data); free(st.error);
  }
  free(s);
}
int main(int argc, char** argv) {
  M().init(argc, argv); S mode = M().opt.count("--mode") ? M().opt["--mode"] : "all";
  (void) mode;
  return M().loop([&] {
    Rng& r = M().rng; arenas.clear(); names.clear();
    for (int rep = 0; rep < 6; rep++) {
      with_union = r.chance(1, 3); Ty ty = gen(r, (int) r.range(1, 4), "r");
      if (ty.r->k != CONT && r.chance(1, 2)) { ssz_def_t e = ty.d; e.name = nm("w"); Ty w; w.r = tcont({{"w", ty.r}}); memset(&w.d, 0, sizeof w.d); w.d.name = nm("W"); w.d.type = SSZ_TYPE_CONTAINER; w.d.def.container.elements = keep({e}); w.d.def.container.len = 1; w.shape = "C{" + ty.shape + "}"; ty = w; }
      Val v(ty.r); budget = 200; fill(r, v); B ser = v.ser(); HB h(ser);
      M().label("value " + ty.shape.substr(0, 800));
      M().evals++;
      c4_state_t st; memset(&st, 0, sizeof st);
      if (!ssz_is_valid(OB(h, &ty.d), true, &st)) { M().viol("ssz-valid-rejected", ty.shape.substr(0, 500) + " bytes " + hex(sub(ser, 0, 300))); free(st.error); continue; }
      if (ty.r->k != UNION) access(v, OB(h, &ty.d), ty.shape.substr(0, 400));
      M().obs(ty.shape.substr(0, 40));
      bool u = has_union(*ty.r);
      if (!u) { ssz_ob_t o = build(v, &ty.d); M().evals++; if (toB(o.bytes) != ser) M().viol("ssz-build", ty.shape.substr(0, 400)); safe_free(o.bytes.data); }
      if (mode != "codec" && !u) merkle(ty, v, h);
      if (mode != "merkle") { hostile(ty, v); if (!u && ser.size() < 20000) json(ty, v, h); }
      if (rep == 0) M().sample(ty.shape.substr(0, 200) + " = " + hex(sub(ser, 0, 60)));
    }
  });
}
