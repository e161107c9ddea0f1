// Structure-aware mutation of SSZ values (attacker model: everything in the proof may be replaced).
#pragma once
#include "synth.hpp"
namespace mut {
using namespace ref;
using synth::fill;
struct At { Val* v; Val* parent; size_t ix; S path; };
inline void walk(Val& v, Val* parent, size_t ix, const S& path, std::vector<At>& out) {
  out.push_back({&v, parent, ix, path});
  switch (v.t->k) {
    case CONT: for (size_t i = 0; i < v.e.size(); i++) walk(v.e[i], &v, i, path + "." + v.t->f[i].first, out); break;
    case UNION: walk(v.e[0], &v, 0, path + "<" + v.t->f[v.sel].first + ">", out); break;
    case LIST: for (size_t i = 0; i < v.e.size(); i++) walk(v.e[i], &v, i, path + "[]", out); break;
    case VEC: for (size_t i = 0; i < v.e.size() && i < 8; i++) walk(v.e[i], &v, i, path + "[]", out); break;
    default: break;
  }
}
inline std::vector<At> nodes(Val& v) { std::vector<At> o; walk(v, nullptr, 0, "", o); return o; }
inline bool leaf(const Val& v) { return v.t->k != CONT && v.t->k != UNION && v.t->k != LIST && v.t->k != VEC && v.t->k != NONE; }
inline void bytes_mut(B& b, Rng& r, bool resize, uint64_t max, S& how) {
  int c = (int) r.below(resize ? 9 : 6);
  if (b.empty()) c = 6;
  switch (c) {
    case 0: b[r.below(b.size())] ^= (uint8_t) (1 << r.below(8)); how = "flip"; break;
    case 1: b[0] ^= (uint8_t) r.range(1, 255); how = "first"; break;
    case 2: b.back() ^= (uint8_t) r.range(1, 255); how = "last"; break;
    case 3: b.assign(b.size(), 0); how = "zero"; break;
    case 4: b = r.raw(b.size()); how = "random"; break;
    case 5: { bool le = r.chance(1, 2); uint64_t d = r.pick({1ULL, 1ULL, 2ULL, 256ULL}); bool up = r.chance(1, 2); for (size_t i = 0; i < b.size() && d; i++) { uint8_t& x = b[le ? i : b.size() - 1 - i]; int nx = up ? x + (int) (d & 255) : x - (int) (d & 255); d >>= 8; if (nx > 255) { d++; nx -= 256; } if (nx < 0) { d++; nx += 256; } x = (uint8_t) nx; } how = "step"; break; }
    case 6: if (resize && b.size() < max) { put(b, r.raw(r.range(1, 3))); if (b.size() > max) b.resize(max); how = "extend"; } break;
    case 7: b.resize(b.size() - 1); how = "cut"; break;
    case 8: b.clear(); how = "empty"; break;
  }
}
// one random structural change below `root`; donors: other values to take subtrees from. Returns a label.
inline S one(Val& root, const std::vector<Val*>& donors, Rng& r, const S& only = "") {
  auto ns = nodes(root); if (only.size()) { std::vector<At> f; for (auto& n : ns) if (n.path.find(only) != S::npos) f.push_back(n); if (f.size()) ns = f; }
  for (int tries = 0; tries < 20; tries++) {
    At a = r.pick(ns); Val& v = *a.v; S how;
    if (donors.size() && r.chance(1, 3)) { // graft a subtree of the same type
      Val& d = *r.pick(donors); auto ds = nodes(d); std::vector<Val*> c; for (auto& n : ds) if (n.v->t == v.t && n.path == a.path) c.push_back(n.v); if (c.empty()) for (auto& n : ds) if (n.v->t == v.t) c.push_back(n.v);
      if (c.size()) { Val x = *r.pick(c); if (x.ser() != v.ser()) { v = x; return "graft " + a.path; } }
      continue;
    }
    if (v.t->k == UNION) { int s = (int) r.below(v.t->f.size()); if (s == v.sel) continue; v.choose(s); if (r.chance(1, 2)) fill(v.e[0], r); return "union " + a.path; }
    if (v.t->k == LIST) {
      switch (r.below(5)) {
        case 0: if (v.e.size()) { v.e.erase(v.e.begin() + r.below(v.e.size())); return "drop " + a.path; } break;
        case 1: if (v.e.size() && v.e.size() < v.t->n) { Val x = r.pick(v.e); v.e.insert(v.e.begin() + r.below(v.e.size() + 1), x); return "dup " + a.path; } break;
        case 2: if (v.e.size() > 1) { size_t i = r.below(v.e.size()), j = r.below(v.e.size()); if (i != j) { std::swap(v.e[i], v.e[j]); return "swap " + a.path; } } break;
        case 3: if (v.e.size() < v.t->n) { Val x(v.t->el); fill(x, r); v.e.insert(v.e.begin() + r.below(v.e.size() + 1), x); return "insert " + a.path; } break;
        case 4: if (v.e.size()) { v.e.clear(); return "clear " + a.path; } break;
      }
      continue;
    }
    if (!leaf(v)) continue;
    if (v.t->k == BOOL) { v.b[0] ^= 1; return "flip " + a.path; }
    if (v.t->k == BITLIST) { if (!v.bits) continue; v.b[r.below(v.bits) / 8] ^= 1; return "flip " + a.path; }
    B before = v.b; bytes_mut(v.b, r, v.t->k == BYTELIST, v.t->k == BYTELIST ? v.t->n : 0, how);
    if (v.b == before) continue;
    return how + " " + a.path;
  }
  return "none";
}
// mixes two values of the same type part by part; n counts parts of b
inline void cross(Val& o, const Val& b, Rng& r, int depth, int pb, S& how, const S& path = "") {
  bool inner = (o.t->k == CONT || (o.t->k == UNION && o.sel == b.sel) || (o.t->k == LIST && o.e.size() == b.e.size() && o.e.size() && o.t->el->k == CONT) || (o.t->k == LIST && o.e.size() == b.e.size() && o.e.size() && r.chance(1, 6)));
  if (inner && (depth < 3 || r.chance(1, 2))) { for (size_t i = 0; i < o.e.size() && i < b.e.size(); i++) cross(o.e[i], b.e[i], r, depth + 1, pb, how, path + (o.t->k == CONT ? "." + o.t->f[i].first : o.t->k == UNION ? "" : "[]")); return; }
  if (r.below(100) < (uint64_t) pb && o.ser() != b.ser()) { o = b; size_t q = path.rfind('.'); S s = q == S::npos ? path : path.substr(q); if (how.size() < 60) how += s; }
}
} // namespace mut
