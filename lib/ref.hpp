// Independent reference model: hashes, RLP, Merkle-Patricia tries, SSZ, secp256k1.
// Nothing in here uses code of the repository under test.
#pragma once
#include <array>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <gmp.h>

namespace ref {
typedef std::vector<uint8_t> B;
typedef std::string          S;

[[noreturn]] inline void die(const S& m) {
  fprintf(stderr, "HARNESS-ERROR: %s\n", m.c_str());
  fflush(stderr);
  exit(3);
}

inline void put(B& a, const B& b) { a.insert(a.end(), b.begin(), b.end()); }
inline void put(B& a, const uint8_t* p, size_t n) { a.insert(a.end(), p, p + n); }
inline B    cat(std::initializer_list<B> l) { B r; for (auto& x : l) put(r, x); return r; }
inline B    sub(const B& a, size_t off, size_t len = SIZE_MAX) { if (off >= a.size()) return {}; return B(a.begin() + off, a.begin() + (len > a.size() - off ? a.size() : off + len)); }
inline B    be(uint64_t v, int n) { B r(n, 0); for (int i = 0; i < n && i < 8; i++) r[n - 1 - i] = (uint8_t) (v >> (8 * i)); return r; }
inline B    le(uint64_t v, int n) { B r(n, 0); for (int i = 0; i < n && i < 8; i++) r[i] = (uint8_t) (v >> (8 * i)); return r; }
inline B    minbe(uint64_t v) { B r; while (v) { r.insert(r.begin(), (uint8_t) v); v >>= 8; } return r; }
inline B    strip(const B& a) { size_t i = 0; while (i < a.size() && !a[i]) i++; return B(a.begin() + i, a.end()); }
inline B    padl(const B& a, size_t n) { B r(n, 0); if (a.size() >= n) return B(a.end() - n, a.end()); memcpy(r.data() + n - a.size(), a.data(), a.size()); return r; }
inline B    rev(const B& a) { return B(a.rbegin(), a.rend()); }
inline uint64_t rd_be(const B& a) { uint64_t v = 0; for (auto c : a) v = (v << 8) | c; return v; }
inline uint64_t rd_le(const uint8_t* p, int n) { uint64_t v = 0; for (int i = n - 1; i >= 0; i--) v = (v << 8) | p[i]; return v; }
inline S    hex(const B& b, bool pre = true) { static const char* d = "0123456789abcdef"; S s = pre ? "0x" : ""; for (auto c : b) { s += d[c >> 4]; s += d[c & 15]; } return s; }
inline S    qhex(const B& b) { // JSON-RPC QUANTITY
  S s = hex(strip(b), false);
  if (s.empty()) return "0x0";
  if (s[0] == '0') s = s.substr(1);
  return "0x" + s;
}
inline S qhex(uint64_t v) { return qhex(be(v, 8)); }
inline int hexd(char c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'f') return c - 'a' + 10; if (c >= 'A' && c <= 'F') return c - 'A' + 10; return -1; }
inline B unhex(const S& s0) {
  S s = s0.size() > 1 && s0[0] == '0' && (s0[1] == 'x' || s0[1] == 'X') ? s0.substr(2) : s0;
  if (s.size() & 1) s = "0" + s;
  B r;
  for (size_t i = 0; i + 1 < s.size(); i += 2) { int a = hexd(s[i]), b = hexd(s[i + 1]); if (a < 0 || b < 0) die("unhex " + s0); r.push_back((uint8_t) (a * 16 + b)); }
  return r;
}

// ---------- PRNG (splitmix64) ----------
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t u64() { uint64_t z = (s += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
  uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
  bool     chance(unsigned num, unsigned den) { return below(den) < num; }
  B        raw(size_t n) { B r(n); for (size_t i = 0; i < n; i += 8) { uint64_t v = u64(); for (size_t j = 0; j < 8 && i + j < n; j++) r[i + j] = (uint8_t) (v >> (8 * j)); } return r; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
};
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x9e3779b97f4a7c15ULL ^ (b + 0x632be59bd9b4e019ULL)); r.u64(); return r.u64(); }
inline uint64_t hstr(const S& s) { uint64_t h = 1469598103934665603ULL; for (char c : s) { h ^= (uint8_t) c; h *= 1099511628211ULL; } return h; }

// ---------- hashes ----------
inline void keccakf(uint64_t* a) {
  static const uint64_t RC[24] = {0x1ULL, 0x8082ULL, 0x800000000000808aULL, 0x8000000080008000ULL, 0x808bULL, 0x80000001ULL, 0x8000000080008081ULL, 0x8000000000008009ULL, 0x8aULL, 0x88ULL, 0x80008009ULL, 0x8000000aULL, 0x8000808bULL, 0x800000000000008bULL, 0x8000000000008089ULL, 0x8000000000008003ULL, 0x8000000000008002ULL, 0x8000000000000080ULL, 0x800aULL, 0x800000008000000aULL, 0x8000000080008081ULL, 0x8000000000008080ULL, 0x80000001ULL, 0x8000000080008008ULL};
  static const int R[24] = {1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44};
  static const int P[24] = {10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1};
  for (int r = 0; r < 24; r++) {
    uint64_t c[5];
    for (int i = 0; i < 5; i++) c[i] = a[i] ^ a[i + 5] ^ a[i + 10] ^ a[i + 15] ^ a[i + 20];
    for (int i = 0; i < 5; i++) { uint64_t t = c[(i + 4) % 5] ^ ((c[(i + 1) % 5] << 1) | (c[(i + 1) % 5] >> 63)); for (int j = 0; j < 25; j += 5) a[j + i] ^= t; }
    uint64_t t = a[1];
    for (int i = 0; i < 24; i++) { uint64_t b = a[P[i]]; a[P[i]] = (t << R[i]) | (t >> (64 - R[i])); t = b; }
    for (int j = 0; j < 25; j += 5) { uint64_t x[5]; for (int i = 0; i < 5; i++) x[i] = a[j + i]; for (int i = 0; i < 5; i++) a[j + i] = x[i] ^ (~x[(i + 1) % 5] & x[(i + 2) % 5]); }
    a[0] ^= RC[r];
  }
}
inline B keccak(const uint8_t* d, size_t n) {
  uint64_t a[25] = {0};
  B p(d, d + n);
  p.push_back(1);
  while (p.size() % 136) p.push_back(0);
  p.back() |= 0x80;
  for (size_t o = 0; o < p.size(); o += 136) { for (int i = 0; i < 17; i++) a[i] ^= rd_le(&p[o + 8 * i], 8); keccakf(a); }
  B r;
  for (int i = 0; i < 4; i++) put(r, le(a[i], 8));
  return r;
}
inline B keccak(const B& b) { return keccak(b.data(), b.size()); }

struct Sha256 {
  static const uint32_t* K() {
    static const uint32_t k[64] = {0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174, 0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967, 0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070, 0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2};
    return k;
  }
};
inline B sha256(const uint8_t* d, size_t n) {
  uint32_t h[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
  uint8_t  tail[128];
  size_t   full = n / 64, rem = n % 64;
  memset(tail, 0, sizeof tail);
  if (rem) memcpy(tail, d + full * 64, rem);
  tail[rem] = 0x80;
  size_t tl = rem < 56 ? 64 : 128;
  uint64_t bits = (uint64_t) n * 8;
  for (int i = 0; i < 8; i++) tail[tl - 1 - i] = (uint8_t) (bits >> (8 * i));
  const uint32_t* K = Sha256::K();
  auto rr = [](uint32_t x, int k) { return (x >> k) | (x << (32 - k)); };
  for (size_t o = 0; o < full * 64 + tl; o += 64) {
    const uint8_t* p = o < full * 64 ? d + o : tail + (o - full * 64);
    uint32_t w[64];
    for (int i = 0; i < 16; i++) w[i] = (uint32_t) p[4 * i] << 24 | p[4 * i + 1] << 16 | p[4 * i + 2] << 8 | p[4 * i + 3];
    for (int i = 16; i < 64; i++) w[i] = w[i - 16] + (rr(w[i - 15], 7) ^ rr(w[i - 15], 18) ^ (w[i - 15] >> 3)) + w[i - 7] + (rr(w[i - 2], 17) ^ rr(w[i - 2], 19) ^ (w[i - 2] >> 10));
    uint32_t v[8];
    memcpy(v, h, sizeof v);
    for (int i = 0; i < 64; i++) {
      uint32_t t1 = v[7] + (rr(v[4], 6) ^ rr(v[4], 11) ^ rr(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + K[i] + w[i];
      uint32_t t2 = (rr(v[0], 2) ^ rr(v[0], 13) ^ rr(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
      v[7] = v[6]; v[6] = v[5]; v[5] = v[4]; v[4] = v[3] + t1; v[3] = v[2]; v[2] = v[1]; v[1] = v[0]; v[0] = t1 + t2;
    }
    for (int i = 0; i < 8; i++) h[i] += v[i];
  }
  B r;
  for (int i = 0; i < 8; i++) put(r, be(h[i], 4));
  return r;
}
inline B sha256(const B& b) { return sha256(b.data(), b.size()); }
inline B hash2(const B& a, const B& b) { return sha256(cat({a, b})); }

// ---------- RLP ----------
inline B rlp_str(const B& b) {
  if (b.size() == 1 && b[0] < 0x80) return b;
  B r;
  if (b.size() < 56) r.push_back((uint8_t) (0x80 + b.size()));
  else { B l = minbe(b.size()); r.push_back((uint8_t) (0xb7 + l.size())); put(r, l); }
  put(r, b);
  return r;
}
inline B rlp_listraw(const B& b) {
  B r;
  if (b.size() < 56) r.push_back((uint8_t) (0xc0 + b.size()));
  else { B l = minbe(b.size()); r.push_back((uint8_t) (0xf7 + l.size())); put(r, l); }
  put(r, b);
  return r;
}
inline B rlp_list(const std::vector<B>& items) { B r; for (auto& i : items) put(r, i); return rlp_listraw(r); }
inline B rlp_uint(uint64_t v) { return rlp_str(minbe(v)); }

// decoded RLP tree (strict, canonical or not is up to the caller)
struct Rlp { bool list = false; B str; std::vector<Rlp> items; };
inline bool rlp_parse(const uint8_t* d, size_t n, size_t& used, Rlp& out, int depth = 0) {
  if (!n || depth > 64) return false;
  uint8_t c = d[0];
  size_t h = 1, len = 0;
  if (c < 0x80) { out.str = B(d, d + 1); used = 1; return true; }
  bool list = c >= 0xc0;
  uint8_t base = list ? 0xc0 : 0x80;
  if (c - base < 56) len = c - base;
  else { size_t ll = c - base - 55; if (n < 1 + ll) return false; for (size_t i = 0; i < ll; i++) { if (len >> 48) return false; len = (len << 8) | d[1 + i]; } h = 1 + ll; }
  if (len > n - h) return false;
  out.list = list;
  if (!list) out.str = B(d + h, d + h + len);
  else for (size_t o = 0; o < len;) { size_t u; Rlp r; if (!rlp_parse(d + h + o, len - o, u, r, depth + 1)) return false; out.items.push_back(r); o += u; }
  used = h + len;
  return true;
}

// ---------- Merkle Patricia Trie (built from the full key/value map) ----------
struct Mpt {
  std::map<B, B> kv; // nibble key -> value
  static B nib(const B& k) { B r; for (auto c : k) { r.push_back(c >> 4); r.push_back(c & 15); } return r; }
  static B hp(const B& n, size_t from, bool leaf, size_t to = SIZE_MAX) {
    if (to == SIZE_MAX) to = n.size();
    size_t len = to - from; B r; uint8_t f = (uint8_t) ((leaf ? 2 : 0) + (len & 1));
    size_t i = from;
    if (len & 1) r.push_back((uint8_t) (f << 4 | n[i++])); else r.push_back((uint8_t) (f << 4));
    for (; i < to; i += 2) r.push_back((uint8_t) (n[i] << 4 | n[i + 1]));
    return r;
  }
  void set(const B& key, const B& val) { if (val.empty()) kv.erase(nib(key)); else kv[nib(key)] = val; }
  typedef std::map<B, B>::const_iterator It;
  static B refof(const B& node) { return node.size() < 32 ? node : rlp_str(keccak(node)); }
  // builds the node for [a,b) sharing `depth` nibbles; if path!=0 collects the proof nodes of that key
  B build(It a, It b, size_t depth, const B* path, std::vector<B>* proof) const {
    std::vector<B> sub;
    B node;
    It last = b; --last;
    if (a == last) node = rlp_list({rlp_str(hp(a->first, depth, true)), rlp_str(a->second)});
    else {
      size_t cp = depth;
      while (cp < a->first.size() && cp < last->first.size() && a->first[cp] == last->first[cp]) cp++;
      if (cp > depth) {
        bool on = path && path->size() >= cp && std::equal(a->first.begin() + depth, a->first.begin() + cp, path->begin() + depth);
        B child = build(a, b, cp, on ? path : nullptr, on ? &sub : nullptr);
        node = rlp_list({rlp_str(hp(a->first, depth, false, cp)), refof(child)});
        if (!(on && child.size() >= 32)) sub.clear();
      } else {
        B body; It it = a; B val;
        if (it->first.size() == depth) { val = it->second; ++it; }
        for (int n = 0; n < 16; n++) {
          It e = it; while (e != b && e->first[depth] == n) ++e;
          if (e == it) put(body, B{0x80});
          else { bool on = path && path->size() > depth && (*path)[depth] == n; std::vector<B> s2; B child = build(it, e, depth + 1, on ? path : nullptr, on ? &s2 : nullptr); put(body, refof(child)); if (on && child.size() >= 32) sub = s2; }
          it = e;
        }
        put(body, rlp_str(val));
        node = rlp_listraw(body);
      }
    }
    if (proof) { proof->push_back(node); for (auto& s : sub) proof->push_back(s); }
    return node;
  }
  B root() const { if (kv.empty()) return keccak(B{0x80}); return keccak(build(kv.begin(), kv.end(), 0, nullptr, nullptr)); }
  std::vector<B> prove(const B& key) const { std::vector<B> p; if (kv.empty()) return p; B n = nib(key); build(kv.begin(), kv.end(), 0, &n, &p); return p; }
  const B* get(const B& key) const { auto i = kv.find(nib(key)); return i == kv.end() ? nullptr : &i->second; }
};
inline B empty_trie_root() { return keccak(B{0x80}); }

// ---------- SSZ ----------
enum Kind { UINT, BOOL, BYTEVEC, BITVEC, BITLIST, BYTELIST, VEC, LIST, CONT, UNION, NONE, OPAQUE };
struct Type; typedef std::shared_ptr<const Type> T;
struct Type {
  Kind k; uint64_t n = 0; T el; std::vector<std::pair<S, T>> f; // n: byte size / length / limit
  bool fixed() const {
    switch (k) { case UINT: case BOOL: case BYTEVEC: case BITVEC: case NONE: case OPAQUE: return true; case VEC: return el->fixed(); case CONT: for (auto& x : f) if (!x.second->fixed()) return false; return true; default: return false; }
  }
  uint64_t size() const { // fixed types only
    switch (k) { case UINT: case BYTEVEC: return n; case BOOL: return 1; case BITVEC: return (n + 7) / 8; case VEC: return n * el->size(); case OPAQUE: return 32; case CONT: { uint64_t s = 0; for (auto& x : f) s += x.second->size(); return s; } default: return 0; }
  }
  int idx(const S& name) const { for (size_t i = 0; i < f.size(); i++) if (f[i].first == name) return (int) i; return -1; }
};
inline T mk(Kind k, uint64_t n = 0, T el = nullptr) { auto t = std::make_shared<Type>(); t->k = k; t->n = n; t->el = el; return t; }
inline T tuint(int bytes) { return mk(UINT, bytes); }
inline T tbool() { return mk(BOOL, 1); }
inline T tbytes(uint64_t n) { return mk(BYTEVEC, n); }
inline T tblist(uint64_t limit) { return mk(BYTELIST, limit); }
inline T tbitvec(uint64_t n) { return mk(BITVEC, n); }
inline T tbitlist(uint64_t n) { return mk(BITLIST, n); }
inline T tvec(T el, uint64_t n) { return mk(VEC, n, el); }
inline T tlist(T el, uint64_t n) { return mk(LIST, n, el); }
inline T tnone() { return mk(NONE); }
inline T topaque() { return mk(OPAQUE, 32); }
inline T tcont(std::vector<std::pair<S, T>> f) { auto t = std::make_shared<Type>(); t->k = CONT; t->f = f; return t; }
inline T tunion(std::vector<std::pair<S, T>> f) { auto t = std::make_shared<Type>(); t->k = UNION; t->f = f; return t; }

struct Val {
  T t; B b; std::vector<Val> e; int sel = 0; // b: basic bytes (bitlist: raw bits without delimiter, n in len)
  uint64_t bits = 0;                         // bitlist length
  Val() {}
  explicit Val(T tt) : t(tt) { // default value
    switch (t->k) {
      case UINT: case BOOL: case BYTEVEC: case BITVEC: case OPAQUE: b.assign(t->size(), 0); break;
      case VEC: for (uint64_t i = 0; i < t->n; i++) e.push_back(Val(t->el)); break;
      case CONT: for (auto& x : t->f) e.push_back(Val(x.second)); break;
      case UNION: e.push_back(Val(t->f[0].second)); break;
      default: break;
    }
  }
  Val& operator[](const S& n) { int i = t->idx(n); if (t->k != CONT || i < 0) die("no field " + n); return e[i]; }
  const Val& operator[](const S& n) const { int i = t->idx(n); if (t->k != CONT || i < 0) die("no field " + n); return e[i]; }
  Val& operator=(const Val&) = default; Val(const Val&) = default; Val(Val&&) = default; Val& operator=(Val&&) = default;
  void u(uint64_t v) { b = le(v, (int) t->n); }
  uint64_t u() const { return rd_le(b.data(), (int) std::min<size_t>(8, b.size())); }
  void set(const B& v) { if ((t->k == BYTEVEC || t->k == UINT || t->k == OPAQUE || t->k == BITVEC || t->k == BOOL) && v.size() != t->size()) die("ssz set size"); b = v; }
  Val& add() { e.push_back(Val(t->el)); return e.back(); }
  Val& choose(int s) { sel = s; e.clear(); e.push_back(Val(t->f[s].second)); return e[0]; }
  B ser() const {
    switch (t->k) {
      case UINT: case BOOL: case BYTEVEC: case BITVEC: case BYTELIST: case OPAQUE: return b;
      case NONE: return {};
      case BITLIST: { B r(bits / 8 + 1, 0); for (uint64_t i = 0; i < bits; i++) if (b[i / 8] >> (i % 8) & 1) r[i / 8] |= (uint8_t) (1 << (i % 8)); r[bits / 8] |= (uint8_t) (1 << (bits % 8)); return r; }
      case UNION: return cat({B{(uint8_t) sel}, e[0].ser()});
      default: {
        B fix, var; uint64_t fl = 0;
        for (auto& x : e) fl += x.t->fixed() ? x.t->size() : 4;
        for (auto& x : e) { if (x.t->fixed()) put(fix, x.ser()); else { put(fix, le(fl + var.size(), 4)); put(var, x.ser()); } }
        put(fix, var);
        return fix;
      }
    }
  }
};

// Merkle tree nodes
struct Node; typedef std::shared_ptr<const Node> N;
struct Node { B h; N l, r; };
inline N leafn(const B& h) { auto n = std::make_shared<Node>(); n->h = h; return n; }
inline N pairn(N a, N b) { auto n = std::make_shared<Node>(); n->h = hash2(a->h, b->h); n->l = a; n->r = b; return n; }
inline N zeron(int d) { static std::vector<N> z; while ((int) z.size() <= d) { if (z.empty()) z.push_back(leafn(B(32, 0))); else z.push_back(pairn(z.back(), z.back())); } return z[d]; }
inline N merkle(std::vector<N> c, int depth) {
  for (int d = 0; d < depth; d++) {
    if (c.empty()) return zeron(depth);
    if (c.size() & 1) c.push_back(zeron(d));
    std::vector<N> n; for (size_t i = 0; i < c.size(); i += 2) n.push_back(pairn(c[i], c[i + 1]));
    c = n;
  }
  return c.empty() ? zeron(0) : c[0];
}
inline int cdepth(uint64_t chunks) { int d = 0; while (d < 63 && (1ULL << d) < chunks) d++; return d; }
inline std::vector<N> chunks(const B& b) { std::vector<N> r; for (size_t i = 0; i < b.size(); i += 32) { B c = sub(b, i, 32); c.resize(32, 0); r.push_back(leafn(c)); } return r; }
inline N mixin(N a, uint64_t len) { return pairn(a, leafn(le(len, 32))); }
inline N tree(const Val& v) {
  const Type& t = *v.t;
  switch (t.k) {
    case UINT: case BOOL: case OPAQUE: return merkle(chunks(v.b), cdepth((v.b.size() + 31) / 32));
    case BYTEVEC: case BITVEC: return merkle(chunks(v.b), cdepth((t.size() + 31) / 32));
    case BYTELIST: return mixin(merkle(chunks(v.b), cdepth((t.n + 31) / 32)), v.b.size());
    case BITLIST: { B r((v.bits + 7) / 8, 0); for (uint64_t i = 0; i < v.bits; i++) if (v.b[i / 8] >> (i % 8) & 1) r[i / 8] |= (uint8_t) (1 << (i % 8)); return mixin(merkle(chunks(r), cdepth((t.n + 255) / 256)), v.bits); }
    case VEC: case LIST: {
      N r;
      if (t.el->k == UINT || t.el->k == BOOL) { B b; for (auto& x : v.e) put(b, x.b); r = merkle(chunks(b), cdepth((t.n * t.el->size() + 31) / 32)); }
      else { std::vector<N> c; for (auto& x : v.e) c.push_back(tree(x)); r = merkle(c, cdepth(t.n)); }
      return t.k == LIST ? mixin(r, v.e.size()) : r;
    }
    case CONT: { std::vector<N> c; for (auto& x : v.e) c.push_back(tree(x)); return merkle(c, cdepth(c.size())); }
    case UNION: return mixin(v.e[0].t->k == NONE ? zeron(0) : tree(v.e[0]), v.sel);
    default: return zeron(0);
  }
}
inline B htr(const Val& v) { return tree(v)->h; }
inline N walk(N n, uint64_t g) { int d = 63 - __builtin_clzll(g); for (int i = d - 1; i >= 0; i--) { n = (g >> i & 1) ? n->r : n->l; if (!n) die("gindex below leaf"); } return n; }
inline std::vector<B> branch(N root, uint64_t g) { std::vector<B> r; while (g > 1) { r.push_back(walk(root, g ^ 1)->h); g >>= 1; } return r; }
inline B branch_root(B leaf, const std::vector<B>& br, uint64_t g) { for (auto& x : br) { leaf = (g & 1) ? hash2(x, leaf) : hash2(leaf, x); g >>= 1; } return leaf; }
inline std::vector<uint64_t> helper_indices(const std::vector<uint64_t>& gs) {
  std::set<uint64_t> br, path;
  for (auto g0 : gs) { for (uint64_t g = g0; g > 1; g >>= 1) { br.insert(g ^ 1); path.insert(g); } }
  std::vector<uint64_t> r;
  for (auto it = br.rbegin(); it != br.rend(); ++it) if (!path.count(*it)) r.push_back(*it);
  return r;
}
inline std::vector<B> multiproof(N root, const std::vector<uint64_t>& gs) { std::vector<B> r; for (auto g : helper_indices(gs)) r.push_back(walk(root, g)->h); return r; }
inline uint64_t gi_field(const Type& t, const S& name) { int i = t.idx(name); if (i < 0) die("gi_field"); return (1ULL << cdepth(t.f.size())) + i; }
inline uint64_t gcat(uint64_t a, uint64_t b) { int d = 63 - __builtin_clzll(b); return (a << d) | (b ^ (1ULL << d)); }

// strict SSZ decoder
inline bool de(T t, const uint8_t* p, size_t n, Val& v) {
  v = Val(); v.t = t;
  switch (t->k) {
    case NONE: return n == 0;
    case UINT: case BYTEVEC: case OPAQUE: if (n != t->size()) return false; v.b.assign(p, p + n); return true;
    case BOOL: if (n != 1 || p[0] > 1) return false; v.b.assign(p, p + 1); return true;
    case BITVEC: if (n != t->size()) return false; v.b.assign(p, p + n); if (t->n % 8 && (p[n - 1] >> (t->n % 8))) return false; return true;
    case BYTELIST: if (n > t->n) return false; v.b.assign(p, p + n); return true;
    case BITLIST: { if (!n || !p[n - 1]) return false; int hb = 31 - __builtin_clz(p[n - 1]); v.bits = (n - 1) * 8 + hb; if (v.bits > t->n) return false; v.b.assign(p, p + n); v.b[n - 1] ^= (uint8_t) (1 << hb); return true; }
    case UNION: { if (!n || p[0] >= t->f.size()) return false; v.sel = p[0]; v.e.resize(1); return de(t->f[v.sel].second, p + 1, n - 1, v.e[0]); }
    case VEC: case LIST:
      if (t->el->fixed()) { size_t s = t->el->size(); if (!s || n % s) return false; size_t c = n / s; if (t->k == VEC ? c != t->n : c > t->n) return false; v.e.resize(c); for (size_t i = 0; i < c; i++) if (!de(t->el, p + i * s, s, v.e[i])) return false; return true; }
      else {
        if (n == 0) return t->k == LIST || t->n == 0;
        if (n < 4) return false;
        uint64_t first = rd_le(p, 4); if (first % 4 || first == 0 || first > n) return false;
        size_t c = first / 4; if (t->k == VEC ? c != t->n : c > t->n) return false;
        v.e.resize(c); uint64_t cur = first;
        for (size_t i = 0; i < c; i++) { uint64_t o = rd_le(p + 4 * i, 4), nx = i + 1 < c ? rd_le(p + 4 * i + 4, 4) : n; if (o != cur || nx < o || nx > n) return false; if (!de(t->el, p + o, nx - o, v.e[i])) return false; cur = nx; }
        return true;
      }
    case CONT: {
      size_t fl = 0; for (auto& x : t->f) fl += x.second->fixed() ? x.second->size() : 4;
      if (n < fl) return false;
      v.e.resize(t->f.size()); std::vector<std::pair<int, uint64_t>> offs; size_t o = 0;
      for (size_t i = 0; i < t->f.size(); i++) { auto& ft = t->f[i].second; if (ft->fixed()) { if (!de(ft, p + o, ft->size(), v.e[i])) return false; o += ft->size(); } else { offs.push_back({(int) i, rd_le(p + o, 4)}); o += 4; } }
      if (offs.empty()) return n == fl;
      uint64_t cur = fl;
      for (size_t i = 0; i < offs.size(); i++) { uint64_t a = offs[i].second, b = i + 1 < offs.size() ? offs[i + 1].second : n; if (a != cur || b < a || b > n) return false; if (!de(t->f[offs[i].first].second, p + a, b - a, v.e[offs[i].first])) return false; cur = b; }
      return true;
    }
  }
  return false;
}
inline bool de(T t, const B& b, Val& v) { return de(t, b.data(), b.size(), v); }

// ---------- secp256k1 (GMP) ----------
struct Zn { mpz_t v; Zn() { mpz_init(v); } explicit Zn(const char* h) { mpz_init_set_str(v, h, 16); } explicit Zn(const B& b) { mpz_init(v); mpz_import(v, b.size(), 1, 1, 1, 0, b.data()); } Zn(const Zn& o) { mpz_init_set(v, o.v); } Zn& operator=(const Zn& o) { mpz_set(v, o.v); return *this; } ~Zn() { mpz_clear(v); }
  B b32() const { B r(32, 0); size_t n = mpz_sgn(v) ? (mpz_sizeinbase(v, 2) + 7) / 8 : 0; if (n) mpz_export(r.data() + 32 - n, nullptr, 1, 1, 1, 0, v); return r; } };
struct Secp {
  struct P { Zn x, y; bool inf = true; };
  static const Zn& p() { static Zn z("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f"); return z; }
  static const Zn& n() { static Zn z("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"); return z; }
  static P G() { P g; g.x = Zn("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"); g.y = Zn("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8"); g.inf = false; return g; }
  static P add(const P& a, const P& b) {
    if (a.inf) return b;
    if (b.inf) return a;
    Zn l, t;
    if (!mpz_cmp(a.x.v, b.x.v)) {
      mpz_add(t.v, a.y.v, b.y.v); mpz_mod(t.v, t.v, p().v);
      if (!mpz_sgn(t.v)) return P();
      mpz_mul(l.v, a.x.v, a.x.v); mpz_mul_ui(l.v, l.v, 3); mpz_mul_ui(t.v, a.y.v, 2);
    } else { mpz_sub(l.v, b.y.v, a.y.v); mpz_sub(t.v, b.x.v, a.x.v); mpz_mod(t.v, t.v, p().v); }
    mpz_invert(t.v, t.v, p().v); mpz_mul(l.v, l.v, t.v); mpz_mod(l.v, l.v, p().v);
    P r; r.inf = false;
    mpz_mul(r.x.v, l.v, l.v); mpz_sub(r.x.v, r.x.v, a.x.v); mpz_sub(r.x.v, r.x.v, b.x.v); mpz_mod(r.x.v, r.x.v, p().v);
    mpz_sub(r.y.v, a.x.v, r.x.v); mpz_mul(r.y.v, r.y.v, l.v); mpz_sub(r.y.v, r.y.v, a.y.v); mpz_mod(r.y.v, r.y.v, p().v);
    return r;
  }
  static P mul(const Zn& k, const P& g) { P r; for (long i = (long) mpz_sizeinbase(k.v, 2) - 1; i >= 0; i--) { r = add(r, r); if (mpz_tstbit(k.v, i)) r = add(r, g); } return r; }
  static P mulG(const Zn& k) {
    static std::vector<P> pw; if (pw.empty()) { P q = G(); for (int i = 0; i < 256; i++) { pw.push_back(q); q = add(q, q); } }
    P r; for (size_t i = 0; i < 256; i++) if (mpz_tstbit(k.v, i)) r = add(r, pw[i]); return r;
  }
  static B pub(const B& sk) { P q = mulG(Zn(sk)); return cat({q.x.b32(), q.y.b32()}); }
  static B addr(const B& sk) { return sub(keccak(pub(sk)), 12); }
  struct Sig { B r, s; int v; };
  static Sig sign(const B& sk, const B& digest, bool lowS = true) {
    for (uint8_t ctr = 0;; ctr++) {
      Zn k(sha256(cat({sk, digest, B{ctr}}))); mpz_mod(k.v, k.v, n().v);
      P q = mulG(k);
      Zn r, s, ki; mpz_mod(r.v, q.x.v, n().v);
      if (!mpz_sgn(r.v) || mpz_cmp(r.v, q.x.v)) continue;
      mpz_mul(s.v, r.v, Zn(sk).v); Zn z(digest); mpz_add(s.v, s.v, z.v); mpz_invert(ki.v, k.v, n().v); mpz_mul(s.v, s.v, ki.v); mpz_mod(s.v, s.v, n().v);
      if (!mpz_sgn(s.v)) continue;
      int v = mpz_odd_p(q.y.v) ? 1 : 0; Zn h; mpz_fdiv_q_2exp(h.v, n().v, 1);
      if (lowS && mpz_cmp(s.v, h.v) > 0) { mpz_sub(s.v, n().v, s.v); v ^= 1; }
      return {r.b32(), s.b32(), v};
    }
  }
  // returns 64-byte pubkey or empty
  static B recover(const B& digest, const B& rb, const B& sb, int v) {
    Zn r(rb), s(sb); if (v < 0 || v > 3 || !mpz_sgn(r.v) || !mpz_sgn(s.v) || mpz_cmp(r.v, n().v) >= 0 || mpz_cmp(s.v, n().v) >= 0) return {};
    Zn x(r); if (v & 2) { mpz_add(x.v, x.v, n().v); if (mpz_cmp(x.v, p().v) >= 0) return {}; }
    Zn y2, y, e; mpz_powm_ui(y2.v, x.v, 3, p().v); mpz_add_ui(y2.v, y2.v, 7); mpz_mod(y2.v, y2.v, p().v);
    mpz_add_ui(e.v, p().v, 1); mpz_fdiv_q_2exp(e.v, e.v, 2); mpz_powm(y.v, y2.v, e.v, p().v);
    Zn c; mpz_mul(c.v, y.v, y.v); mpz_mod(c.v, c.v, p().v); if (mpz_cmp(c.v, y2.v)) return {};
    if ((mpz_odd_p(y.v) ? 1 : 0) != (v & 1)) mpz_sub(y.v, p().v, y.v);
    P R; R.x = x; R.y = y; R.inf = false;
    Zn ri, u1, u2, z(digest); mpz_invert(ri.v, r.v, n().v); mpz_mul(u1.v, z.v, ri.v); mpz_neg(u1.v, u1.v); mpz_mod(u1.v, u1.v, n().v); mpz_mul(u2.v, s.v, ri.v); mpz_mod(u2.v, u2.v, n().v);
    P q = add(mulG(u1), mul(u2, R)); if (q.inf) return {};
    return cat({q.x.b32(), q.y.b32()});
  }
};

// ---------- JSON (strict RFC 8259 parser) ----------
struct J {
  enum K { NUL, BOOLEAN, NUM, STR, ARR, OBJ, BAD } k = BAD; S s; bool b = false; std::vector<J> a; std::vector<std::pair<S, J>> o;
  const J* get(const S& n) const { for (auto& x : o) if (x.first == n) return &x.second; return nullptr; }
  S str(const S& n, const S& d = "") const { auto* x = get(n); return x ? x->s : d; }
  bool operator==(const J& r) const {
    if (k != r.k) return false;
    switch (k) { case BOOLEAN: return b == r.b; case NUM: case STR: return s == r.s; case ARR: return a == r.a;
      case OBJ: { if (o.size() != r.o.size()) return false; for (auto& x : o) { auto* y = r.get(x.first); if (!y || !(*y == x.second)) return false; } return true; } default: return true; }
  }
  bool operator!=(const J& r) const { return !(*this == r); }
};
struct JP {
  const char *p, *e; bool ok = true;
  void ws() { while (p < e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) p++; }
  bool lit(const char* l) { size_t n = strlen(l); if ((size_t) (e - p) >= n && !memcmp(p, l, n)) { p += n; return true; } return false; }
  S str() {
    S r; p++;
    while (p < e && *p != '"') {
      if ((uint8_t) *p < 0x20) { ok = false; return r; }
      if (*p == '\\') {
        p++; if (p >= e) break;
        switch (*p) { case '"': r += '"'; break; case '\\': r += '\\'; break; case '/': r += '/'; break; case 'b': r += '\b'; break; case 'f': r += '\f'; break; case 'n': r += '\n'; break; case 'r': r += '\r'; break; case 't': r += '\t'; break;
          case 'u': { if (e - p < 5) { ok = false; return r; } unsigned c = 0; for (int i = 1; i <= 4; i++) { int h = hexd(p[i]); if (h < 0) { ok = false; return r; } c = c * 16 + h; } p += 4; if (c < 0x80) r += (char) c; else if (c < 0x800) { r += (char) (0xc0 | c >> 6); r += (char) (0x80 | (c & 63)); } else { r += (char) (0xe0 | c >> 12); r += (char) (0x80 | (c >> 6 & 63)); r += (char) (0x80 | (c & 63)); } break; }
          default: ok = false; return r; }
        p++;
      } else r += *p++;
    }
    if (p >= e) { ok = false; return r; }
    p++; return r;
  }
  J val(int d = 0) {
    J j; ws(); if (p >= e || d > 200) { ok = false; return j; }
    if (*p == '"') { j.k = J::STR; j.s = str(); return j; }
    if (*p == '{') { j.k = J::OBJ; p++; ws(); if (p < e && *p == '}') { p++; return j; } while (ok) { ws(); if (p >= e || *p != '"') { ok = false; break; } S n = str(); ws(); if (p >= e || *p != ':') { ok = false; break; } p++; J v = val(d + 1); j.o.push_back({n, v}); ws(); if (p >= e) { ok = false; break; } if (*p == ',') { p++; continue; } if (*p == '}') { p++; break; } ok = false; } return j; }
    if (*p == '[') { j.k = J::ARR; p++; ws(); if (p < e && *p == ']') { p++; return j; } while (ok) { j.a.push_back(val(d + 1)); ws(); if (p >= e) { ok = false; break; } if (*p == ',') { p++; continue; } if (*p == ']') { p++; break; } ok = false; } return j; }
    if (lit("true")) { j.k = J::BOOLEAN; j.b = true; return j; }
    if (lit("false")) { j.k = J::BOOLEAN; return j; }
    if (lit("null")) { j.k = J::NUL; return j; }
    const char* st = p; if (p < e && *p == '-') p++; bool dig = false; while (p < e && ((*p >= '0' && *p <= '9') || strchr(".eE+-", *p))) { if (*p >= '0' && *p <= '9') dig = true; p++; }
    if (!dig) { ok = false; return j; }
    j.k = J::NUM; j.s = S(st, p); return j;
  }
};
inline bool jparse(const S& s, J& out) { JP p{s.data(), s.data() + s.size()}; out = p.val(); p.ws(); if (p.p != p.e) p.ok = false; if (!p.ok) out = J(); return p.ok; }
inline S jdump(const J& j) {
  switch (j.k) { case J::NUL: return "null"; case J::BOOLEAN: return j.b ? "true" : "false"; case J::NUM: return j.s;
    case J::STR: { S r = "\""; for (char c : j.s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((uint8_t) c < 0x20) { char t[8]; snprintf(t, 8, "\\u%04x", c); r += t; } else r += c; } return r + "\""; }
    case J::ARR: { S r = "["; for (size_t i = 0; i < j.a.size(); i++) r += (i ? "," : "") + jdump(j.a[i]); return r + "]"; }
    case J::OBJ: { S r = "{"; for (size_t i = 0; i < j.o.size(); i++) { J k; k.k = J::STR; k.s = j.o[i].first; r += (i ? S(",") : S("")) + jdump(k) + ":" + jdump(j.o[i].second); } return r + "}"; }
    default: return "<bad>"; }
}
inline S q(const S& s) { return "\"" + s + "\""; }
} // namespace ref
