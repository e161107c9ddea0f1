// RLP codec vs. reference codec: round trip of trees, exactness of lengths, hostile input bounded.
#include "repo.hpp"
extern "C" {
#include "rlp.h"
}
struct Tr { bool list; B s; std::vector<Tr> k; };
static Tr gen(Rng& r, int depth) {
  Tr t;
  t.list = depth > 0 && r.chance(1, 2);
  if (t.list) { int n = (int) r.pick<uint64_t>({0, 1, 2, 3, 5, 17, r.below(40)}); for (int i = 0; i < n; i++) t.k.push_back(gen(r, depth - 1)); }
  else { size_t n = r.pick<uint64_t>({0, 1, 1, 2, 20, 32, 54, 55, 56, 57, 255, 256, 257, 1000, r.below(3000)}); if (r.chance(1, 150)) n = r.pick<uint64_t>({65535, 65536, 70000}); t.s = r.raw(n); if (n == 1) t.s[0] = r.pick<uint8_t>({0, 1, 0x7f, 0x80, 0x81, 0xff}); }
  return t;
}
static B enc(const Tr& t) { if (!t.list) return rlp_str(t.s); B b; for (auto& x : t.k) put(b, enc(x)); return rlp_listraw(b); }
static void enc_repo(const Tr& t, buffer_t* out, Rng& r) {
  HB h(t.s);
  if (!t.list) { rlp_add_item(out, h.b()); return; }
  buffer_t b = {0};
  for (auto& x : t.k) enc_repo(x, &b, r);
  if (r.chance(1, 2)) { rlp_to_list(&b); buffer_append(out, b.data); } else rlp_add_list(out, b.data);
  buffer_free(&b);
}
static bool walk_repo(bytes_t payload, const std::vector<Tr>& items, S& why) {
  int n = rlp_decode(&payload, -1, NULL);
  M().evals++;
  if (n != (int) items.size()) { why = "count " + std::to_string(n) + " want " + std::to_string(items.size()); return false; }
  for (int i = 0; i < n; i++) {
    bytes_t t = {0}; rlp_type_t ty = rlp_decode(&payload, i, &t);
    if (ty != (items[i].list ? RLP_LIST : RLP_ITEM)) { why = "type"; return false; }
    if (!items[i].list) { M().evals++; if (toB(t) != items[i].s) { why = "item bytes"; return false; } }
    else if (!walk_repo(t, items[i].k, why)) return false;
  }
  bytes_t t = {0};
  if (rlp_decode(&payload, n, &t) != RLP_NOT_FOUND) { why = "index past end"; return false; }
  return true;
}
// what a strict reader of one list level sees: all items fit ⇒ list of (list?, content); else prefix of complete items + broken
struct Flat { std::vector<std::pair<bool, B>> it; bool ok = true; };
static Flat flat(const B& d) {
  Flat f; size_t o = 0;
  while (o < d.size()) {
    uint8_t c = d[o]; size_t h = 1; unsigned __int128 len = 0; bool list = c >= 0xc0;
    if (c < 0x80) { f.it.push_back({false, B{c}}); o++; continue; }
    uint8_t base = list ? 0xc0 : 0x80;
    if (c - base < 56) len = c - base; else { size_t ll = c - base - 55; if (o + 1 + ll > d.size()) { f.ok = false; return f; } for (size_t i = 0; i < ll; i++) len = (len << 8) | d[o + 1 + i]; h += ll; }
    if (o + h + len > d.size()) { f.ok = false; return f; }
    f.it.push_back({list, sub(d, o + h, (size_t) len)}); o += h + (size_t) len;
  }
  return f;
}
static void hostile() {
  Rng& r = M().rng; B d;
  switch (r.below(5)) {
    case 0: d = r.raw(r.below(40)); break;
    case 4: { for (uint64_t k = r.below(3); k > 0; k--) put(d, enc(gen(r, 1))); size_t n = r.pick<uint64_t>({0, 1, 60, 300}), ll = r.range(1, 8); uint64_t len = n; if (ll > 1 && r.chance(2, 3)) len |= (uint64_t) r.pick<uint64_t>({1, 0x80, 0xff}) << (8 * r.range(1, ll - 1)); d.push_back((uint8_t) ((r.chance(1, 2) ? 0xb7 : 0xf7) + ll)); put(d, be(len, ll)); put(d, r.raw(n)); put(d, r.raw(r.below(4))); break; } // lengths of more than 32 bit
    case 1: { Tr t = gen(r, 3); d = enc(t); if (d.size() > 4000) d.resize(4000); int m = 1 + r.below(3); while (m-- && !d.empty()) d[r.below(d.size())] = (uint8_t) r.u64(); break; }
    case 2: { d = enc(gen(r, 2)); if (!d.empty()) d.resize(r.below(d.size())); break; }
    case 3: { int n = 1 + r.below(4); while (n--) { d.push_back(r.pick<uint8_t>({0xb7, 0xb8, 0xb9, 0xba, 0xbb, 0xbc, 0xbf, 0xf7, 0xf8, 0xf9, 0xfb, 0xff, 0x80, 0xc0, 0x01})); put(d, r.chance(1, 2) ? B(r.below(9), 0xff) : B(r.below(9), 0)); put(d, r.raw(r.below(6))); } break; }
  }
  M().label("hostile " + hex(sub(d, 0, 300)));
  HB h(d); Flat f = flat(d);
  bytes_t s = h.b(); int cnt = rlp_decode(&s, -1, NULL);
  M().evals++;
  bool okc = f.ok ? cnt == (int) f.it.size() : cnt < 0;
  if (!okc) M().viol("rlp-count", "count " + std::to_string(cnt) + " ref ok=" + std::to_string(f.ok) + " n=" + std::to_string(f.it.size()) + " data " + hex(sub(d, 0, 200)));
  for (int i = 0; i < 20; i++) {
    bytes_t src = h.b(), t = {0}; rlp_type_t ty = rlp_decode(&src, i, &t); M().evals++;
    if ((size_t) i < f.it.size()) {
      if (ty != (f.it[i].first ? RLP_LIST : RLP_ITEM) || toB(t) != f.it[i].second) { M().viol("rlp-item", "index " + std::to_string(i) + " data " + hex(sub(d, 0, 200))); break; }
    } else {
      if (ty > 0 || (!f.ok && (size_t) i == f.it.size() && ty != RLP_OUT_OF_RANGE && ty != RLP_NOT_FOUND)) { M().viol("rlp-overrun", "index " + std::to_string(i) + " type " + std::to_string(ty) + " data " + hex(sub(d, 0, 200))); break; }
    }
    uint64_t want = 0; bool isint = (size_t) i < f.it.size() && !f.it[i].first && f.it[i].second.size() <= 8; if (isint) want = rd_be(f.it[i].second);
    uint64_t got = rlp_get_uint64(h.b(), i); M().evals++;
    if (got != want && ((size_t) i >= f.it.size() || !f.it[i].first)) { M().viol("rlp-uint", "index " + std::to_string(i) + " got " + std::to_string(got) + " want " + std::to_string(want) + " data " + hex(sub(d, 0, 200))); break; }
  }
  M().obs(S("hostile:") + (f.ok ? "ok" : "broken") + ":" + std::to_string(std::min<size_t>(f.it.size(), 12)));
}
int main(int argc, char** argv) {
  M().init(argc, argv);
  return M().loop([] {
    Rng& r = M().rng;
    for (int rep = 0; rep < 12; rep++) {
      Tr t = gen(r, (int) r.below(5)); B e = enc(t);
      M().label("tree " + hex(sub(e, 0, 200)));
      buffer_t b = {0}; enc_repo(t, &b, r); M().evals++;
      if (toB(b.data) != e) M().viol("rlp-encode", "got " + hex(sub(toB(b.data), 0, 60)) + " want " + hex(sub(e, 0, 60)) + " sizes " + std::to_string(b.data.len) + "/" + std::to_string(e.size()));
      buffer_free(&b);
      HB h(e); S why; std::vector<Tr> one{t};
      if (!walk_repo(h.b(), one, why)) M().viol("rlp-decode", why + " " + hex(sub(e, 0, 100)));
      M().obs(S("tree:") + (t.list ? "l" : "s") + ":" + std::to_string(e[0] >> 2) + ":" + std::to_string(e.size() > 55) + std::to_string(e.size() > 257) + std::to_string(e.size() > 65540));
      // integers
      for (int i = 0; i < 10; i++) {
        uint64_t v = r.pick<uint64_t>({0, 1, 127, 128, 255, 256, r.u64() >> r.below(64), UINT64_MAX});
        buffer_t ib = {0}; rlp_add_uint64(&ib, v); M().evals++;
        if (toB(ib.data) != rlp_uint(v)) M().viol("rlp-uint64", std::to_string(v));
        bytes_t d = ib.data; if (rlp_get_uint64(d, 0) != v) M().viol("rlp-get-uint64", std::to_string(v));
        buffer_free(&ib);
        B raw = r.raw(r.below(34)); size_t z = r.below(raw.size() + 1); for (size_t k = 0; k < z; k++) raw[k] = 0; HB hr(raw);
        buffer_t ub = {0}; rlp_add_uint(&ub, hr.b()); M().evals++;
        if (toB(ub.data) != rlp_str(strip(raw))) M().viol("rlp-uint", hex(raw));
        buffer_free(&ub);
      }
      for (int i = 0; i < 20; i++) hostile();
    }
    if (M().cur == 0) { // length prefix of 3 and 4 bytes
      for (size_t n : {(size_t) 0xffffff - 8, (size_t) 0x1000000, (size_t) 0x1000100}) {
        B big = M().rng.raw(n); HB h(big); buffer_t b = {0}; rlp_add_item(&b, h.b());
        if (toB(b.data) != rlp_str(big)) M().viol("rlp-encode-big", std::to_string(n));
        buffer_t l = {0}; buffer_append(&l, b.data); rlp_to_list(&l);
        if (toB(l.data) != rlp_listraw(rlp_str(big))) M().viol("rlp-list-big", std::to_string(n));
        bytes_t p = l.data, q = {0}; if (rlp_decode(&p, 0, &q) != RLP_LIST || toB(q) != rlp_str(big)) M().viol("rlp-decode-big", std::to_string(n));
        buffer_free(&b); buffer_free(&l); M().evals += 3;
      }
    }
  });
}
