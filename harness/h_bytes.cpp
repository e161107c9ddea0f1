// Growable/fixed buffers, integer codecs, hex and formatted output against a plain std::string model.
#include "repo.hpp"
#include <cmath>

static S esc(const S& s) { S r; for (char ch : s) { uint8_t c = (uint8_t) ch; char t[8]; switch (c) { case '"': r += "\\\""; break; case '\\': r += "\\\\"; break; case '\b': r += "\\b"; break; case '\f': r += "\\f"; break; case '\n': r += "\\n"; break; case '\r': r += "\\r"; break; case '\t': r += "\\t"; break; default: if (c < 0x20) { snprintf(t, 8, "\\u%04x", c); r += t; } else r += ch; } } return r; }
static S rstr(Rng& r, size_t max) { size_t n = r.below(max + 1); S s; int mode = (int) r.below(3); for (size_t i = 0; i < n; i++) { char c = mode == 0 ? (char) r.range(1, 255) : mode == 1 ? (char) r.range(0x20, 0x7e) : (char) r.pick<int>({1, 8, 9, 10, 12, 13, 0x1f, '"', '\\', 'a', '%', 0x7f}); s += c; } return s; }

struct Buf { // buffer under test + model
  buffer_t b; B model; uint8_t* fixed = nullptr; int cap = -1;
  Buf(Rng& r) {
    memset(&b, 0, sizeof b);
    int m = (int) r.below(3);
    if (m == 1) b.allocated = (int) r.range(1, 64);
    if (m == 2) { cap = (int) r.range(1, 80); fixed = (uint8_t*) malloc(cap); memset(fixed, 0xEE, cap); b.data.data = fixed; b.allocated = -cap; }
  }
  ~Buf() { if (fixed) { free(fixed); } else buffer_free(&b); }
};

static void buffer_ops(Rng& r) {
  Buf t(r); int n = (int) r.range(1, 25); S trace = t.cap >= 0 ? "fixed" + std::to_string(t.cap) : "grow";
  for (int i = 0; i < n; i++) {
    int op = (int) r.below(6); M().evals++;
    B d = r.raw(r.below(r.chance(1, 8) ? 400 : 20)); size_t before = t.model.size();
    trace += " " + std::to_string(op) + ":" + std::to_string(d.size()); M().label("buffer " + trace);
    if (op == 0 || op == 5) { // append (op5: zero fill)
      size_t room = t.cap >= 0 ? t.cap - before : SIZE_MAX, want = std::min(room, d.size());
      HB h(d); bytes_t in = h.b(); if (op == 5) in.data = nullptr;
      uint32_t got = buffer_append(&t.b, in);
      if (op == 5) d.assign(d.size(), 0);
      put(t.model, d.data(), want);
      if (got != want) return M().viol("buffer-append-count", trace + " got " + std::to_string(got));
    } else if (op == 1) { // splice
      size_t off = r.below(before + 1), len = r.below(before - off + 1);
      HB h(d); buffer_splice(&t.b, off, (uint32_t) len, h.b());
      size_t nl = before - len + d.size();
      if (!(t.cap >= 0 && nl > (size_t) t.cap)) { B m2(t.model.begin(), t.model.begin() + off); put(m2, d); put(m2, sub(t.model, off + len)); t.model = m2; }
    } else if (op == 2) {
      S s = rstr(r, 30); HB h(s);
      size_t room = t.cap >= 0 ? t.cap - before : SIZE_MAX;
      buffer_add_chars(&t.b, h.c());
      if (room) { size_t w = std::min(room - 1, s.size()); put(t.model, (const uint8_t*) s.data(), w); }
      if (room && t.b.data.data && t.b.data.len == t.model.size() && t.b.data.data[t.b.data.len] != 0) return M().viol("buffer-chars-not-terminated", trace);
    } else if (op == 3 || op == 4) {
      uint32_t len = (uint32_t) r.range(1, 8); uint64_t v = r.u64() >> r.below(64);
      if (t.cap >= 0 && before + len > (size_t) t.cap) continue; // only growable buffers promise room
      if (op == 3) { buffer_add_be(&t.b, v, len); put(t.model, sub(be(v, 8), 8 - len)); } else { buffer_add_le(&t.b, v, len); put(t.model, sub(le(v, 8), 0, len)); }
    }
    if (t.cap >= 0 && t.b.data.len > (uint32_t) t.cap) return M().viol("buffer-over-capacity", trace);
    if (toB(t.b.data) != t.model && !(t.model.empty() && t.b.data.len == 0)) return M().viol("buffer-content", trace + " got " + hex(toB(t.b.data)) + " want " + hex(t.model));
  }
  M().obs("buf:" + S(t.cap >= 0 ? "fixed" : "grow") + std::to_string(std::min<size_t>(t.model.size() / 16, 8)));
}

static void fmt_ops(Rng& r) {
  // pieces are formatted one call each so that every conversion and its neighbours are covered
  static const char* L[] = {"", "a", "xy{", "%%", "0x", "\":\"", "long literal text "};
  static const char* LX[] = {"", "a", "xy{", "%", "0x", "\":\"", "long literal text "};
  Buf t(r); S want; want.reserve(4096); S trace; bool exact = true;
  int n = (int) r.range(1, 6);
  for (int i = 0; i < n; i++) {
    M().evals++;
    int pre = (int) r.below(7), post = (int) r.below(7), k = (int) r.below(15); if (k == 13 && t.cap >= 0) k = 0;
    S f = L[pre]; want += LX[pre];
    uint64_t v = r.u64() >> r.below(64); if (r.chance(1, 6)) v = 0;
    uint32_t v32 = (uint32_t) v; B d = r.raw(r.below(40)); if (r.chance(1, 3)) for (size_t j = 0; j < d.size() && r.chance(3, 4); j++) d[j] = 0; S s = rstr(r, 24);
    HB hd(d), hs(s); char* out = nullptr; trace = "k" + std::to_string(k) + " pre" + std::to_string(pre) + " post" + std::to_string(post) + " cap" + std::to_string(t.cap) + " len" + std::to_string(want.size()); M().label("fmt " + trace);
    switch (k) {
      case 0: f += S("%s") + L[post]; want += s; out = bprintf(&t.b, f.c_str(), hs.c()); break;
      case 1: f += S("%S") + L[post]; want += esc(s); out = bprintf(&t.b, f.c_str(), hs.c()); break;
      case 2: f += S("%x") + L[post]; want += hex(d, false); out = bprintf(&t.b, f.c_str(), hd.b()); break;
      case 3: { f += S("%u") + L[post]; if (d.empty()) { d = B{0}; } S q = qhex(d).substr(2); HB h2(d); want += q; out = bprintf(&t.b, f.c_str(), h2.b()); break; }
      case 4: { char c = (char) r.range(1, 127); f += S("%c") + L[post]; want += c; out = bprintf(&t.b, f.c_str(), (int) c); break; }
      case 5: { json_t j; S js = "\"" + S(20, 'q') + "\""; HB hj(js); j.start = hj.c(); j.len = js.size(); j.type = JSON_TYPE_STRING; f += S("%J") + L[post]; want += js; out = bprintf(&t.b, f.c_str(), j); break; }
      case 6: { json_t j; S js = "\"" + S(r.below(9), 'q') + "\""; HB hj(js); j.start = hj.c(); j.len = js.size(); j.type = JSON_TYPE_STRING; f += S("%j") + L[post]; want += js.substr(1, js.size() - 2); out = bprintf(&t.b, f.c_str(), j); break; }
      case 7: { json_t j; S js = "[1,2]"; HB hj(js); j.start = hj.c(); j.len = js.size(); j.type = JSON_TYPE_ARRAY; f += S("%j") + L[post]; want += js; out = bprintf(&t.b, f.c_str(), j); break; }
      case 8: f += S("%l") + L[post]; if (L[post][0] == 'x') f += ""; if (L[post][0] == 'x') { f = S(L[pre]) + "%l " + L[post]; want += std::to_string(v) + " "; } else want += std::to_string(v); out = bprintf(&t.b, f.c_str(), v); break;
      case 9: f += S("%lx") + L[post]; want += qhex(v).substr(2); out = bprintf(&t.b, f.c_str(), v); break;
      case 10: if (L[post][0] == 'x') { f += S("%d ") + L[post]; want += std::to_string(v32) + " "; } else { f += S("%d") + L[post]; want += std::to_string(v32); } out = bprintf(&t.b, f.c_str(), v32); break;
      case 11: f += S("%dx") + L[post]; want += qhex((uint64_t) v32).substr(2); out = bprintf(&t.b, f.c_str(), v32); break;
      case 12: f += S("%r") + L[post]; want += S(d.begin(), d.end()); out = bprintf(&t.b, f.c_str(), hd.b()); break;
      case 13: { double x = (double) (int64_t) (r.u64() >> r.range(14, 63)) / (double) r.pick({1, 2, 4, 8, 16}); if (r.chance(1, 3)) x = -x; f += S("%f") + L[post]; char tmp[64]; snprintf(tmp, 64, "%.6f", x); S z = tmp; while (z.back() == '0') z.pop_back(); if (z.back() == '.') z.pop_back(); if (x == 0) z = "0"; want += z; out = bprintf(&t.b, f.c_str(), x); break; }
      default: f += L[post]; out = bprintf(&t.b, "%s%s", f == "" ? "" : LX[pre], LX[post]); break;
    }
    want += LX[post];
    M().hit("fmt-k" + std::to_string(k));
    if (out != (char*) t.b.data.data) return M().viol("bprintf-return", trace);
    size_t cap = t.cap >= 0 ? (size_t) t.cap : SIZE_MAX;
    if (t.b.data.len >= cap) return M().viol("bprintf-no-room-for-terminator", trace);
    if (!out) return M().viol("bprintf-null", trace);
    if (out[t.b.data.len] != 0) return M().viol("bprintf-not-terminated", trace + " len=" + std::to_string(t.b.data.len));
    if (want.size() + 1 <= cap) { if (S(out, t.b.data.len) != want) return M().viol("bprintf-text", trace + " got <" + esc(S(out, t.b.data.len)) + "> want <" + esc(want) + "> fmt <" + esc(f) + ">"); }
    else { exact = false; break; }
  }
  M().obs(S("fmt:") + (t.cap >= 0 ? "fixed" : "grow") + (exact ? "" : "-truncated"));
}

static void hex_ops(Rng& r) {
  // encode/decode; odd length, prefix, invalid characters, too small targets
  S h; size_t n = r.below(70); for (size_t i = 0; i < n; i++) h += "0123456789abcdefABCDEF"[r.below(22)];
  if (n > 1 && h[0] == '0' && h[1] == 'x') h[1] = '1';
  bool pre = r.chance(1, 2), bad = false; S full = (pre ? "0x" : "") + h;
  if (n && r.chance(1, 4)) { size_t p = (pre ? 2 : 0) + r.below(n); char c = r.pick({'g', ' ', 'x', '-', '"', '\x7f', '/', ':', '@', 'G', '`'}); if (!(p == 1 && !pre && h[0] == '0' && c == 'x')) { full[p] = c; bad = true; } }
  size_t need = (h.size() + 1) / 2, cap = r.chance(1, 3) ? r.below(need + 1) : need + r.below(5);
  HB in(full); uint8_t* out = (uint8_t*) malloc(cap ? cap : 1); if (!cap) out = (uint8_t*) realloc(out, 1);
  uint8_t* o2 = cap ? out : (uint8_t*) malloc(1);
  M().label("hex <" + full + "> cap " + std::to_string(cap)); M().evals++;
  bool useneg = r.chance(1, 2);
  struct { uint8_t* p; } guard{(uint8_t*) malloc(cap + 1)}; guard.p[cap] = 0xA5; // one canary byte directly behind the target
  bytes_t tgt; tgt.data = guard.p; tgt.len = (uint32_t) cap;
  int got = hex_to_bytes(in.c(), useneg ? -1 : (int) full.size(), tgt);
  if (guard.p[cap] != 0xA5) M().viol("hex-overrun", full + " cap " + std::to_string(cap));
  if (bad || need > cap) { if (got != -1) M().viol(bad ? "hex-accepts-invalid" : "hex-accepts-too-small", full + " cap " + std::to_string(cap) + " -> " + std::to_string(got)); }
  else { B w = unhex(h.empty() ? "" : h); if (got != (int) w.size() || B(guard.p, guard.p + (got > 0 ? got : 0)) != w) M().viol("hex-value", full + " -> " + std::to_string(got)); }
  M().obs(S("hex:") + (bad ? "bad" : need > cap ? "small" : "ok") + (pre ? "p" : "") + (n & 1 ? "odd" : ""));
  free(out); if (!cap) free(o2); free(guard.p);
}

static void int_ops(Rng& r) {
  M().evals++; M().label("int"); B d = r.raw(8); HB h(d); uint64_t v = r.u64();
  if (uint64_from_le(h.p) != rd_le(d.data(), 8) || uint64_from_be(h.p) != rd_be(d) || uint32_from_le(h.p) != (uint32_t) rd_le(d.data(), 4) || uint16_from_le(h.p) != (uint16_t) rd_le(d.data(), 2)) M().viol("int-read", hex(d));
  uint64_to_be(h.p, v); if (toB(h.b()) != be(v, 8)) M().viol("int-be", std::to_string(v));
  uint64_to_le(h.p, v); if (toB(h.b()) != le(v, 8)) M().viol("int-le", std::to_string(v));
  uint32_to_le(h.p, (uint32_t) v); if (sub(toB(h.b()), 0, 4) != le((uint32_t) v, 4)) M().viol("int-le32", std::to_string(v));
  B e = r.raw(r.below(9)); HB he(e); if (bytes_as_be(he.b()) != rd_be(e) || bytes_as_le(he.b()) != rd_le(e.data(), (int) e.size())) M().viol("int-bytes", hex(e));
  B z = r.raw(r.range(1, 40)); for (size_t i = 0; i < z.size() && r.chance(2, 3); i++) z[i] = 0; HB hz(z); B st = strip(z); if (st.empty()) st = B{0}; if (toB(bytes_remove_leading_zeros(hz.b())) != st) M().viol("strip-zeros", hex(z));
  B a = r.raw(r.below(20)), b = a; if (b.size() && r.chance(1, 2)) b[r.below(b.size())] ^= (uint8_t) (1 << r.below(8)); if (r.chance(1, 5)) b.push_back(0);
  HB ha(a), hb(b); if (bytes_eq(ha.b(), hb.b()) != (a == b)) M().viol("bytes-eq", hex(a) + " " + hex(b));
  B f(r.below(20), (uint8_t) r.below(2)); bool eq = true; if (f.size() && r.chance(1, 2)) f[r.below(f.size())] ^= 1; for (auto c : f) if (c != 0) eq = false; HB hf(f); if (bytes_all_zero(hf.b()) != eq) M().viol("all-equal", hex(f));
  bytes_t dup = bytes_dup(hz.b()); if (toB(dup) != z) M().viol("bytes-dup", hex(z)); free(dup.data);
  M().obs("int");
}

int main(int argc, char** argv) {
  M().init(argc, argv);
  return M().loop([] { Rng& r = M().rng; for (int i = 0; i < 40; i++) switch (r.below(5)) { case 0: buffer_ops(r); break; case 1: case 2: fmt_ops(r); break; case 3: hex_ops(r); break; default: int_ops(r); } });
}
