// JSON reader and schema validator against an independent parser/validator; hostile text for memory safety.
#include "repo.hpp"

struct G { J j; S t; }; // value and its text
static S ws(Rng& r) { S s; while (r.chance(1, 5)) s += r.pick<char>({' ', '\n', '\t', '\r'}); return s; }
static S hexs(Rng& r, size_t n) { S s = "0x"; for (size_t i = 0; i < n; i++) s += "0123456789abcdefABCDEF"[r.below(22)]; return s; }
static S qstr(const S& raw, Rng& r, S& out) { // raw -> json text, out = decoded value (equal to raw)
  out = raw; S t = "\""; for (char ch : raw) { uint8_t c = (uint8_t) ch; char b[8]; if (c == '"') t += "\\\""; else if (c == '\\') t += "\\\\"; else if (c == '/' && r.chance(1, 2)) t += "\\/"; else if (c == '\n') t += "\\n"; else if (c == '\t') t += "\\t"; else if (c == '\r') t += "\\r"; else if (c == 8) t += "\\b"; else if (c == 12) t += "\\f"; else if (c < 0x20 || (c < 0x7f && r.chance(1, 12))) { snprintf(b, 8, r.chance(1, 2) ? "\\u%04x" : "\\u%04X", c); t += b; } else t += ch; }
  return t + "\"";
}
static S rs(Rng& r) { S s; size_t n = r.below(20); for (size_t i = 0; i < n; i++) s += (char) r.pick<int>({'a', 'Z', '0', ' ', '{', '}', '[', ']', ',', ':', '"', '\\', '/', '\n', '\t', 8, 12, 1, 0x1f, 'u', '\'', '%'}); if (r.chance(1, 4)) s += "\xc3\xa9\xe2\x82\xac"; return s; }
static G gen(Rng& r, int d) {
  G g; int k = (int) r.below(d > 0 ? 9 : 6);
  switch (k) {
    case 0: g.j.k = J::NUL; g.t = "null"; break;
    case 1: g.j.k = J::BOOLEAN; g.j.b = r.chance(1, 2); g.t = g.j.b ? "true" : "false"; break;
    case 2: g.j.k = J::NUM; g.t = std::to_string(r.u64() >> r.below(64)); if (r.chance(1, 5)) g.t = "-" + g.t; if (r.chance(1, 5)) g.t += r.pick<S>({".5", "e10", "E-3", "e+7", ".25E+2"}); g.j.s = g.t; break;
    case 3: { g.j.k = J::STR; g.t = qstr(rs(r), r, g.j.s); break; }
    case 4: g.j.k = J::STR; g.j.s = hexs(r, r.below(70)); g.t = "\"" + g.j.s + "\""; break;
    case 5: g.j.k = J::STR; g.j.s = std::to_string(r.u64() >> r.below(64)); g.t = "\"" + g.j.s + "\""; break;
    case 6: case 7: { g.j.k = J::OBJ; g.t = "{" + ws(r); size_t n = r.below(6); for (size_t i = 0; i < n; i++) { S nm = r.pick<S>({"a", "b", "ab", "name", "block_number", "x"}) + (r.chance(2, 3) ? std::to_string(i) : S("q") + std::to_string(i) + "}],{"); G c = gen(r, d - 1); g.j.o.push_back({nm, c.j}); g.t += (i ? "," : "") + ws(r) + "\"" + nm + "\"" + ws(r) + ":" + ws(r) + c.t + ws(r); } g.t += "}"; break; }
    default: { g.j.k = J::ARR; g.t = "[" + ws(r); size_t n = r.below(7); for (size_t i = 0; i < n; i++) { G c = gen(r, d - 1); g.j.a.push_back(c.j); g.t += (i ? "," : "") + ws(r) + c.t + ws(r); } g.t += "]"; }
  }
  return g;
}
static bool isuint(const S& s) { if (s.empty()) return false; for (char c : s) if (!isdigit((uint8_t) c)) return false; return true; }
static bool ishex(const S& s) { if (s.size() < 2 || s[0] != '0' || s[1] != 'x') return false; for (size_t i = 2; i < s.size(); i++) if (hexd(s[i]) < 0) return false; return true; }
static const char* TN[] = {"null", "bool", "num", "str", "arr", "obj", "bad"};
static json_type_t want_type(const J& j) { switch (j.k) { case J::NUL: return JSON_TYPE_NULL; case J::BOOLEAN: return JSON_TYPE_BOOLEAN; case J::NUM: return JSON_TYPE_NUMBER; case J::STR: return JSON_TYPE_STRING; case J::ARR: return JSON_TYPE_ARRAY; case J::OBJ: return JSON_TYPE_OBJECT; default: return JSON_TYPE_INVALID; } }

static void compare(const J& j, json_t v, const S& path, const S& doc) {
  M().evals++; M().hit(S("val-") + TN[j.k]);
  auto bad = [&](const char* k, const S& d) { M().viol(k, path + " " + d + " in " + doc.substr(0, 400)); };
  if (v.type != want_type(j)) return bad("json-type", "got " + std::to_string(v.type) + " want " + TN[j.k]);
  buffer_t b; memset(&b, 0, sizeof b);
  switch (j.k) {
    case J::BOOLEAN: if (json_as_bool(v) != j.b) bad("json-bool", ""); break;
    case J::NUL: if (!json_as_null(v)) bad("json-null", ""); break;
    case J::NUM: { char* s = json_as_string(v, &b); if (S(s) != j.s) bad("json-number-text", s); if (isuint(j.s) && j.s.size() < 20 && json_as_uint64(v) != strtoull(j.s.c_str(), 0, 10)) bad("json-number-value", j.s); break; }
    case J::STR: {
      char* s = json_as_string(v, &b); if (S(s) != j.s) bad("json-string", "got <" + S(s) + "> want <" + j.s + ">");
      char* n = json_new_string(v); if (S(n) != j.s) bad("json-new-string", n); free(n);
      if (isuint(j.s) && j.s.size() < 20 && json_as_uint64(v) != strtoull(j.s.c_str(), 0, 10)) bad("json-suint-value", j.s);
      if (ishex(j.s)) {
        B w = unhex(j.s); buffer_t t; memset(&t, 0, sizeof t); bytes_t got = json_as_bytes(v, &t); if (toB(got) != w) bad("json-bytes", j.s); buffer_free(&t);
        if (w.size() <= 8 && j.s.size() > 2 && json_as_uint64(v) != rd_be(w)) bad("json-hex-value", j.s); else json_as_uint64(v);
        // fixed-size targets: exact, larger and smaller than needed
        for (int k = 0; k < 3; k++) { size_t cap = k == 0 ? w.size() : k == 1 ? w.size() + 3 : w.size() / 2; if (!cap) continue; uint8_t* p = (uint8_t*) malloc(cap); bytes_t tg; tg.data = p; tg.len = (uint32_t) cap; uint32_t n2 = json_to_bytes(v, tg); if (cap >= w.size() ? (n2 != w.size() || B(p, p + n2) != w) : n2 > cap) bad("json-to-bytes", j.s + " cap " + std::to_string(cap) + " -> " + std::to_string(n2)); free(p); }
      } else { json_as_uint64(v); uint8_t* p = (uint8_t*) malloc(8); bytes_t tg; tg.data = p; tg.len = 8; if (json_to_bytes(v, tg) > 8) bad("json-to-bytes-len", j.s); free(p); }
      break;
    }
    case J::ARR: {
      if (json_len(v) != j.a.size()) return bad("json-len", std::to_string(json_len(v)));
      size_t i = 0; json_for_each_value(v, x) { if (i < j.a.size()) compare(j.a[i], x, path + "[" + std::to_string(i) + "]", doc); i++; }
      if (i != j.a.size()) return bad("json-iterate", std::to_string(i));
      for (size_t k = 0; k < j.a.size(); k++) if (json_at(v, k).type != want_type(j.a[k])) bad("json-at", std::to_string(k));
      if (json_at(v, j.a.size()).type != JSON_TYPE_NOT_FOUND) bad("json-at-end", "");
      break;
    }
    case J::OBJ: {
      size_t i = 0; bytes_t nm; memset(&nm, 0, sizeof nm); json_for_each_property(v, x, nm) { if (i < j.o.size()) { if (S((char*) nm.data, nm.len) != j.o[i].first) bad("json-prop-name", j.o[i].first); compare(j.o[i].second, x, path + "." + j.o[i].first, doc); } i++; }
      if (i != j.o.size()) return bad("json-iterate-props", std::to_string(i));
      for (auto& p : j.o) { json_t x = json_get(v, p.first.c_str()); if (x.type != want_type(p.second)) bad("json-get", p.first); }
      if (json_get(v, "nope").type != JSON_TYPE_NOT_FOUND) bad("json-get-missing", "");
      for (auto& p : j.o) if (p.first.find_first_of("{}[],.") == S::npos) {
        if (p.second.k == J::OBJ) for (auto& p2 : p.second.o) if (p2.first.find_first_of("{}[],.") == S::npos) { json_t x = json_get_path(v, (p.first + "." + p2.first).c_str()); if (x.type != want_type(p2.second)) bad("json-path", p.first + "." + p2.first); }
        if (p.second.k == J::ARR && p.second.a.size()) { size_t k = p.second.a.size() - 1; json_t x = json_get_path(v, (p.first + "[" + std::to_string(k) + "]").c_str()); if (x.type != want_type(p.second.a[k])) bad("json-path-idx", p.first); }
      }
      json_t dup = json_dup(v); if (S(dup.start, dup.len) != S(v.start, v.len)) bad("json-dup", ""); free((void*) dup.start);
      break;
    }
    default: break;
  }
  buffer_free(&b);
}

// ---- schema language ----
struct D { S k; std::vector<D> items; std::vector<std::pair<S, std::pair<bool, D>>> f; };
static D gend(Rng& r, int d) {
  D x; int k = (int) r.below(d > 0 ? 13 : 9); static const char* P[] = {"bytes32", "address", "hexuint", "hex32", "bytes", "uint", "suint", "bool", "block"};
  if (k < 9) { x.k = P[k]; return x; }
  if (k == 9) { x.k = "[]"; size_t n = r.chance(2, 3) ? 1 : r.range(2, 3); for (size_t i = 0; i < n; i++) x.items.push_back(gend(r, d - 1)); return x; }
  if (k == 10) { x.k = "{*}"; x.items.push_back(gend(r, d - 1)); return x; }
  x.k = "{}"; size_t n = r.range(1, 5); for (size_t i = 0; i < n; i++) x.f.push_back({r.pick<S>({"a", "b", "hash", "blockNumber", "x_1", "a"}) + std::to_string(i), {r.chance(1, 3), gend(r, d - 1)}});
  return x;
}
static S dtext(const D& d, Rng& r) {
  auto w = [&] { return r.chance(1, 12) ? S(" ") : S(); };
  if (d.k == "[]") { S s = "["; for (size_t i = 0; i < d.items.size(); i++) s += (i ? "," : "") + w() + dtext(d.items[i], r); return s + "]"; }
  if (d.k == "{*}") return "{*:" + dtext(d.items[0], r) + "}";
  if (d.k == "{}") { S s = "{"; for (size_t i = 0; i < d.f.size(); i++) s += (i ? "," : "") + w() + d.f[i].first + (d.f[i].second.first ? "?" : "") + ":" + w() + dtext(d.f[i].second.second, r); return s + "}"; }
  return d.k;
}
static bool okhex(const J& j, int& n) { if (j.k != J::STR || !ishex(j.s)) return false; n = (int) j.s.size() - 2; return true; }
static bool conform(const J& j, const D& d) {
  int n = 0;
  if (d.k == "bytes32") return okhex(j, n) && n == 64;
  if (d.k == "address") return okhex(j, n) && n == 40;
  if (d.k == "bytes") return okhex(j, n);
  if (d.k == "hex32") return okhex(j, n) && n <= 64;
  if (d.k == "hexuint") return okhex(j, n) && n >= 1 && n <= 64 && (n == 1 || j.s[2] != '0');
  if (d.k == "uint") return j.k == J::NUM;
  if (d.k == "suint") return j.k == J::STR && (j.s.empty() || isuint(j.s));
  if (d.k == "bool") return j.k == J::BOOLEAN;
  if (d.k == "block") { if (j.k == J::STR && (j.s == "latest" || j.s == "safe" || j.s == "finalized")) return true; D h; h.k = j.k == J::STR && j.s.size() == 66 ? "bytes32" : "hexuint"; return conform(j, h); }
  if (d.k == "[]") { if (j.k != J::ARR) return false; for (size_t i = 0; i < j.a.size(); i++) if (!conform(j.a[i], d.items[std::min(i, d.items.size() - 1)])) return false; return true; }
  if (d.k == "{*}") { if (j.k != J::OBJ) return false; for (auto& p : j.o) if (!conform(p.second, d.items[0])) return false; return true; }
  if (j.k != J::OBJ) return false;
  for (auto& f : d.f) { const J* v = j.get(f.first); if (!v) { if (!f.second.first) return false; } else if (!(f.second.first && v->k == J::NUL) && !conform(*v, f.second.second)) return false; }
  return true;
}
static J genv(const D& d, Rng& r, int bad) { // value for schema; with probability 1/bad per node something off
  J j; auto str = [&](const S& s) { J x; x.k = J::STR; x.s = s; return x; };
  if (bad && r.chance(1, bad)) {
    switch (r.below(12)) { case 0: j.k = J::NUL; return j; case 1: j.k = J::NUM; j.s = "12"; return j; case 2: return str("1x1234"); case 3: return str("0y12"); case 4: return str("00x12"); case 5: return str(hexs(r, r.pick<int>({39, 40, 41, 63, 64, 65, 66, 0, 1, 2}))); case 6: return str("12a"); case 7: j.k = J::ARR; return j; case 8: j.k = J::OBJ; return j; case 9: return str(r.pick<S>({"latest", "latestx", "pending", "safe", "finalized", "late", "earliest", "saf"})); case 10: return str(hexs(r, 6) + "zz"); default: return str(r.pick<S>({"", "0", "0x", "x", "0x00", "0x0", "-1"})); }
  }
  if (d.k == "bytes32") return str(hexs(r, 64));
  if (d.k == "address") return str(hexs(r, 40));
  if (d.k == "bytes") return str(hexs(r, r.below(100)));
  if (d.k == "hex32") return str(hexs(r, r.below(65)));
  if (d.k == "hexuint") { size_t n = r.range(1, 64); S s = hexs(r, n); if (n > 1 && s[2] == '0') s[2] = '7'; return str(s); }
  if (d.k == "uint") { j.k = J::NUM; j.s = std::to_string(r.u64() >> r.below(60)); return j; }
  if (d.k == "suint") return str(std::to_string(r.u64() >> r.below(60)));
  if (d.k == "bool") { j.k = J::BOOLEAN; j.b = r.chance(1, 2); return j; }
  if (d.k == "block") return r.chance(1, 2) ? str(r.pick<S>({"latest", "safe", "finalized"})) : r.chance(1, 2) ? str("0x" + S(r.below(4), '0').append(64, 'b').substr(0, 64)) : str(qhex(r.u64() >> r.below(60)));
  if (d.k == "[]") { j.k = J::ARR; size_t n = d.items.size() > 1 ? r.range(0, d.items.size()) : r.below(4); for (size_t i = 0; i < n; i++) j.a.push_back(genv(d.items[std::min(i, d.items.size() - 1)], r, bad)); return j; }
  if (d.k == "{*}") { j.k = J::OBJ; size_t n = r.below(4); for (size_t i = 0; i < n; i++) j.o.push_back({"k" + std::to_string(i), genv(d.items[0], r, bad)}); return j; }
  j.k = J::OBJ; for (auto& f : d.f) { if (f.second.first && r.chance(1, 3)) { if (r.chance(1, 2)) { J x; x.k = J::NUL; j.o.push_back({f.first, x}); } continue; } if (bad && r.chance(1, bad * 2)) continue; j.o.push_back({f.first, genv(f.second.second, r, bad)}); }
  if (r.chance(1, 4)) { J x; x.k = J::STR; x.s = "extra"; j.o.insert(j.o.begin(), {"unknown", x}); }
  return j;
}

static void leaves(J& j, std::vector<J*>& out) { if (j.k == J::ARR) for (auto& x : j.a) leaves(x, out); else if (j.k == J::OBJ) for (auto& p : j.o) leaves(p.second, out); else out.push_back(&j); }
// large documents which differ in one place only, validated one after the other: what was validated before must not matter
static void cached_case(Rng& r) {
  D d; d.k = "[]"; d.items.push_back(gend(r, 2)); std::vector<D> ds{d}; { D o; o.k = "[]"; o.items.push_back(gend(r, 2)); ds.push_back(o); } size_t n = r.pick<size_t>({1, 3, 10, 40, 150}); J j; j.k = J::ARR; for (size_t i = 0; i < n; i++) j.a.push_back(genv(d.items[0], r, 0)); std::vector<S> defs{dtext(ds[0], r), dtext(ds[1], r)};
  for (int k = 0; k < 8; k++) {
    J x = j; std::vector<J*> ls; leaves(x, ls); S what = "same"; if (ls.size() && r.chance(2, 3)) { J* l = r.chance(1, 3) ? ls.back() : r.pick(ls); J b; b.k = J::STR; if (l->k == J::STR && r.chance(1, 2) && l->s.size() > 4) { b.s = l->s; b.s[r.range(2, b.s.size() - 1)] = 'z'; what = "digit"; } else if (r.chance(1, 2)) { b.k = J::NUL; what = "null"; } else { b.s = "0xzz"; what = "text"; } *l = b; } else if (r.chance(1, 3) && x.a.size()) { x.a.pop_back(); what = "shorter"; }
    int w = r.chance(1, 5); bool want = conform(x, ds[w]); S txt = jdump(x); HB h(txt), hd(defs[w]); M().label("validate again " + what + " " + defs[w] + " <- " + txt.substr(0, 300)); M().evals++; const char* e = json_validate_cached(json_parse(h.c()), hd.c(), "pre: "); if ((e == nullptr) != want) M().viol("validate-cached", what + " " + defs[w] + " <- " + (txt.size() > 400 ? "..." + txt.substr(txt.size() - 400) : txt)); free((void*) e); M().obs("again " + what + (want ? "+" : "-") + std::to_string(n));
  }
}
static void validate_case(Rng& r) {
  D d = gend(r, 3); S def = dtext(d, r); J j = genv(d, r, r.chance(1, 3) ? 0 : (int) r.range(2, 12)); S txt = jdump(j); HB h(txt), hd(def);
  M().label("validate " + def + " <- " + txt); M().evals++;
  bool want = conform(j, d); json_t v = json_parse(h.c());
  const char* e = json_validate(v, hd.c(), "pre: "); if ((e == nullptr) != want) M().viol(want ? "validate-rejects-conforming" : "validate-accepts-nonconforming", def + " <- " + txt + (e ? S(" err ") + e : S())); free((void*) e);
  for (int k = 0; k < 2; k++) { e = json_validate_cached(v, hd.c(), "pre: "); if ((e == nullptr) != want) M().viol("validate-cached", def + " <- " + txt); free((void*) e); }
  M().hit(want ? "conforming" : "nonconforming"); M().obs(S("def:") + d.k + (want ? "+" : "-"));
  if (r.chance(1, 200)) M().sample(def + " <- " + txt);
}

static void hostile(Rng& r) { // damaged text: only memory safety and self-consistency
  G g = gen(r, 4); S t = g.t; int n = (int) r.range(1, 4);
  for (int i = 0; i < n && t.size(); i++) switch (r.below(5)) { case 0: t = t.substr(0, r.below(t.size())); break; case 1: t[r.below(t.size())] = (char) r.range(1, 255); break; case 2: t.erase(r.below(t.size()), r.range(1, 3)); break; case 3: t.insert(r.below(t.size() + 1), r.pick<S>({"\"", "\\", "{", "}", "[", "]", ",", ":", "\\u12", "0x"})); break; default: t += "\\"; }
  HB h(t); M().label("hostile " + t); M().evals++;
  std::function<void(json_t, int)> w = [&](json_t v, int d) {
    if (d > 12) return;
    if (v.type != JSON_TYPE_INVALID && v.type != JSON_TYPE_NOT_FOUND && (v.start < h.c() || v.start + v.len > h.c() + t.size())) M().viol("json-out-of-text", t);
    buffer_t b; memset(&b, 0, sizeof b); json_as_string(v, &b); buffer_free(&b); json_as_uint64(v); json_as_bool(v); uint8_t* p = (uint8_t*) malloc(4); bytes_t tg; tg.data = p; tg.len = 4; json_to_bytes(v, tg); free(p);
    bytes_t nm; memset(&nm, 0, sizeof nm); int c = 0;
    if (v.type == JSON_TYPE_OBJECT) { json_for_each_property(v, x, nm) { w(x, d + 1); if (++c > 20) break; } json_get(v, "a0"); json_get_path(v, "a0.b1[2].x"); }
    if (v.type == JSON_TYPE_ARRAY) { json_for_each_value(v, x) { w(x, d + 1); if (++c > 20) break; } json_at(v, 3); json_len(v); }
  };
  json_t v = json_parse(h.c()); w(v, 0); D d = gend(r, 3); S def = dtext(d, r); free((void*) json_validate(v, def.c_str(), "e"));
  M().obs("hostile:" + std::to_string(v.type));
}

int main(int argc, char** argv) {
  M().init(argc, argv);
  return M().loop([] { Rng& r = M().rng; for (int i = 0; i < 25; i++) switch (r.below(5)) { case 4: cached_case(r); break; case 0: { G g = gen(r, 5); S t = ws(r) + g.t + ws(r); HB h(t); M().label("doc " + t); compare(g.j, json_parse(h.c()), "$", t); M().obs(S("doc:") + TN[g.j.k] + std::to_string(std::min<size_t>(t.size() / 64, 12))); break; } case 1: case 2: validate_case(r); break; default: hostile(r); } });
}
