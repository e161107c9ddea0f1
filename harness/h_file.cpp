// The file storage which clients use without a plugin of their own: keys and values as T03 stores them, in a scratch directory, against a map.
#include "repo.hpp"
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/wait.h>
static S dir_; static void clean() { if (dir_.empty()) return; S c = "rm -rf '" + dir_ + "'"; if (system(c.c_str())) {} }
int main(int argc, char** argv) {
  M().init(argc, argv); char t[] = "/tmp/verif_fileXXXXXX"; if (!mkdtemp(t)) { printf("INCONCLUSIVE no scratch directory\n"); return 2; } dir_ = t; atexit(clean); if (chdir(t)) return 2;
  int rc = M().loop([&] {
    Rng& r = M().rng; storage_plugin_t z = {}; c4_set_storage_config(&z); if (mkdir((dir_ + "/d").c_str(), 0700) && errno != EEXIST) return; S sub = dir_ + "/d"; static char buf[300]; bool dot = r.chance(1, 3); snprintf(buf, sizeof buf, "%s", dot ? "." : sub.c_str()); state_data_dir = buf;
    storage_plugin_t p; c4_get_storage_config(&p); if (!p.get || !p.set || !p.del) { M().viol("no-storage", "there is no file storage"); return; } if (p.max_sync_states != 3) M().viol("limit", "default limit of periods " + std::to_string(p.max_sync_states));
    std::vector<S> keys; for (int i = 0; i < 6; i++) keys.push_back(r.pick<S>({"states_" + std::to_string(r.below(3)), "sync_1_" + std::to_string(r.range(1, 20) * (r.chance(1, 2) ? 1 : 11)), "code_" + hex(keccak(r.raw(3))).substr(2), "zk_" + std::to_string(r.below(5)), "sync_10_1", "sync_1_01"})); std::map<S, B> m; for (auto& k : keys) { HB h(k); p.del((char*) h.p); }
    for (int n = 0; n < 60; n++) {
      S k = r.pick(keys); HB h(k); int op = (int) r.below(5); M().evals++;
      if (op <= 1) { size_t l = r.chance(1, 2) ? r.pick({0ULL, 1ULL, 33ULL, 1023ULL, 1024ULL, 1025ULL, 2047ULL, 2048ULL, 3072ULL, 4096ULL, 24576ULL, 49152ULL, 49184ULL}) : r.below(r.chance(1, 4) ? 200000 : 3000); B v = r.raw(l); if (r.chance(1, 3)) std::fill(v.begin(), v.end(), (uint8_t) r.pick({0ULL, 10ULL, 13ULL, 26ULL, 255ULL})); M().label("file set " + k + " " + std::to_string(l)); HB b(v); p.set((char*) h.p, b.b()); m[k] = v; M().obs("set " + std::to_string(l % 1024 == 0 ? 1024 : l > 1024) + (m.count(k) ? " again" : "") + (dot ? " dot" : "")); }
      else if (op == 2 && r.chance(1, 3)) { M().label("file del " + k); p.del((char*) h.p); m.erase(k); M().obs("del"); }
      else { M().label("file get " + k); buffer_t b = {0}; B pre = r.chance(1, 5) ? r.raw(r.below(50)) : B(); if (pre.size()) { HB x(pre); buffer_append(&b, x.b()); } bool ok = p.get((char*) h.p, &b); B got = toB(b.data); buffer_free(&b); auto it = m.find(k); M().hit(ok ? "values read" : "absent");
        if (ok != (it != m.end())) { M().viol(ok ? "deleted-value-read" : "value-lost", "key " + k); return; } if (ok) { B want = pre; put(want, it->second); if (got != want) { M().viol("value-changed", "key " + k + " length " + std::to_string(it->second.size()) + " read " + std::to_string(got.size())); return; } M().obs("get " + std::to_string(it->second.size() % 1024 == 0) + (pre.size() ? " appended" : "")); } else if (got != pre) M().viol("absent-value-read", k); }
    }
    for (auto& k : keys) { HB h(k); p.del((char*) h.p); }
  });
  if (chdir("/")) {} clean(); dir_ = ""; return rc;
}
