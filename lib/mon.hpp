// Harness runtime: case loop, violation reporting, coverage counters, crash breadcrumb.
#pragma once
#include "ref.hpp"
#include <fcntl.h>
#include <set>
#include <sys/mman.h>
#include <unistd.h>
#include <signal.h>
#include <sys/time.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/lsan_interface.h>
#define MON_LSAN 1
#endif
#endif
namespace mon {
using namespace ref;
struct Mon {
  uint64_t seed = 1, start = 0, step = 1, end = 1; bool thorough = false; std::map<S, S> opt;
  uint64_t cur = 0, evals = 0; char* st = nullptr;
  std::map<S, uint64_t> counters; std::set<S> distinct; std::vector<S> samples; int nviol = 0; std::set<S> seen;
  Rng rng;
  void init(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; i += 2) { S k = argv[i], v = argv[i + 1]; if (k == "--seed") seed = strtoull(v.c_str(), 0, 10); else if (k == "--start") start = strtoull(v.c_str(), 0, 10); else if (k == "--seed-add") seed += strtoull(v.c_str(), 0, 10) * 1000003; else if (k == "--step") step = strtoull(v.c_str(), 0, 10); else if (k == "--end") end = strtoull(v.c_str(), 0, 10); else if (k == "--tier") thorough = v == "thorough"; else if (k == "--leaks") leaks = true; else opt[k] = v; }
    signal(SIGPROF, on_cpu);
    const char* f = getenv("VERIF_STATUS");
    if (f) { int fd = open(f, O_RDWR | O_CREAT, 0600); if (fd >= 0 && !ftruncate(fd, 4096)) st = (char*) mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (st == MAP_FAILED) st = nullptr; }
  }
  // no single step of a workload may use more than a minute of cpu time (the slowest needs a few seconds with all sanitizers)
  static const int CPU_LIMIT = 60; char lastlabel[256] = {0};
  void arm() { itimerval t = {}; t.it_value.tv_sec = CPU_LIMIT; setitimer(ITIMER_PROF, &t, nullptr); }
  static void on_cpu(int);
  void label(const S& s) { snprintf(lastlabel, sizeof lastlabel, "%s", s.c_str()); arm(); if (st) { snprintf(st, 4096, "case=%llu %s", (unsigned long long) cur, s.substr(0, 3900).c_str()); } }
  void begin(uint64_t c) { cur = c; rng = Rng(mix(seed, c)); label("start"); }
  bool leaks = false; int leakfd = -1; // only memory which is not released is reported
  void viol(const S& key, const S& detail) {
    if (leaks && key.compare(0, 4, "leak")) return;
    if (nviol > 40 || (seen.count(key) && nviol > 3)) return;
    seen.insert(key); nviol++;
    S d = detail; for (auto& c : d) if (c == '\n' || c == '\t') c = ' ';
    printf("VIOL %llu\t%s\t%s\n", (unsigned long long) cur, key.c_str(), d.substr(0, 3000).c_str()); fflush(stdout);
  }
  void hit(const S& what, uint64_t n = 1) { counters[what] += n; }
  void obs(const S& state) { if (distinct.size() < 4000) distinct.insert(state); }
  void sample(const S& s) { if (samples.size() < 4) samples.push_back(s.substr(0, 400)); }
  int finish() {
    S o = "STAT {\"evaluations\":" + std::to_string(evals) + ",\"counters\":{"; bool f = true;
    auto js = [](const S& s) { J j; j.k = J::STR; S t; for (char c : s) t += ((uint8_t) c >= 0x20 && (uint8_t) c < 0x7f) ? c : '?'; j.s = t; return jdump(j); };
    for (auto& c : counters) { o += (f ? "" : ",") + js(c.first) + ":" + std::to_string(c.second); f = false; }
    o += "},\"distinct\":["; f = true; for (auto& d : distinct) { o += (f ? "" : ",") + js(d); f = false; }
    o += "],\"samples\":["; f = true; for (auto& d : samples) { o += (f ? "" : ",") + js(d); f = false; }
    o += "]}"; printf("%s\n", o.c_str()); fflush(stdout);
    return nviol ? 1 : 0;
  }
  // 0 nothing leaked, 1 leaked (report in txt), -1 the leak checker does not work here
  int leakcheck(S& txt) {
#ifdef MON_LSAN
    if (leakfd < 0) leakfd = memfd_create("lsan", 0); if (leakfd < 0) return -1; if (ftruncate(leakfd, 0)) return -1; lseek(leakfd, 0, SEEK_SET);
    __sanitizer_set_report_fd((void*) (intptr_t) leakfd); int rc = __lsan_do_recoverable_leak_check(); __sanitizer_set_report_fd((void*) (intptr_t) 2);
    if (!rc) return 0; off_t n = lseek(leakfd, 0, SEEK_END); txt.resize((size_t) n); if (pread(leakfd, &txt[0], (size_t) n, 0) != n) return -1; return txt.find("leak of ") == S::npos ? -1 : 1;
#else
    return -1;
#endif
  }
  // the stack of the first leaked object: functions of the repository
  static S leakkey(const S& t) { S o; size_t p = t.find("Direct leak of "); if (p == S::npos) p = 0; size_t e = t.find("\n\n", p); int n = 0; for (size_t q = t.find(" in ", p); q != S::npos && q < e; q = t.find(" in ", q + 4)) { size_t l = t.find('\n', q), f = t.find(' ', q + 4); if (f == S::npos || f > l) continue; S fn = t.substr(q + 4, f - q - 4), loc = t.substr(f + 1, l - f - 1); if (loc.find("/repo/") == S::npos || loc.find("bytes.c") != S::npos) continue; o += (n ? "<" : "") + fn; if (++n == 3) break; } return n ? o : S(""); }
  static __attribute__((noinline)) void leak_probe() { static void* volatile p; for (int i = 0; i < 50; i++) { p = malloc(77); memset(p, 1, 77); } p = nullptr; }
  template <class F> int loop(F f) {
    if (leaks) { for (uint64_t c = start; c < end; c += step) { begin(c); f(); S t; label("leak check"); int rc = leakcheck(t); hit("leak checks"); if (rc < 0) { printf("INCONCLUSIVE leak checker does not work\n"); return finish(); } if (rc == 1) { S k = leakkey(t); if (k.size()) { viol("leak@" + k, t); return finish(); } else { fprintf(stderr, "HARNESS-ERROR leak in the harness: %s\n", t.substr(0, 3000).c_str()); return 3; } } }
      leak_probe(); S t; if (leakcheck(t) != 1) printf("INCONCLUSIVE leak checker misses leaks\n"); else hit("planted leak seen"); return finish(); }
    for (uint64_t c = start; c < end; c += step) { begin(c); f(); } return finish(); }
};
inline Mon& M() { static Mon m; return m; }
inline void Mon::on_cpu(int) { // async signal: only formats into a local buffer and leaves
  Mon& m = M(); char b[700]; const char* l = m.lastlabel; int n = 0; while (l[n] && l[n] != ' ' && n < 80) n++;
  int k = m.leaks ? 0 : snprintf(b, sizeof b, "\nVIOL %llu\thang@%.*s\tmore than %d seconds of cpu time for one step: %s\n", (unsigned long long) m.cur, n, l, CPU_LIMIT, l);
  if (k > 0 && write(1, b, (size_t) k) < 0) _exit(3);
  _exit(1);
}
} // namespace mon
