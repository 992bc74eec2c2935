// Common harness runtime: deterministic case enumeration with sharding, replay of a
// single case, crash/hang attribution, violation records and JSON output.
#pragma once
#include <sys/mman.h>
#include <sys/time.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <functional>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace vp {

struct Viol { std::string id, key, msg; };

struct Ctx {
  std::string out, tier = "quick", only_sec;
  long only_idx = -1;
  bool only = false;
  int shard = 0, nshards = 1;
  int hang_s = 30;
  std::map<std::string, long> index;         // running index per section
  std::map<std::string, long> counters;      // free counters
  std::map<std::string, long> per_section;   // evaluated cases per section
  long evaluations = 0, nontrivial = 0;
  std::vector<std::string> samples;
  std::map<std::string,int> samples_per_sec;
  std::vector<Viol> viols;
  std::map<std::string,long> viol_count;     // per key
  std::string cur_sec; long cur_idx = -1;
  char* shm = nullptr;
  volatile long ticks = 0;
  long last_tick = -1; int idle = 0; double cpu0 = 0;
};

inline Ctx& ctx() { static Ctx c; return c; }
inline bool thorough() { return ctx().tier == "thorough"; }

inline std::string esc(const std::string& s) {
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c == '\t') o += "\\t";
    else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

inline void on_alarm(int) {
  Ctx& c = ctx();
  // seconds of processor time without progress (or six times as many of the clock's): a loaded machine is no hang
  double cpu = double(clock()) / CLOCKS_PER_SEC;
  if (c.ticks == c.last_tick) { if (++c.idle >= 6 * c.hang_s || cpu - c.cpu0 >= c.hang_s) { if (c.shm) c.shm[0] = 'H'; _exit(77); } }
  else { c.last_tick = c.ticks; c.idle = 0; c.cpu0 = cpu; }
}

inline void init(int argc, char** argv) {
  Ctx& c = ctx();
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(argv[++i]); };
    if (a == "--out") c.out = val();
    else if (a == "--tier") c.tier = val();
    else if (a == "--shard") { std::string v = val(); sscanf(v.c_str(), "%d/%d", &c.shard, &c.nshards); }
    else if (a == "--only") { std::string v = val(); auto p = v.rfind(':'); c.only = true; c.only_sec = v.substr(0, p); c.only_idx = atol(v.c_str() + p + 1); }
    else if (a == "--hang") c.hang_s = atoi(val().c_str());
  }
  if (!c.out.empty()) {
    std::string p = c.out + ".cur";
    int fd = open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0 && ftruncate(fd, 4096) == 0) {
      void* m = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (m != MAP_FAILED) c.shm = (char*)m;
      close(fd);
    }
  }
  signal(SIGALRM, on_alarm);
  struct itimerval it; it.it_interval.tv_sec = 1; it.it_interval.tv_usec = 0; it.it_value = it.it_interval;
  setitimer(ITIMER_REAL, &it, nullptr);
}

inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
// advance to the next case of a section; true if this process has to evaluate it
inline bool next(const char* sec) {
  Ctx& c = ctx();
  // once something failed, an answer matters more than completeness
  static const double t0 = now(); static const double patience = getenv("VP_FAILFAST") ? 0 : 200;
  if (!c.only && !c.viols.empty() && now() - t0 >= patience) { c.ticks++; return false; }
  long i = c.index[sec]++;
  c.ticks++;
  if (c.only) { if (c.only_sec != sec || c.only_idx != i) return false; }
  else if (i % c.nshards != c.shard) return false;
  c.cur_sec = sec; c.cur_idx = i;
  if (c.shm) { snprintf(c.shm + 1, 4000, "%s:%ld", sec, i); c.shm[0] = 'R'; }
  c.evaluations++; c.per_section[sec]++;
  return true;
}
inline void tick() { ctx().ticks++; }
inline void count(const std::string& k, long n = 1) { ctx().counters[k] += n; }
inline std::string case_id() { return ctx().cur_sec + ":" + std::to_string(ctx().cur_idx); }

inline void sample(const std::function<std::string()>& d, int per_sec = 2) {
  Ctx& c = ctx();
  if (c.samples_per_sec[c.cur_sec] < per_sec) { c.samples_per_sec[c.cur_sec]++; c.samples.push_back(case_id() + " " + d()); }
}
inline void nontrivial(bool b = true) { if (b) ctx().nontrivial++; }

inline void fail(const std::string& key, const std::string& msg) {
  Ctx& c = ctx();
  long n = ++c.viol_count[key];
  if (n <= 3 && c.viols.size() < 200) c.viols.push_back({case_id(), key, msg});
  if (c.only) std::cerr << "FAIL " << case_id() << " [" << key << "] " << msg << std::endl;
}

inline int finish() {
  Ctx& c = ctx();
  std::ostringstream o;
  o << "{\"evaluations\":" << c.evaluations << ",\"nontrivial\":" << c.nontrivial << ",\"counters\":{";
  bool f = true;
  for (auto& k : c.counters) { o << (f ? "" : ",") << "\"" << esc(k.first) << "\":" << k.second; f = false; }
  o << "},\"sections\":{"; f = true;
  for (auto& k : c.per_section) { o << (f ? "" : ",") << "\"" << esc(k.first) << "\":" << k.second; f = false; }
  o << "},\"samples\":["; f = true;
  for (auto& s : c.samples) { o << (f ? "" : ",") << "\"" << esc(s) << "\""; f = false; }
  o << "],\"viol_count\":{"; f = true;
  for (auto& k : c.viol_count) { o << (f ? "" : ",") << "\"" << esc(k.first) << "\":" << k.second; f = false; }
  o << "},\"violations\":["; f = true;
  for (auto& v : c.viols) { o << (f ? "" : ",") << "{\"case\":\"" << esc(v.id) << "\",\"key\":\"" << esc(v.key) << "\",\"msg\":\"" << esc(v.msg) << "\"}"; f = false; }
  o << "]}";
  if (c.shm) c.shm[0] = 'D';
  if (!c.out.empty()) { std::ofstream fo(c.out); fo << o.str() << "\n"; }
  else std::cout << o.str() << std::endl;
  return 0;
}

// mixed radix enumeration: calls f(digits) for all combinations
template <class F> void product(const std::vector<int>& radix, F f) {
  std::vector<int> d(radix.size(), 0);
  for (int r : radix) if (r == 0) return;
  while (true) {
    f(d);
    int i = (int)d.size() - 1;
    while (i >= 0 && ++d[i] == radix[i]) d[i--] = 0;
    if (i < 0) break;
  }
}

// silence std::cout/std::cerr of the code under test
struct Quiet {
  std::ostringstream s; std::streambuf *o, *e;
  Quiet() { o = std::cout.rdbuf(s.rdbuf()); e = std::cerr.rdbuf(s.rdbuf()); }
  ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};
}
