// Shared support of the monitors: seeded generation, observation counters,
// violation records, progress marker (so that a crash names its case).
#pragma once
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

namespace vf {

inline uint64_t splitmix(uint64_t& s) {
  uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t u64() { return splitmix(s); }
  double u01() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * u01(); }
  int i(int lo, int hi) {  // inclusive
    return lo + static_cast<int>(u64() % static_cast<uint64_t>(hi - lo + 1));
  }
  bool p(double prob) { return u01() < prob; }
  double sgn() { return p(0.5) ? 1.0 : -1.0; }
  // log-uniform magnitude
  double logu(double lo, double hi) {
    return std::exp(uni(std::log(lo), std::log(hi)));
  }
  double normal() {
    double a = std::max(u01(), 1e-300), b = u01();
    return std::sqrt(-2 * std::log(a)) * std::cos(2 * M_PI * b);
  }
};

inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ULL) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (size_t k = 0; k < n; ++k) { h ^= c[k]; h *= 1099511628211ULL; }
  return h;
}
inline uint64_t hashStr(const std::string& s) { return fnv(s.data(), s.size()); }

inline std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

inline std::string fmt(const char* f, ...) {
  char b[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}

struct Record {
  std::mutex m;
  uint64_t seed = 1;
  long cur_case = -1;
  std::map<std::string, long> counters;
  std::map<std::string, double> maxima;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  struct V { std::string key, detail; long cas; };
  std::vector<V> viols;
  std::map<std::string, long> viol_counts;
  long evaluations = 0;
  bool verbose = false;
};
inline Record& R() { static Record* r = new Record; return *r; }

// An observation was made.
inline void count(const std::string& k, long n = 1) {
  std::lock_guard<std::mutex> l(R().m);
  R().counters[k] += n;
}
inline void maxv(const std::string& k, double v) {
  std::lock_guard<std::mutex> l(R().m);
  auto it = R().maxima.find(k);
  if (it == R().maxima.end()) R().maxima[k] = v;
  else if (v > it->second || std::isnan(v)) it->second = v;
}
inline void evaluated(long n = 1) { std::lock_guard<std::mutex> l(R().m); R().evaluations += n; }
inline void distinct(uint64_t h) { std::lock_guard<std::mutex> l(R().m); R().distinct.insert(h); }
inline void distinct(const std::string& s) { distinct(hashStr(s)); }
inline void sample(const std::string& s) {
  std::lock_guard<std::mutex> l(R().m);
  if (R().samples.size() < 3) R().samples.push_back(s);
}
inline void viol(const std::string& key, const std::string& detail) {
  std::lock_guard<std::mutex> l(R().m);
  long n = ++R().viol_counts[key];
  if (n <= 3) R().viols.push_back({key, detail, R().cur_case});
  if (R().verbose || n <= 1)
    fprintf(stderr, "[viol] %s case=%ld: %s\n", key.c_str(), R().cur_case, detail.c_str());
}
#define VF_EXPECT(cond, key, ...) \
  do { if (!(cond)) vf::viol(key, vf::fmt(__VA_ARGS__)); } while (0)

struct Ctx {
  Rng rng;
  long idx = 0;
  bool thorough = false;
};

// Runs fn in a forked child: for inputs on which the code may abort.  Returns
// exit code (>=0) or -signal. Only for single-threaded harnesses.
inline int isolated(const std::function<int()>& fn, std::string* err = nullptr) {
  fflush(stdout);
  fflush(stderr);
  int pfd[2];
  if (pipe(pfd) != 0) return 99;
  pid_t pid = fork();
  if (pid == 0) {
    dup2(pfd[1], 2);
    close(pfd[0]);
    int rc = 98;
    try { rc = fn(); }
    catch (const std::exception& e) { fprintf(stderr, "exception: %s\n", e.what()); rc = 97; }
    catch (...) { rc = 97; }
    fflush(stderr);
    _exit(rc);
  }
  close(pfd[1]);
  std::string out;
  char b[4096];
  ssize_t n;
  while ((n = read(pfd[0], b, sizeof b)) > 0) if (out.size() < 20000) out.append(b, n);
  close(pfd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (err) *err = out;
  return WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
}

inline uint64_t caseSeed(uint64_t seed, const char* prop, long idx) {
  uint64_t s = seed * 0x9E3779B97F4A7C15ULL ^ hashStr(prop) ^ (static_cast<uint64_t>(idx) * 0xD1B54A32D192ED03ULL);
  splitmix(s);
  return splitmix(s);
}

inline void writeOut(const std::string& path) {
  FILE* f = fopen(path.c_str(), "w");
  if (!f) { perror("out"); exit(3); }
  Record& r = R();
  std::lock_guard<std::mutex> l(r.m);
  fprintf(f, "{\"evaluations\": %ld, \"distinct\": [", r.evaluations);
  bool first = true;
  for (uint64_t h : r.distinct) { fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)h); first = false; }
  fprintf(f, "],\n \"counters\": {");
  first = true;
  for (auto& c : r.counters) { fprintf(f, "%s\"%s\": %ld", first ? "" : ", ", jesc(c.first).c_str(), c.second); first = false; }
  fprintf(f, "},\n \"maxima\": {");
  first = true;
  for (auto& c : r.maxima) {
    double v = c.second;
    if (std::isnan(v)) v = 1e308;
    if (std::isinf(v)) v = v > 0 ? 1e308 : -1e308;
    fprintf(f, "%s\"%s\": %.6g", first ? "" : ", ", jesc(c.first).c_str(), v);
    first = false;
  }
  fprintf(f, "},\n \"samples\": [");
  first = true;
  for (auto& s : r.samples) { fprintf(f, "%s\"%s\"", first ? "" : ",\n  ", jesc(s).c_str()); first = false; }
  fprintf(f, "],\n \"violation_counts\": {");
  first = true;
  for (auto& c : r.viol_counts) { fprintf(f, "%s\"%s\": %ld", first ? "" : ", ", jesc(c.first).c_str(), c.second); first = false; }
  fprintf(f, "},\n \"violations\": [");
  first = true;
  for (auto& v : r.viols) {
    fprintf(f, "%s{\"key\": \"%s\", \"case\": %ld, \"detail\": \"%s\"}", first ? "" : ",\n  ", jesc(v.key).c_str(), v.cas, jesc(v.detail).c_str());
    first = false;
  }
  fprintf(f, "]}\n");
  fclose(f);
}

// Standard driver: --seed S --begin B --end E --tier quick|thorough --out F
//                  --progress P
inline int drive(int argc, char** argv, const char* prop,
                 const std::function<void(Ctx&)>& run_case) {
  uint64_t seed = 1;
  long begin = 0, end = 1;
  std::string out = "/dev/stdout", progress;
  bool thorough = false;
  for (int k = 1; k + 1 < argc; k += 2) {
    std::string a = argv[k], v = argv[k + 1];
    if (a == "--seed") seed = strtoull(v.c_str(), nullptr, 10);
    else if (a == "--begin") begin = atol(v.c_str());
    else if (a == "--end") end = atol(v.c_str());
    else if (a == "--tier") thorough = v == "thorough";
    else if (a == "--out") out = v;
    else if (a == "--progress") progress = v;
    else if (a == "--verbose") R().verbose = v == "1";
  }
  R().seed = seed;
  volatile long* prog = nullptr;
  if (!progress.empty()) {
    int fd = open(progress.c_str(), O_RDWR | O_CREAT, 0644);
    if (fd >= 0 && ftruncate(fd, sizeof(long)) == 0)
      prog = static_cast<volatile long*>(mmap(nullptr, sizeof(long), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
  }
  auto now = [] { timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; };
  const double patience = getenv("VERIF_FIRST") ? 0 : 15;
  double first = 0;  // when a violation was seen first
  for (long c = begin; c < end; ++c) {
    // enough has been seen of code that breaks the property
    if (first && now() - first > patience && !thorough) break;
    Ctx ctx;
    ctx.rng = Rng(caseSeed(seed, prop, c));
    ctx.idx = c;
    ctx.thorough = thorough;
    { std::lock_guard<std::mutex> l(R().m); R().cur_case = c; }
    if (prog) *prog = c;
    run_case(ctx);
    if (!first) { std::lock_guard<std::mutex> l(R().m); if (!R().viol_counts.empty()) first = now(); }
  }
  writeOut(out);
  if (prog) *prog = -2;  // finished
  return 0;
}

}  // namespace vf
