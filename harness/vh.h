// Monitor-harness support: deterministic case loop, verdict channel, event
// counters.  Deliberately independent of the code under test.
#pragma once
#include <cinttypes>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <unistd.h>
#include <fcntl.h>

namespace vh {

inline uint64_t mix(uint64_t z) {
  z += 0x9E3779B97F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
inline uint64_t hash_str(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return mix(h);
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() { s += 0x9E3779B97F4A7C15ull; return mix(s); }
  // uniform in [a,b]
  int64_t range(int64_t a, int64_t b) {
    if (b <= a) return a;
    return a + (int64_t)(next() % (uint64_t)(b - a + 1));
  }
  bool chance(double p) { return uni() < p; }
  double uni() { return (double)(next() >> 11) / 9007199254740992.0; }
  double real(double a, double b) { return a + (b - a) * uni(); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[range(0, (int64_t)v.size() - 1)]; }
  // size biased to small values and boundaries; rarely one far above what is usual
  int64_t big(int64_t lo, int64_t hi, int64_t top) { return chance(0.015) ? range(hi, top) : size(lo, hi); }
  int64_t size(int64_t lo, int64_t hi) {
    switch (range(0, 5)) {
      case 0: return lo;
      case 1: return range(lo, std::min<int64_t>(hi, lo + 2));
      default: return range(lo, hi);
    }
  }
};

struct Globals {
  std::string driver;
  uint64_t seed = 1;
  int64_t cur = -1;
  int out_fd = -1;
  int64_t violations = 0;
  std::map<std::string, uint64_t> counters;
  std::set<uint64_t> distinct;
  std::vector<std::string> samples;
  std::string note;     // description of the running case
  std::string scratch;  // private scratch directory
  bool thorough = false;
  int64_t max_viol = 25;
  std::function<void()> before_case, at_end;   // set by builds that replace a part of the environment
};
inline Globals& G() { static Globals g; return g; }

inline void emit(const std::string& line) {
  std::string l = line + "\n";
  ssize_t r = ::write(G().out_fd, l.data(), l.size());
  (void)r;
}
inline std::string esc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o;
}
inline std::string fmt(const char* f, ...) {
  char buf[2048];
  va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
  return buf;
}

struct TooMany : std::exception {};

// Report a violation of the property. `sig` identifies the kind of violation
// (used for known-finding matching), msg is for humans.
inline void fail(const std::string& sig, const std::string& msg) {
  G().violations++;
  emit("{\"t\":\"V\",\"case\":" + std::to_string(G().cur) + ",\"sig\":\"" + esc(sig) +
       "\",\"msg\":\"" + esc(msg) + "\",\"note\":\"" + esc(G().note) + "\"}");
  if (G().violations >= G().max_viol) throw TooMany();
}
inline void count(const std::string& k, uint64_t n = 1) { G().counters[k] += n; }
// record a distinct non-trivial configuration/state observed by the monitor
inline void nontrivial(const std::string& key) { G().distinct.insert(hash_str(key)); }
inline void sample(const std::string& s) { if (G().samples.size() < 6) G().samples.push_back(s); }
inline void note(const std::string& s) { G().note = s; }

// Tolerant compare: mag is the magnitude of the terms that were summed
inline bool close(double got, double want, double mag, double tol = 2e-4) {
  if (std::isnan(got) || std::isnan(want)) return std::isnan(got) && std::isnan(want);
  if (std::isinf(want) || std::isinf(got)) return got == want;
  return std::fabs(got - want) <= tol * (std::fabs(mag) + std::fabs(want) + 1e-3);
}

inline void on_alarm(int) {
  const char m[] = "{\"t\":\"HANG\"}\n";
  ssize_t r = ::write(G().out_fd, m, sizeof m - 1); (void)r;
  _exit(97);
}

// silence the library's console logging, but keep stderr for sanitizers
struct NullBuf : std::streambuf { int overflow(int c) override { return c; } };

inline int run(int argc, char** argv, const std::string& name, const std::function<void(Rng&, int64_t)>& fn,
               const std::function<void()>& setup = nullptr) {
  Globals& g = G();
  g.driver = name;
  int64_t from = 0, to = 10, stride = 1;
  int case_alarm = 240;
  std::string out = "/dev/stdout";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--seed") g.seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--from") from = atoll(nx().c_str());
    else if (a == "--to") to = atoll(nx().c_str());
    else if (a == "--stride") stride = atoll(nx().c_str());
    else if (a == "--out") out = nx();
    else if (a == "--scratch") g.scratch = nx();
    else if (a == "--thorough") g.thorough = true;
    else if (a == "--alarm") case_alarm = atoi(nx().c_str());
  }
  g.out_fd = ::open(out.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (g.out_fd < 0) return 96;
  signal(SIGALRM, on_alarm);
  int64_t done = 0;
  double maxms = 0;
  auto ms = [] { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1e3 + t.tv_nsec / 1e6; };
  try {
    if (setup) {
      emit("{\"t\":\"U\"}");
      alarm(case_alarm);
      g.cur = from;
      g.note = "setup";
      try { setup(); }
      catch (std::exception& e) { fail("unexpected-exception", std::string("unexpected exception: ") + e.what()); }
    }
    for (int64_t c = from; c < to; c += stride) {
      g.cur = c;
      g.note.clear();
      emit("{\"t\":\"B\",\"case\":" + std::to_string(c) + "}");
      alarm(case_alarm);
      double t0 = ms();
      if (g.before_case) g.before_case();
      Rng rng(mix(g.seed * 0x51ED270B35ull + hash_str(name)) ^ mix((uint64_t)c + 0xABCDEFull));
      try {
        fn(rng, c);
      } catch (TooMany&) {
        throw;
      } catch (std::exception& e) {
        fail("unexpected-exception", std::string("unexpected exception: ") + e.what());
      }
      done++;
      maxms = std::max(maxms, ms() - t0);
    }
  } catch (TooMany&) {
  }
  alarm(0);
  if (g.at_end) g.at_end();
  std::string js = "{\"t\":\"S\",\"done\":" + std::to_string(done) + ",\"maxms\":" + std::to_string((long)maxms) + ",\"counters\":{";
  bool first = true;
  for (auto& kv : g.counters) { js += (first ? "" : ","); js += "\"" + esc(kv.first) + "\":" + std::to_string(kv.second); first = false; }
  js += "},\"distinct\":[";
  first = true;
  size_t lim = 0;
  for (uint64_t h : g.distinct) { if (++lim > 20000) break; js += (first ? "\"" : ",\""); js += fmt("%016" PRIx64, h) + "\""; first = false; }
  js += "],\"samples\":[";
  first = true;
  for (auto& s : g.samples) { js += (first ? "\"" : ",\""); js += esc(s) + "\""; first = false; }
  js += "]}";
  emit(js);
  return 0;
}

}  // namespace vh
