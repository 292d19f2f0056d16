// Shared infrastructure of the simulator: PRNG, plans, failures, probes, digests.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cstdarg>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s[2];
  static uint64_t mix(uint64_t& x) {
    x += 0x9E3779B97F4A7C15ull;
    uint64_t z = x;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  explicit Rng(uint64_t seed) { uint64_t x = seed; s[0] = mix(x); s[1] = mix(x); }
  uint64_t next() {
    uint64_t a = s[0], b = s[1];
    s[0] = b; a ^= a << 23;
    s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
    return s[1] + b;
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }  // inclusive
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return unit() < p; }
  double normal() {
    double u = unit(), v = unit();
    if (u < 1e-300) u = 1e-300;
    return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v);
  }
  template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

// ---------------------------------------------------------------- digests
struct Digest {
  uint64_t h = 1469598103934665603ull;
  void bytes(const void* p, size_t n) {
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
  }
  void u(uint64_t v) { bytes(&v, 8); }
  void d(double v) { uint64_t b; memcpy(&b, &v, 8); u(b); }
  void str(const std::string& s) { u(s.size()); bytes(s.data(), s.size()); }
};

// ---------------------------------------------------------------- failures
struct Failure : std::exception {
  std::string prop, cls, msg;
  Failure(std::string p, std::string c, std::string m) : prop(p), cls(c), msg(m) {}
  const char* what() const noexcept override { return msg.c_str(); }
};
// A harness-level problem (bad plan); never a verdict about the code under test.
struct HarnessError : std::runtime_error { using std::runtime_error::runtime_error; };

inline std::string fmt(const char* f, ...) {
  char buf[1024];
  va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
  return buf;
}

// ---------------------------------------------------------------- plans
struct Op {
  std::string name;
  std::vector<std::string> a;
  long long i(size_t k, long long dflt = 0) const { return k < a.size() ? atoll(a[k].c_str()) : dflt; }
  uint64_t u(size_t k, uint64_t dflt = 0) const { return k < a.size() ? strtoull(a[k].c_str(), 0, 10) : dflt; }
  double d(size_t k, double dflt = 0) const { return k < a.size() ? atof(a[k].c_str()) : dflt; }
  std::string s(size_t k, std::string dflt = "") const { return k < a.size() ? a[k] : dflt; }
  std::string line() const { std::string r = name; for (auto& x : a) r += " " + x; return r; }
};

struct Plan {
  std::string world;
  uint64_t seed = 0;
  std::map<std::string, std::string> cfg;
  std::vector<Op> ops;
  long long ci(const std::string& k, long long d = 0) const { auto it = cfg.find(k); return it == cfg.end() ? d : atoll(it->second.c_str()); }
  uint64_t cu(const std::string& k, uint64_t d = 0) const { auto it = cfg.find(k); return it == cfg.end() ? d : strtoull(it->second.c_str(), 0, 10); }
  double cd(const std::string& k, double d = 0) const { auto it = cfg.find(k); return it == cfg.end() ? d : atof(it->second.c_str()); }
  std::string cs(const std::string& k, std::string d = "") const { auto it = cfg.find(k); return it == cfg.end() ? d : it->second; }
  template <class T> void set(const std::string& k, T v) { std::ostringstream o; o.precision(17); o << v; cfg[k] = o.str(); }
  template <class... T> void op(const std::string& n, T... v) {
    Op o; o.name = n;
    (void)std::initializer_list<int>{([&] { std::ostringstream s; s.precision(17); s << v; o.a.push_back(s.str()); }(), 0)...};
    ops.push_back(o);
  }
  std::string text() const {
    std::string r = "world " + world + "\nseed " + std::to_string(seed) + "\n";
    for (auto& kv : cfg) r += "cfg " + kv.first + " " + kv.second + "\n";
    for (auto& o : ops) r += "op " + o.line() + "\n";
    return r;
  }
  static Plan parse(const std::string& text) {
    Plan p; std::istringstream in(text); std::string line;
    while (std::getline(in, line)) {
      std::istringstream ls(line); std::string k; ls >> k;
      if (k == "world") ls >> p.world;
      else if (k == "seed") ls >> p.seed;
      else if (k == "cfg") { std::string a, b; ls >> a; std::getline(ls, b); size_t s = b.find_first_not_of(' '); p.cfg[a] = s == std::string::npos ? "" : b.substr(s); }
      else if (k == "op") { Op o; ls >> o.name; std::string x; while (ls >> x) o.a.push_back(x); p.ops.push_back(o); }
    }
    return p;
  }
};

// ---------------------------------------------------------------- probes / coverage
// the simulator's own bookkeeping is no scheduling point
extern __thread int t_quiet;
struct Quiet {
#define SIM_NOI __attribute__((no_instrument_function, no_sanitize_thread, always_inline))
  SIM_NOI Quiet() { t_quiet++; asm volatile("" ::: "memory"); } SIM_NOI ~Quiet() { asm volatile("" ::: "memory"); t_quiet--; } };
struct Stats {
  std::map<std::string, uint64_t> probe;          // "this happened" counters
  std::map<std::string, uint64_t> fault;          // faults that actually fired
  std::unordered_set<uint64_t> states;            // distinct abstract states
  uint64_t steps = 0;                             // simulated operations executed
  void hit(const std::string& k, uint64_t n = 1) { Quiet q; probe[k] += n; }
  void fired(const std::string& k, uint64_t n = 1) { Quiet q; fault[k] += n; }
  void state(uint64_t h) { Quiet q; if (states.size() < 2000000) states.insert(h); }
};
extern Stats g_stats;
extern std::string g_focus;   // property id the current batch is about ("" = all)
inline bool focus(const char* p) { return g_focus.empty() || g_focus == p; }
// Raise only when the property is the one being judged: one check, one verdict.
inline void fail(const char* prop, const char* cls, const std::string& msg) {
  if (focus(prop)) throw Failure(prop, cls, msg);
}

// ---------------------------------------------------------------- worlds
struct World {
  const char* name;
  Plan (*gen)(uint64_t seed, bool thorough);
  uint64_t (*run)(const Plan&);                   // returns the digest of the history; throws Failure
};
std::vector<World>& worlds();
struct Register { Register(World w) { worlds().push_back(w); } };

}  // namespace sim
