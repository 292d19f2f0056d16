// Tests with guaranteed tail bounds for quantities whose exact law is known given the past.
#pragma once
#include "common.h"
#include <algorithm>
#include <boost/math/special_functions/gamma.hpp>
#include <boost/math/special_functions/erf.hpp>
namespace sim {
inline double probit(double u) { if (u < 1e-300) u = 1e-300; if (u > 1 - 1e-16) u = 1 - 1e-16; return -1.4142135623730951 * boost::math::erfc_inv(2 * u); }
struct Verdict { double p = 1; std::string what; };

// values that are, given everything before them, independent standard normal
struct NormalSeq {
  std::vector<float> z; double s = 0, ss = 0, lag = 0, lagv = 0, prev = 0; double sign = 0; size_t nsign = 0;
  void add(double v, double predictable_sign = 0) {
    if (!std::isfinite(v)) v = v > 0 ? 1e6 : -1e6;
    z.push_back((float)v); s += v; ss += v * v;
    if (z.size() > 1) { double q = std::max(-6.0, std::min(6.0, prev)); lag += q * v; lagv += q * q; }
    prev = v;
    if (predictable_sign) { sign += predictable_sign > 0 ? v : -v; nsign++; }
  }
  void test(const std::string& name, Verdict& out) {
    size_t n = z.size(); if (n < 30) return;
    auto see = [&](double p, const char* t, double stat) { if (p < out.p) { out.p = p; out.what = fmt("%s: %s = %.4g over %zu draws (tail bound %.2g)", name.c_str(), t, stat, n, p); } };
    auto two = [](double zz) { return std::erfc(std::fabs(zz) / 1.4142135623730951); };
    see(two(s / std::sqrt((double)n)), "mean of the standardised draws", s / n);
    double lo = boost::math::gamma_p(n / 2.0, ss / 2), hi = boost::math::gamma_q(n / 2.0, ss / 2);
    see(2 * std::min(lo, hi), "mean square of the standardised draws", ss / n);
    if (nsign > 30) see(two(sign / std::sqrt((double)nsign)), "mean of the standardised draws in the direction of the posterior mean", sign / nsign);
    if (lagv > 0) { double rho = n; see(std::min(1.0, std::sqrt((lagv + rho) / rho) * std::exp(-lag * lag / (2 * (lagv + rho)))), "correlation of successive draws", lag / lagv); }
    std::vector<float> q = z; std::sort(q.begin(), q.end()); double d = 0;
    for (size_t i = 0; i < n; i++) { double F = 0.5 * std::erfc(-q[i] / 1.4142135623730951); d = std::max(d, std::max(F - (double)i / n, (double)(i + 1) / n - F)); }
    see(2 * std::exp(-2.0 * n * d * d), "distance from the exact distribution", d);
  }
};
// events whose probability is known given everything before them (Freedman's inequality)
struct EventSeq {
  double s = 0, v = 0, expect = 0; size_t n = 0, hits = 0;
  void add(bool hit, double p) { s += (hit ? 1 : 0) - p; v += p * (1 - p); expect += p; n++; hits += hit; }
  void test(const std::string& name, Verdict& out) {
    double a = std::fabs(s); if (a == 0) return;
    // peeling over the (random) variance costs a factor
    double p = std::min(1.0, 60 * std::exp(-a * a / (2 * (1.05 * v + 1e-9 + a / 3))));
    if (p < out.p) { out.p = p; out.what = fmt("%s: %zu times, exact expectation %.2f in %zu steps (tail bound %.2g)", name.c_str(), hits, expect, n, p); }
  }
};
struct Law {
  std::map<std::string, NormalSeq> normal; std::map<std::string, EventSeq> event; size_t count = 0;
  void z(const std::string& k, double v, double sign = 0) { normal[k].add(v, sign); count++; }
  void e(const std::string& k, bool hit, double p) { event[k].add(hit, p); count++; }
  Verdict verdict() { Verdict v; for (auto& x : normal) x.second.test(x.first, v); for (auto& x : event) x.second.test(x.first, v); return v; }
  void clear() { normal.clear(); event.clear(); count = 0; }
};
}  // namespace sim
