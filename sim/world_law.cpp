// Worlds "draws" (C13) and "kernel" (C12): the random decisions of a simulated session, each compared with its exact
// conditional law given the state before it; the whole history of a run is judged with guaranteed tail bounds.
#include "session.h"
#include "checks.h"
#include "lawstat.h"
namespace sim {
typedef Eigen::MatrixXd Mat; typedef Eigen::VectorXd Vec;

// ---------------------------------------------------------------- exact quantities of one node
struct Suff { int n = 0; Mat A; Vec b; double sigma2; };   // A = X'WX/sigma2, b = X'Wy/sigma2
struct TermLaw {
  Session& s; Term& t; int j; std::vector<double> part;     // partial residual of tree j
  Mat P0; Mat S0;
  TermLaw(Session& s_, Term& t_, int j_, std::vector<double> part_) : s(s_), t(t_), j(j_), part(std::move(part_)) {
    if (t.kind == 2) S0 = t.Sigma0; else S0 = Mat::Constant(1, 1, t.tau); P0 = S0.inverse();
  }
  Suff zero() const { Suff q; q.A = Mat::Zero(t.dim, t.dim); q.b = Vec::Zero(t.dim); q.sigma2 = s.sigma2; return q; }
  void add(Suff& q, int i) const {
    double w = (s.vw.empty() ? 1.0 : 1 / s.vw[i]) / s.sigma2; Vec x(t.dim);
    for (int d = 0; d < t.dim; d++) x(d) = t.kind == 0 ? 1.0 : t.basis[(size_t)i * t.dim + d];
    q.A += w * x * x.transpose(); q.b += w * part[i] * x; q.n++;
  }
  Suff minus(const Suff& a, const Suff& b) const { Suff q = a; q.A -= b.A; q.b -= b.b; q.n -= b.n; return q; }
  double lml(const Suff& q) const {   // up to a constant of the rows
    if (t.dim == 1) { double a = q.A(0, 0), tau = S0(0, 0); return -0.5 * std::log(1 + tau * a) + 0.5 * q.b(0) * q.b(0) / (1 / tau + a); }
    Mat P = P0 + q.A; return -0.5 * std::log((Mat::Identity(t.dim, t.dim) + S0 * q.A).determinant()) + 0.5 * q.b.dot(P.ldlt().solve(q.b));
  }
};
struct Before { std::vector<ATree> trees; std::vector<double> resid; std::vector<std::vector<double>> fit; };
static Before capture(Session& s, Term& t) {
  Before b; b.resid.resize(s.n); for (int i = 0; i < s.n; i++) b.resid[i] = s.resid.GetElement(i);
  b.fit.assign(t.num_trees, std::vector<double>(s.n));
  for (int j = 0; j < t.num_trees; j++) for (int i = 0; i < s.n; i++) b.fit[j][i] = t.tracker->GetTreeSamplePrediction(i, j);
  for (int j = 0; j < t.num_trees; j++) {
    if (t.forest->NumSamples() || t.preinit) b.trees.push_back(abstract_tree(t.latest()->GetTree(j), t.dim));
    else { ATree a; ANode r; r.val.assign(t.dim, 0); a.nodes.push_back(r); a.leaves = 1; b.trees.push_back(a); }
  }
  return b;
}
// partial residuals of every tree of the term at the moment it was sampled
static std::vector<std::vector<double>> partials(Session& s, Term& t, const Before& b) {
  std::vector<std::vector<double>> out; std::vector<double> r = b.resid;
  for (int j = 0; j < t.num_trees; j++) {
    for (int i = 0; i < s.n; i++) r[i] += b.fit[j][i];
    out.push_back(r);
    for (int i = 0; i < s.n; i++) r[i] -= t.tracker->GetTreeSamplePrediction(i, j);
  }
  return out;
}
static std::vector<std::vector<int>> rows_of(const Session& s, const ATree& a) {
  std::vector<std::vector<int>> r(a.nodes.size());
  for (int i = 0; i < s.n; i++) { int k = 0; for (;;) { r[k].push_back(i); const ANode& q = a.nodes[k]; if (q.leaf) break; double v = s.x(i, q.feat); bool left; if (q.cat) left = std::find(q.cats.begin(), q.cats.end(), (uint32_t)v) != q.cats.end(); else left = v <= q.thr; k = left ? q.l : q.r; } }
  return r;
}

// ---------------------------------------------------------------- C13: values
static const char* kKind[] = {"constant", "univariate", "multivariate"};
static void leaf_draws(Session& s, Term& t, const Before& b, Law& law) {
  auto parts = partials(s, t, b); std::string base = std::string("leaf values (") + kKind[t.kind] + (s.vw.empty() ? "" : ", weighted") + ")";
  for (int j = 0; j < t.num_trees; j++) {
    TermLaw L(s, t, j, parts[j]); ATree a = abstract_tree(t.latest()->GetTree(j), t.dim); auto rows = rows_of(s, a);
    for (size_t k = 0; k < a.nodes.size(); k++) {
      if (!a.nodes[k].leaf) continue;
      Suff q = L.zero(); for (int i : rows[k]) L.add(q, i);
      Mat P = L.P0 + q.A; Mat V = P.inverse(); Vec m = V * q.b; Vec d(t.dim); for (int c = 0; c < t.dim; c++) d(c) = a.nodes[k].val[c] - m(c);
      Mat C = P.llt().matrixU(); Vec z = C * d;   // P = U'U, so U (x-m) is standard normal
      for (int c = 0; c < t.dim; c++) law.z(base + (t.dim > 1 ? fmt(" component %d", c) : ""), z(c), m(c));
      if (t.dim > 1) for (int c = 1; c < t.dim; c++) { double h = z(0) * z(0); if (h > 1e-12) law.z(base + " cross product", z(c) * (z(0) > 0 ? 1 : -1)); }
      if (rows[k].size() <= 2) law.z(base + " of leaves with one or two rows", z(0), m(0));
      if (a.leaves == 1) law.z(base + " of unsplit trees", z(0), m(0));
    }
    g_stats.hit(std::string("leaf-") + kKind[t.kind] + (s.vw.empty() ? "" : "-weighted"));
  }
}
static double ig_z(double v, double shape, double scale) {   // v ~ InvGamma(shape, scale): scale/v ~ Gamma(shape)
  double x = scale / v, lo = boost::math::gamma_p(shape, x), hi = boost::math::gamma_q(shape, x);
  return lo < hi ? probit(lo) : -probit(hi);
}
static void gauss(Law& law, const std::string& name, const Vec& v, const Vec& mean, const Mat& P) {
  Vec z = Mat(P.llt().matrixU()) * (v - mean);
  for (int c = 0; c < z.size(); c++) law.z(name, z(c), mean(c));
  for (int c = 1; c < z.size(); c++) law.z(name + " cross product", z(c) * (z(0) > 0 ? 1 : -1));
}
static void rfx_step(Session& s, const Op& op, Law& law) {
  Rfx& x = *s.rfx; auto& m = *x.model; int C = x.comps, G = x.groups;
  Vec alpha0 = m.GetWorkingParameter(); Mat xi0 = m.GetGroupParameters(), gc = m.GetGroupParameterCovariance(), wc = m.GetWorkingParameterCovariance();
  std::vector<double> r(s.n); for (int i = 0; i < s.n; i++) r[i] = s.resid.GetElement(i) + x.contribution[i];
  if (!s.exec(op)) return;
  Vec alpha = m.GetWorkingParameter(); Mat xi = m.GetGroupParameters(), gc1 = m.GetGroupParameterCovariance();
  std::set<int32_t> u(x.labels.begin(), x.labels.end()); std::vector<int32_t> lab(u.begin(), u.end());
  Mat Pw = wc.inverse(); Vec bw = Vec::Zero(C);
  for (int g = 0; g < G; g++) {
    Mat P = gc.inverse(); Vec b = Vec::Zero(C);
    for (int i = 0; i < s.n; i++) if (x.labels[i] == lab[g]) {
      Vec bx(C); for (int c = 0; c < C; c++) bx(c) = x.basis[(size_t)i * C + c];
      Vec a = alpha0.cwiseProduct(bx), w = Vec(xi.col(g)).cwiseProduct(bx);
      P += a * a.transpose() / s.sigma2; b += a * r[i] / s.sigma2; Pw += w * w.transpose() / s.sigma2; bw += w * r[i] / s.sigma2;
    }
    Vec mean = P.inverse() * b; gauss(law, "group parameters", xi.col(g), mean, P);
  }
  gauss(law, "working parameter", alpha, Pw.inverse() * bw, Pw);
  for (int c = 0; c < C; c++) law.z("group variance components", ig_z(gc1(c, c), m.GetVariancePriorShape() + G / 2.0, m.GetVariancePriorScale() + xi.row(c).squaredNorm() / 2));
  g_stats.hit("rfx-step");
}
static void draws_step(Session& s, const Op& op, Law& law) {
  Term& t = *s.terms[(size_t)op.i(0, 0) % s.terms.size()];
  if (op.name == "gfr" || op.name == "mcmc") {
    if (t.kind == 2 && t.forest->NumSamples() == 0 && !t.preinit) { std::vector<double> z(t.dim, 0.0); t.forest->InitializeRoot(z); t.preinit = true; t.contributing = true; }
    Before b = capture(s, t); if (!s.exec(op)) return;
    leaf_draws(s, t, b, law);
  } else if (op.name == "sigma") {
    double ssr = 0; for (int i = 0; i < s.n; i++) { double v = s.resid.GetElement(i); ssr += v * v; }
    double old = s.sigma2; s.exec(op); if (s.sigma2 != old) law.z("error variance", ig_z(s.sigma2, (s.nu + s.n) / 2, (s.nu * s.lambda + ssr) / 2)); g_stats.hit("sigma-step");
  } else if (op.name == "tau") {
    if (t.kind != 0 || !t.forest->NumSamples()) return;
    double S = 0; int Lv = 0; for (int j = 0; j < t.num_trees; j++) { ATree a = abstract_tree(t.latest()->GetTree(j), t.dim); for (auto& q : a.nodes) if (q.leaf) { Lv++; S += q.val[0] * q.val[0]; } }
    double old = t.tau; s.exec(op); if (t.tau != old) law.z("leaf variance", ig_z(t.tau, (s.a_leaf + Lv) / 2, (s.b_leaf + S) / 2)); g_stats.hit("tau-step");
  } else if (op.name == "rfx") { if (s.rfx) rfx_step(s, op, law); }
  else s.exec(op);
}

// ---------------------------------------------------------------- C12: structure
struct Out { double p; std::string key; int type; int leaf = -1, var = -1; double a = 0, b = 0; };   // type 0 same, 1 prune, 2 grow
static bool same_shape(const ATree& a, int i, const ATree& b, int k) {
  const ANode &x = a.nodes[i], &y = b.nodes[k]; if (x.leaf != y.leaf) return false; if (x.leaf) return true;
  if (x.feat != y.feat || x.cat != y.cat || (x.cat ? std::set<uint32_t>(x.cats.begin(), x.cats.end()) != std::set<uint32_t>(y.cats.begin(), y.cats.end()) : x.thr != y.thr)) return false;
  return same_shape(a, x.l, b, y.l) && same_shape(a, x.r, b, y.r);
}
// the single difference between the trees: (old node, new node) of the smallest differing subtrees
static bool find_diff(const ATree& a, int i, const ATree& b, int k, int& oi, int& ok) {
  if (same_shape(a, i, b, k)) return false;
  const ANode &x = a.nodes[i], &y = b.nodes[k];
  if (x.leaf || y.leaf || x.feat != y.feat || x.cat != y.cat || x.thr != y.thr || x.cats != y.cats) { oi = i; ok = k; return true; }
  bool l = find_diff(a, x.l, b, y.l, oi, ok); if (l && !same_shape(a, x.r, b, y.r)) { oi = i; ok = k; return true; }
  return l || find_diff(a, x.r, b, y.r, oi, ok);
}
static void mcmc_tree(TermLaw& L, const ATree& o, const ATree& nw, Law& law, Rng& rr, const std::string& at) {
  Session& s = L.s; Term& t = L.t; int m = t.min_leaf; auto rows = rows_of(s, o);
  std::vector<int> leaves, lp; for (size_t k = 0; k < o.nodes.size(); k++) { if (o.nodes[k].leaf) leaves.push_back(k); else if (o.nodes[o.nodes[k].l].leaf && o.nodes[o.nodes[k].r].leaf) lp.push_back(k); }
  auto growable = [&](size_t sz) { return (long)sz >= 2L * m; };
  bool g = false; for (int k : leaves) g |= growable(rows[k].size());
  double pg_old = lp.empty() ? 1 : g ? .5 : 0; if (lp.empty() && !g) return;
  auto prior = [&](int d) { return t.alpha * std::pow(1.0 + d, -t.beta); };
  double wsum = 0; for (double w : t.weights) wsum += w;
  std::vector<Out> outs; double moved = 0;
  std::map<int, double> leaf_lml; auto lml_rows = [&](const std::vector<int>& r) { Suff q = L.zero(); for (int i : r) L.add(q, i); return L.lml(q); };
  if (pg_old < 1) for (int k : lp) {
    const ANode& q = o.nodes[k]; double pp = prior(q.depth), pc = prior(q.depth + 1);
    double ratio = std::log(1 - pp) - std::log(pp) - 2 * std::log(1 - pc) + std::log(o.leaves - 1 > 1 ? .5 : 1.0) - std::log(o.leaves - 1.0)
                 - std::log(1 - pg_old) + std::log((double)lp.size()) + lml_rows(rows[k]) - lml_rows(rows[q.l]) - lml_rows(rows[q.r]);
    double p = (1 - pg_old) / lp.size() * std::exp(std::min(0.0, ratio)); outs.push_back({p, fmt("prune %d", k), 1, k}); moved += p;
  }
  if (pg_old > 0) for (int k : leaves) {
    const ANode& q = o.nodes[k]; double pp = prior(q.depth), pc = prior(q.depth + 1); Suff all = L.zero(); for (int i : rows[k]) L.add(all, i); double base = L.lml(all);
    int lpn = lp.size() + 1; if (q.parent >= 0) { const ANode& pa = o.nodes[q.parent]; if (o.nodes[pa.l].leaf && o.nodes[pa.r].leaf) lpn--; }
    bool other = false; for (int k2 : leaves) if (k2 != k && growable(rows[k2].size())) other = true;
    for (int v = 0; v < s.p; v++) {
      if (t.weights[v] <= 0) continue;
      std::vector<int> ord = rows[k]; std::sort(ord.begin(), ord.end(), [&](int a, int b) { return s.x(a, v) < s.x(b, v); });
      double lo = s.x(ord.front(), v), hi = s.x(ord.back(), v); if (!(hi > lo)) continue;
      Suff left = L.zero();
      for (size_t i = 0; i + 1 < ord.size(); i++) {
        L.add(left, ord[i]); double a = s.x(ord[i], v), b = s.x(ord[i + 1], v); if (!(b > a)) continue;
        int ln = i + 1, rn = ord.size() - ln; if (ln < m || rn < m) continue;
        double ppn = growable(ln) || growable(rn) || other ? .5 : 1;
        double ratio = std::log(pp) + 2 * std::log(1 - pc) - std::log(1 - pp) + std::log(ppn) - std::log((double)lpn) - std::log(pg_old) + std::log((double)leaves.size())
                     + L.lml(left) + L.lml(L.minus(all, left)) - base;
        double p = pg_old / leaves.size() * t.weights[v] / wsum * (b - a) / (hi - lo) * std::exp(std::min(0.0, ratio));
        Out x{p, "", 2, k, v}; x.a = a; x.b = b; outs.push_back(x); moved += p;
      }
    }
  }
  // what happened
  int got = -1, oi = -1, nk = -1; double thr = 0;
  if (!find_diff(o, 0, nw, 0, oi, nk)) got = -2;
  else if (o.nodes[oi].leaf && !nw.nodes[nk].leaf && nw.nodes[nw.nodes[nk].l].leaf && nw.nodes[nw.nodes[nk].r].leaf && !nw.nodes[nk].cat) {
    thr = nw.nodes[nk].thr; for (size_t i = 0; i < outs.size(); i++) if (outs[i].type == 2 && outs[i].leaf == oi && outs[i].var == nw.nodes[nk].feat && outs[i].a <= thr && thr < outs[i].b) got = i;
  } else if (!o.nodes[oi].leaf && nw.nodes[nk].leaf) for (size_t i = 0; i < outs.size(); i++) if (outs[i].type == 1 && outs[i].leaf == oi) got = i;
  if (got == -1) throw Failure("C12", "impossible-move", "an MCMC step changed a tree in a way no grow or prune move allows " + at);
  // whole-outcome law, in two orders
  for (int order = 0; order < 2; order++) {
    std::vector<int> idx(outs.size()); for (size_t i = 0; i < idx.size(); i++) idx[i] = i;
    if (order) std::sort(idx.begin(), idx.end(), [&](int a, int b) { return outs[a].p < outs[b].p || (outs[a].p == outs[b].p && a < b); });
    double cum = order ? 0 : 1 - moved, F = -1, p = 1 - moved; if (got == -2) { F = order ? moved : 0; }
    for (int i : idx) { if (i == got) { F = cum; p = outs[i].p; } cum += outs[i].p; }
    law.z(order ? "MCMC move, by probability" : "MCMC move", probit(F + rr.unit() * p));
  }
  std::map<std::string, double> ev; std::set<std::string> hit; ev["no change"] = 1 - moved; if (got == -2) hit.insert("no change");
  for (size_t i = 0; i < outs.size(); i++) {
    const Out& x = outs[i]; std::vector<std::string> ks;
    if (x.type == 1) { ks = {"prune", o.leaves == 2 ? "prune to the root" : o.nodes[x.leaf].depth == 0 ? "prune" : "prune below the root"}; if (!g) ks.push_back("prune when nothing can grow"); }
    else { size_t sz = rows[x.leaf].size(); ks = {"grow", o.nodes[x.leaf].depth == 0 ? "grow the root" : o.nodes[x.leaf].depth == 1 ? "grow at depth 1" : "grow deeper", fmt("grow on feature %d", x.var)}; if ((long)sz < 4L * m) ks.push_back("grow a leaf that is full after it"); if (lp.size() > 1) ks.push_back("grow with several leaf parents"); if (s.types[x.var] != st::FeatureType::kNumeric) ks.push_back("grow on a categorical feature"); }
    for (auto& q : ks) { ev[q] += x.p; if ((int)i == got) hit.insert(q); }
  }
  for (auto& q : ev) law.e("MCMC: " + q.first, hit.count(q.first), std::max(0.0, std::min(1.0, q.second)));
  if (got >= 0 && outs[got].type == 2) { double u = (thr - outs[got].a) / (outs[got].b - outs[got].a); law.z("MCMC cutpoint within its gap", probit(std::max(u, 1e-15))); g_stats.hit("mcmc-grow"); }
  else if (got >= 0) g_stats.hit("mcmc-prune"); else g_stats.hit("mcmc-same");
}
static void gfr_tree(TermLaw& L, const ATree& a, Law& law, Rng& rr, const std::string& at) {
  Session& s = L.s; Term& t = L.t; int m = t.min_leaf; auto rows = rows_of(s, a); const double eps = 1e-15f;
  for (size_t k = 0; k < a.nodes.size(); k++) {
    const ANode& q = a.nodes[k]; const auto& R = rows[k]; bool thin = (long)R.size() > t.grid; size_t step = thin ? (R.size() + t.grid - 1) / t.grid : 1; if (thin) g_stats.hit("gfr-thinned-node");
    Suff all = L.zero(); for (int i : R) L.add(all, i);
    struct Cand { double lw; int var; std::vector<char> left; int ln; }; std::vector<Cand> c; bool tie = false;
    for (int v = 0; v < s.p; v++) {
      if (!(std::fabs(t.weights[v]) > eps)) continue;
      std::vector<std::vector<int>> bins; std::vector<int> ord = R; std::sort(ord.begin(), ord.end(), [&](int x, int y) { return s.x(x, v) < s.x(y, v); });
      for (size_t i = 0; i < ord.size(); i++) {
        bool cut = i == 0 || s.x(ord[i], v) - s.x(ord[i - 1], v) > eps;
        if (cut && i > 0 && thin && s.types[v] == st::FeatureType::kNumeric && bins.back().size() < step) cut = false;   // every k-th row, moved up to the next distinct value
        if (cut) bins.push_back({}); bins.back().push_back(ord[i]);
      }
      if (s.types[v] == st::FeatureType::kUnorderedCategorical) {
        std::vector<std::pair<double, int>> mean; double mag = 0;
        for (size_t b = 0; b < bins.size(); b++) { double q2 = 0; for (int i : bins[b]) { q2 += L.part[i]; mag = std::max(mag, std::fabs(L.part[i])); } mean.push_back({q2 / bins[b].size(), (int)b}); }
        std::stable_sort(mean.begin(), mean.end(), [](auto& x, auto& y) { return x.first < y.first; });
        for (size_t b = 1; b < mean.size(); b++) if (mean[b].first - mean[b - 1].first < 1e-9 * mag) tie = true;
        std::vector<std::vector<int>> nb; for (auto& x : mean) nb.push_back(bins[x.second]); bins = nb;
      }
      Suff left = L.zero(); std::vector<char> in(s.n, 0);
      for (size_t b = 0; b + 1 < bins.size(); b++) {
        for (int i : bins[b]) { L.add(left, i); in[i] = 1; }
        if (left.n < m || (int)R.size() - left.n < m) continue;
        c.push_back({L.lml(left) + L.lml(L.minus(all, left)), v, in, left.n});
      }
    }
    if (tie) { g_stats.hit("gfr-tied-categories"); continue; }
    double no = L.lml(all) + std::log(std::pow(1.0 + q.depth, t.beta) / t.alpha - 1) + (c.empty() ? 0 : std::log((double)c.size()));
    double mx = no; for (auto& x : c) mx = std::max(mx, x.lw);
    double tot = std::exp(no - mx); for (auto& x : c) tot += std::exp(x.lw - mx);
    int got = -2;
    if (!q.leaf) {
      got = -1; std::vector<char> in(s.n, 0); for (int i : rows[q.l]) in[i] = 1;
      for (size_t i = 0; i < c.size(); i++) if (c[i].var == q.feat && c[i].left == in) got = i;
      if (got == -1) throw Failure("C12", "impossible-split", fmt("grow-from-root chose a split on feature %d (%zu of %zu rows to the left) that is not one of the %zu candidates ", q.feat, rows[q.l].size(), R.size(), c.size()) + at);
    }
    for (int order = 0; order < 2; order++) {
      std::vector<int> idx(c.size()); for (size_t i = 0; i < idx.size(); i++) idx[i] = i;
      if (order) std::sort(idx.begin(), idx.end(), [&](int x, int y) { return c[x].lw < c[y].lw || (c[x].lw == c[y].lw && x < y); });
      double pno = std::exp(no - mx) / tot, cum = order ? 0 : pno, F = order ? 1 - pno : 0, p = pno;
      for (int i : idx) { double pi = std::exp(c[i].lw - mx) / tot; if (i == got) { F = cum; p = pi; } cum += pi; }
      law.z(order ? "GFR choice, by weight" : "GFR choice", probit(F + rr.unit() * p));
    }
    std::map<std::string, double> ev; std::set<std::string> hit;
    double pno = std::exp(no - mx) / tot; std::string dn = q.depth == 0 ? "the root" : q.depth == 1 ? "depth 1" : "deeper";
    for (auto& nm : {std::string("no split"), "no split at " + dn}) { ev[nm] = pno; if (got == -2) hit.insert(nm); }
    for (size_t i = 0; i < c.size(); i++) {
      double pi = std::exp(c[i].lw - mx) / tot; std::vector<std::string> ks{fmt("split on feature %d", c[i].var)};
      if (s.types[c[i].var] == st::FeatureType::kUnorderedCategorical) ks.push_back("split on an unordered feature"); if (c[i].ln == m || (int)R.size() - c[i].ln == m) ks.push_back("split with a smallest allowed leaf");
      for (auto& x : ks) { ev[x] += pi; if ((int)i == got) hit.insert(x); }
    }
    for (auto& x : ev) law.e("GFR: " + x.first, hit.count(x.first), std::max(0.0, std::min(1.0, x.second)));
    g_stats.hit(got == -2 ? "gfr-no-split" : "gfr-split");
  }
}
static void kernel_step(Session& s, const Op& op, Law& law, Rng& rr) {
  if (op.name != "gfr" && op.name != "mcmc") { s.exec(op); return; }
  Term& t = *s.terms[(size_t)op.i(0, 0) % s.terms.size()];
  if (t.kind == 2 && t.forest->NumSamples() == 0 && !t.preinit) { std::vector<double> z(t.dim, 0.0); t.forest->InitializeRoot(z); t.preinit = true; t.contributing = true; }
  Before b = capture(s, t); if (!s.exec(op)) return;
  auto parts = partials(s, t, b); std::string at = fmt("(%s)", op.line().c_str());
  for (int j = 0; j < t.num_trees; j++) {
    TermLaw L(s, t, j, parts[j]); ATree nw = abstract_tree(t.latest()->GetTree(j), t.dim);
    if (op.name == "mcmc") mcmc_tree(L, b.trees[j], nw, law, rr, at); else gfr_tree(L, nw, law, rr, at);
  }
  g_stats.state(s.shape_digest());
}

// ---------------------------------------------------------------- runs
static uint64_t run_law(const Plan& pl, const char* prop, bool kernel) {
  Law law; uint64_t round = 0; Rng rr(pl.seed ^ 0x1a3); Digest hist;
  auto pass = [&](size_t target, size_t maxrounds) {
    std::unique_ptr<Session> s; size_t r0 = round;
    for (; law.count < target && round < r0 + maxrounds; round++) {
      if (round % 40 == 0 || !s) { s = std::make_unique<Session>(pl); s->gen.seed((uint32_t)(Rng(pl.cu("chain", 1) + 7919 * round).next() >> 8)); }
      int k = 0;
      for (auto& o : pl.ops) {
        k++; Op op = o;
        if (op.name == "basis" && op.a.size() > 1) op.a[1] = std::to_string(op.u(1) / 7 + round * 131 + k);
        if (op.name == "init" && s->op_index) continue;
        if (kernel) kernel_step(*s, op, law, rr); else draws_step(*s, op, law);
      }
      hist.u(s->shape_digest()); for (int i = 0; i < s->n; i++) hist.d(s->resid.GetElement(i));
    }
  };
  size_t target = pl.ci("target", 3000);
  pass(target, 4000);
  g_stats.hit("decisions-judged", law.count);
  Verdict v = law.verdict();
  if (v.p > 1e-13 && v.p < 1e-4) {   // suspicious: a fresh, longer stretch of the same history decides
    g_stats.hit("second-stage"); law.clear(); pass(target * 15, 60000); v = law.verdict(); g_stats.hit("decisions-judged", law.count);
  }
  if (v.p < 1e-11) throw Failure(prop, "law", v.what);
  return hist.h;
}
static uint64_t run_draws(const Plan& p) { return run_law(p, "C13", false); }
static uint64_t run_kernel(const Plan& p) { return run_law(p, "C12", true); }
static Plan gen_law(uint64_t seed, bool thorough, bool kernel) {
  Rng r(seed * 0x9E3779B97F4A7C15ull + 131); Plan pl; gen_session_into(pl, r, false, "", "all"); pl.world = kernel ? "kernel" : "draws"; pl.seed = seed;
  pl.ops.clear(); int n = kernel ? r.range(6, 40) : r.range(4, 50); pl.set("n", n); int terms = pl.ci("terms"); pl.set("target", kernel ? 5000 : 4000);
  if (thorough) pl.set("target", 30000);
  pl.set("chain", r.next() >> 20); pl.set("yscale", r.pick({1.0, 1.0, .3, 5.0}));
  if (r.chance(.5)) { std::string st; int p = pl.ci("p"); for (int j = 0; j < p; j++) st += (j ? " " : "") + std::to_string((int)r.pick({0, 0, 1, 2, 3, 6, 7, 8})); pl.set("style", st); }
  {  // values only a few representable numbers apart have no continuous cutpoint law: time stamps instead
    std::istringstream in(pl.cs("style", "0")); std::string st, w; while (in >> w) st += (st.empty() ? "" : " ") + (w == "10" ? std::string("11") : w); pl.set("style", st);
  }
  pl.set("sigma2", r.pick({1.0, 3.0, 10.0, .3})); pl.set("rfx", (int)r.chance(kernel ? .1 : .4)); pl.set("rfx.comps", r.range(1, 3)); pl.set("rfx.groups", r.range(1, 6)); pl.set("rfx.single", (int)r.chance(.4));
  for (int k = 0; k < terms; k++) {
    std::string q = "t" + std::to_string(k) + "."; pl.set(q + "trees", r.pick({1, 1, 2, 3})); pl.set(q + "grid", r.chance(kernel ? .7 : .9) ? 1000 : (int)r.range(1, 12)); pl.set(q + "min_leaf", r.chance(.4) ? 1 : r.range(1, std::max(1, n / 4)));
    pl.set(q + "tau", r.pick({.5, .1, 2.0})); pl.set(q + "alpha", r.pick({.95, .5, .8, .99})); pl.set(q + "beta", r.pick({2.0, 1.0, .5, .1}));
  }
  double pg = r.pick({.1, .3, .7}); bool sig = r.chance(.4), tau = r.chance(.3), basis = r.chance(.3); int ops = r.range(2, 10);
  if (r.chance(.15)) pl.op("init", r.below(terms), r.pick({.1, -.7}));
  for (int i = 0; i < ops; i++) {
    int k = r.below(terms);
    pl.op(r.chance(pg) ? "gfr" : "mcmc", k, 0, "-");
    if (sig && r.chance(.4)) pl.op("sigma", 0, "-"); if (tau && r.chance(.4)) pl.op("tau", k, 0, "-");
    if (basis && r.chance(.3)) pl.op("basis", k, r.below(1u << 20) + 1, r.range(0, 1)); if (pl.ci("rfx") && r.chance(.6)) pl.op("rfx", 0, "-");
  }
  return pl;
}
static Plan gen_draws(uint64_t s, bool t) { return gen_law(s, t, false); }
static Plan gen_kernel(uint64_t s, bool t) { return gen_law(s, t, true); }
static Register reg1({"draws", gen_draws, run_draws}); static Register reg2({"kernel", gen_kernel, run_kernel});
}  // namespace sim
