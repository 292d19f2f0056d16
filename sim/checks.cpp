// Invariants over a session, evaluated against small reference computations.
#include "checks.h"
#include <unistd.h>
#include <sys/stat.h>
#include <algorithm>
#include <limits>
namespace sim {

std::string scratch_dir() {
  static std::string d;
  if (d.empty()) {
    const char* base = getenv("SIM_TMP"); std::string b = base ? base : "/tmp";
    d = b + "/sim." + std::to_string(getpid()); mkdir(d.c_str(), 0700);
    atexit([] { std::string f = d + "/m.json"; unlink(f.c_str()); rmdir(d.c_str()); });
  }
  mkdir(d.c_str(), 0700);
  return d;
}

static bool close_to(double a, double b, double scale) { return std::fabs(a - b) <= 1e-8 * (scale + 1e-300) || a == b; }

// ---------------------------------------------------------------- C01
void check_conservation(Session& s, const std::string& at) {
  std::vector<double> fit(s.n, 0.0);
  for (size_t k = 0; k < s.terms.size(); k++) {
    Term& t = *s.terms[k];
    if (!t.contributing) continue;
    st::TreeEnsemble* e = t.latest();
    std::vector<double> own(s.n, 0.0);
    for (int j = 0; j < e->NumTrees(); j++) {
      ATree a = abstract_tree(e->GetTree(j), t.dim);
      for (int i = 0; i < s.n; i++) {
        double f = s.term_fit(t, a, i); own[i] += f;
        double c = t.tracker->GetTreeSamplePrediction(i, j);
        if (!close_to(c, f, s.scale)) fail("C01", "cached-fit", fmt("forest %zu tree %d row %d: cached fit %.17g, tree predicts %.17g ", k, j, i, c, f) + at);
      }
    }
    std::vector<double> out;
    if (t.forest->NumSamples()) {
      out = t.forest->Predict(t.ds);
      size_t off = (size_t)s.n * (t.forest->NumSamples() - 1);
      for (int i = 0; i < s.n; i++) if (!close_to(out[off + i], own[i], s.scale))
        fail("C01", "training-prediction", fmt("forest %zu row %d: predict gives %.17g, removed from residual %.17g ", k, i, out[off + i], own[i]) + at);
    }
    for (int i = 0; i < s.n; i++) fit[i] += own[i];
  }
  if (s.rfx) for (int i = 0; i < s.n; i++) {
    fit[i] += s.rfx->contribution[i];
    if (!close_to(s.rfx->tracker->GetPrediction(i), s.rfx->contribution[i], s.scale)) fail("C01", "cached-rfx", fmt("row %d: cached random effect %.17g, current coefficients give %.17g ", i, s.rfx->tracker->GetPrediction(i), s.rfx->contribution[i]) + at);
  }
  for (int i = 0; i < s.n; i++) {
    double r = s.resid.GetElement(i), want = s.y[i] - fit[i];
    if (!close_to(r, want, s.scale)) fail("C01", "residual", fmt("row %d: residual %.17g, outcome minus fits %.17g ", i, r, want) + at);
  }
}

// ---------------------------------------------------------------- C02
void check_tracking(Session& s, const Op& op, const std::string& at) {
  for (size_t k = 0; k < s.terms.size(); k++) {
    Term& t = *s.terms[k];
    if (!t.contributing) continue;
    st::TreeEnsemble* e = t.latest();
    for (int j = 0; j < e->NumTrees(); j++) {
      ATree a = abstract_tree(e->GetTree(j), t.dim);
      std::map<int, std::vector<int>> want;
      for (int i = 0; i < s.n; i++) {
        int leaf = a.nodes[aroute(a, [&](int c) { return s.x(i, c); })].id;
        want[leaf].push_back(i);
        if ((int)t.tracker->GetNodeId(i, j) != leaf) fail("C02", "row-map", fmt("forest %zu tree %d row %d: tracked in node %d, routed to leaf %d ", k, j, i, (int)t.tracker->GetNodeId(i, j), leaf) + at);
        if (int ev = st::EvaluateTree(*e->GetTree(j), t.ds.GetCovariates(), i); ev != leaf) fail("C02", "row-evaluation", fmt("forest %zu tree %d row %d: evaluating the tree gives node %d, tracked in leaf %d ", k, j, i, ev, leaf) + at);
      }
      size_t total = 0;
      for (auto& nd : a.nodes) if (nd.leaf) {
        auto& w = want[nd.id];
        auto b = t.tracker->UnsortedNodeBeginIterator(j, nd.id), en = t.tracker->UnsortedNodeEndIterator(j, nd.id);
        int size = t.tracker->UnsortedNodeSize(j, nd.id);
        if (size != (int)w.size() || en - b != (long)w.size()) fail("C02", "node-size", fmt("forest %zu tree %d leaf %d: size %d, range %ld, routed rows %zu ", k, j, nd.id, size, (long)(en - b), w.size()) + at);
        std::vector<int> got(b, en); std::sort(got.begin(), got.end());
        if (got != w) fail("C02", "node-rows", fmt("forest %zu tree %d leaf %d: tracked rows differ from routed rows ", k, j, nd.id) + at);
        auto l = t.tracker->GetUnsortedNodeSampleTracker()->TreeNodeIndices(j, nd.id);
        std::vector<int> got2(l.begin(), l.end()); std::sort(got2.begin(), got2.end());
        if (got2 != w) fail("C02", "node-list", fmt("forest %zu tree %d leaf %d: row list differs from routed rows ", k, j, nd.id) + at);
        total += w.size();
      }
      if (total != (size_t)s.n) fail("C02", "partition", fmt("forest %zu tree %d: leaves hold %zu of %d rows ", k, j, total, s.n) + at);
      bool last_gfr = op.name == "gfr" && (size_t)op.i(0, 0) % s.terms.size() == k && j == e->NumTrees() - 1;
      if (last_gfr) for (auto& nd : a.nodes) if (nd.leaf) for (int c = 0; c < s.p; c++) {
        auto v = t.tracker->GetSortedNodeSampleTracker()->NodeIndices(nd.id, c);
        for (size_t q = 1; q < v.size(); q++) if (s.x(v[q - 1], c) > s.x(v[q], c)) fail("C02", "sorted-order", fmt("forest %zu leaf %d feature %d: presorted order is not sorted ", k, nd.id, c) + at);
        std::vector<int> got(v.begin(), v.end()); std::sort(got.begin(), got.end());
        if (got != want[nd.id]) fail("C02", "sorted-rows", fmt("forest %zu leaf %d feature %d: presorted rows differ from routed rows ", k, nd.id, c) + at);
      }
    }
  }
}

// ---------------------------------------------------------------- C06
void check_constraints(Session& s, const std::string& at) {
  for (size_t k = 0; k < s.terms.size(); k++) {
    Term& t = *s.terms[k];
    if (!t.contributing || t.preinit) continue;
    st::TreeEnsemble* e = t.latest();
    for (int j = 0; j < e->NumTrees(); j++) {
      ATree a = abstract_tree(e->GetTree(j), t.dim);
      std::vector<std::vector<int>> rows(a.nodes.size());
      for (int i = 0; i < s.n; i++) {
        int q = aroute(a, [&](int c) { return s.x(i, c); });
        for (; q >= 0; q = a.nodes[q].parent) rows[q].push_back(i);
      }
      for (size_t q = 0; q < a.nodes.size(); q++) {
        auto& nd = a.nodes[q];
        if (nd.leaf) {
          if (rows[q].empty()) fail("C06", "empty-leaf", fmt("forest %zu tree %d leaf %d holds no training row ", k, j, nd.id) + at);
          if (a.leaves > 1 && (int)rows[q].size() < t.min_leaf) fail("C06", "min-leaf", fmt("forest %zu tree %d leaf %d holds %zu rows, minimum is %d ", k, j, nd.id, rows[q].size(), t.min_leaf) + at);
          continue;
        }
        if (nd.feat < 0 || nd.feat >= s.p) fail("C06", "feature-range", fmt("forest %zu tree %d splits on feature %d of %d ", k, j, nd.feat, s.p) + at);
        if (!(t.weights[nd.feat] > 0)) fail("C06", "zero-weight-feature", fmt("forest %zu tree %d splits on feature %d whose selection weight is 0 ", k, j, nd.feat) + at);
        if (rows[q].empty()) fail("C06", "empty-node", fmt("forest %zu tree %d node %d is reached by no training row ", k, j, nd.id) + at);
        double lo = 1e308 * 10, hi = -lo; for (int i : rows[q]) { lo = std::min(lo, s.x(i, nd.feat)); hi = std::max(hi, s.x(i, nd.feat)); }
        if (!nd.cat && !(nd.thr >= lo && nd.thr <= hi)) fail("C06", "threshold-range", fmt("forest %zu tree %d node %d: threshold %.17g outside [%.17g, %.17g] of the rows reaching it ", k, j, nd.id, nd.thr, lo, hi) + at);
        if (nd.cat) for (auto c : nd.cats) { bool seen = false; for (int i : rows[q]) if (s.x(i, nd.feat) == c) seen = true; if (!seen) fail("C06", "category-range", fmt("forest %zu tree %d node %d: category %u does not occur among its rows ", k, j, nd.id, c) + at); }
      }
      if (a.leaves > 1) g_stats.hit("probe.split-tree"); 
    }
  }
}

// ---------------------------------------------------------------- C07
void check_retained(Session& s, const Op& op, const std::vector<int>& before, int rfx_before,
                    std::vector<std::vector<uint64_t>>& kept, std::vector<uint64_t>& rfx_kept, const std::string& at) {
  for (size_t k = 0; k < s.terms.size(); k++) {
    Term& t = *s.terms[k]; int now = t.forest->NumSamples();
    bool mine = (op.name == "gfr" || op.name == "mcmc") && (size_t)op.i(0, 0) % s.terms.size() == k;
    if (now != before[k] + (mine ? 1 : 0)) fail("C07", "sample-count", fmt("forest %zu: %d retained samples, %d before ", k, now, before[k]) + at);
    for (int i = 0; i < now; i++) {
      Digest d; d.u(forest_sample_digest(t.forest.get(), i, t.dim));
      if (i >= before[k]) { std::vector<double> out(s.n); t.forest->GetEnsemble(i)->NumLeaves(); kept[k].push_back(d.h); continue; }
      if (i >= (int)kept[k].size() || kept[k][i] != d.h) fail("C07", "sample-changed", fmt("forest %zu: retained sample %d of %d changed ", k, i, now) + at);
    }
  }
  if (s.rfx) {
    auto& c = *s.rfx->samples; int now = c.NumSamples();
    if (now != rfx_before + (op.name == "rfx")) fail("C07", "rfx-count", fmt("%d retained random-effects samples, %d before ", now, rfx_before) + at);
    int a = s.rfx->comps, b = a * s.rfx->groups;
    if ((int)c.GetAlpha().size() != now * a || (int)c.GetBeta().size() != now * b || (int)c.GetXi().size() != now * b || (int)c.GetSigma().size() != now * a) fail("C07", "rfx-size", "random-effects sample storage has the wrong size " + at);
    for (int i = 0; i < now; i++) {
      Digest d;
      for (int q = 0; q < a; q++) { d.d(c.GetAlpha()[i * a + q]); d.d(c.GetSigma()[i * a + q]); }
      for (int q = 0; q < b; q++) { d.d(c.GetBeta()[i * b + q]); d.d(c.GetXi()[i * b + q]); }
      if (i >= rfx_before) {
        auto& wp = s.rfx->model->GetWorkingParameter(); auto& gp = s.rfx->model->GetGroupParameters(); auto& gc = s.rfx->model->GetGroupParameterCovariance();
        for (int u = 0; u < a; u++) {
          if (c.GetAlpha()[i * a + u] != wp(u)) fail("C07", "rfx-retained", "retained working parameter differs from the draw " + at);
          if (c.GetSigma()[i * a + u] != gc(u, u)) fail("C07", "rfx-retained", "retained variance component differs from the draw " + at);
          for (int g = 0; g < s.rfx->groups; g++) {
            if (c.GetXi()[i * b + g * a + u] != gp(u, g)) fail("C07", "rfx-retained", "retained group parameter differs from the draw " + at);
            if (!close_to(c.GetBeta()[i * b + g * a + u], gp(u, g) * wp(u), std::fabs(gp(u, g) * wp(u)))) fail("C07", "rfx-retained", "retained coefficient differs from working times group parameter " + at);
          }
        }
        rfx_kept.push_back(d.h);
      } else if (rfx_kept[i] != d.h) fail("C07", "rfx-changed", fmt("retained random-effects sample %d of %d changed ", i, now) + at);
    }
  }
}

// ---------------------------------------------------------------- probe rows
std::vector<double> probe_rows(Rng& r, int m, int p, const std::vector<ATree>& trees) {
  std::vector<std::vector<double>> special(p);
  for (auto& t : trees) for (auto& n : t.nodes) if (!n.leaf && n.feat >= 0 && n.feat < p) {
    if (n.cat) for (auto c : n.cats) { special[n.feat].push_back(c); if (r.chance(.3)) special[n.feat].push_back((double)c + r.pick({1, -1, 8, 16, 64, 256, -256, 65536})); }
    else { special[n.feat].push_back(n.thr); special[n.feat].push_back(std::nextafter(n.thr, 1e308)); special[n.feat].push_back(std::nextafter(n.thr, -1e308)); }
  }
  std::vector<double> X((size_t)m * p);
  for (int j = 0; j < p; j++) for (int i = 0; i < m; i++) {
    double v; double u = r.unit();
    if (u < .5 && !special[j].empty()) v = r.pick(special[j]);
    else if (u < .7) v = r.normal() * 2;
    else if (u < .8) v = (double)r.below(8);
    else v = r.pick({0.0, -0.0, 1e300, -1e300, 1e-300, 99.0, -1.0, -3.0, 4294967295.0, 4294967296.0, 1e10});
    X[(size_t)j * m + i] = v;
  }
  return X;
}

// ---------------------------------------------------------------- C04
void check_predictions_of(st::ForestContainer& f, int dim, bool regression, int p, Rng& r, const std::string& at) {
  int S = f.NumSamples(); if (!S) return;
  int m = r.chance(.3) ? 1 : r.range(2, 9);
  std::vector<std::vector<ATree>> tr(S);
  std::vector<ATree> flat;
  for (int i = 0; i < S; i++) for (int j = 0; j < f.NumTrees(); j++) { tr[i].push_back(abstract_tree(f.GetEnsemble(i)->GetTree(j), dim)); if (i == S - 1) flat.push_back(tr[i].back()); }
  std::vector<double> X = probe_rows(r, m, p, flat), B((size_t)m * dim);
  for (auto& b : B) b = r.chance(.2) ? 0.0 : r.normal();
  std::vector<double> Xc = X, Bc = B;
  st::ForestDataset ds; ds.AddCovariates(Xc.data(), m, p, false);
  if (regression || r.chance(.3)) { if (dim == 1 || regression) ds.AddBasis(Bc.data(), m, dim, true); }
  auto raw = [&](int smp, int tree, int row, int d) { const ATree& a = tr[smp][tree]; return a.nodes[aroute(a, [&](int c) { return X[(size_t)c * m + row]; })].val[d]; };
  auto pred = [&](int smp, int tb, int te, int row, double& mag) {
    double v = 0; mag = 0;
    for (int j = tb; j < te; j++) for (int d = 0; d < (regression ? dim : 1); d++) { double x = raw(smp, j, row, d) * (regression ? B[(size_t)row * dim + d] : 1.0); v += x; mag += std::fabs(x); }
    return v;
  };
  auto rawsum = [&](int smp, int tb, int te, int row, int d, double& mag) { double v = 0; mag = 0; for (int j = tb; j < te; j++) { double x = raw(smp, j, row, d); v += x; mag += std::fabs(x); } return v; };
  double mag;
  uint64_t before = 0; { Digest d; for (int i = 0; i < S; i++) d.u(forest_sample_digest(&f, i, dim)); before = d.h; }
  int T = f.NumTrees();
  // container level
  auto all = f.Predict(ds);
  if (all.size() != (size_t)m * S) fail("C04", "predict-size", fmt("Predict returned %zu values for %d rows x %d samples ", all.size(), m, S) + at);
  for (int s = 0; s < S; s++) for (int i = 0; i < m; i++) { double w = pred(s, 0, T, i, mag); if (!close_to(all[(size_t)s * m + i], w, mag)) fail("C04", "predict", fmt("sample %d row %d: Predict %.17g, routed leaves give %.17g ", s, i, all[(size_t)s * m + i], w) + at); }
  auto rw = f.PredictRaw(ds);
  if (rw.size() != (size_t)m * S * dim) fail("C04", "predict-size", "PredictRaw returned the wrong number of values " + at);
  for (int s = 0; s < S; s++) for (int i = 0; i < m; i++) for (int d = 0; d < dim; d++) { double w = rawsum(s, 0, T, i, d, mag); double g = rw[(size_t)s * m * dim + (size_t)i * dim + d]; if (!close_to(g, w, mag)) fail("C04", "predict-raw", fmt("sample %d row %d dim %d: PredictRaw %.17g, routed leaves give %.17g ", s, i, d, g, w) + at); }
  int one = r.below(S);
  auto r1 = f.PredictRaw(ds, one);
  if (r1.size() != (size_t)m * dim) fail("C04", "predict-size", "single-sample PredictRaw returned the wrong number of values " + at);
  for (int i = 0; i < m; i++) for (int d = 0; d < dim; d++) { double w = rawsum(one, 0, T, i, d, mag); if (!close_to(r1[(size_t)i * dim + d], w, mag)) fail("C04", "predict-raw-single", fmt("sample %d row %d dim %d: PredictRaw %.17g, routed leaves give %.17g ", one, i, d, r1[(size_t)i * dim + d], w) + at); }
  // ensemble level, with offsets and tree sub-ranges
  st::TreeEnsemble* e = f.GetEnsemble(one);
  int tb = r.below(T), te = tb + 1 + r.below(T - tb); int off = r.below(4); const double sent = 123.456;
  for (int v = 0; v < 4; v++) {
    std::vector<double> out((size_t)m + off + 3, sent); int b = 0, en = T;
    if (v == 0) e->PredictInplace(ds, out, off);
    else if (v == 1) { e->PredictInplace(ds, out, tb, te, off); b = tb; en = te; }
    else if (v == 2) { if (regression) e->PredictInplace(ds.GetCovariates(), ds.GetBasis(), out, off); else e->PredictInplace(ds.GetCovariates(), out, off); }
    else { b = tb; en = te; if (regression) e->PredictInplace(ds.GetCovariates(), ds.GetBasis(), out, tb, te, off); else e->PredictInplace(ds.GetCovariates(), out, tb, te, off); }
    for (int i = 0; i < m; i++) { double w = pred(one, b, en, i, mag); if (!close_to(out[off + i], w, mag)) fail("C04", "predict-ensemble", fmt("variant %d trees [%d,%d) row %d: %.17g, routed leaves give %.17g ", v, b, en, i, out[off + i], w) + at); }
    for (size_t q = 0; q < out.size(); q++) if ((q < (size_t)off || q >= (size_t)off + m) && out[q] != sent) fail("C04", "predict-overwrite", fmt("variant %d wrote outside its range ", v) + at);
  }
  for (int v = 0; v < 2; v++) {
    std::vector<double> out((size_t)m * dim + off + 3, sent); int b = v ? tb : 0, en = v ? te : T;
    if (v) e->PredictRawInplace(ds, out, tb, te, off); else e->PredictRawInplace(ds, out, off);
    for (int i = 0; i < m; i++) for (int d = 0; d < dim; d++) { double w = rawsum(one, b, en, i, d, mag); double g = out[off + (size_t)i * dim + d]; if (!close_to(g, w, mag)) fail("C04", "predict-raw-ensemble", fmt("variant %d row %d dim %d: %.17g, routed leaves give %.17g ", v, i, d, g, w) + at); }
    for (size_t q = 0; q < out.size(); q++) if ((q < (size_t)off || q >= off + (size_t)m * dim) && out[q] != sent) fail("C04", "predict-overwrite", fmt("raw variant %d wrote outside its range ", v) + at);
  }
  // tree level
  st::Tree* t0 = e->GetTree(tb);
  std::vector<int32_t> ids; for (int i = 0; i < m; i++) { const ATree& a = tr[one][tb]; ids.push_back(a.nodes[aroute(a, [&](int c) { return X[(size_t)c * m + i]; })].id); }
  for (int i = 0; i < m; i++) { int nid = st::EvaluateTree(*t0, ds.GetCovariates(), i); if (nid != ids[i]) fail("C04", "route", fmt("row %d routed to node %d, expected leaf %d ", i, nid, ids[i]) + at); }
  if (regression) { auto v = t0->PredictFromNodes(ids, ds.GetBasis()); for (int i = 0; i < m; i++) { double w = pred(one, tb, tb + 1, i, mag); if (!close_to(v[i], w, mag) || !close_to(t0->PredictFromNode(ids[i], ds.GetBasis(), i), w, mag)) fail("C04", "predict-from-node", fmt("row %d: %.17g, leaf gives %.17g ", i, v[i], w) + at); } }
  else if (dim == 1) { auto v = t0->PredictFromNodes(ids); std::vector<double> v2(m, -77.); t0->InplacePredictFromNodes(v2, ids); if (v2 != v) fail("C04", "predict-from-node", "InplacePredictFromNodes and PredictFromNodes differ " + at); for (int i = 0; i < m; i++) { double w = pred(one, tb, tb + 1, i, mag); if (!close_to(v[i], w, mag) || !close_to(t0->PredictFromNode(ids[i]), w, mag)) fail("C04", "predict-from-node", fmt("row %d: %.17g, leaf gives %.17g ", i, v[i], w) + at); } }
  // summaries over leaves
  double ss = 0; int nl = 0; for (auto& a : tr[one]) for (auto& n : a.nodes) if (n.leaf) { nl++; for (double v : n.val) ss += v * v; }
  if (e->NumLeaves() != nl || f.NumLeaves(one) != nl) fail("C04", "leaf-count", fmt("sample %d reports %d leaves, has %d ", one, e->NumLeaves(), nl) + at);
  if (!close_to(e->SumLeafSquared(), ss, ss)) fail("C04", "leaf-sum-squares", fmt("sample %d reports sum of squared leaves %.17g, is %.17g ", one, e->SumLeafSquared(), ss) + at);
  bool roots = nl == T; if (e->AllRoots() != roots || f.AllRoots(one) != roots) fail("C04", "all-roots", fmt("sample %d: AllRoots is wrong ", one) + at);
  uint64_t after; { Digest d; for (int i = 0; i < S; i++) d.u(forest_sample_digest(&f, i, dim)); after = d.h; }
  if (after != before) fail("C04", "predict-changed-model", "predicting changed the model " + at);
  for (int j = 0; j < p; j++) for (int i = 0; i < m; i++) if (ds.CovariateValue(i, j) != X[(size_t)j * m + i]) fail("C04", "predict-changed-data", "predicting changed the dataset " + at);
  g_stats.hit("check.predict", m);
}

void check_predictions(Session& s, Rng& r, const std::string& at) {
  for (auto& t : s.terms) if (t->forest->NumSamples()) check_predictions_of(*t->forest, t->dim, t->regression(), s.p, r, at);
}

// ---------------------------------------------------------------- C05
void check_kernels(Session& s, Rng& r, const std::string& at) {
  static thread_local std::unique_ptr<st::ForestKernel> reused;   // one object across ensembles and datasets, reset per run
  typedef Eigen::Map<Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::ColMajor>> Map;
  if (s.op_index <= 1 || !reused) reused = std::make_unique<st::ForestKernel>();
  for (auto& tp : s.terms) {
    Term& t = *tp; int S = t.forest->NumSamples(); if (!S) continue;
    int smp = r.chance(.6) ? S - 1 : r.below(S);
    st::TreeEnsemble* e = t.forest->GetEnsemble(smp); int T = e->NumTrees();
    std::vector<ATree> tr; int total = 0; for (int j = 0; j < T; j++) { tr.push_back(abstract_tree(e->GetTree(j), t.dim)); total += tr.back().leaves; }
    int ma = r.range(1, 8), mb = r.range(1, 8);
    std::vector<double> A = probe_rows(r, ma, s.p, tr), B = probe_rows(r, mb, s.p, tr);
    auto leaves = [&](const std::vector<double>& X, int m) { std::vector<std::vector<int>> q(T, std::vector<int>(m)); for (int j = 0; j < T; j++) for (int i = 0; i < m; i++) q[j][i] = aroute(tr[j], [&](int c) { return X[(size_t)c * m + i]; }); return q; };
    auto LA = leaves(A, ma), LB = leaves(B, mb);
    std::map<int, std::pair<int, int>> owner;  // index -> (tree, leaf)
    std::map<std::pair<int, int>, int> index;
    auto check_idx = [&](const std::vector<int32_t>& v, const std::vector<std::vector<int>>& L, int m, const char* what) {
      if ((int)v.size() < T * m) fail("C05", "index-size", fmt("%s: %zu indices for %d trees x %d rows ", what, v.size(), T, m) + at);
      for (int j = 0; j < T; j++) for (int i = 0; i < m; i++) {
        int q = v[(size_t)j * m + i]; std::pair<int, int> key{j, L[j][i]};
        if (q < 0 || q >= total) fail("C05", "index-range", fmt("%s: leaf index %d outside [0,%d) ", what, q, total) + at);
        auto it = index.find(key); if (it == index.end()) { if (owner.count(q)) fail("C05", "index-shared", fmt("%s: leaf index %d is used for two leaves ", what, q) + at); index[key] = q; owner[q] = key; }
        else if (it->second != q) fail("C05", "index-inconsistent", fmt("%s: tree %d row %d has leaf index %d, the same leaf had %d ", what, j, i, q, it->second) + at);
      }
    };
    auto check_ker = [&](auto& K, const std::vector<std::vector<int>>& P, int mp, const std::vector<std::vector<int>>& Q, int mq, const char* what) {
      if (K.rows() != mp || K.cols() != mq) fail("C05", "kernel-size", fmt("%s is %ld x %ld, expected %d x %d ", what, (long)K.rows(), (long)K.cols(), mp, mq) + at);
      for (int i = 0; i < mp; i++) for (int j = 0; j < mq; j++) { int c = 0; for (int t = 0; t < T; t++) c += P[t][i] == Q[t][j]; if (std::fabs(K(i, j) - c) > 1e-9) fail("C05", "kernel-entry", fmt("%s(%d,%d) = %g, rows share a leaf in %d trees ", what, i, j, K(i, j), c) + at); }
    };
    std::vector<double> Ac = A, Bc = B;
    st::ForestDataset da; da.AddCovariates(Ac.data(), ma, s.p, false);
    st::ForestDataset db; db.AddCovariates(Bc.data(), mb, s.p, false);
    check_idx(e->PredictLeafIndices(&da), LA, ma, "PredictLeafIndices");
    Map mapA(Ac.data(), ma, s.p), mapB(Bc.data(), mb, s.p);
    { std::vector<int32_t> o((size_t)T * mb); e->PredictLeafIndicesInplace(mapB, o, T, mb); check_idx(o, LB, mb, "PredictLeafIndicesInplace(map)"); }
    { std::vector<int32_t> o((size_t)T * mb); e->PredictLeafIndicesInplace(&db, o, T, mb); check_idx(o, LB, mb, "PredictLeafIndicesInplace(dataset)"); }
    st::ForestKernel fresh; st::ForestKernel& k = r.chance(.6) ? *reused : fresh;
    if (&k != &fresh) g_stats.hit("probe.kernel-reuse");
    switch (r.below(6)) {
      case 0: k.ComputeKernel(da.GetCovariates(), *e); check_ker(k.GetTrainKernel(), LA, ma, LA, ma, "train kernel"); check_idx(k.GetTrainLeafIndices(), LA, ma, "train indices"); break;
      case 1: k.ComputeKernel(mapA, *e); check_ker(k.GetTrainKernel(), LA, ma, LA, ma, "train kernel"); check_idx(k.GetTrainLeafIndices(), LA, ma, "train indices"); break;
      case 2: case 3: {
        if (r.chance(.5)) k.ComputeKernel(da.GetCovariates(), db.GetCovariates(), *e); else k.ComputeKernel(mapA, mapB, *e);
        check_ker(k.GetTrainKernel(), LA, ma, LA, ma, "train kernel"); check_ker(k.GetTestTrainKernel(), LB, mb, LA, ma, "test-train kernel"); check_ker(k.GetTestKernel(), LB, mb, LB, mb, "test kernel");
        check_idx(k.GetTrainLeafIndices(), LA, ma, "train indices"); check_idx(k.GetTestLeafIndices(), LB, mb, "test indices"); break;
      }
      case 4: {
        std::vector<double> o1((size_t)ma * ma, 7), o2((size_t)mb * ma, 7), o3((size_t)mb * mb, 7); Map m1(o1.data(), ma, ma), m2(o2.data(), mb, ma), m3(o3.data(), mb, mb);
        if (r.chance(.5)) k.ComputeKernelExternal(da.GetCovariates(), db.GetCovariates(), *e, m1, m2, m3); else k.ComputeKernelExternal(mapA, mapB, *e, m1, m2, m3);
        check_ker(m1, LA, ma, LA, ma, "external train kernel"); check_ker(m2, LB, mb, LA, ma, "external test-train kernel"); check_ker(m3, LB, mb, LB, mb, "external test kernel"); break;
      }
      default: {
        std::vector<double> o1((size_t)ma * ma, 7); Map m1(o1.data(), ma, ma);
        if (r.chance(.5)) k.ComputeKernelExternal(da.GetCovariates(), *e, m1); else k.ComputeKernelExternal(mapA, *e, m1);
        check_ker(m1, LA, ma, LA, ma, "external train kernel"); break;
      }
    }
    if (k.NumTrees() != T || k.NumTrainObservations() != ma) fail("C05", "kernel-meta", "kernel object reports the wrong number of trees or rows " + at);
    if (r.chance(.5)) {
      // the same kernel object, data buffers and ensemble object again, after the data and the ensemble were changed in place
      st::TreeEnsemble cp(*e); Eigen::MatrixXd M(ma, s.p), N(mb, s.p);
      auto put = [&](Eigen::MatrixXd& to, const std::vector<double>& X, int m) { for (int j = 0; j < s.p; j++) for (int i = 0; i < m; i++) to(i, j) = X[(size_t)j * m + i]; };
      for (int round = 0, rounds = r.range(2, 4); round < rounds; round++) {
        if (round) {
          int what = r.range(1, 3);
          if (what & 1) for (int j = 0; j < T; j++) if (r.chance(.6)) cp.CloneFromExistingTree(j, t.forest->GetEnsemble(r.below(S))->GetTree(r.below(T)));
          if (what & 2) { A = probe_rows(r, ma, s.p, tr); if (r.chance(.6)) B = probe_rows(r, mb, s.p, tr); }
          tr.clear(); total = 0; for (int j = 0; j < T; j++) { tr.push_back(abstract_tree(cp.GetTree(j), t.dim)); total += tr.back().leaves; }
          LA = leaves(A, ma); LB = leaves(B, mb); owner.clear(); index.clear();
        }
        put(M, A, ma); put(N, B, mb);
        std::string w = round ? " (after a change in place)" : "";
        if (r.chance(.5)) { k.ComputeKernel(M, cp); check_ker(k.GetTrainKernel(), LA, ma, LA, ma, ("train kernel" + w).c_str()); check_idx(k.GetTrainLeafIndices(), LA, ma, ("train indices" + w).c_str()); }
        else {
          k.ComputeKernel(M, N, cp);
          check_ker(k.GetTrainKernel(), LA, ma, LA, ma, ("train kernel" + w).c_str()); check_ker(k.GetTestTrainKernel(), LB, mb, LA, ma, ("test-train kernel" + w).c_str()); check_ker(k.GetTestKernel(), LB, mb, LB, mb, ("test kernel" + w).c_str());
          check_idx(k.GetTrainLeafIndices(), LA, ma, ("train indices" + w).c_str()); check_idx(k.GetTestLeafIndices(), LB, mb, ("test indices" + w).c_str());
        }
      }
      g_stats.hit("probe.kernel-in-place");
    }
    g_stats.hit("check.kernel");
  }
}

// ---------------------------------------------------------------- C08
static void same_container(st::ForestContainer& a, st::ForestContainer& b, int dim, const std::string& what, const std::string& at) {
  if (a.NumSamples() != b.NumSamples() || a.NumTrees() != b.NumTrees() || a.OutputDimension() != b.OutputDimension() || a.IsLeafConstant() != b.IsLeafConstant())
    fail("C08", "metadata", what + ": sample count, tree count, dimension or leaf kind differ " + at);
  for (int i = 0; i < a.NumSamples(); i++) if (forest_sample_digest(&a, i, dim) != forest_sample_digest(&b, i, dim)) fail("C08", "content", what + fmt(": sample %d differs ", i) + at);
}

void check_roundtrip(Session& s, Rng& r, const std::string& at) {
  for (auto& tp : s.terms) {
    Term& t = *tp; st::ForestContainer& f = *t.forest;
    if (t.preinit && f.NumSamples() == 0) g_stats.hit("probe.save-before-first-sample");
    std::string text = f.to_json().dump();
    st::ForestContainer used(3, 2, false); if (r.chance(.5)) used.AddSamples(r.range(1, 4)); if (r.chance(.5)) used.Reset();
    int via = r.below(3); std::string file = scratch_dir() + "/m.json";
    if (via == 0) used.from_json(nlohmann::json::parse(text));
    else if (via == 1) { nlohmann::json j = f.to_json(); used.from_json(j); }
    else { f.SaveToJsonFile(file); used.LoadFromJsonFile(file); }
    same_container(f, used, t.dim, via == 2 ? "file round trip" : "json round trip", at);
    if (used.to_json().dump() != text) fail("C08", "text", "the reloaded model serialises to different text " + at);
    if (f.to_json().dump() != text) fail("C08", "save-changes", "saving changed the model " + at);
    for (int i = 0; i < f.NumSamples(); i++) for (int j = 0; j < f.NumTrees(); j++) {
      st::Tree *a = f.GetEnsemble(i)->GetTree(j), *b = used.GetEnsemble(i)->GetTree(j);
      if (a->NumNodes() != b->NumNodes() || a->NumDeletedNodes() != b->NumDeletedNodes() || a->NumValidNodes() != b->NumValidNodes() || a->NumLeaves() != b->NumLeaves()) fail("C08", "tree-counts", fmt("sample %d tree %d: node counts differ after the round trip ", i, j) + at);
      if (a->NumDeletedNodes()) g_stats.hit("probe.saved-deleted-nodes");
    }
    if (f.NumSamples()) {
      std::vector<ATree> flat; for (int j = 0; j < f.NumTrees(); j++) flat.push_back(abstract_tree(f.GetEnsemble(f.NumSamples() - 1)->GetTree(j), t.dim));
      int m = r.range(1, 6); auto X = probe_rows(r, m, s.p, flat); std::vector<double> B((size_t)m * t.dim); for (auto& b : B) b = r.normal();
      st::ForestDataset ds; ds.AddCovariates(X.data(), m, s.p, false); if (t.regression()) ds.AddBasis(B.data(), m, t.dim, true);
      if (f.Predict(ds) != used.Predict(ds)) fail("C08", "predictions", "the reloaded model predicts differently " + at);
      // ensemble and tree level
      int smp = r.below(f.NumSamples()), tree = r.below(f.NumTrees());
      st::TreeEnsemble e2(r.range(1, 3), 1, true); e2.from_json(nlohmann::json::parse(f.GetEnsemble(smp)->to_json().dump()));
      Digest d1, d2; for (int j = 0; j < f.NumTrees(); j++) { digest_tree(d1, abstract_tree(f.GetEnsemble(smp)->GetTree(j), t.dim)); digest_tree(d2, abstract_tree(e2.GetTree(j), t.dim)); }
      if (d1.h != d2.h || e2.OutputDimension() != t.dim || e2.NumTrees() != f.NumTrees() || e2.IsLeafConstant() != (t.kind == 0)) fail("C08", "ensemble", fmt("sample %d: ensemble round trip differs ", smp) + at);
      // a used tree object that held something else
      st::Tree tr; tr.Init(r.range(1, 2)); if (tr.OutputDimension() == 1) { tr.ExpandNode(0, 0, 0.5, 1.0, 2.0); tr.ExpandNode(1, 0, 0.2, 1.0, 2.0); if (r.chance(.5)) tr.CollapseToLeaf(1, 3.0); }
      tr.from_json(nlohmann::json::parse(f.GetEnsemble(smp)->GetTree(tree)->to_json().dump()));
      Digest d3, d4; digest_tree(d3, abstract_tree(&tr, t.dim)); digest_tree(d4, abstract_tree(f.GetEnsemble(smp)->GetTree(tree), t.dim));
      if (d3.h != d4.h || !(tr == *f.GetEnsemble(smp)->GetTree(tree))) fail("C08", "tree", fmt("sample %d tree %d: tree round trip differs ", smp, tree) + at);
    }
    g_stats.hit("check.roundtrip");
  }
  if (s.rfx) {
    auto& c = *s.rfx->samples; std::string text = c.to_json().dump();
    st::RandomEffectsContainer d = r.chance(.5) ? st::RandomEffectsContainer() : c;
    d.from_json(nlohmann::json::parse(text));
    if (d.NumSamples() != c.NumSamples() || d.NumComponents() != c.NumComponents() || d.NumGroups() != c.NumGroups() || d.GetBeta() != c.GetBeta() || d.GetAlpha() != c.GetAlpha() || d.GetXi() != c.GetXi() || d.GetSigma() != c.GetSigma())
      fail("C08", "rfx", "random-effects round trip differs " + at);
    if (d.to_json().dump() != text) fail("C08", "rfx-text", "the reloaded random-effects model serialises to different text " + at);
    st::LabelMapper m(s.rfx->tracker->GetLabelMap()), q; if (r.chance(.5)) { std::map<int32_t, int32_t> other{{777, 0}, {s.rfx->labels[0], 5}}; q = st::LabelMapper(other); }
    q.from_json(nlohmann::json::parse(m.to_json().dump()));
    if (q.Map() != m.Map() || q.Keys() != m.Keys()) fail("C08", "rfx-labels", "random-effects label map round trip differs " + at);
  }
}
}  // namespace sim
