// World "rfx" (C14, and the exact part of C13): random-effects terms with arbitrary integer labels, sampled while the
// residual is changed from outside, predicted on arbitrary data, saved and reloaded, against a label-keyed reference.
#include "session.h"
#include <algorithm>
#include <climits>
namespace sim {

static bool near(double a, double b, double s) { return std::fabs(a - b) <= 1e-8 * (s + 1e-300) || a == b; }

static uint64_t run_rfx(const Plan& pl) {
  int n = std::max(1LL, pl.ci("n", 12)), C = std::max(1LL, pl.ci("comps", 1)), want_g = std::max(1LL, pl.ci("groups", 3));
  Rng r(pl.cu("dseed", 1));
  int lstyle = pl.ci("labels", 0);
  std::vector<int32_t> pool;
  for (int i = 0; i < want_g; i++) {
    int32_t l;
    switch (lstyle) {
      case 0: l = i; break;
      case 1: l = i + 1; break;
      case 2: l = r.range(-50, 50); break;
      case 3: l = (int32_t)(uint32_t)r.next(); break;
      default: l = r.pick({INT_MAX, INT_MIN, 0, -1, 1, INT_MAX - 1, INT_MIN + 1, 1 << 24, (1 << 24) + 1}); break;
    }
    pool.push_back(l);
  }
  std::vector<int32_t> lab(n);
  for (auto& l : lab) l = r.pick(pool);
  if (pl.ci("single", 0)) { int32_t mx = *std::max_element(lab.begin(), lab.end()); int k = r.below(n); if (mx < INT_MAX) lab[k] = mx + (mx < INT_MAX - 5 ? 5 : 1); }
  if (pl.ci("sorted", 0)) std::sort(lab.begin(), lab.end());
  std::map<int32_t, std::vector<int>> rows; for (int i = 0; i < n; i++) rows[lab[i]].push_back(i);
  int G = rows.size();
  std::vector<double> B((size_t)n * C); for (int i = 0; i < n; i++) for (int d = 0; d < C; d++) B[(size_t)i * C + d] = (d == 0 && pl.ci("intercept", 1)) ? 1.0 : r.normal();
  std::vector<double> y(n), other(n, 0.0); for (auto& v : y) v = r.normal() * 2;
  st::RandomEffectsDataset ds; ds.AddBasis(B.data(), n, C, true); ds.AddGroupLabels(lab);
  st::ColumnVector resid(y.data(), n);
  st::RandomEffectsTracker tr(lab);
  st::MultivariateRegressionRandomEffectsModel model(C, G);
  Eigen::VectorXd wp(C); for (int d = 0; d < C; d++) wp(d) = pl.ci("wp0", 0) ? r.normal() : 1.0;
  Eigen::MatrixXd gp(C, G); for (int d = 0; d < C; d++) for (int g = 0; g < G; g++) gp(d, g) = r.normal();
  Eigen::MatrixXd A(C, C); for (int i = 0; i < C; i++) for (int j = 0; j < C; j++) A(i, j) = .3 * r.normal();
  Eigen::MatrixXd wc = A * A.transpose() + Eigen::MatrixXd::Identity(C, C), gc = Eigen::MatrixXd::Identity(C, C) * std::exp(r.normal());
  model.SetWorkingParameter(wp); model.SetGroupParameters(gp); model.SetWorkingParameterCovariance(wc); model.SetGroupParameterCovariance(gc);
  double shape = .5 + r.unit() * 3, pscale = .1 + r.unit() * 3; model.SetVariancePriorShape(shape); model.SetVariancePriorScale(pscale);
  auto samples = std::make_unique<st::RandomEffectsContainer>(C, G); auto mapper = std::make_unique<st::LabelMapper>(tr.GetLabelMap());
  double s2 = 1, mag = 5;
  std::vector<std::map<int32_t, std::vector<double>>> kept;     // retained coefficients by label
  std::vector<double> contrib(n, 0.0);

  auto tracking = [&](const std::string& at) {
    if (tr.NumCategories() != G) fail("C14", "group-count", fmt("%d groups tracked, %d labels ", tr.NumCategories(), G) + at);
    std::vector<int32_t> want; for (auto& kv : rows) want.push_back(kv.first);
    std::vector<int32_t> ids = tr.GetUniqueGroupIds(); std::sort(ids.begin(), ids.end());
    if (ids != want) fail("C14", "group-ids", "the tracked labels are not the labels of the data " + at);
    std::set<int> nums; size_t total = 0;
    for (auto& kv : rows) {
      int l = kv.first, num = tr.CategoryNumber(l);
      if (num < 0 || num >= G || !nums.insert(num).second) fail("C14", "group-number", fmt("label %d has internal number %d of %d (or shares it) ", l, num, G) + at);
      auto sorted = [](std::vector<int> v) { std::sort(v.begin(), v.end()); return v; };
      auto v1 = tr.NodeIndices(l); auto v2 = tr.NodeIndicesInternalIndex(num);
      auto& ix = tr.GetCategorySampleTracker()->indices_; std::vector<int> v3(ix.begin() + tr.CategoryBegin(l), ix.begin() + tr.CategoryEnd(l));
      if (sorted({v1.begin(), v1.end()}) != kv.second || sorted({v2.begin(), v2.end()}) != kv.second || sorted(v3) != kv.second)
        fail("C14", "group-rows", fmt("label %d: %zu / %zu / %zu tracked rows, %zu rows carry the label (or other rows) ", l, v1.size(), v2.size(), v3.size(), kv.second.size()) + at);
      if ((int)tr.CategorySize(l) != (int)kv.second.size() || (int)(tr.CategoryEnd(l) - tr.CategoryBegin(l)) != (int)kv.second.size()) fail("C14", "group-size", fmt("label %d: size %d, range %d, rows %zu ", l, (int)tr.CategorySize(l), (int)(tr.CategoryEnd(l) - tr.CategoryBegin(l)), kv.second.size()) + at);
      total += v1.size();
      if (mapper->CategoryNumber(l) != num || !mapper->ContainsLabel(l)) fail("C14", "label-mapper", fmt("label %d ", l) + at);
    }
    if (total != (size_t)n) fail("C14", "partition", fmt("groups hold %zu of %d rows ", total, n) + at);
    for (int i = 0; i < n; i++) if ((int)tr.GetCategoryId(i) != lab[i]) fail("C14", "row-label", fmt("row %d: label %d, expected %d ", i, (int)tr.GetCategoryId(i), lab[i]) + at);
  };
  auto moments = [&](const std::string& at) {   // conditional posterior parameters given everything else
    auto& a = model.GetWorkingParameter(); auto& xi = model.GetGroupParameters(); auto& sx = model.GetGroupParameterCovariance(); auto& wcov = model.GetWorkingParameterCovariance();
    Eigen::MatrixXd pw = wcov.inverse(); Eigen::VectorXd nw = Eigen::VectorXd::Zero(C);
    for (auto& kv : rows) {
      int g = tr.CategoryNumber(kv.first);
      Eigen::MatrixXd P = sx.inverse(); Eigen::VectorXd q = Eigen::VectorXd::Zero(C);
      for (int i : kv.second) for (int d = 0; d < C; d++) {
        double bi = B[(size_t)i * C + d];
        q(d) += a(d) * bi * resid.GetElement(i) / s2; nw(d) += xi(d, g) * bi * resid.GetElement(i) / s2;
        for (int e = 0; e < C; e++) { P(d, e) += a(d) * a(e) * bi * B[(size_t)i * C + e] / s2; pw(d, e) += xi(d, g) * xi(e, g) * bi * B[(size_t)i * C + e] / s2; }
      }
      Eigen::MatrixXd V = P.inverse(); Eigen::VectorXd m = V * q;
      Eigen::VectorXd gm = model.GroupParameterMean(ds, resid, tr, s2, g); Eigen::MatrixXd gv = model.GroupParameterVariance(ds, resid, tr, s2, g);
      double sm = 1 + m.cwiseAbs().maxCoeff();
      const char* prop = focus("C14") ? "C14" : "C13";
      if ((gm - m).cwiseAbs().maxCoeff() > 1e-6 * sm || (gv - V).cwiseAbs().maxCoeff() > 1e-6 * (1 + V.cwiseAbs().maxCoeff()))
        fail(prop, "group-posterior", fmt("label %d: posterior mean %.12g variance %.12g, its own rows give %.12g, %.12g ", kv.first, gm(0), gv(0, 0), m(0), V(0, 0)) + at);
    }
    Eigen::MatrixXd V = pw.inverse(); Eigen::VectorXd m = V * nw;
    Eigen::VectorXd wm = model.WorkingParameterMean(ds, resid, tr, s2); Eigen::MatrixXd wv = model.WorkingParameterVariance(ds, resid, tr, s2);
    if ((wm - m).cwiseAbs().maxCoeff() > 1e-6 * (1 + m.cwiseAbs().maxCoeff()) || (wv - V).cwiseAbs().maxCoeff() > 1e-6 * (1 + V.cwiseAbs().maxCoeff()))
      fail("C13", "working-posterior", fmt("mean %.12g variance %.12g, expected %.12g, %.12g ", wm(0), wv(0, 0), m(0), V(0, 0)) + at);
    for (int d = 0; d < C; d++) {
      double ss = 0; for (int g = 0; g < G; g++) ss += xi(d, g) * xi(d, g);
      double sh = model.VarianceComponentShape(ds, resid, tr, s2, d), sc = model.VarianceComponentScale(ds, resid, tr, s2, d);
      if (!near(sh, shape + G / 2.0, sh) || !near(sc, pscale + ss / 2, sc)) fail("C13", "variance-component", fmt("component %d: InvGamma(%.12g, %.12g), expected (%.12g, %.12g) ", d, sh, sc, shape + G / 2.0, pscale + ss / 2) + at);
    }
  };
  auto verify = [&](Rng& q, const std::string& at) {
    tracking(at);
    for (int i = 0; i < n; i++) {
      double want = y[i] - other[i] - contrib[i];
      if (!near(resid.GetElement(i), want, mag)) fail("C14", "residual", fmt("row %d (label %d): residual %.17g, outcome minus its own group's effect %.17g ", i, lab[i], resid.GetElement(i), want) + at);
      if (!near(tr.GetPrediction(i), contrib[i], mag)) fail("C14", "cached-effect", fmt("row %d: cached %.17g, expected %.17g ", i, tr.GetPrediction(i), contrib[i]) + at);
    }
    if (samples->NumSamples() != (int)kept.size() || (kept.size() && (samples->NumGroups() != G || samples->NumComponents() != C))) fail("C14", "sample-count", fmt("%d samples of %d groups, expected %zu of %d ", samples->NumSamples(), samples->NumGroups(), kept.size(), G) + at);
    // predictions for arbitrary rows
    int m = q.range(1, 8); std::vector<int32_t> nl(m); std::vector<double> nb((size_t)m * C);
    std::vector<int32_t> labs; for (auto& kv : rows) labs.push_back(kv.first);
    for (auto& l : nl) l = q.pick(labs);
    for (auto& v : nb) v = q.normal();
    st::RandomEffectsDataset nd; nd.AddBasis(nb.data(), m, C, true); nd.AddGroupLabels(nl);
    if (kept.size()) {
      std::vector<double> out((size_t)m * kept.size(), -77); samples->Predict(nd, *mapper, out);
      for (size_t j = 0; j < kept.size(); j++) for (int i = 0; i < m; i++) {
        double w = 0; for (int d = 0; d < C; d++) w += nb[(size_t)i * C + d] * kept[j][nl[i]][d];
        if (!near(out[j * m + i], w, mag)) fail("C14", "prediction", fmt("sample %zu label %d: predicted %.17g, its retained coefficients give %.17g ", j, nl[i], out[j * m + i], w) + at);
      }
      std::vector<double> cur = model.Predict(nd, tr);
      for (int i = 0; i < m; i++) {
        double w = 0; for (int d = 0; d < C; d++) w += nb[(size_t)i * C + d] * model.GetWorkingParameter()(d) * model.GetGroupParameters()(d, tr.CategoryNumber(nl[i]));
        if (!near(cur[i], w, mag)) fail("C14", "model-prediction", fmt("label %d: %.17g, expected %.17g ", nl[i], cur[i], w) + at);
      }
    }
    // a label that was never seen
    int32_t unseen; do { unseen = q.chance(.5) ? (int32_t)(uint32_t)q.next() : labs[q.below(labs.size())] + (q.chance(.5) ? 1u : -1u); } while (rows.count(unseen));
    if (mapper->ContainsLabel(unseen)) fail("C14", "unseen-contained", fmt("label %d is reported as known ", unseen) + at);
    nl[q.below(m)] = unseen; st::RandomEffectsDataset ud; ud.AddBasis(nb.data(), m, C, true); ud.AddGroupLabels(nl);
    for (int way = 0; way < 2; way++) {
      bool threw = false;
      try {
        if (way == 0) { std::vector<double> out((size_t)m * std::max<size_t>(kept.size(), 0)); samples->Predict(ud, *mapper, out); }
        else model.Predict(ud, tr);
      } catch (std::exception&) { threw = true; }
      if (!threw) fail("C14", "unseen-label", fmt("label %d was never seen in training but is predicted (%s) ", unseen, way ? "current model" : "retained samples") + at);
    }
    g_stats.hit("unseen-label");
    tracking(at + " and after a rejected label");
  };

  Digest hist; int step = 0;
  { Rng q(pl.seed); verify(q, "initially"); moments("initially"); }
  for (auto& op : pl.ops) {
    step++; std::string at = fmt("after step %d (%s)", step, op.line().c_str());
    if (op.name == "sample") {
      std::mt19937 gen((uint32_t)op.u(0));
      model.SampleRandomEffects(ds, resid, tr, s2, gen);
      for (int i = 0; i < n; i++) { int g = tr.CategoryNumber(lab[i]); double s = 0; for (int d = 0; d < C; d++) s += B[(size_t)i * C + d] * model.GetWorkingParameter()(d) * model.GetGroupParameters()(d, g); contrib[i] = s; mag = std::max(mag, 3 * std::fabs(s)); }
      samples->AddSample(model);
      std::map<int32_t, std::vector<double>> k; for (auto& kv : rows) { auto& v = k[kv.first]; for (int d = 0; d < C; d++) { v.push_back(model.GetWorkingParameter()(d) * model.GetGroupParameters()(d, tr.CategoryNumber(kv.first))); mag = std::max(mag, 5 * std::fabs(v.back())); } }
      kept.push_back(k); g_stats.hit("sample");
    } else if (op.name == "keep") {          // retain the current state again (thinning-free storage)
      if (!contrib.size() || kept.empty()) continue;
      samples->AddSample(model); kept.push_back(kept.back());
      std::map<int32_t, std::vector<double>> k; for (auto& kv : rows) for (int d = 0; d < C; d++) k[kv.first].push_back(model.GetWorkingParameter()(d) * model.GetGroupParameters()(d, tr.CategoryNumber(kv.first)));
      kept.back() = k;
    } else if (op.name == "other") {         // another term takes its share of the residual
      Rng q(op.u(0)); for (int i = 0; i < n; i++) { double d = q.normal(); other[i] += d; resid.SetElement(i, resid.GetElement(i) - d); mag = std::max(mag, std::fabs(other[i])); }
    } else if (op.name == "sigma") { s2 = std::exp(Rng(op.u(0)).normal());
    } else if (op.name == "set") {           // parameters set from outside
      Rng q(op.u(0)); Eigen::VectorXd w(C); for (int d = 0; d < C; d++) w(d) = q.normal(); model.SetWorkingParameter(w);
      Eigen::MatrixXd g(C, G); for (int d = 0; d < C; d++) for (int k = 0; k < G; k++) g(d, k) = q.normal(); model.SetGroupParameters(g);
      Eigen::VectorXd one(C); one.setConstant(q.normal()); int gi = q.below(G); model.SetGroupParameter(one, gi);
      model.SetGroupParameterVarianceComponent(std::exp(q.normal()), q.below(C));
    } else if (op.name == "reload") {
      std::string a = samples->to_json().dump(), b = mapper->to_json().dump();
      int way = op.u(0) % 3;
      std::unique_ptr<st::RandomEffectsContainer> f; std::unique_ptr<st::LabelMapper> lm;
      if (way == 0) { f = std::make_unique<st::RandomEffectsContainer>(); lm = std::make_unique<st::LabelMapper>(); }
      else if (way == 1) {   // into objects that already hold another model
        Rng q(op.u(1)); int g2 = q.range(1, 4), c2 = q.range(1, 2);
        f = std::make_unique<st::RandomEffectsContainer>(c2, g2); st::MultivariateRegressionRandomEffectsModel m2(c2, g2);
        Eigen::VectorXd w(c2); w.setConstant(2); Eigen::MatrixXd g(c2, g2); g.setConstant(3); Eigen::MatrixXd cc = Eigen::MatrixXd::Identity(c2, c2);
        m2.SetWorkingParameter(w); m2.SetGroupParameters(g); m2.SetGroupParameterCovariance(cc); f->AddSample(m2); f->AddSample(m2);
        std::map<int32_t, int32_t> mm; for (int k = 0; k < g2; k++) mm[(int32_t)(uint32_t)q.next()] = k; for (auto& kv : rows) if (q.chance(.4)) mm[kv.first] = 0;
        lm = std::make_unique<st::LabelMapper>(mm); g_stats.hit("reload-into-used");
      } else { f = std::move(samples); lm = std::move(mapper); g_stats.hit("reload-into-self"); }
      f->from_json(nlohmann::json::parse(a)); lm->from_json(nlohmann::json::parse(b));
      if (f->to_json().dump() != a || lm->to_json().dump() != b) fail("C14", "reload-text", "the reloaded objects serialise differently " + at);
      samples = std::move(f); mapper = std::move(lm);
      std::vector<int32_t> keys = mapper->Keys(), want; for (auto& kv : rows) want.push_back(kv.first); std::sort(keys.begin(), keys.end());
      if (keys != want) fail("C14", "mapper-keys", fmt("%zu keys after reloading, expected %zu ", keys.size(), want.size()) + at);
      g_stats.hit("reload");
    } else throw HarnessError("unknown op " + op.name);
    g_stats.steps++;
    Rng q(pl.seed * 31337 + step); verify(q, at);
    if (q.chance(.5)) moments(at);
    Digest d; d.u(G); d.u(C); d.u(n); d.u(kept.size()); for (auto& kv : rows) d.u(kv.second.size()); g_stats.state(d.h);
    for (int i = 0; i < n; i++) d.d(resid.GetElement(i)); for (double v : samples->GetBeta()) d.d(v); hist.u(d.h);
  }
  return hist.h;
}
static Plan gen_rfx(uint64_t seed, bool thorough) {
  Rng r(seed); Plan pl; pl.world = "rfx"; pl.seed = seed;
  pl.set("n", r.chance(.2) ? r.range(1, 4) : r.range(3, thorough ? 80 : 40)); pl.set("comps", r.pick({1, 1, 2, 3})); pl.set("groups", r.range(1, 10));
  { Rng b(seed * 0xD1B54A32D192ED03ull + 7); if (b.chance(.05)) { pl.set("groups", b.range(11, 60)); pl.set("n", b.range(40, 200)); pl.set("comps", b.range(1, 6)); } }
  pl.set("labels", r.range(0, 4)); pl.set("single", (int)r.chance(.4)); pl.set("sorted", (int)r.chance(.2)); pl.set("intercept", (int)r.chance(.7)); pl.set("wp0", (int)r.chance(.4)); pl.set("dseed", r.below(1u << 30));
  int ops = r.range(2, thorough ? 60 : 25);
  for (int i = 0; i < ops; i++) {
    double u = r.unit();
    if (u < .5) pl.op("sample", r.below(1u << 30));
    else if (u < .55) pl.op("keep");
    else if (u < .7) pl.op("other", r.below(1u << 30));
    else if (u < .77) pl.op("sigma", r.below(1u << 30));
    else if (u < .82) pl.op("set", r.below(1u << 30));
    else pl.op("reload", r.below(3), r.below(1u << 30));
  }
  return pl;
}
static Register reg({"rfx", gen_rfx, run_rfx});
}  // namespace sim
