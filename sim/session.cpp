#include "session.h"
namespace sim {

// covariate styles: 0 normal, 1 uniform(0,1), 2 negative only, 3 few distinct values incl. negative and +-0,
// 4 constant, 5 huge magnitude, 6 ordered categories, 7 unordered categories, 8 mixed sign with ties at the edges, 9 small,
// 10 distinct doubles that are equal as floats, 11 time-stamp like (large offset, small steps), 12 extreme exponents
std::vector<double> make_covariates(Rng& r, int n, int p, const std::vector<int>& style, const std::vector<int>& ncat) {
  std::vector<double> X((size_t)n * p);
  for (int j = 0; j < p; j++) {
    double c = r.normal();
    // category codes: usually 0..k-1, sometimes sparse, wide apart or beyond the range of 8, 16 or 31 bits
    double mul = 1, add = 0;
    if ((style[j] == 6 || style[j] == 7) && r.chance(.35)) { mul = (double)r.pick({1, 3, 7, 64, 256, 4096}); add = (double)r.pick({0, 1, 250, 255, 65530, 2147483640}); }
    for (int i = 0; i < n; i++) {
      double v;
      switch (style[j]) {
        case 1: v = r.unit(); break;
        case 2: v = -0.5 - 3 * r.unit(); break;
        case 3: v = r.pick({-2.0, -1.0, -0.0, 0.0, 1.0, 2.5}); break;
        case 4: v = c; break;
        case 5: v = 1e6 * r.normal(); break;
        case 6: case 7: v = add + mul * r.below(ncat[j]); break;
        case 8: v = r.chance(.3) ? -1.5 : r.chance(.3) ? 1.5 : 2 * r.unit() - 1; break;
        case 9: v = 1e-3 * r.normal(); break;
        case 10: v = std::copysign(1.25, c) + (int)r.range(-12, 12) * 4.440892098500626e-16; break;
        case 11: v = 1700000000.0 + r.below(40) * 0.015625; break;
        case 12: v = r.pick({1.0, -1.0}) * std::pow(10.0, (int)r.range(-290, 290)); break;
        default: v = r.normal();
      }
      X[(size_t)j * n + i] = v;
    }
  }
  return X;
}

static std::vector<double> parse_list(const std::string& s) {
  std::vector<double> v; std::istringstream in(s); double d; while (in >> d) v.push_back(d); return v;
}

Session::Session(const Plan& pl, const std::string& pre) : plan(&pl) {
  auto ci = [&](const std::string& k, long long d) { return pl.ci(pre + k, d); };
  auto cd = [&](const std::string& k, double d) { return pl.cd(pre + k, d); };
  n = std::max(2ll, ci("n", 20)); p = std::max(1ll, ci("p", 2));
  Rng r(pl.cu(pre + "data", 1));
  std::vector<int> style(p); ncat.assign(p, 0);
  auto st_ = parse_list(pl.cs(pre + "style", "0"));
  for (int j = 0; j < p; j++) {
    style[j] = j < (int)st_.size() ? (int)st_[j] : 0;
    ncat[j] = r.chance(.85) ? 2 + r.below(5) : r.range(7, 40);
    types.push_back(style[j] == 7 ? st::FeatureType::kUnorderedCategorical : style[j] == 6 ? st::FeatureType::kOrderedCategorical : st::FeatureType::kNumeric);
  }
  X = make_covariates(r, n, p, style, ncat);
  double ys = cd("yscale", 1);
  y.resize(n);
  for (int i = 0; i < n; i++) {
    double s = r.normal();
    for (int j = 0; j < p; j++) { double v = x(i, j); s += (v > 0.2 ? 1.0 : v > -1 ? 0.2 : -0.7) * (j % 2 ? 1 : -1.5); }
    y[i] = ys * s;
  }
  scale = 0; for (double v : y) scale = std::max(scale, std::fabs(v));
  resid = st::ColumnVector(y.data(), n);
  sigma2 = cd("sigma2", 1); nu = cd("nu", 3); lambda = cd("lambda", 1); a_leaf = cd("a_leaf", 3); b_leaf = cd("b_leaf", 1);
  if (ci("vw", 0)) { vw.resize(n); for (auto& v : vw) v = 0.1 + 3 * r.unit(); }
  auto pos = [](double& v, double d) { if (!(v > 0)) v = d; };    // a minimised plan stays a valid session
  pos(sigma2, 1); pos(nu, 3); pos(lambda, 1); pos(a_leaf, 3); pos(b_leaf, 1);
  int nt = ci("terms", 1);
  for (int k = 0; k < nt; k++) {
    std::string q = "t" + std::to_string(k) + ".";
    auto t = std::make_unique<Term>();
    t->kind = ci(q + "kind", 0); t->dim = t->kind == 2 ? std::max(2ll, ci(q + "dim", 2)) : 1;
    t->num_trees = std::max(1ll, ci(q + "trees", 3)); t->min_leaf = std::max(1ll, ci(q + "min_leaf", 1));
    t->grid = std::max(1ll, ci(q + "grid", 100)); t->tau = cd(q + "tau", .5);
    t->alpha = cd(q + "alpha", .95); t->beta = cd(q + "beta", 2);
    pos(t->tau, .5); pos(t->alpha, .95);
    t->weights = parse_list(pl.cs(pre + q + "weights", "")); t->weights.resize(p, 1.0 / p);
    double tot = 0; for (double w : t->weights) tot += w; if (tot <= 0) t->weights[0] = 1;
    std::vector<double> Xc = X;
    t->ds.AddCovariates(Xc.data(), n, p, false);
    if (t->kind) {
      t->basis.resize((size_t)n * t->dim);
      int bs = ci(q + "bstyle", 0);
      for (int i = 0; i < n; i++) for (int d = 0; d < t->dim; d++)
        t->basis[(size_t)i * t->dim + d] = bs == 1 ? (double)r.below(2) : bs == 2 ? (d == 0 ? 1.0 : r.normal()) : r.normal();
      t->ds.AddBasis(t->basis.data(), n, t->dim, true);
    }
    if (!vw.empty()) t->ds.AddVarianceWeights(vw.data(), n);
    if (t->kind == 2) {
      Eigen::MatrixXd A(t->dim, t->dim);
      for (int i = 0; i < t->dim; i++) for (int j = 0; j < t->dim; j++) A(i, j) = 0.3 * r.normal();
      t->Sigma0 = t->tau * (A * A.transpose() + Eigen::MatrixXd::Identity(t->dim, t->dim));
    }
    t->forest = std::make_unique<st::ForestContainer>(t->num_trees, t->dim, t->kind == 0);
    t->tracker = std::make_unique<st::ForestTracker>(t->ds.GetCovariates(), types, t->num_trees, n);
    t->prior = std::make_unique<st::TreePrior>(t->alpha, t->beta, t->min_leaf);
    terms.push_back(std::move(t));
  }
  if (ci("rfx", 0)) {
    rfx = std::make_unique<Rfx>();
    rfx->comps = ci("rfx.comps", 1);
    int g = ci("rfx.groups", 3);
    std::vector<int32_t> lab; for (int i = 0; i < g; i++) lab.push_back(r.range(-40, 40));
    rfx->labels.resize(n); for (auto& l : rfx->labels) l = lab[r.below(g)];
    if (ci("rfx.single", 0)) rfx->labels[r.below(n)] = 1000;  // singleton with the largest label
    rfx->groups = std::set<int32_t>(rfx->labels.begin(), rfx->labels.end()).size();
    rfx->basis.resize((size_t)n * rfx->comps);
    for (int i = 0; i < n; i++) for (int d = 0; d < rfx->comps; d++) rfx->basis[(size_t)i * rfx->comps + d] = d == 0 ? 1.0 : r.normal();
    rfx->ds.AddBasis(rfx->basis.data(), n, rfx->comps, true);
    rfx->ds.AddGroupLabels(rfx->labels);
    rfx->tracker = std::make_unique<st::RandomEffectsTracker>(rfx->labels);
    rfx->model = std::make_unique<st::MultivariateRegressionRandomEffectsModel>(rfx->comps, rfx->groups);
    Eigen::VectorXd wp(rfx->comps); wp.setOnes();
    Eigen::MatrixXd gp(rfx->comps, rfx->groups); gp.setOnes();
    Eigen::MatrixXd wc = Eigen::MatrixXd::Identity(rfx->comps, rfx->comps), gc = wc;
    rfx->model->SetWorkingParameter(wp); rfx->model->SetGroupParameters(gp);
    rfx->model->SetWorkingParameterCovariance(wc); rfx->model->SetGroupParameterCovariance(gc);
    rfx->model->SetVariancePriorShape(1.0); rfx->model->SetVariancePriorScale(1.0);
    rfx->samples = std::make_unique<st::RandomEffectsContainer>(rfx->comps, rfx->groups);
    rfx->contribution.assign(n, 0.0);
  }
}

double Session::term_fit(Term& t, const ATree& a, int row) const {
  int k = aroute(a, [&](int j) { return x(row, j); });
  const ANode& l = a.nodes[k];
  if (t.kind == 0) return l.val[0];
  double s = 0; for (int d = 0; d < t.dim; d++) s += l.val[d] * t.basis[(size_t)row * t.dim + d];
  return s;
}

void Session::track_scale() {
  for (int i = 0; i < n; i++) scale = std::max(scale, std::fabs(resid.GetElement(i)));
  for (auto& t : terms) if (t->contributing) for (int j = 0; j < t->num_trees; j++) for (int i = 0; i < n; i++)
    scale = std::max(scale, std::fabs(t->tracker->GetTreeSamplePrediction(i, j)));
}

void Session::seed_rng(const Op& op, size_t k) {
  uint64_t s = op.u(k, 0);
  std::string mode = op.s(k + 1, "");
  if (mode.rfind("x", 0) == 0) {          // extreme first draws: xH<count> / xL<count> / xM<count>
    int c = atoi(mode.c_str() + 2); std::vector<uint32_t> f; Rng r(s ^ 0xabcdef);
    for (int i = 0; i < c; i++) f.push_back(mode[1] == 'H' ? 0xffffffffu - (uint32_t)r.below(2) : mode[1] == 'L' ? 1 + (uint32_t)r.below(3) : (r.chance(.5) ? 0xffffffffu : 1u));
    forced_rng(gen, s, f); g_stats.fired("rng-extreme-" + mode.substr(0, 2));
  } else if (s) gen.seed((uint32_t)(s ^ (s >> 32)));
}

template <class LM> static void step(Session& s, Term& t, LM& lm, bool gfr) {
  if (gfr) {
    st::GFRForestSampler<LM> f(t.grid);
    f.SampleOneIter(*t.tracker, *t.forest, lm, t.ds, s.resid, *t.prior, s.gen, t.weights, s.sigma2, s.types, t.preinit);
  } else {
    st::MCMCForestSampler<LM> f;
    f.SampleOneIter(*t.tracker, *t.forest, lm, t.ds, s.resid, *t.prior, s.gen, t.weights, s.sigma2, t.preinit);
  }
}

void Session::sample_term(Term& t, bool gfr) {
  if (t.kind == 0) { st::GaussianConstantLeafModel lm(t.tau); step(*this, t, lm, gfr); }
  else if (t.kind == 1) { st::GaussianUnivariateRegressionLeafModel lm(t.tau); step(*this, t, lm, gfr); }
  else { st::GaussianMultivariateRegressionLeafModel lm(t.Sigma0); step(*this, t, lm, gfr); }
  t.preinit = false; t.contributing = true;
}

bool Session::exec(const Op& op) {
  op_index++;
  size_t k = (size_t)op.i(0, 0);
  Term* t = terms.empty() ? nullptr : terms[k % terms.size()].get();
  if (op.name == "gfr" || op.name == "mcmc") {
    bool gfr = op.name == "gfr";
    seed_rng(op, 1);
    if (!gfr && n < 2 * t->min_leaf) return false;   // the sampler refuses a tree that can neither grow nor be pruned
    // The multivariate model refuses a non-negligible initial root value; start it from an explicit zero root.
    double mean = 0; for (int i = 0; i < n; i++) mean += resid.GetElement(i) / n;
    if (t->kind == 2 && t->forest->NumSamples() == 0 && !t->preinit && std::fabs(mean) / t->num_trees <= .09) g_stats.hit("multivariate-start");
    else if (t->kind == 2 && t->forest->NumSamples() == 0 && !t->preinit) {
      std::vector<double> z(t->dim, 0.0); t->forest->InitializeRoot(z); t->preinit = true; t->contributing = true;
    }
    sample_term(*t, gfr);
    g_stats.hit(gfr ? "op.gfr" : "op.mcmc");
  } else if (op.name == "init") {
    if (t->forest->NumSamples() || t->preinit) return false;
    double v = op.d(1, 0.1);
    if (t->dim == 1) t->forest->InitializeRoot(v);
    else { std::vector<double> vv; for (int d = 0; d < t->dim; d++) vv.push_back(v * (d + 1)); t->forest->InitializeRoot(vv); }
    t->preinit = true; t->contributing = true;
    st::UpdateResidualEntireForest(*t->tracker, t->ds, resid, t->forest->GetEnsemble(0), t->regression(), std::minus<double>());
    g_stats.hit("op.init");
  } else if (op.name == "basis") {
    if (!t->regression()) return false;
    bool live = t->contributing;
    if (live) st::UpdateResidualEntireForest(*t->tracker, t->ds, resid, t->latest(), true, std::plus<double>());
    Rng r(op.u(1, 1));
    if (op.i(2, 0) == 1) for (auto& b : t->basis) b = (double)r.below(2); else for (auto& b : t->basis) b = r.normal();
    std::vector<double> cm(t->basis.size());
    if (r.chance(.5)) { for (int i = 0; i < n; i++) for (int d = 0; d < t->dim; d++) cm[(size_t)d * n + i] = t->basis[(size_t)i * t->dim + d]; t->ds.UpdateBasis(cm.data(), n, t->dim, false); }
    else t->ds.UpdateBasis(t->basis.data(), n, t->dim, true);
    if (live) st::UpdateResidualEntireForest(*t->tracker, t->ds, resid, t->latest(), true, std::minus<double>());
    g_stats.hit("op.basis");
  } else if (op.name == "outin") {   // take the whole forest out of the residual and put it back
    if (!t->contributing) return false;
    st::UpdateResidualEntireForest(*t->tracker, t->ds, resid, t->latest(), t->regression(), std::plus<double>());
    st::UpdateResidualEntireForest(*t->tracker, t->ds, resid, t->latest(), t->regression(), std::minus<double>());
    g_stats.hit("op.outin");
  } else if (op.name == "sigma") {
    seed_rng(op, 0);
    st::GlobalHomoskedasticVarianceModel m;
    double s = m.SampleVarianceParameter(resid.GetData(), nu, lambda, gen);
    if (std::isfinite(s) && s > 1e-12) sigma2 = s;
    g_stats.hit("op.sigma");
  } else if (op.name == "tau") {
    if (t->kind != 0 || !t->forest->NumSamples()) return false;
    seed_rng(op, 1);
    st::LeafNodeHomoskedasticVarianceModel m;
    double s = m.SampleVarianceParameter(t->latest(), a_leaf, b_leaf, gen);
    if (std::isfinite(s) && s > 1e-12) t->tau = s;
    g_stats.hit("op.tau");
  } else if (op.name == "rfx") {
    if (!rfx) return false;
    seed_rng(op, 0);
    rfx->model->SampleRandomEffects(rfx->ds, resid, *rfx->tracker, sigma2, gen);
    rfx->samples->AddSample(*rfx->model);
    auto& wp = rfx->model->GetWorkingParameter(); auto& gp = rfx->model->GetGroupParameters();
    std::set<int32_t> u(rfx->labels.begin(), rfx->labels.end());
    std::map<int32_t, int> idx; int q = 0; for (auto l : u) idx[l] = q++;
    for (int i = 0; i < n; i++) {
      double s = 0; for (int d = 0; d < rfx->comps; d++) s += rfx->basis[(size_t)i * rfx->comps + d] * wp(d) * gp(d, idx[rfx->labels[i]]);
      rfx->contribution[i] = s; scale = std::max(scale, std::fabs(s));
    }
    g_stats.hit("op.rfx");
  } else if (op.name == "reload") {
    if (!t->forest->NumSamples()) return false;
    g_stats.hit("op.reload");
    if (!real_reload) return true;
    auto fresh = std::make_unique<st::ForestContainer>(op.i(1, 0) ? 1 : t->num_trees, 1, true);
    if (op.i(1, 0) == 2) { fresh->AddSamples(2); }
    if (op.i(1, 0) == 3 && !scratch.empty()) {
      std::string f = scratch + "/m.json"; t->forest->SaveToJsonFile(f); fresh->LoadFromJsonFile(f);
    } else fresh->from_json(nlohmann::json::parse(t->forest->to_json().dump()));
    t->forest = std::move(fresh);
  } else return false;
  { Quiet q; g_stats.steps++; }
  track_scale();
  return true;
}

uint64_t forest_sample_digest(st::ForestContainer* f, int i, int dim) {
  Digest d; st::TreeEnsemble* e = f->GetEnsemble(i);
  d.u(e->NumTrees());
  for (int j = 0; j < e->NumTrees(); j++) digest_tree(d, abstract_tree(e->GetTree(j), dim));
  return d.h;
}

uint64_t Session::digest() {
  Digest d;
  for (int i = 0; i < n; i++) d.d(resid.GetElement(i));
  d.d(sigma2);
  for (auto& t : terms) {
    d.d(t->tau); d.u(t->forest->NumSamples());
    if (t->forest->NumSamples() || t->preinit) {
      d.u(forest_sample_digest(t->forest.get(), t->preinit ? 0 : t->forest->NumSamples() - 1, t->dim));
      for (int j = 0; j < t->num_trees; j++) for (int i = 0; i < n; i++) { d.d(t->tracker->GetTreeSamplePrediction(i, j)); d.u(t->tracker->GetNodeId(i, j)); }
    }
  }
  if (rfx) { for (double v : rfx->samples->GetBeta()) d.d(v); for (double v : rfx->samples->GetSigma()) d.d(v); }
  std::ostringstream o; o << gen; d.str(o.str());
  return d.h;
}

uint64_t Session::shape_digest() {
  Digest d;
  for (auto& t : terms) {
    d.u(t->kind);
    if (!t->forest->NumSamples()) continue;
    auto* e = t->latest();
    for (int j = 0; j < e->NumTrees(); j++) { digest_tree(d, abstract_tree(e->GetTree(j), t->dim), false); d.u(e->GetTree(j)->NumDeletedNodes()); }
  }
  return d.h;
}

// ---------------------------------------------------------------- plan generation
// mix: "all", or a property focus that shifts the operation mix.
void gen_session_into(Plan& pl, Rng& r, bool thorough, const std::string& pre, const char* mix) {
  std::string m = mix;
  auto set = [&](const std::string& k, auto v) { pl.set(pre + k, v); };
  int size = r.below(10);
  int n = size < 5 ? r.range(6, 25) : size < 9 ? r.range(20, 80) : r.range(80, thorough ? 400 : 160);
  int p = r.range(1, 5);
  set("n", n); set("p", p); set("data", r.next() >> 1);
  std::string st;
  int uniform_style = r.chance(.3) ? (int)r.pick({0, 1, 2, 3, 6, 7, 8, 10, 11}) : -1;
  for (int j = 0; j < p; j++) st += (j ? " " : "") + std::to_string(uniform_style >= 0 ? uniform_style : (int)r.pick({0, 0, 1, 2, 2, 3, 3, 4, 5, 6, 7, 7, 8, 9, 10, 11, 12}));
  set("style", st);
  set("yscale", r.pick({1.0, 1.0, 1.0, 100.0, 0.01}));
  set("sigma2", r.pick({1.0, 0.3, 3.0, 0.05}));
  set("nu", r.pick({3.0, 1.0, 10.0})); set("lambda", r.pick({1.0, 0.2}));
  set("vw", (int)r.chance(.3));
  int terms = r.chance(.35) ? 2 : 1; set("terms", terms);
  for (int k = 0; k < terms; k++) {
    std::string q = "t" + std::to_string(k) + ".";
    set(q + "kind", (int)r.pick({0, 0, 0, 1, 1, 2})); set(q + "dim", r.range(2, 3));
    set(q + "trees", r.chance(.6) ? r.range(1, 4) : r.range(3, 10));
    set(q + "min_leaf", r.chance(.5) ? 1 : r.range(1, std::max(1, std::min(10, n / 4))));
    set(q + "grid", r.pick({100, 100, 5, 2, 1000})); set(q + "tau", r.pick({0.5, 0.1, 2.0, 0.01}));
    set(q + "alpha", r.pick({.95, .95, .5, .99})); set(q + "beta", r.pick({2.0, 1.0, 0.5, 0.1}));
    set(q + "bstyle", r.range(0, 2));
    std::string w; for (int j = 0; j < p; j++) { double v = r.chance(.25) ? 0.0 : 0.1 + r.unit(); std::ostringstream o; o.precision(6); o << v; w += (j ? " " : "") + o.str(); }
    set(q + "weights", w);
  }
  bool rfx = r.chance(.25); set("rfx", (int)rfx);
  if (rfx) { set("rfx.comps", r.range(1, 2)); set("rfx.groups", r.range(1, 6)); set("rfx.single", (int)r.chance(.4)); }
  int ops = r.chance(.7) ? r.range(3, 14) : r.range(10, thorough ? 80 : 35);
  double p_gfr = r.pick({0.1, 0.3, 0.6}), p_x = r.chance(.3) ? 0.3 : 0.0;
  double p_reload = m == "C08" ? 0.3 : 0.06;
  auto mode = [&]() -> std::string { if (!r.chance(p_x)) return "-"; return std::string(r.pick({"xH", "xL", "xM"})) + std::to_string(r.range(1, 12)); };
  if (r.chance(.3)) pl.op(pre + "init", r.below(terms), r.pick({0.1, -0.7, 2.0, 0.0}));
  for (int i = 0; i < ops; i++) {
    double u = r.unit(); uint64_t s = r.next() >> 2 | 1; int k = r.below(terms);
    if (u < p_reload) pl.op(pre + "reload", k, r.range(0, 3));
    else if (u < p_reload + .05) pl.op(pre + "basis", k, s, r.range(0, 1));
    else if (u < p_reload + .08) pl.op(pre + "outin", k);
    else if (u < p_reload + .14) pl.op(pre + "sigma", s, mode());
    else if (u < p_reload + .18) pl.op(pre + "tau", k, s, mode());
    else if (u < p_reload + .24) pl.op(pre + "rfx", s, mode());
    else if (r.chance(p_gfr)) pl.op(pre + "gfr", k, s, mode());
    else pl.op(pre + "mcmc", k, s, mode());
  }
}

Plan gen_session(uint64_t seed, bool thorough, const char* mix) {
  Plan pl; pl.world = "session"; pl.seed = seed; Rng r(seed * 0x9E3779B97F4A7C15ull + 17);
  gen_session_into(pl, r, thorough, "", mix);
  // about one run in eighteen leaves the small sizes in one direction
  Rng b(seed * 0xD1B54A32D192ED03ull + 5);
  if (!b.chance(.055)) return pl;
  auto keep_ops = [&](size_t k) { if (pl.ops.size() > k) pl.ops.resize(k); };
  int terms = pl.ci("terms", 1);
  switch (b.below(6)) {
    case 0: pl.set("big", "trees"); pl.set("t0.trees", b.pick({25, 60, 130, 260})); pl.set("n", b.range(20, 60)); keep_ops(b.range(2, 6)); break;
    case 1: pl.set("big", "rows"); pl.set("n", b.pick({300, 700, 1025, 2000})); keep_ops(b.range(2, 8)); for (int k = 0; k < terms; k++) pl.set("t" + std::to_string(k) + ".trees", b.range(1, 3)); break;
    case 2: {  // one tree grown far by MCMC with a prior that hardly penalises depth
      pl.set("big", "deep"); pl.set("n", b.range(150, 400)); pl.set("t0.trees", 1); pl.set("t0.alpha", 0.99); pl.set("t0.beta", 0.05); pl.set("t0.min_leaf", 1); pl.set("t0.grid", 1000); pl.set("yscale", 100); keep_ops(4);
      for (int i = std::string(mix) == "C08" ? b.range(15, 40) : b.range(60, 160); i > 0; i--) pl.op("mcmc", 0, b.next() >> 2 | 1, "-");
      break;
    }
    case 3: {
      int q = b.range(8, 40); pl.set("big", "columns"); pl.set("p", q); std::string st, w[2];
      for (int j = 0; j < q; j++) { st += (j ? " " : "") + std::to_string((int)b.pick({0, 0, 1, 2, 2, 3, 3, 4, 5, 6, 7, 7, 8, 9, 10, 11, 12})); for (auto& x : w) x += (j ? " " : "") + std::string(b.chance(.25) ? "0" : std::to_string(.1 + b.unit())); }
      pl.set("style", st); for (int k = 0; k < terms; k++) pl.set("t" + std::to_string(k) + ".weights", w[k]);
      if (pl.ci("n") > 120) pl.set("n", 120);
      break;
    }
    case 4: pl.set("big", "leaf-dimension"); pl.set("t0.kind", 2); pl.set("t0.dim", b.range(4, 9)); break;
    default: pl.set("big", "groups"); pl.set("rfx", 1); pl.set("rfx.comps", b.range(1, 5)); pl.set("rfx.groups", b.range(10, 60)); pl.set("rfx.single", 1); pl.set("n", b.range(60, 200)); pl.op("rfx", b.next() >> 2 | 1, "-"); pl.op("rfx", b.next() >> 2 | 1, "-");
  }
  return pl;
}
}  // namespace sim
