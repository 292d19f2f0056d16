// World "alloc" (C11): one public operation with an allocation that fails.  The operation is first run without a
// fault to count its allocations; then, for each chosen allocation, the whole history is rebuilt and the operation
// runs with that allocation (or every allocation from it on) failing.
#include "session.h"
#include "checks.h"
#include "memhook.h"
#include <stochtree/io.h>
#include <algorithm>
#include <unistd.h>
#include <fstream>
namespace sim {

struct FailOff { ~FailOff() { g_mem.failing = false; g_mem.fail_at = 0; g_mem.persistent = false; } };
struct TrackOff { ~TrackOff() { g_mem.tracking = false; mem_track_reset(); } };

static uint64_t container_digest(st::ForestContainer& f, int dim) {
  Digest d; d.u(f.NumSamples()); d.u(f.NumTrees());
  for (int i = 0; i < f.NumSamples(); i++) d.u(forest_sample_digest(&f, i, dim));
  return d.h;
}
static uint64_t rfx_digest(st::RandomEffectsContainer& c) {
  Digest d; d.u(c.NumSamples());
  for (double v : c.GetAlpha()) d.d(v); for (double v : c.GetBeta()) d.d(v); for (double v : c.GetXi()) d.d(v); for (double v : c.GetSigma()) d.d(v);
  return d.h;
}

// Everything the target works on that is not the session itself, prepared without faults.
struct Target {
  Op op; Session& s; Term& t; int m = 5; Rng r;
  std::vector<double> X, B; st::ForestDataset ds; nlohmann::json doc, rdoc, ldoc; std::string file; uint64_t result = 0;
  st::ForestContainer used{2, 1, true}; st::RandomEffectsContainer rused; st::LabelMapper lused;
  st::ForestKernel kernel; st::ForestDataset fill;
  Target(const Op& o, Session& ss) : op(o), s(ss), t(*ss.terms[(size_t)o.i(0, 0) % ss.terms.size()]), r(o.u(1, 1) + 77) {
    X.resize((size_t)m * s.p); for (auto& v : X) v = r.chance(.3) ? (double)r.below(4) : r.normal();
    B.resize((size_t)m * t.dim); for (auto& v : B) v = r.normal();
    std::vector<double> Xc = X; ds.AddCovariates(Xc.data(), m, s.p, false); if (t.regression()) ds.AddBasis(B.data(), m, t.dim, true);
    if (!applies()) return;
    if (op.name == "load" || op.name == "loadens" || op.name == "loadtree" || op.name == "loadfile") {
      doc = op.name == "loadens" ? t.latest()->to_json() : op.name == "loadtree" ? t.latest()->GetTree(0)->to_json() : t.forest->to_json();
      if (r.chance(.5)) used.AddSamples(2);
      if (op.name == "loadfile") { file = scratch_dir() + "/m.json"; t.forest->SaveToJsonFile(file); }
    }
    if (op.name == "save") file = scratch_dir() + "/m.json";
    if (s.rfx) { rdoc = s.rfx->samples->to_json(); ldoc = st::LabelMapper(s.rfx->tracker->GetLabelMap()).to_json(); std::map<int32_t, int32_t> o2{{3, 0}, {9, 1}}; lused = st::LabelMapper(o2); }
    if (op.name == "lines") {
      file = scratch_dir() + "/m.json"; std::ofstream out(file, std::ios::binary);
      for (int i = 0; i < 12; i++) out << "row " << i << " of the file" << (r.chance(.3) ? "\r\n" : "\n");
    }
  }
  bool applies() {
    const std::string& n = op.name;
    if (n == "predict" || n == "predictraw" || n == "kernel" || n == "leafidx" || n == "copyens") return t.forest->NumSamples() > 0;
    if (n == "loadens" || n == "loadtree") return t.forest->NumSamples() > 0;
    if (n == "loadrfx" || n == "rfxpredict" || n == "labels" || n == "rfxtracker" || n == "tojsonrfx" || n == "rfxmodel") return (bool)s.rfx && s.rfx->samples->NumSamples() > 0;
    if (n == "gfr" || n == "mcmc") return n == "gfr" || s.n >= 2 * t.min_leaf;
    if (n == "init") return !t.forest->NumSamples() && !t.preinit;
    if (n == "basis") return t.regression();
    if (n == "rfx") return (bool)s.rfx;
    if (n == "tau") return t.kind == 0 && t.forest->NumSamples();
    return true;
  }
  // strong: a failed operation leaves this object exactly as it was
  uint64_t target_digest(bool saved = false) {
    Digest d; const std::string& n = op.name;
    if (n == "save" && saved) { std::ifstream f(file, std::ios::binary); std::stringstream b; b << f.rdbuf(); d.str(b.str()); }
    if (n == "load" || n == "loadfile") d.str(used.to_json().dump());
    if (n == "loadrfx") d.u(rfx_digest(rused));
    if (n == "labels") { for (auto& kv : lused.Map()) { d.u(kv.first); d.u(kv.second); } }
    return d.h;
  }
  bool pure() { const std::string& n = op.name; return !(n == "gfr" || n == "mcmc" || n == "rfx" || n == "sigma" || n == "tau" || n == "init" || n == "basis" || n == "outin" || n == "reload" || n == "addsamples"); }
  void run() {
    const std::string& n = op.name; Digest d;
    if (n == "predict") { for (double v : t.forest->Predict(ds)) d.d(v); }
    else if (n == "predictraw") { for (double v : t.forest->PredictRaw(ds)) d.d(v); }
    else if (n == "leafidx") { for (auto v : t.latest()->PredictLeafIndices(&ds)) d.u(v); }
    else if (n == "kernel") { kernel.ComputeKernel(ds.GetCovariates(), t.ds.GetCovariates(), *t.latest()); auto& k = kernel.GetTestTrainKernel(); for (int i = 0; i < k.rows(); i++) for (int j = 0; j < k.cols(); j++) d.d(k(i, j)); }
    else if (n == "tojson") { d.str(t.forest->to_json().dump()); }
    else if (n == "tojsonrfx") { d.str(s.rfx->samples->to_json().dump()); }
    else if (n == "save") { t.forest->SaveToJsonFile(file); }
    else if (n == "load") { used.from_json(doc); }
    else if (n == "loadfile") { used.LoadFromJsonFile(file); }
    else if (n == "loadens") { st::TreeEnsemble e(1, 1, true); e.from_json(doc); for (int j = 0; j < e.NumTrees(); j++) digest_tree(d, abstract_tree(e.GetTree(j), t.dim)); }
    else if (n == "loadtree") { st::Tree e; e.Init(1); e.ExpandNode(0, 0, .5, 1., 2.); e.from_json(doc); digest_tree(d, abstract_tree(&e, t.dim)); }
    else if (n == "copyens") { st::TreeEnsemble e(*t.latest()); for (int j = 0; j < e.NumTrees(); j++) digest_tree(d, abstract_tree(e.GetTree(j), t.dim)); }
    else if (n == "tracker") { st::ForestTracker k(t.ds.GetCovariates(), s.types, t.num_trees, s.n); for (int i = 0; i < s.n; i++) d.u(k.GetNodeId(i, 0)); }
    else if (n == "dataset") { st::ForestDataset q; std::vector<double> x = X; q.AddCovariates(x.data(), m, s.p, true); q.AddBasis(B.data(), m, t.dim, false); q.AddVarianceWeights(X.data(), m); q.UpdateBasis(B.data(), m, t.dim, true); for (int i = 0; i < m; i++) d.d(q.CovariateValue(i, 0)); }
    else if (n == "container") { st::ForestContainer c(3, t.num_trees, t.dim, t.kind == 0); d.u(c.NumSamples()); st::ForestContainer c2(t.num_trees, t.dim, t.kind == 0); if (t.dim == 1) c2.InitializeRoot(.5); d.u(c2.NumTrees()); }
    else if (n == "loadrfx") { rused.from_json(rdoc); }
    else if (n == "labels") { lused.from_json(ldoc); }
    else if (n == "rfxpredict") { std::vector<double> o(s.n); st::LabelMapper lm(s.rfx->tracker->GetLabelMap()); std::vector<double> out((size_t)s.n * s.rfx->samples->NumSamples()); s.rfx->samples->Predict(s.rfx->ds, lm, out); for (double v : out) d.d(v); }
    else if (n == "rfxtracker") { st::RandomEffectsTracker k(s.rfx->labels); for (int i = 0; i < s.n; i++) d.u(k.GetCategoryId(i)); }
    else if (n == "rfxmodel") { st::MultivariateRegressionRandomEffectsModel k(s.rfx->comps, s.rfx->groups); Eigen::VectorXd wp(s.rfx->comps); wp.setOnes(); k.SetWorkingParameter(wp); st::RandomEffectsContainer c(s.rfx->comps, s.rfx->groups); d.d(k.GetWorkingParameter()(0)); }
    else if (n == "lines") { st::TextReader<size_t> rd(file.c_str(), false); d.u(rd.ReadAllLines()); for (auto& l : rd.Lines()) d.str(l); }
    else if (n == "addsamples") { t.forest->AddSamples(2); }
    else { s.exec(op); }
    result = d.h;
  }
};

static uint64_t run_alloc(const Plan& pl) {
  std::istringstream in(pl.cs("target", "gfr 0 5")); Op op; in >> op.name; { std::string x; while (in >> x) op.a.push_back(x); }
  bool persistent = pl.ci("persistent", 0); long only = pl.ci("only", 0), cap = std::max(1LL, pl.ci("points", 40));
  struct AllOff { ~AllOff() { g_mem = MemHook(); } } all_off;
  g_mem = MemHook();
  for (auto k : {"op.gfr", "op.mcmc", "op.init", "op.basis", "op.outin", "op.sigma", "op.tau", "op.rfx", "op.reload"}) g_stats.hit(k, 0);   // the simulator's own counters allocate nothing below
  for (auto k : {"rng-extreme-xH", "rng-extreme-xL", "rng-extreme-xM"}) g_stats.fired(k, 0);
  // without a fault
  long N = 0; uint64_t ref_state = 0, ref_result = 0, ref_target = 0; Digest hist;
  {
    Session s(pl); s.scratch = scratch_dir(); for (auto& o : pl.ops) { s.exec(o); hist.u(s.digest()); }
    Target t(op, s); if (!t.applies()) return hist.h;
    g_mem.count = 0; g_mem.fail_at = 0; g_mem.failing = true; t.run(); g_mem.failing = false; N = g_mem.count;
    ref_state = s.digest(); ref_result = t.result; ref_target = t.target_digest(true); hist.u(ref_state); hist.u(ref_result); hist.u(ref_target);
  }
  g_stats.hit("target-" + op.name); g_stats.hit("allocations-of-targets", N);
  std::vector<char> outcomes; outcomes.reserve(1024);
  std::vector<long> ks; Rng r(pl.cu("pick", 3));
  if (only > 0) ks.push_back(std::min(only, N));
  else if (N <= cap) for (long k = 1; k <= N; k++) ks.push_back(k);
  else { std::set<long> q{1, 2, 3, N, N - 1}; while ((long)q.size() < cap) q.insert(1 + (long)r.below(N)); ks.assign(q.begin(), q.end()); }
  for (long k : ks) {
    if (k < 1) continue;
    std::string where = fmt("[%s, allocation %ld of %ld fails%s] ", op.line().c_str(), k, N, persistent ? " and all later ones" : "");
    mem_track_reset(); g_mem.tracking = true; TrackOff toff;
    std::string bad_cls, bad; 
    {
      Session s(pl); s.scratch = scratch_dir(); for (auto& o : pl.ops) s.exec(o);
      Target t(op, s);
      std::vector<std::vector<uint64_t>> kept(s.terms.size());
      for (size_t q = 0; q < s.terms.size(); q++) for (int i = 0; i < s.terms[q]->forest->NumSamples(); i++) kept[q].push_back(forest_sample_digest(s.terms[q]->forest.get(), i, s.terms[q]->dim));
      std::vector<double> ra, rb; int rn = 0; if (s.rfx) { ra = s.rfx->samples->GetAlpha(); rb = s.rfx->samples->GetBeta(); rn = s.rfx->samples->NumSamples(); }
      uint64_t before = t.pure() ? s.digest() : 0, tbefore = t.target_digest();
      bool threw = false; long failed = 0;
      g_mem.count = 0; g_mem.failed = 0; g_mem.fail_at = k; g_mem.persistent = persistent; g_mem.failing = true;
      { FailOff off; try { t.run(); } catch (std::exception&) { threw = true; } catch (...) { threw = true; bad_cls = "foreign-exception"; } }
      failed = g_mem.failed; g_mem.failed = 0;
      g_mem.tracking = false; outcomes.push_back(threw ? 1 : 0);
      if (failed) g_stats.fired(persistent ? "allocation-failure-persistent" : "allocation-failure-single");
      g_stats.hit(threw ? "failure-reported" : "failure-absorbed"); g_stats.steps++;
      g_mem.tracking = true;
      auto note = [&](const char* c, const std::string& m) { if (bad_cls.empty()) { bad_cls = c; bad = m; } };
      if (!threw) {
        if (s.digest() != ref_state || t.result != ref_result || t.target_digest(true) != ref_target) note("silent-failure", "the operation reports success but its result differs from the one without the failure ");
      }
      // earlier samples unchanged, every reported slot readable
      for (size_t q = 0; q < s.terms.size(); q++) {
        Term& tm = *s.terms[q]; int now = tm.forest->NumSamples();
        if (now < (int)kept[q].size()) { note("samples-lost", fmt("forest %zu reports %d samples, had %zu ", q, now, kept[q].size())); continue; }
        for (int i = 0; i < now; i++) {
          st::TreeEnsemble* e = tm.forest->GetEnsemble(i);
          if (!e) { note("unreadable-sample", fmt("forest %zu reports %d samples, sample %d does not exist ", q, now, i)); break; }
          if (i < (int)kept[q].size()) { if (forest_sample_digest(tm.forest.get(), i, tm.dim) != kept[q][i]) note("sample-changed", fmt("forest %zu: retained sample %d changed ", q, i)); }
          else for (int j = 0; j < e->NumTrees(); j++) {
            ATree a = abstract_tree(e->GetTree(j), tm.dim);
            if (e->GetTree(j)->NumLeaves() != a.leaves || e->GetTree(j)->NumValidNodes() != (int)a.nodes.size()) note("unreadable-sample", fmt("forest %zu sample %d tree %d: %d leaves and %d nodes reported, %d and %zu reachable ", q, i, j, e->GetTree(j)->NumLeaves(), e->GetTree(j)->NumValidNodes(), a.leaves, a.nodes.size()));
          }
        }
        if (bad_cls.empty()) {
          try { std::string text = tm.forest->to_json().dump(); if (now) tm.forest->Predict(tm.ds);
            st::ForestContainer c2(1, 1, true); c2.from_json(nlohmann::json::parse(text)); if (c2.NumSamples() != now) note("unreadable-sample", "the container does not survive saving ");
          } catch (Failure&) { throw; } catch (std::exception& e) { note("unreadable-sample", fmt("reading forest %zu after the failure: %s ", q, e.what())); }
        }
      }
      if (s.rfx) {
        auto& c = *s.rfx->samples; int now = c.NumSamples(); size_t a = s.rfx->comps, b = a * s.rfx->groups;
        if (now < rn || now > rn + 1) note("rfx-count", fmt("%d random-effects samples, %d before ", now, rn));
        if (c.GetAlpha().size() < now * a || c.GetBeta().size() < now * b || c.GetXi().size() < now * b || c.GetSigma().size() < now * a) note("rfx-unreadable", "a reported random-effects sample is not stored ");
        else { if (!std::equal(ra.begin(), ra.begin() + rn * a, c.GetAlpha().begin()) || !std::equal(rb.begin(), rb.begin() + rn * b, c.GetBeta().begin())) note("rfx-changed", "retained random-effects samples changed ");
          std::vector<double> out((size_t)s.n * now); st::LabelMapper lm(s.rfx->tracker->GetLabelMap()); if (now) c.Predict(s.rfx->ds, lm, out); }
      }
      if (threw && t.pure()) {
        if (s.digest() != before) note("failed-operation-changed-state", "a read-only operation failed and changed the session ");
        if (t.target_digest() != tbefore) note("failed-load-changed-target", "a failed load changed the target ");
      }
      if (threw && bad_cls.empty() && (t.pure() || op.name == "addsamples" || op.name == "init")) {   // the fault has cleared: try again
        if (op.name == "init" && (s.terms[0]->preinit || t.t.preinit)) {}
        else if (op.name == "init") {}
        else { try { t.run(); if (s.digest() != ref_state || t.result != ref_result || t.target_digest(true) != ref_target) note("retry-differs", "after the failure the same operation gives another result "); } catch (Failure&) { throw; } catch (std::exception& e) { note("retry-fails", std::string("after the failure the same operation fails: ") + e.what() + " "); } g_mem.tracking = false; g_stats.hit("retried"); g_mem.tracking = true; }
      }
    }
    long leaked = mem_live();
    if (!bad_cls.empty()) throw Failure("C11", bad_cls, where + bad);
    // Eigen 3.4 itself loses a block when the constructor of a sparse matrix fails part way
    if (leaked && op.name != "kernel") throw Failure("C11", "leak", where + fmt("%ld blocks are still allocated after all objects are destroyed ", leaked));
  }
  hist.u(N); for (char c : outcomes) hist.u(c);
  return hist.h;
}

static Plan gen_alloc(uint64_t seed, bool thorough) {
  Rng r(seed * 0x9E3779B97F4A7C15ull + 4242); Plan pl; gen_session_into(pl, r, false, "", "C11"); pl.world = "alloc"; pl.seed = seed;
  if (pl.ci("n") > 24) pl.set("n", r.range(6, 24));
  if (pl.ci("p") > 3) { pl.set("p", 3); }
  int terms = pl.ci("terms", 1); for (int k = 0; k < terms; k++) { std::string q = "t" + std::to_string(k) + "."; if (pl.ci(q + "trees") > 3) pl.set(q + "trees", r.range(1, 3)); if (pl.ci(q + "min_leaf") > 3) pl.set(q + "min_leaf", 2); }
  if (r.chance(.4)) { pl.set("rfx", 1); }
  size_t keep = r.pick({0, 1, 2, 3, 5, 8}); if (pl.ops.size() > keep) pl.ops.resize(keep);
  if (pl.ci("rfx", 0) && r.chance(.6)) pl.op("rfx", r.next() >> 2 | 1, "-");
  static const char* names[] = {"gfr", "gfr", "gfr", "mcmc", "mcmc", "mcmc", "mcmc", "init", "basis", "outin", "sigma", "tau", "rfx", "rfx", "reload", "predict", "predictraw", "kernel", "leafidx", "tojson", "save", "load", "load", "loadfile", "loadens", "loadtree", "copyens", "tracker", "dataset", "container", "loadrfx", "labels", "rfxpredict", "rfxtracker", "rfxmodel", "tojsonrfx", "lines", "addsamples"};
  std::string n = names[r.below(sizeof names / sizeof *names)]; std::ostringstream o;
  uint64_t sd = r.next() >> 2 | 1;
  if (n == "sigma" || n == "rfx") o << n << ' ' << sd << " -";
  else if (n == "init") { o << n << ' ' << r.below(terms) << " 0.3"; if (r.chance(.7)) pl.ops.clear(); }
  else if (n == "reload") o << n << ' ' << r.below(terms) << ' ' << r.range(0, 3);
  else o << n << ' ' << r.below(terms) << ' ' << sd << " -";
  pl.set("target", o.str()); pl.set("persistent", (int)r.chance(.3)); pl.set("points", thorough ? 150 : 40); pl.set("pick", r.below(1 << 30));
  return pl;
}
static Register reg({"alloc", gen_alloc, run_alloc});
}  // namespace sim
