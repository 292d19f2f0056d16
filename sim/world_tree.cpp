// World "treeops" (C03): random histories of public tree operations over several trees and ensembles,
// every tree compared after every operation with an abstract binary tree that had the same edits.
// World "trackops" (C02): random splits, prunes and resets of trees and their tracker.
#include "session.h"
#include <algorithm>
namespace sim {

// ---------------------------------------------------------------- the abstract tree
struct M {
  bool leaf = true, cat = false; int feat = -1; double thr = 0; std::vector<uint32_t> cats;
  std::vector<double> val; std::unique_ptr<M> l, r;
  std::unique_ptr<M> clone() const {
    auto c = std::make_unique<M>(); c->leaf = leaf; c->cat = cat; c->feat = feat; c->thr = thr; c->cats = cats; c->val = val;
    if (l) c->l = l->clone();
    if (r) c->r = r->clone();
    return c;
  }
};
struct MTree {
  bool init = false; int dim = 1; std::unique_ptr<M> root;
  void set_init(int d) { init = true; dim = d; root = std::make_unique<M>(); root->val.assign(d, 0.0); }
  void set(const MTree& o) { init = o.init; dim = o.dim; root = o.root ? o.root->clone() : nullptr; }
};
struct Pos { M* m; int id, parent, depth; };

struct TreeCmp {
  std::vector<Pos> nodes, leaves, internal, lparents;
};

static std::string where(int slot) { return fmt("tree %d: ", slot); }

// Walks both trees in lockstep; every difference is a failure.
static TreeCmp compare(st::Tree& t, MTree& m, int slot, const std::string& at) {
  TreeCmp c; auto bad = [&](const char* cls, const std::string& s) { throw Failure("C03", cls, where(slot) + s + " " + at); };
  if (!m.init) {
    if (t.NumNodes() != 0 || t.NumDeletedNodes() != 0 || t.NumLeaves() != 0 || t.NumLeafParents() != 0) bad("reset-not-empty", fmt("a reset tree reports %d nodes (%d deleted), %d leaves", t.NumNodes(), t.NumDeletedNodes(), t.NumLeaves()));
    return c;
  }
  if (t.OutputDimension() != m.dim || t.HasVectorOutput() != (m.dim > 1)) bad("dimension", fmt("output dimension %d, expected %d", t.OutputDimension(), m.dim));
  std::set<int> seen; std::vector<Pos> todo{{m.root.get(), 0, -1, 0}}; bool anycat = false;
  while (!todo.empty()) {
    Pos p = todo.back(); todo.pop_back();
    if (p.id < 0 || p.id >= t.NumNodes()) bad("bad-id", fmt("node id %d of %d", p.id, t.NumNodes()));
    if (!seen.insert(p.id).second) bad("shared-node", fmt("node %d is reached twice", p.id));
    c.nodes.push_back(p);
    if (t.Parent(p.id) != p.parent) bad("parent", fmt("node %d has parent %d, expected %d", p.id, t.Parent(p.id), p.parent));
    if (t.IsRoot(p.id) != (p.parent < 0)) bad("is-root", fmt("node %d", p.id));
    if (t.GetDepth(p.id) != p.depth) bad("depth", fmt("node %d depth %d, expected %d", p.id, t.GetDepth(p.id), p.depth));
    if (t.IsLeaf(p.id) != p.m->leaf) bad("shape", fmt("node %d is %sa leaf", p.id, p.m->leaf ? "not " : ""));
    bool lp = !p.m->leaf && p.m->l->leaf && p.m->r->leaf;
    if (t.IsLeafParent(p.id) != lp) bad("leaf-parent", fmt("node %d", p.id));
    if (p.m->leaf) {
      c.leaves.push_back(p);
      if (t.NodeType(p.id) != st::TreeNodeType::kLeafNode) bad("node-type", fmt("leaf %d has split type", p.id));
      double ssq = 0;
      for (int d = 0; d < m.dim; d++) {
        double v = t.LeafValue(p.id, d), w = p.m->val[d]; ssq += w * w;
        if (memcmp(&v, &w, 8)) bad("leaf-value", fmt("leaf %d dimension %d: %.17g, expected %.17g", p.id, d, v, w));
      }
      if (m.dim == 1) { double v = t.LeafValue(p.id), u = t.PredictFromNode(p.id), w = p.m->val[0]; if (memcmp(&v, &w, 8) || memcmp(&u, &w, 8)) bad("leaf-value", fmt("leaf %d: %.17g / %.17g, expected %.17g", p.id, v, u, w)); }
      else {
        if (!t.HasLeafVector(p.id) || t.LeafVector(p.id) != p.m->val) bad("leaf-vector", fmt("leaf %d", p.id));
      }
      if (std::fabs(t.SumSquaredNodeValues(p.id) - ssq) > 1e-12 * (1 + ssq)) bad("sum-squared", fmt("leaf %d: %.17g, expected %.17g", p.id, t.SumSquaredNodeValues(p.id), ssq));
    } else {
      c.internal.push_back(p);
      if (lp) c.lparents.push_back(p);
      if (t.SplitIndex(p.id) != p.m->feat) bad("split-feature", fmt("node %d splits on %d, expected %d", p.id, t.SplitIndex(p.id), p.m->feat));
      auto want = p.m->cat ? st::TreeNodeType::kCategoricalSplitNode : st::TreeNodeType::kNumericalSplitNode;
      if (t.NodeType(p.id) != want) bad("node-type", fmt("node %d type %d", p.id, (int)t.NodeType(p.id)));
      if (p.m->cat) {
        anycat = true;
        auto got = t.CategoryList(p.id);
        if (std::set<uint32_t>(got.begin(), got.end()) != std::set<uint32_t>(p.m->cats.begin(), p.m->cats.end())) bad("categories", fmt("node %d has %zu categories, expected %zu", p.id, got.size(), p.m->cats.size()));
      } else if (t.Threshold(p.id) != p.m->thr) bad("threshold", fmt("node %d: %.17g, expected %.17g", p.id, t.Threshold(p.id), p.m->thr));
      if (t.DefaultChild(p.id) != t.LeftChild(p.id)) bad("default-child", fmt("node %d", p.id));
      todo.push_back({p.m->r.get(), t.RightChild(p.id), p.id, p.depth + 1});
      todo.push_back({p.m->l.get(), t.LeftChild(p.id), p.id, p.depth + 1});
    }
  }
  auto same = [&](const char* cls, const std::vector<int>& got, const std::vector<Pos>& want) {
    std::vector<int> g = got, w; for (auto& p : want) w.push_back(p.id);
    std::sort(g.begin(), g.end()); std::sort(w.begin(), w.end());
    if (g != w) bad(cls, fmt("lists %zu nodes, expected %zu (or other ids)", g.size(), w.size()));
  };
  same("leaf-list", t.GetLeaves(), c.leaves); same("leaf-parent-list", t.GetLeafParents(), c.lparents); same("internal-list", t.GetInternalNodes(), c.internal);
  if (t.NumLeaves() != (int)c.leaves.size() || t.NumLeafParents() != (int)c.lparents.size() || t.NumSplitNodes() != (int)c.internal.size() ||
      t.NumValidNodes() != (int)c.nodes.size() || t.NumNodes() - t.NumDeletedNodes() != (int)c.nodes.size())
    bad("counts", fmt("leaves %d leaf parents %d splits %d valid %d (nodes %d, deleted %d); expected %zu %zu %zu %zu", t.NumLeaves(), t.NumLeafParents(), t.NumSplitNodes(), t.NumValidNodes(), t.NumNodes(), t.NumDeletedNodes(), c.leaves.size(), c.lparents.size(), c.internal.size(), c.nodes.size()));
  if (t.IsRoot() != (c.leaves.size() == 1)) bad("is-stump", "IsRoot()");
  if (anycat && !t.HasCategoricalSplit()) bad("categorical-flag", "a categorical split exists but is not reported");
  double ssq = 0; for (auto& p : c.leaves) for (double v : p.m->val) ssq += v * v;
  if (std::fabs(t.SumSquaredLeafValues() - ssq) > 1e-10 * (1 + ssq)) bad("sum-squared", fmt("%.17g, expected %.17g", t.SumSquaredLeafValues(), ssq));
  std::set<int> walk; t.WalkTree([&](int id) { walk.insert(id); return true; });
  if (walk != seen) bad("walk", fmt("WalkTree visits %zu nodes, expected %zu", walk.size(), seen.size()));
  return c;
}

static bool goes_left(const M& m, double v) {
  if (std::isnan(v)) return true;
  if (!m.cat) return v <= m.thr;
  if (!(v >= 0 && v <= 4294967295.0)) return false;
  return std::find(m.cats.begin(), m.cats.end(), (uint32_t)v) != m.cats.end();
}

static void check_routing(st::Tree& t, MTree& m, TreeCmp& c, int slot, Rng& r, int p, const std::string& at) {
  if (!m.init) return;
  const int n = 6;
  std::vector<double> thr{0}; std::vector<uint32_t> cats{0};
  for (auto& q : c.internal) { if (q.m->cat) cats.insert(cats.end(), q.m->cats.begin(), q.m->cats.end()); else thr.push_back(q.m->thr); }
  Eigen::MatrixXd X(n, p), B(n, m.dim);
  for (int i = 0; i < n; i++) for (int j = 0; j < p; j++) {
    double v;
    switch (r.range(0, 8)) {
      case 0: v = r.pick(thr); break;
      case 1: v = std::nextafter(r.pick(thr), r.chance(.5) ? 1e300 : -1e300); break;
      case 2: v = r.pick(cats); break;
      case 3: v = (double)r.pick(cats) + r.range(-1, 1); break;
      case 4: v = r.pick({-1.0, -0.5, 4294967295.0, 4294967296.0, 1e19, -1e19, 1e300, -1e300}); break;
      case 5: if (r.chance(.3)) { v = NAN; break; }
      default: v = r.normal() * 3;
    }
    X(i, j) = v;
  }
  for (int i = 0; i < n; i++) for (int j = 0; j < m.dim; j++) B(i, j) = r.normal();
  Eigen::Map<Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::ColMajor>> XM(X.data(), n, p);
  std::map<int, int> path;
  for (auto& q : c.leaves) path[q.id] = 1;
  std::vector<int> want(n);
  for (int i = 0; i < n; i++) {
    M* k = m.root.get(); int id = 0;
    while (!k->leaf) { bool L = goes_left(*k, X(i, k->feat)); id = L ? t.LeftChild(id) : t.RightChild(id); k = L ? k->l.get() : k->r.get(); }
    want[i] = id;
    int a = st::EvaluateTree(t, X, i), b = st::EvaluateTree(t, XM, i);
    if (a != id || b != id) throw Failure("C03", "routing", where(slot) + fmt("row routed to %d (matrix) / %d (map), expected leaf %d ", a, b, id) + at);
    double pred = 0, got = t.PredictFromNode(id, B, i);
    for (int d = 0; d < m.dim; d++) pred += k->val[d] * B(i, d);
    if (std::fabs(pred - got) > 1e-9 * (1 + std::fabs(pred))) throw Failure("C03", "basis-prediction", where(slot) + fmt("%.17g, expected %.17g ", got, pred) + at);
  }
  int off = r.range(0, 3), base = r.range(0, 50);
  std::vector<int32_t> o1(n + off + 2, -7), o2(n + off + 2, -7);
  t.PredictLeafIndexInplace(X, o1, off, base); t.PredictLeafIndexInplace(XM, o2, off, base);
  for (int i = 0; i < (int)o1.size(); i++) {
    if (i < off || i >= off + n) { if (o1[i] != -7 || o2[i] != -7) throw Failure("C03", "leaf-index-range", where(slot) + "leaf index written outside the requested range " + at); continue; }
    if (o1[i] != o2[i] || o1[i] < base || o1[i] >= base + (int)c.leaves.size()) throw Failure("C03", "leaf-index", where(slot) + fmt("leaf index %d / %d with %zu leaves from %d ", o1[i], o2[i], c.leaves.size(), base) + at);
    for (int k = off; k < i; k++) if ((o1[i] == o1[k]) != (want[i - off] == want[k - off])) throw Failure("C03", "leaf-index", where(slot) + "equal leaf indices for different leaves (or the reverse) " + at);
  }
}

static std::vector<double> vals(uint64_t s, int dim) { Rng r(s); std::vector<double> v; for (int d = 0; d < dim; d++) v.push_back(r.chance(.15) ? 0.0 : r.normal() * std::pow(10, r.range(-3, 3))); return v; }
static M* nth(std::vector<Pos>& v, uint64_t k, int& id) { auto& p = v[k % v.size()]; id = p.id; return p.m; }

static uint64_t run_treeops(const Plan& pl) {
  // slots 0..S-1 are stand-alone trees, the following E*K are the trees of ensembles
  int S = std::max(1LL, pl.ci("slots", 3)), E = pl.ci("ens", 1), K = std::max(1LL, pl.ci("trees", 2)), p = std::max(1LL, pl.ci("p", 3));
  int edim = std::max(1LL, pl.ci("edim", 1));
  std::vector<std::unique_ptr<st::Tree>> own; std::vector<std::unique_ptr<st::TreeEnsemble>> ens;
  std::vector<MTree> mt(S + E * K);
  for (int i = 0; i < S; i++) own.push_back(std::make_unique<st::Tree>());
  for (int e = 0; e < E; e++) { ens.push_back(std::make_unique<st::TreeEnsemble>(K, edim, edim == 1)); for (int k = 0; k < K; k++) mt[S + e * K + k].set_init(edim); }
  auto T = [&](int i) -> st::Tree* { return i < S ? own[i].get() : ens[(i - S) / K]->GetTree((i - S) % K); };
  Digest hist; int step = 0; std::vector<TreeCmp> cmp(mt.size());
  std::vector<char> reloaded(mt.size(), 0);
  auto recheck = [&](const std::string& at) { for (size_t i = 0; i < mt.size(); i++) { cmp[i] = compare(*T(i), mt[i], i, at); } };
  recheck("initially");
  for (auto& op : pl.ops) {
    step++; std::string at = fmt("after step %d (%s)", step, op.line().c_str());
    int k = op.u(0) % mt.size(); st::Tree* t = T(k); MTree& m = mt[k]; int id;
    bool done = true;
    if (op.name == "init") {
      int d = k < S ? (int)(1 + op.u(1) % 3) : edim; t->Init(d); m.set_init(d);
    } else if (op.name == "reset") {
      if (k >= S) {   // ensemble-level reset keeps the tree usable
        ens[(k - S) / K]->ResetTree((k - S) % K); m.init = false;
      } else { t->Reset(); m.init = false; m.dim = 1; m.root.reset(); }
      g_stats.hit("reset");
    } else if (op.name == "ereset") {
      if (k < S) done = false; else { ens[(k - S) / K]->ResetInitTree((k - S) % K); m.set_init(edim); g_stats.hit("ensemble-reset-init"); }
    } else if (op.name == "expand") {
      if (!m.init) { done = false; } else {
        M* q = nth(cmp[k].leaves, op.u(1), id);
        int feat = op.u(2) % p, kind = op.u(3) % 4; Rng r(op.u(4)); auto lv = vals(op.u(4) + 1, m.dim), rv = vals(op.u(4) + 2, m.dim);
        double thr = r.chance(.1) ? r.pick({0.0, -0.0, 1e-300, -1e200, 5e-324}) : r.normal() * 2;
        std::vector<uint32_t> cats; int nc = r.range(0, 5); for (int i = 0; i < nc; i++) cats.push_back(r.chance(.1) ? r.pick({0u, 4294967295u, 2147483648u, 65536u}) : (uint32_t)r.below(8));
        bool cat = kind & 1, viasplit = kind & 2;
        if (t->NumDeletedNodes() > 0) g_stats.hit("expand-reusing-deleted-id");
        if (reloaded[k]) g_stats.hit("expand-after-reload-or-clone");
        if (viasplit) {
          st::TreeSplit sp = cat ? st::TreeSplit(cats) : st::TreeSplit(thr);
          if (m.dim == 1) t->ExpandNode(id, feat, sp, lv[0], rv[0]); else t->ExpandNode(id, feat, sp, lv, rv);
        } else if (cat) { if (m.dim == 1) t->ExpandNode(id, feat, cats, lv[0], rv[0]); else t->ExpandNode(id, feat, cats, lv, rv); }
        else { if (m.dim == 1) t->ExpandNode(id, feat, thr, lv[0], rv[0]); else t->ExpandNode(id, feat, thr, lv, rv); }
        q->leaf = false; q->cat = cat; q->feat = feat; q->thr = thr; q->cats = cats;
        q->l = std::make_unique<M>(); q->l->val = lv; q->r = std::make_unique<M>(); q->r->val = rv;
      }
    } else if (op.name == "toleaf") {     // needs a parent of two leaves; on any other split node it must be refused without effect
      if (!m.init || cmp[k].internal.empty()) done = false; else {
        M* q = nth(cmp[k].internal, op.u(1), id); auto v = vals(op.u(2), m.dim); bool ok = q->l->leaf && q->r->leaf;
        bool threw = false;
        try { if (m.dim == 1) t->ChangeToLeaf(id, v[0]); else t->ChangeToLeaf(id, v); } catch (std::runtime_error&) { threw = true; }
        if (threw == ok) throw Failure("C03", "to-leaf", where(k) + (ok ? "refused on a parent of two leaves " : "accepted on a node with a split child ") + at);
        if (ok) { q->leaf = true; q->val = v; q->l.reset(); q->r.reset(); } else g_stats.hit("refused-to-leaf");
      }
    } else if (op.name == "collapse") {
      if (!m.init) done = false; else {
        M* q = nth(cmp[k].nodes, op.u(1), id); auto v = vals(op.u(2), m.dim);
        if (m.dim == 1) t->CollapseToLeaf(id, v[0]); else t->CollapseToLeaf(id, v);
        if (!q->leaf) { q->leaf = true; q->val = v; q->l.reset(); q->r.reset(); g_stats.hit("collapse"); }
      }
    } else if (op.name == "setleaf") {
      if (!m.init) done = false; else {
        M* q = nth(cmp[k].leaves, op.u(1), id); auto v = vals(op.u(2), m.dim);
        if (m.dim == 1) t->SetLeaf(id, v[0]); else t->SetLeafVector(id, v);
        q->val = v;
      }
    } else if (op.name == "clone") {
      int j = op.u(1) % mt.size();
      if (j == k || (k >= S && mt[j].dim != edim) || (k >= S && !mt[j].init)) done = false; else {
        if (k >= S && op.u(2) % 2) ens[(k - S) / K]->CloneFromExistingTree((k - S) % K, T(j)); else t->CloneFromTree(T(j));
        m.set(mt[j]); reloaded[k] = 1; g_stats.hit("clone");
      }
    } else if (op.name == "reload") {      // serialise slot j, load into slot k (j may equal k; k may hold another tree)
      int j = op.u(1) % mt.size();
      if (!mt[j].init || (k >= S && mt[j].dim != edim)) done = false; else {
        nlohmann::json js = T(j)->to_json(); std::string text = js.dump();
        if (op.u(2) % 2) { t->from_json(nlohmann::json::parse(text)); g_stats.hit("reload-through-text"); } else t->from_json(js);
        if (j != k) m.set(mt[j]);
        reloaded[k] = 1; g_stats.hit("reload");
        if (T(k)->to_json().dump() != text) throw Failure("C03", "reload-text", where(k) + "a reloaded tree serialises differently " + at);
        if (!(*T(k) == *T(j))) throw Failure("C03", "reload-equality", where(k) + "a reloaded tree does not compare equal to the original " + at);
      }
    } else if (op.name == "ecopy") {        // whole-ensemble copies
      if (E < 2) done = false; else {
        int a = op.u(0) % E, b = op.u(1) % E;
        if (a == b) done = false; else {
          bool all = true; for (int q = 0; q < K; q++) all = all && mt[S + b * K + q].init;
          if (!all) done = false; else {
            switch (op.u(2) % 3) {
              case 0: for (int q = 0; q < K; q++) ens[a]->CloneFromExistingTree(q, ens[b]->GetTree(q)); break;
              case 1: { auto js = ens[b]->to_json(); ens[a]->from_json(js); break; }
              default: ens[a] = std::make_unique<st::TreeEnsemble>(*ens[b]);
            }
            for (int q = 0; q < K; q++) { mt[S + a * K + q].set(mt[S + b * K + q]); reloaded[S + a * K + q] = 1; }
            g_stats.hit("ensemble-copy");
          }
        }
      }
    } else if (op.name == "eset") {         // ensemble-wide constant
      if (!E) done = false; else {
        int a = op.u(0) % E; bool all = true;
        for (int q = 0; q < K; q++) all = all && mt[S + a * K + q].init && mt[S + a * K + q].root->leaf;
        if (!all) done = false; else {
          auto v = vals(op.u(1), edim);
          if (edim == 1) ens[a]->SetLeafValue(v[0]); else ens[a]->SetLeafVector(v);
          for (int q = 0; q < K; q++) mt[S + a * K + q].root->val = v;
        }
      }
    } else if (op.name == "eaggregate") {
      if (!E) done = false; else {
        int a = op.u(0) % E; bool all = true; int leaves = 0; double ssq = 0;
        for (int q = 0; q < K; q++) { auto& mm = mt[S + a * K + q]; all = all && mm.init; }
        if (!all) done = false; else {
          for (int q = 0; q < K; q++) { leaves += cmp[S + a * K + q].leaves.size(); for (auto& pp : cmp[S + a * K + q].leaves) for (double v : pp.m->val) ssq += v * v; }
          if (ens[a]->NumLeaves() != leaves) throw Failure("C03", "ensemble-leaves", fmt("ensemble reports %d leaves, its trees have %d ", ens[a]->NumLeaves(), leaves) + at);
          if (std::fabs(ens[a]->SumLeafSquared() - ssq) > 1e-9 * (1 + ssq)) throw Failure("C03", "ensemble-sum-squared", fmt("%.17g, expected %.17g ", ens[a]->SumLeafSquared(), ssq) + at);
        }
      }
    } else throw HarnessError("unknown op " + op.name);
    if (!done) continue;
    g_stats.steps++;
    recheck(at);
    Rng r(pl.seed * 977 + step);
    for (size_t i = 0; i < mt.size(); i++) check_routing(*T(i), mt[i], cmp[i], i, r, p, at);
    Digest d;
    for (auto& c : cmp) { d.u(c.nodes.size()); for (auto& q : c.nodes) { d.u(q.m->leaf ? 0 : 1 + q.m->feat * 2 + q.m->cat); d.u(q.depth); } }
    g_stats.state(d.h);
    for (auto& c : cmp) for (auto& q : c.nodes) { d.d(q.m->thr); for (double v : q.m->val) d.d(v); }
    hist.u(d.h);
  }
  return hist.h;
}

static Plan gen_treeops(uint64_t seed, bool thorough) {
  Rng r(seed); Plan pl; pl.world = "treeops"; pl.seed = seed;
  int S = r.range(1, 3), E = r.range(0, 2), K = r.range(1, 2);
  pl.set("slots", S); pl.set("ens", E); pl.set("trees", K); pl.set("p", r.range(1, 4)); pl.set("edim", r.pick({1, 1, 2, 3}));
  int N = S + E * K, ops = r.range(5, thorough ? 120 : 60);
  Rng b(seed * 0xD1B54A32D192ED03ull + 9); bool big = b.chance(.03);   // few, much larger trees
  if (big) ops = b.range(200, 600);
  int d = r.chance(.6) ? 0 : r.range(1, 2);
  for (int i = 0; i < S; i++) pl.op("init", i, d);
  // swarm: some operations are left out of some runs
  double w[12]; for (auto& x : w) x = r.chance(.25) ? 0 : r.unit();
  w[0] = .6 + w[0] * 3;
  if (big) w[0] += 6;
  for (int i = 0; i < ops; i++) {
    double tot = 0; for (double x : w) tot += x;
    double u = r.unit() * tot; int k = 0; while (k < 11 && (u -= w[k]) > 0) k++;
    int t = r.below(N);
    switch (k) {
      case 0: case 1: pl.op("expand", t, r.below(64), r.below(8), r.below(4), r.below(1u << 30)); break;
      case 2: pl.op("toleaf", t, r.below(64), r.below(1u << 30)); break;
      case 3: pl.op("collapse", t, r.below(64), r.below(1u << 30)); break;
      case 4: pl.op("setleaf", t, r.below(64), r.below(1u << 30)); break;
      case 5: pl.op("clone", t, r.below(N), r.below(2)); break;
      case 6: pl.op("reload", t, r.below(N), r.below(2)); break;
      case 7: if (r.chance(.3)) { pl.op("reset", t); if (r.chance(.8)) pl.op("init", t, d); } break;
      case 8: if (r.chance(.5)) pl.op("ereset", t); break;
      case 9: if (r.chance(.5)) pl.op("ecopy", r.below(4), r.below(4), r.below(3)); break;
      case 10: if (r.chance(.3)) pl.op("init", t, r.chance(.7) ? d : (int)r.below(3)); break;
      default: if (r.chance(.5)) pl.op("eset", r.below(4), r.below(1u << 30)); else pl.op("eaggregate", r.below(4));
    }
  }
  return pl;
}
static Register reg1({"treeops", gen_treeops, run_treeops});

// ---------------------------------------------------------------- tracker histories
static uint64_t run_trackops(const Plan& pl) {
  int n = std::max(1LL, pl.ci("n", 10)), p = std::max(1LL, pl.ci("p", 2)), nt = std::max(1LL, pl.ci("trees", 2));
  Rng r(pl.cu("dseed", 1));
  Eigen::MatrixXd X(n, p); std::vector<st::FeatureType> ft; std::vector<int> style;
  for (int j = 0; j < p; j++) {
    int s = r.range(0, 4); style.push_back(s);
    for (int i = 0; i < n; i++) X(i, j) = s == 0 ? r.normal() : s == 1 ? r.range(-3, 2) : s == 2 ? (double)r.below(5) : s == 3 ? -std::fabs(r.normal()) - 1 : (r.chance(.5) ? 0.0 : -0.0);
    ft.push_back(s == 2 ? st::FeatureType::kUnorderedCategorical : st::FeatureType::kNumeric);
  }
  st::ForestTracker tr(X, ft, nt, n);
  std::vector<std::unique_ptr<st::Tree>> T; std::vector<char> reset_once(nt, 0); int sorted_tree = -1;
  for (int j = 0; j < nt; j++) { T.push_back(std::make_unique<st::Tree>()); T[j]->Init(1); }
  auto* us = tr.GetUnsortedNodeSampleTracker();
  auto verify = [&](const std::string& at) {
    for (int j = 0; j < nt; j++) {
      std::map<int, std::set<int>> rows; std::vector<int> leaf(n);
      for (int i = 0; i < n; i++) {
        int id = 0; std::vector<int> pathv{0};
        while (!T[j]->IsLeaf(id)) {
          double v = X(i, T[j]->SplitIndex(id)); bool L;
          if (T[j]->NodeType(id) == st::TreeNodeType::kCategoricalSplitNode) { auto c = T[j]->CategoryList(id); L = v >= 0 && std::find(c.begin(), c.end(), (uint32_t)v) != c.end(); }
          else L = v <= T[j]->Threshold(id);
          id = L ? T[j]->LeftChild(id) : T[j]->RightChild(id); pathv.push_back(id);
        }
        leaf[i] = id; for (int q : pathv) rows[q].insert(i);
        if ((int)tr.GetNodeId(i, j) != id) fail("C02", "row-map", fmt("tree %d row %d: tracked in node %d, routed to leaf %d ", j, i, (int)tr.GetNodeId(i, j), id) + at);
        if (int ev = st::EvaluateTree(*T[j], X, i); ev != id) fail("C02", "row-evaluation", fmt("tree %d row %d: evaluating the tree gives node %d, tracked in leaf %d ", j, i, ev, id) + at);
      }
      std::set<int> live; T[j]->WalkTree([&](int id) { live.insert(id); return true; });
      for (int id : live) {
        auto& w = rows[id];
        if (!us->IsValidNode(j, id)) fail("C02", "valid-node", fmt("tree %d node %d is live but reported invalid ", j, id) + at);
        if (us->IsLeaf(j, id) != T[j]->IsLeaf(id)) fail("C02", "tracker-shape", fmt("tree %d node %d ", j, id) + at);
        if (us->Parent(j, id) != T[j]->Parent(id) || (!T[j]->IsLeaf(id) && (us->LeftNode(j, id) != T[j]->LeftChild(id) || us->RightNode(j, id) != T[j]->RightChild(id)))) fail("C02", "tracker-links", fmt("tree %d node %d ", j, id) + at);
        std::vector<int> got(tr.UnsortedNodeBeginIterator(j, id), tr.UnsortedNodeEndIterator(j, id)); std::set<int> gs(got.begin(), got.end());
        if ((int)tr.UnsortedNodeSize(j, id) != (int)w.size() || (int)(tr.UnsortedNodeEnd(j, id) - tr.UnsortedNodeBegin(j, id)) != (int)w.size() || got.size() != gs.size() || gs != w)
          fail("C02", "node-rows", fmt("tree %d node %d: tracked %zu rows (size %d), routed %zu ", j, id, got.size(), (int)tr.UnsortedNodeSize(j, id), w.size()) + at);
        auto li = us->TreeNodeIndices(j, id); if (std::set<int>(li.begin(), li.end()) != w || li.size() != w.size()) fail("C02", "node-list", fmt("tree %d node %d ", j, id) + at);
        if (sorted_tree == j && T[j]->IsLeaf(id)) for (int c = 0; c < p; c++) {
          std::vector<int> v(tr.SortedNodeBeginIterator(id, c), tr.SortedNodeEndIterator(id, c));
          if ((int)tr.SortedNodeSize(id, c) != (int)v.size() || std::set<int>(v.begin(), v.end()) != w || v.size() != w.size()) fail("C02", "sorted-rows", fmt("tree %d leaf %d feature %d: presorted order has %zu rows, leaf has %zu ", j, id, c, v.size(), w.size()) + at);
          for (size_t q = 1; q < v.size(); q++) if (X(v[q - 1], c) > X(v[q], c)) fail("C02", "sorted-order", fmt("tree %d leaf %d feature %d ", j, id, c) + at);
        }
      }
    }
  };
  Digest hist; int step = 0; verify("initially");
  for (auto& op : pl.ops) {
    step++; int j = op.u(0) % nt; st::Tree* t = T[j].get(); bool done = true;
    if (op.name == "split") {
      auto lv = t->GetLeaves(); int id = lv[op.u(1) % lv.size()], f = op.u(2) % p; Rng q(op.u(3)); bool cat = style[f] == 2 && q.chance(.6);
      if (tr.UnsortedNodeSize(j, id) == 0 && q.chance(.8)) { done = false; continue; }
      std::vector<uint32_t> cats; double thr = 0;
      if (cat) { int m = q.range(1, 3); for (int i = 0; i < m; i++) cats.push_back(q.below(6)); }
      else { thr = X(q.below(n), f); if (q.chance(.3)) thr = std::nextafter(thr, -1e9); else if (q.chance(.2)) thr += q.normal(); }
      st::TreeSplit sp = cat ? st::TreeSplit(cats) : st::TreeSplit(thr);
      t->ExpandNode(id, f, sp, 0., 0.); int l = t->LeftChild(id), rr = t->RightChild(id);
      bool keep = sorted_tree == j && t->NumDeletedNodes() == 0;
      int way = op.u(4) % 3;
      if (t->NumNodes() > t->NumValidNodes() || us->IsValidNode(j, l)) g_stats.hit("split-reusing-deleted-id");
      if (way == 0) tr.AddSplit(X, sp, f, j, id, l, rr, keep);
      else {
        if (cat) { if (keep) tr.GetSortedNodeSampleTracker()->PartitionNode(X, id, f, cats); us->PartitionTreeNode(X, j, id, l, rr, f, cats); }
        else { if (keep) tr.GetSortedNodeSampleTracker()->PartitionNode(X, id, f, thr); us->PartitionTreeNode(X, j, id, l, rr, f, thr); }
        if (way == 1) us->UpdateObservationMapping(t, j, tr.GetSampleNodeMapper());
        else if (keep) { tr.GetSortedNodeSampleTracker()->UpdateObservationMapping(l, j, tr.GetSampleNodeMapper(), op.u(2) % p); tr.GetSortedNodeSampleTracker()->UpdateObservationMapping(rr, j, tr.GetSampleNodeMapper(), op.u(3) % p); }
        else { us->UpdateObservationMapping(l, j, tr.GetSampleNodeMapper()); us->UpdateObservationMapping(rr, j, tr.GetSampleNodeMapper()); }
      }
      if (keep) g_stats.hit("split-keeping-sorted");
    } else if (op.name == "prune") {
      auto in = t->GetInternalNodes(); if (in.empty()) continue;
      int id = in[op.u(1) % in.size()], l = t->LeftChild(id), rr = t->RightChild(id);
      if (!t->IsLeafParent(id)) g_stats.hit("prune-deep");
      t->CollapseToLeaf(id, 0.0); tr.RemoveSplit(X, t, j, id, l, rr, false);
      if (sorted_tree == j) sorted_tree = -1;
      g_stats.hit("prune");
    } else if (op.name == "reset") {
      t->Reset(); t->Init(1); tr.ResetRoot(X, ft, j); sorted_tree = j; g_stats.hit("reset");
    } else throw HarnessError("unknown op " + op.name);
    if (!done) continue;
    g_stats.steps++;
    verify(fmt("after step %d (%s)", step, op.line().c_str()));
    Digest d; for (int q = 0; q < nt; q++) { d.u(T[q]->NumNodes()); T[q]->WalkTree([&](int id) { d.u(id * 64 + T[q]->SplitIndex(id)); return true; }); }
    g_stats.state(d.h); for (int i = 0; i < n; i++) for (int q = 0; q < nt; q++) d.u(tr.GetNodeId(i, q));
    hist.u(d.h);
  }
  return hist.h;
}
static Plan gen_trackops(uint64_t seed, bool thorough) {
  Rng r(seed); Plan pl; pl.world = "trackops"; pl.seed = seed;
  pl.set("n", r.chance(.2) ? r.range(1, 4) : r.range(5, thorough ? 60 : 30)); pl.set("p", r.range(1, 4)); int nt = r.range(1, 3); pl.set("trees", nt); pl.set("dseed", r.below(1u << 30));
  int ops = r.range(5, thorough ? 100 : 50); double ws = .3 + r.unit(), wp = r.unit() * .7, wr = r.unit() * .15;
  if (r.chance(.5)) pl.op("reset", 0);
  for (int i = 0; i < ops; i++) {
    double u = r.unit() * (ws + wp + wr);
    if (u < ws) pl.op("split", r.below(nt), r.below(64), r.below(8), r.below(1u << 30), r.below(3));
    else if (u < ws + wp) pl.op("prune", r.below(nt), r.below(64));
    else pl.op("reset", r.below(nt));
  }
  return pl;
}
static Register reg2({"trackops", gen_trackops, run_trackops});
}  // namespace sim
