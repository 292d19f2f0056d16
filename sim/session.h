// A simulated sampling session: one "chain" with any number of forests and an optional
// random-effects term sharing one residual, driven operation by operation from a plan.
// Everything random comes from std::mt19937 states that the plan decides.
#pragma once
#include "common.h"
#include <stochtree/container.h>
#include <stochtree/data.h>
#include <stochtree/ensemble.h>
#include <stochtree/kernel.h>
#include <stochtree/leaf_model.h>
#include <stochtree/partition_tracker.h>
#include <stochtree/prior.h>
#include <stochtree/random_effects.h>
#include <stochtree/tree_sampler.h>
#include <stochtree/variance_model.h>
#include <random>

namespace sim {
namespace st = StochTree;

// mt19937 whose first outputs are chosen, the rest seeded (extreme draws at the RNG seam).
inline uint32_t untemper(uint32_t y) {
  y ^= y >> 18;
  y ^= (y << 15) & 0xefc60000u;
  uint32_t t = y;
  for (int i = 0; i < 5; i++) t = y ^ ((t << 7) & 0x9d2c5680u);
  y = t; t = y;
  for (int i = 0; i < 3; i++) t = y ^ (t >> 11);
  return t;
}
inline void forced_rng(std::mt19937& gen, uint64_t seed, const std::vector<uint32_t>& first) {
  Rng r(seed); std::ostringstream o;
  for (int i = 0; i < 624; i++) o << (i < (int)first.size() ? untemper(first[i]) : (uint32_t)r.next()) << ' ';
  o << 0;
  std::istringstream in(o.str()); in >> gen;
}

// ---------------------------------------------------------------- abstract trees (through accessors only)
struct ANode {
  bool leaf = true; bool cat = false; int feat = -1; double thr = 0; std::vector<uint32_t> cats;
  int l = -1, r = -1, parent = -1, depth = 0; int id = 0; std::vector<double> val;
};
struct ATree { std::vector<ANode> nodes; int leaves = 0; };

inline int aroute(const ATree& t, const std::function<double(int)>& x) {
  int k = 0;
  while (!t.nodes[k].leaf) {
    const ANode& n = t.nodes[k]; double v = x(n.feat); bool left;
    if (n.cat) {
      left = false;
      if (v >= 0 && v <= 4294967295.0) { uint32_t c = (uint32_t)v; for (auto q : n.cats) if (q == c) left = true; }
    } else left = v <= n.thr;
    k = left ? n.l : n.r;
  }
  return k;
}

inline ATree abstract_tree(st::Tree* t, int dim) {
  ATree a; int guard = 0, limit = t->NumNodes() + 1;
  struct Item { int id, parent, depth; bool left; };
  std::vector<Item> stack{{0, -1, 0, false}};
  while (!stack.empty()) {
    Item it = stack.back(); stack.pop_back();
    if (++guard > limit || it.id < 0 || it.id >= t->NumNodes()) throw Failure(g_focus, "tree-structure", fmt("broken child link to node %d (of %d)", it.id, t->NumNodes()));
    ANode n; n.id = it.id; n.parent = it.parent; n.depth = it.depth; n.leaf = t->IsLeaf(it.id);
    int k = a.nodes.size();
    if (it.parent >= 0) { if (it.left) a.nodes[it.parent].l = k; else a.nodes[it.parent].r = k; }
    if (n.leaf) {
      a.leaves++;
      if (dim == 1) n.val.push_back(t->LeafValue(it.id)); else for (int d = 0; d < dim; d++) n.val.push_back(t->LeafValue(it.id, d));
    } else {
      n.feat = t->SplitIndex(it.id);
      n.cat = t->NodeType(it.id) == st::TreeNodeType::kCategoricalSplitNode;
      if (n.cat) n.cats = t->CategoryList(it.id); else n.thr = t->Threshold(it.id);
      stack.push_back({t->RightChild(it.id), k, it.depth + 1, false});
      stack.push_back({t->LeftChild(it.id), k, it.depth + 1, true});
    }
    a.nodes.push_back(n);
  }
  return a;
}
inline void digest_tree(Digest& d, const ATree& a, bool values = true) {
  d.u(a.nodes.size());
  for (auto& n : a.nodes) {
    d.u(n.leaf); d.u(n.l + 1); d.u(n.r + 1);
    if (n.leaf) { if (values) for (double v : n.val) d.d(v); }
    else { d.u(n.feat); d.u(n.cat); if (n.cat) { std::set<uint32_t> s(n.cats.begin(), n.cats.end()); for (auto c : s) d.u(c); } else if (values) d.d(n.thr); }
  }
}

// ---------------------------------------------------------------- one forest term
struct Term {
  int kind = 0;                     // 0 constant, 1 univariate regression, 2 multivariate regression
  int dim = 1, num_trees = 1, min_leaf = 1, grid = 100;
  double tau = 1, alpha = .95, beta = 2;
  Eigen::MatrixXd Sigma0;
  std::vector<double> weights;      // variable weights
  std::vector<double> basis;        // row major n x dim
  st::ForestDataset ds;
  std::unique_ptr<st::ForestContainer> forest;
  std::unique_ptr<st::ForestTracker> tracker;
  std::unique_ptr<st::TreePrior> prior;
  bool preinit = false;             // InitializeRoot done, nothing sampled yet
  bool contributing = false;        // some contribution has been taken out of the residual
  std::vector<uint64_t> kept;       // digests of retained samples
  bool regression() const { return kind != 0; }
  st::TreeEnsemble* latest() { return forest->GetEnsemble(preinit ? 0 : forest->NumSamples() - 1); }
};

struct Rfx {
  int comps = 1, groups = 0;
  std::vector<int32_t> labels; std::vector<double> basis;
  st::RandomEffectsDataset ds;
  std::unique_ptr<st::RandomEffectsTracker> tracker;
  std::unique_ptr<st::MultivariateRegressionRandomEffectsModel> model;
  std::unique_ptr<st::RandomEffectsContainer> samples;
  std::vector<double> contribution; // reference: what is currently out of the residual
};

struct Session {
  int n = 0, p = 0;
  std::vector<double> X;            // column major n x p
  std::vector<double> y;
  std::vector<double> vw;           // variance weights (empty = none)
  std::vector<st::FeatureType> types;
  std::vector<int> ncat;
  st::ColumnVector resid;
  std::vector<std::unique_ptr<Term>> terms;
  std::unique_ptr<Rfx> rfx;
  double sigma2 = 1, nu = 3, lambda = 1, a_leaf = 3, b_leaf = 1;
  double scale = 1;                 // running magnitude, for rounding tolerances
  std::mt19937 gen;
  bool real_reload = true;
  const Plan* plan = nullptr;
  int op_index = 0;
  std::string scratch;              // scratch directory for file round trips

  explicit Session(const Plan& p, const std::string& prefix = "");
  // Executes one operation; false when it does not apply in the current state.
  bool exec(const Op& op);
  double x(int row, int col) const { return X[(size_t)col * n + row]; }
  double term_fit(Term& t, const ATree& a, int row) const;
  uint64_t digest();
  uint64_t shape_digest();
  void seed_rng(const Op& op, size_t k);
  void sample_term(Term& t, bool gfr);
  void track_scale();
};

std::vector<double> make_covariates(Rng& r, int n, int p, const std::vector<int>& style, const std::vector<int>& ncat);
Plan gen_session(uint64_t seed, bool thorough, const char* mix);
void gen_session_into(Plan& pl, Rng& r, bool thorough, const std::string& prefix, const char* mix);
uint64_t forest_sample_digest(st::ForestContainer* f, int i, int dim);

}  // namespace sim
