// Training problems and a loss function that records what the training loop asks of it.
#ifndef VERIF_TRAINING_H_
#define VERIF_TRAINING_H_

#include "forests.h"

#include "src/gbdt_algo/evaluation.h"
#include "src/gbdt_algo/gbdt_algo.h"
#include "src/loss_func/loss_func.h"
#include "src/loss_func/loss_func_factory.h"
#include "src/utils/subsampling.h"

// Wraps a loss function, or stands for a made-up one, and records every call.
class Recorder : public gbdt::LossFunc {
 public:
  struct Call {
    std::vector<double> f;
    double c;
    std::vector<gbdt::GradientData> g;
  };
  explicit Recorder(std::unique_ptr<gbdt::LossFunc> inner) : inner_(std::move(inner)) {}
  // A made-up loss: random gradients, positive hessians and constants; diverges at the call numbered `diverge` if >= 0.
  Recorder(uint64_t seed, int diverge, double bad) : rng_(seed), diverge_(diverge), bad_(bad) {}

  Status Init(int num_rows, FloatVector w, FloatVector y, const gbdt::StringColumn* group) override {
    ++inits;
    rows = num_rows;
    for (int i = 0; i < num_rows; ++i) init_w.push_back(w(i)), init_y.push_back(y(i));
    return inner_ ? inner_->Init(num_rows, w, y, group) : Status::OK;
  }
  void ComputeFunctionalGradientsAndHessians(const std::vector<double>& f, double* c, std::vector<gbdt::GradientData>* g,
                                             std::string* progress) override {
    Call call;
    call.f = f;
    if (inner_) {
      inner_->ComputeFunctionalGradientsAndHessians(f, c, g, progress);
    } else {
      g->resize(f.size());
      for (auto& x : *g) x = gbdt::GradientData(rng_.unit() * 4 - 2, rng_.unit() + 0.1);
      *c = rng_.below(3) == 0 ? 0 : rng_.unit() - 0.5;
      if (int(calls.size()) == diverge_) *c = bad_;
    }
    call.c = *c;
    call.g = *g;
    calls.push_back(call);
  }
  int inits = 0, rows = -1;
  std::vector<float> init_w, init_y;
  std::vector<Call> calls;

 private:
  std::unique_ptr<gbdt::LossFunc> inner_;
  pbt::Rng rng_{0};
  int diverge_ = -1;
  double bad_ = 0;
};

struct Problem {
  ref::Table t;
  std::vector<float> w, y;
  gbdt::Config config;
  std::string loss;
  FloatVector wf() const { auto* p = &w; return [p](int i) { return (*p)[i]; }; }
  FloatVector yf() const { auto* p = &y; return [p](int i) { return (*p)[i]; }; }
  std::unique_ptr<gbdt::LossFunc> make_loss() const { return gbdt::LossFuncFactory::CreateLossFunc(config); }
  void describe(std::ostream& o) const {
    t.describe(o);
    o << "y=" << pbt::show(y).substr(0, 400) << " w=" << pbt::show(w).substr(0, 400) << " config: " << config.ShortDebugString() << " threads=" << FLAGS_num_threads << " ";
  }
};

// A problem for the pointwise losses; real-valued unless `small` numbers are asked for.
// `bulk` as in gen_table; 2 is one of: many trees, many features, many rows.
inline Problem gen_problem(pbt::Source& s, int bulk, const std::vector<std::string>& losses, bool weights = true) {
  Problem p;
  int kind = bulk == 2 ? s.range(0, 2) : -1;
  int n = kind == 0 ? s.range(20, 60) : kind == 1 ? s.range(50, 300) : kind == 2 ? s.range(1000, 4000) : bulk ? s.range(100, 600) : s.chance(5, 6) ? s.range(4, 24) : s.range(1, 4);
  p.t = ref::gen_table(s, n, kind == 1 ? 40 : 4, bulk, false);
  p.loss = s.pick(losses);
  p.config.set_loss_func(p.loss);
  auto r = s.bulk();
  bool small = s.flip();
  int wmode = weights ? s.weighted({3, 2, 1}) : 0;
  // Targets follow the features so that there is something to learn.
  for (int i = 0; i < n; ++i) {
    double v = 0;
    for (auto& c : p.t.cols) v += c.cat ? double(c.s[i].empty() ? 1 : c.s[i][0] % 5) : std::isnan(c.f[i]) ? 1.5 : std::max(-4.0f, std::min(4.0f, c.f[i]));
    v += r.unit() * 3 - 1.5;
    if (p.loss == "logloss" || p.loss == "huberized_hinge") p.y.push_back(r.below(5) == 0 ? (r.below(2) ? 1 : -1) : v > 2 ? 1 : -1);
    else p.y.push_back(small ? std::round(v) : v);
    p.w.push_back(wmode == 0 ? 1 : wmode == 1 ? float(r.unit() + 0.1) : float(r.below(3)) + (i == 0));
  }
  p.config.set_num_trees(kind == 0 ? s.range(20, 80) : s.range(1, bulk ? 4 : 6));
  p.config.set_num_leaves(kind >= 1 ? s.pick<int>({10, 2, 40}) : s.pick<int>({2, 3, 4, 6, 1, 10}));
  p.config.set_shrinkage(s.pick<float>({1.0f, 0.5f, 0.1f, 0.3f}));
  p.config.set_l2_lambda(s.pick<double>({0, 1, 0.1, 5}));
  p.config.set_min_hessian(s.pick<double>({0, 0, 1, 0.5}));
  p.config.set_min_gain(s.pick<double>({0, 0, 0.01, 1}));
  p.config.set_example_sampling_rate(1);
  p.config.set_feature_sampling_rate(1);
  FLAGS_num_threads = bulk == 2 ? (s.chance(1, 3) ? s.range(5, 16) : s.range(1, 4)) : s.range(1, 4);
  return p;
}

// Whether the Newton steps of the constant ran away (logloss and hinge overshoot on nearly separated data). Training
// must then have ended with an error if the constant is not a number; finite excesses are not judged further.
inline bool diverged(const Recorder& rec, const Status& st, bool wilder) {
  bool wild = false;
  for (size_t k = 0; k < rec.calls.size(); ++k) {
    double c = rec.calls[k].c;
    if (!std::isfinite(c)) {
      CHECK_THAT(!st.ok(), "divergence", "the constant is " << c << ", yet training succeeds");
      CHECK_THAT(k + 1 == rec.calls.size(), "divergence", "training goes on after the constant is " << c);
      return true;
    }
    // Beyond this the hessians of logloss are so small that a rounding error of a gradient sum decides gains.
    wild |= std::fabs(c) > (wilder ? 1e12 : 30);
    for (double v : rec.calls[k].f) wild |= std::fabs(v) > (wilder ? 1e12 : 30);
  }
  CHECK_THAT(st.ok(), "status", st.ToString());
  return wild;
}

// Checks the trees a run added against what the recorder saw. first_tree: index of the first new tree in the forest.
// Returns the number of splits made.
inline int check_run(const Problem& p, const Recorder& rec, const gbdt::Forest& forest, int first_tree, double base_constant, double base_mass = 0, bool all_features = true) {
  using namespace gbdt;
  int n = p.t.n, N = p.config.num_trees();
  CHECK_THAT(rec.inits == 1 && rec.rows == n, "init", "the loss was initialised " << rec.inits << " times with " << rec.rows << " rows");
  for (int i = 0; i < n; ++i) CHECK_THAT(rec.init_w[i] == p.w[i] && rec.init_y[i] == p.y[i], "init", "the loss was given another weight or target for row " << i);
  CHECK_THAT(int(rec.calls.size()) == N, "calls", rec.calls.size() << " gradient computations for " << N << " trees");
  CHECK_THAT(forest.tree_size() == first_tree + N, "trees", forest.tree_size() << " trees, expected " << first_tree + N);
  CHECK_THAT(!forest.tree(0).has_left_child() && !forest.tree(0).has_right_child(), "constant", "the first tree is not a constant");
  // The constant.
  double c = base_constant, cmass = std::fabs(base_constant) + base_mass;
  for (auto& call : rec.calls) c += call.c, cmass += std::fabs(call.c);
  CHECK_THAT(std::fabs(forest.tree(0).score() - c) <= 1e-6 * cmass * (N + 1) + 1e-30, "constant", "the constant tree is " << forest.tree(0).score() << ", the constants sum to " << c);
  // Predictions before every tree, and the tree itself.
  std::vector<double> f(n, base_constant), mass(n, std::fabs(base_constant) + base_mass);
  for (int i = 0; i < n; ++i)
    for (int k = 1; k < first_tree; ++k) {
      double x = ref::walk(forest.tree(k), p.t, i).score();
      f[i] += x, mass[i] += std::fabs(x);
    }
  std::vector<int> all;
  for (int i = 0; i < n; ++i) all.push_back(i);
  int splits = 0;
  for (int k = 0; k < N; ++k) {
    auto& call = rec.calls[k];
    CHECK_THAT(int(call.f.size()) == n, "predictions", "the loss is given " << call.f.size() << " predictions");
    for (int i = 0; i < n; ++i)
      CHECK_THAT(std::fabs(call.f[i] - f[i]) <= 1e-6 * mass[i] + 1e-12, "predictions",
                 "before tree " << k + 1 << " the loss is given prediction " << call.f[i] << " for row " << i << ", the trees so far predict " << f[i]);
    ref::Rows rows;
    for (int i = 0; i < n; ++i) {
      ref::Sum sum;
      sum.g = ref::LD(p.w[i]) * call.g[i].g, sum.h = ref::LD(p.w[i]) * call.g[i].h;
      rows.push_back(sum);
    }
    const TreeNode& tree = forest.tree(first_tree + k);
    ref::TreeCheck tc{p.t, rows, p.config, false, all_features};
    tc.shrinkage = p.config.shrinkage();
    tc.run(tree, all);
    splits += tc.internal;
    for (int i = 0; i < n; ++i) {
      double x = ref::walk(tree, p.t, i).score();
      f[i] += x + call.c, mass[i] += std::fabs(x) + std::fabs(call.c);
    }
  }
  return splits;
}

inline double largest_leaf(const gbdt::TreeNode& n) {
  return n.has_left_child() ? std::max(largest_leaf(n.left_child()), largest_leaf(n.right_child())) : std::fabs(n.score());
}
inline void check_no_internal_fields(const gbdt::TreeNode& n) {
  if (!n.has_left_child()) {
    CHECK_THAT(!n.has_split() && !n.has_right_child(), "internal-fields", "a leaf carries a split: " << n.ShortDebugString().substr(0, 300));
    return;
  }
  CHECK_THAT(n.split().cat_split().internal_categorical_index_size() == 0, "internal-fields", "a split carries internal indices: " << n.split().ShortDebugString());
  CHECK_THAT(!n.split().feature().empty(), "internal-fields", "a split without feature");
  check_no_internal_fields(n.left_child());
  check_no_internal_fields(n.right_child());
}
// Compares two trees. 0: same, 1: they part at a division with (nearly) equal gains, 2: they differ. Differences below
// `noise` are rounding.
inline int compare(const gbdt::TreeNode& a, const gbdt::TreeNode& b, std::string* why, double noise = 1e-6) {
  auto near = [noise](double x, double y, double tol) { return std::fabs(x - y) <= tol * (std::fabs(x) + std::fabs(y)) + noise; };
  if (a.has_left_child() != b.has_left_child()) {
    *why = "one is divided, the other is not";
    return 2;
  }
  if (!a.has_left_child()) {
    if (!near(a.score(), b.score(), 1e-3)) {
      *why = "leaf scores " + pbt::show(a.score()) + " and " + pbt::show(b.score());
      return 2;
    }
    return 0;
  }
  auto& x = a.split();
  auto& y = b.split();
  std::set<std::string> ca(x.cat_split().category().begin(), x.cat_split().category().end()), cb(y.cat_split().category().begin(), y.cat_split().category().end());
  if (x.feature() != y.feature() || ca != cb || x.float_split().threshold() != y.float_split().threshold() ||
      x.float_split().missing_to_right_child() != y.float_split().missing_to_right_child()) {
    if (near(x.gain(), y.gain(), 1e-3)) return 1;
    *why = x.ShortDebugString() + " and " + y.ShortDebugString();
    return 2;
  }
  int l = compare(a.left_child(), b.left_child(), why, noise);
  return l ? l : compare(a.right_child(), b.right_child(), why, noise);
}

// Whether the growth of this tree was decided by gains that are nearly equal, to each other or to a limit.
inline bool near_tie(const Problem& p, const Recorder& rec, const gbdt::TreeNode& tree, int k) {
  std::vector<double> gains;
  std::vector<int> all;
  ref::Rows rows;
  for (int i = 0; i < p.t.n; ++i) {
    all.push_back(i);
    ref::Sum sum;
    sum.g = ref::LD(p.w[i]) * rec.calls[k].g[i].g, sum.h = ref::LD(p.w[i]) * rec.calls[k].g[i].h;
    rows.push_back(sum);
  }
  bool tie = false;
  std::function<void(const gbdt::TreeNode&, const std::vector<int>&)> visit = [&](const gbdt::TreeNode& n, const std::vector<int>& idx) {
    ref::Best b;
    for (auto& c : p.t.cols) ref::best_division(c, rows, idx, p.config.l2_lambda(), p.config.min_hessian(), 1e-9L, &b);
    double gain = n.has_left_child() ? n.split().gain() : double(b.gain);
    double limit = std::max(p.config.min_gain(), 1e-6);
    if (std::fabs(gain - limit) < 1e-3 * limit + 1e-5 * double(b.scale)) tie = true;
    // A hessian sum next to the limit, or next to zero.
    if (n.has_left_child()) {
      std::vector<int> L, R;
      for (int i : idx) (ref::goes_left(n.split(), *p.t.find(n.split().feature()), i) ? L : R).push_back(i);
      ref::Sum l = ref::total(rows, L), r = ref::total(rows, R);
      double m = double(std::min(l.h, r.h));
      if (std::fabs(m - p.config.min_hessian()) < 1e-3 * p.config.min_hessian() + 1e-4 * double(l.h + r.h)) tie = true;
      visit(n.left_child(), L);
      visit(n.right_child(), R);
    }
    gains.push_back(gain);
  };
  visit(tree, all);
  std::sort(gains.begin(), gains.end());
  for (size_t i = 1; i < gains.size(); ++i)
    if (gains[i] > 0 && gains[i] - gains[i - 1] < 1e-3 * gains[i] + 1e-6) tie = true;
  return tie;
}

// Whether Newton's steps for the hinge's constant pass next to one of its bends, where rounding decides the hessian.
inline bool near_bend(const Problem& p, const std::vector<double>& f, bool exact) {
  double c = 0;
  for (int k = 0; k < 10; ++k) {
    double G = 0, H = 0;
    for (size_t i = 0; i < f.size(); ++i) {
      double m = p.y[i] * (f[i] + c);
      if ((k > 0 || !exact) && std::min(std::fabs(m), std::fabs(m - 1)) < 1e-6) return true;
      G += p.w[i] * (m >= 1 ? 0 : m >= 0 ? (1 - m) * p.y[i] : p.y[i]);
      H += p.w[i] * (m >= 0 && m < 1);
    }
    if (H == 0) return false;
    c += G / H;
    if (std::fabs(std::fabs(G / H) - 1e-4) < 1e-6) return true;
    if (std::fabs(G / H) < 1e-4) return false;
  }
  return true;
}
#endif
