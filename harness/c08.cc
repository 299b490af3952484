// C08: fitted trees are greedy-optimal and their leaves are right.
#include "reference.h"

#include <atomic>

#include "src/gbdt_algo/tree_algo.h"
#include "src/utils/subsampling.h"

using namespace gbdt;

void harness_init() { quiet_logs(); }

struct Fit {
  ref::Table t;
  std::vector<GradientData> grad;
  std::vector<float> w;
  Config config;
  ref::Rows rows;
  bool exact = true;
};

static Fit gen(pbt::Source& s, int bulk) {
  Fit f;
  int size = bulk == 2 ? s.range(0, 2) : 0;
  int n = bulk == 3 ? s.range(20000, 50000) : bulk == 2 ? (size == 0 ? s.range(100, 300) : size == 1 ? s.range(500, 1000) : s.range(1500, 3000)) : bulk ? s.range(100, 800) : s.chance(3, 4) ? s.range(6, 24) : s.length(0, 6);
  f.t = ref::gen_table(s, n, bulk == 3 ? 3 : bulk == 2 ? (size == 0 ? 40 : size == 1 ? 10 : 4) : bulk ? 6 : 4, bulk);
  f.exact = bulk == 3 ? s.chance(1, 4) : !s.chance(1, 4);
  pbt::Rng r(0);
  bool rb = bulk || !f.exact;
  if (rb) r = s.bulk();
  auto num = [&](int lo, int hi) { return rb ? lo + int64_t(r.below(hi - lo + 1)) : s.range(lo, hi); };
  int hmode = s.weighted({4, 2, 2}), wmode = s.weighted({3, 2, 1, 1});
  double gs = s.pick<double>({1, 0.125, 64});
  // All weights small or large.
  double ws = s.chance(1, 8) ? std::ldexp(1.0, int(s.range(-24, 16))) : 1;
  if (ws < 1) gs = 4096;
  for (int i = 0; i < n; ++i) {
    double g, h;
    float w;
    if (f.exact) {
      g = num(-9, 9) * gs;
      h = hmode == 0 ? 1 : hmode == 1 ? num(0, 4) : num(1, 16) / 16.0;
      w = wmode == 0 ? 1 : wmode == 1 ? num(0, 3) : wmode == 2 ? num(1, 8) / 4.0f : (num(0, 2) == 0 ? 0 : 2);
    } else {
      g = (r.unit() * 2 - 1) * gs;
      h = hmode == 0 ? 1 : r.unit() + 0.05;
      w = wmode == 0 ? 1 : float(r.unit() + 0.05);
    }
    w *= float(ws);
    f.grad.push_back(GradientData(g, h));
    f.w.push_back(w);
    ref::Sum sum;
    sum.g = ref::LD(w) * g, sum.h = ref::LD(w) * h;
    f.rows.push_back(sum);
  }
  f.config.set_num_leaves(bulk == 3 ? s.range(1, 5) : bulk == 2 ? (size == 2 && s.chance(1, 2) ? s.range(200, 1600) : s.pick<int>({30, 2, 100, 255, 7})) : s.pick<int>({2, 3, 4, 6, 8, 1, 12, 30}));
  f.config.set_l2_lambda(s.pick<double>({0, 0, 1, 0.125, 8}));
  f.config.set_min_hessian(s.pick<double>({0, 0, 0, 1, 2, 0.5}));
  if (ws != 1 && s.flip()) f.config.set_l2_lambda(f.config.l2_lambda() * ws), f.config.set_min_hessian(f.config.min_hessian() * ws);
  f.config.set_min_gain(s.pick<double>({0, 0, 0, 0.5, 4, 1e-3}) * gs * gs);
  f.config.set_example_sampling_rate(1);
  f.config.set_feature_sampling_rate(1);
  FLAGS_num_threads = bulk == 3 ? s.range(1, 3) : bulk == 2 ? s.range(1, 16) : s.range(1, 4);
  return f;
}
static void describe(const Fit& f, std::ostream& o) {
  f.t.describe(o);
  o << "(g,h)w:";
  for (size_t i = 0; i < f.grad.size() && i < 40; ++i) o << " (" << f.grad[i].g << "," << f.grad[i].h << ")" << f.w[i];
  o << " config: " << f.config.ShortDebugString() << " threads=" << FLAGS_num_threads;
}
static std::vector<const Column*> columns(DataStore* ds, const ref::Table& t) {
  std::vector<const Column*> r;
  for (auto& c : t.cols) r.push_back(ds->GetColumn(c.name));
  return r;
}

static void check_internal_indices(const TreeNode& n, const ref::Table& t, DataStore* ds) {
  if (!n.has_left_child()) return;
  if (n.split().has_cat_split()) {
    auto& cs = n.split().cat_split();
    if (cs.internal_categorical_index_size() > 0) {
      std::set<std::string> a(cs.category().begin(), cs.category().end()), b;
      for (auto i : cs.internal_categorical_index()) b.insert(static_cast<const StringColumn*>(ds->GetColumn(n.split().feature()))->get_cat_string(i));
      CHECK_THAT(a == b, "categories", "names and indices of a split differ: " << n.split().ShortDebugString());
    }
    std::set<std::string> a(cs.category().begin(), cs.category().end());
    CHECK_THAT(int(a.size()) == cs.category_size(), "categories", "a category is listed twice: " << n.split().ShortDebugString());
  }
  check_internal_indices(n.left_child(), t, ds);
  check_internal_indices(n.right_child(), t, ds);
}

static void all_rows(pbt::Source& s, pbt::Ctx& ctx, int bulk) {
  Fit f = gen(s, bulk);
  ctx.describe([&](std::ostream& o) { describe(f, o); });
  auto ds = f.t.store();
  const Fit& cf = f;
  TreeNode tree = FitTreeToGradients([&cf](int i) { return cf.w[i]; }, f.grad, columns(ds.get(), f.t), f.config);
  std::vector<int> all;
  for (int i = 0; i < f.t.n; ++i) all.push_back(i);
  check_internal_indices(tree, f.t, ds.get());
  ref::TreeCheck check{f.t, f.rows, f.config, f.exact, true};
  check.run(tree, all);
  ctx.nontrivial_if(check.internal >= 2);
  ctx.label(std::to_string(std::min(check.internal, 8)) + (check.internal >= 8 ? "+ splits" : " splits"));
  if (!f.exact) ctx.label("real-valued");
}

PROP(all_rows, 150) { all_rows(s, ctx, s.chance(1, 20)); }
// Thousands of rows, dozens of features, hundreds of categories, more leaves and threads.
PROP_EX(large, 1, 120, false) { all_rows(s, ctx, 2); }

// Tens of thousands of rows, where sums must not lose digits.
PROP_EX(huge, 1, 120, false) { all_rows(s, ctx, 3); }

PROP(sampled, 60) {
  int bulk = s.chance(1, 300) ? 2 : s.chance(1, 20);
  Fit f = gen(s, bulk);
  bool fs = s.flip();
  f.config.set_example_sampling_rate(s.pick<float>({0.5f, 0.3f, 0.9f, 1.0f, 0.05f}));
  if (fs) f.config.set_feature_sampling_rate(s.pick<float>({0.5f, 0.2f, 0.8f}));
  int seed = s.range(0, 1000);
  ctx.describe([&](std::ostream& o) { describe(f, o); o << " seed " << seed; });
  auto ds = f.t.store();
  // Which rows are drawn: what the seeded sampler returns first, or else the rows whose weight the fit asks for.
  Subsampling::Reseed(seed);
  auto drawn = Subsampling::UniformSubsample(f.t.n, f.config.example_sampling_rate());
  std::vector<std::atomic<char>> touched(f.t.n);
  for (auto& t : touched) t = 0;
  const Fit& cf = f;
  Subsampling::Reseed(seed);
  TreeNode tree = FitTreeToGradients([&](int i) { touched[i] = 1; return cf.w[i]; }, f.grad, columns(ds.get(), f.t), f.config);
  std::vector<int> a(drawn.begin(), drawn.end()), b;
  for (int i = 0; i < f.t.n; ++i) if (touched[i]) b.push_back(i);
  ctx.nontrivial_if(tree.has_left_child());
  if (fs) ctx.label("feature sampling");
  ctx.label(a == b ? "rows as drawn" : "rows as touched");
  ref::TreeCheck check{f.t, f.rows, f.config, f.exact, !fs};
  try {
    check.run(tree, a);
  } catch (pbt::Failure& first) {
    if (a == b) throw;
    check.run(tree, b);
  }
}
