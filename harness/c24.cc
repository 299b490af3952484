// C24: sampling and work division are sound.
#include "common.h"

#include <map>

#include "src/data_store/column.h"
#include "src/gbdt_algo/tree_algo.h"
#include "src/loss_func/loss_func.h"
#include "src/proto/config.pb.h"
#include "src/proto/tree.pb.h"
#include "src/utils/subsampling.h"
#include "src/utils/vector_slice.h"

using namespace gbdt;
typedef long double LD;

void harness_init() { quiet_logs(); }

// Bernstein's bound on a binomial count, at about 1e-12.
static void near(LD got, LD n, LD p, const std::string& what) {
  if (p >= 1 || p <= 0) {
    CHECK_THAT(got == (p >= 1 ? n : 0), "rate", what << ": " << double(got) << " of " << double(n) << " at probability " << double(p));
    return;
  }
  LD mean = n * p, tol = sqrtl(2 * 28 * mean * (1 - p)) + 2 * 28 / 3.0L + 1;
  CHECK_THAT(fabsl(got - mean) <= tol, "rate", what << ": " << double(got) << " of " << double(n) << ", expected about " << double(mean) << " give or take " << double(tol));
}

static float gen_rate(pbt::Source& s) {
  return s.weighted({3, 3, 1}) == 0 ? s.pick<float>({1.0f, 0.5f, 0.1f, 0.9f}) : s.pick<float>({0.3f, 0.01f, 0.99f, 1e-6f, 0.9999999f, 1e-30f, 0.75f, 0.2f});
}

static void check_sample(const std::vector<uint>& v, uint n, double rate) {
  for (size_t i = 0; i < v.size(); ++i) {
    CHECK_THAT(v[i] < n, "range", "index " << v[i] << " of " << n);
    if (i) CHECK_THAT(v[i - 1] < v[i], "increasing", "index " << v[i] << " after " << v[i - 1]);
  }
  if (rate == 1) CHECK_THAT(v.size() == n, "all", v.size() << " of " << n << " drawn at rate 1");
}

PROP(draws, 3) {
  uint n = s.chance(1, 5) ? s.range(1000, 60000) : s.chance(1, 3) ? s.range(100, 1000) : s.range(0, 40);
  double rate = s.flip() ? double(gen_rate(s)) : double(s.range(1, 1000)) / 1000;
  int seed = s.flip() ? s.range(0, 5) : int(uint32_t(s.draw(1ull << 32)));
  int times = s.range(1, n > 5000 ? 2 : 12);
  ctx.describe([&](std::ostream& o) { o << "n=" << n << " rate=" << rate << " seed=" << seed << " times=" << times; });
  std::vector<std::vector<uint>> a;
  Subsampling::Reseed(seed);
  for (int k = 0; k < times; ++k) {
    a.push_back(Subsampling::UniformSubsample(n, rate));
    check_sample(a.back(), n, rate);
  }
  // The seed decides, whatever happened before.
  Subsampling::UniformSubsample(s.range(0, 9), 0.5);
  Subsampling::Reseed(seed);
  for (int k = 0; k < times; ++k) CHECK_THAT(Subsampling::UniformSubsample(n, rate) == a[k], "seed", "draw " << k << " differs after reseeding");
  LD total = 0, first = 0, second = 0, pairs = 0, again = 0, slots = 0;
  for (int k = 0; k < times; ++k) {
    total += a[k].size();
    for (size_t i = 0; i < a[k].size(); ++i) {
      (a[k][i] < n / 2 ? first : second) += 1;
      pairs += i && a[k][i] == a[k][i - 1] + 1;
    }
    if (k) {  // rows drawn both times
      std::vector<uint> both;
      std::set_intersection(a[k].begin(), a[k].end(), a[k - 1].begin(), a[k - 1].end(), std::back_inserter(both));
      again += both.size(), slots += n;
    }
  }
  near(total, LD(n) * times, rate, "rows drawn");
  near(first, LD(n / 2) * times, rate, "rows of the first half drawn");
  near(second, LD(n - n / 2) * times, rate, "rows of the second half drawn");
  if (slots > 0) near(again, slots, LD(rate) * rate, "rows drawn twice in a row");
  // Neighbours, even and odd pairs apart so that they are independent.
  LD p2 = LD(rate) * rate;
  if (n >= 2 && rate < 1) {
    LD mean = LD(n - 1) * times * p2, tol = 2 * (sqrtl(2 * 28 * mean) + 2 * 28 / 3.0L + 1);
    CHECK_THAT(fabsl(pairs - mean) <= tol, "independent", double(pairs) << " neighbouring pairs drawn, expected about " << double(mean));
  }
  ctx.nontrivial_if(n >= 2 && rate < 1 && total > 0);
  if (total > 0 && rate < 1 && n * times > 400) ctx.label("frequencies tell");
  // Another seed: another draw, unless there is little to choose.
  if (n >= 200 && rate >= 0.2 && rate <= 0.8) {
    Subsampling::Reseed(seed + 1);
    CHECK_THAT(Subsampling::UniformSubsample(n, rate) != a[0], "seed", "seeds " << seed << " and " << seed + 1 << " draw the same");
    ctx.label("two seeds");
  }
}

// Every index with the same probability: many draws of few.
PROP(every_index, 2) {
  uint n = s.range(1, 12);
  double rate = double(s.range(1, 20)) / 20;
  int seed = s.range(0, 100000), times = 600;
  ctx.describe([&](std::ostream& o) { o << "n=" << n << " rate=" << rate << " seed=" << seed; });
  Subsampling::Reseed(seed);
  std::vector<int> one(n, 0);
  std::vector<std::vector<int>> two(n, std::vector<int>(n, 0));
  for (int k = 0; k < times; ++k) {
    auto v = Subsampling::UniformSubsample(n, rate);
    check_sample(v, n, rate);
    for (uint i : v) {
      ++one[i];
      for (uint j : v) ++two[i][j];
    }
  }
  for (uint i = 0; i < n; ++i) {
    near(one[i], times, rate, "index " + std::to_string(i));
    for (uint j = 0; j < i; ++j) near(two[i][j], times, LD(rate) * rate, "indices " + std::to_string(i) + " and " + std::to_string(j) + " together");
  }
  ctx.nontrivial_if(n >= 2 && rate < 1);
}

// Low rates tell only over many draws.
PROP(every_index_rarely, 1) {
  uint n = s.range(2, 60);
  double rate = s.pick<double>({0.01, 0.001, 0.003, 0.019, 0.03, 0.05}) * s.range(1, 10) / 10;
  int seed = s.range(0, 100000), times = std::min(400 / rate, 3e6 / n);
  ctx.describe([&](std::ostream& o) { o << "n=" << n << " rate=" << rate << " seed=" << seed << " times=" << times; });
  Subsampling::Reseed(seed);
  std::vector<int> one(n, 0);
  for (int k = 0; k < times; ++k) {
    auto v = Subsampling::UniformSubsample(n, rate);
    check_sample(v, n, rate);
    for (uint i : v) ++one[i];
  }
  LD total = 0;
  for (uint i = 0; i < n; ++i) {
    total += one[i];
    near(one[i], times, rate, "index " + std::to_string(i));
  }
  near(total, LD(times) * n, rate, "rows drawn");
  ctx.nontrivial_if(times * rate >= 100);
}

// How trees sample: every row of a leaf-only tree contributes its own power of two to the score.
PROP(rows_of_trees, 1) {
  int n = s.range(1, 20), times = 300, seed = s.range(0, 100000);
  Config c;
  c.set_num_leaves(1);
  c.set_l2_lambda(1);
  c.set_example_sampling_rate(s.pick<float>({0.5f, 0.3f, 0.8f, 0.1f, 1.0f}));
  c.set_feature_sampling_rate(1);
  FLAGS_num_threads = s.range(1, 3);
  double rate = c.example_sampling_rate();
  ctx.describe([&](std::ostream& o) { o << "n=" << n << " rate=" << rate << " seed=" << seed << " threads=" << FLAGS_num_threads; });
  std::vector<GradientData> g;
  for (int i = 0; i < n; ++i) g.emplace_back(double(1 << i), 0);
  Subsampling::Reseed(seed);
  std::vector<int> one(n, 0);
  LD joint = 0, last = 0;
  for (int k = 0; k < times; ++k) {
    TreeNode t = FitTreeToGradients([](int) { return 1.0f; }, g, {}, c);
    double v = t.score();
    CHECK_THAT(!t.has_left_child() && v == std::floor(v) && v >= 0 && v < (1 << n), "rows", "the score is " << v << ", no sum of the rows' gradients");
    for (int i = 0; i < n; ++i) one[i] += (uint(v) >> i) & 1;
    if (k) joint += __builtin_popcount(uint(v) & uint(last));
    last = v;
  }
  for (int i = 0; i < n; ++i) near(one[i], times, rate, "row " + std::to_string(i) + " used");
  if (rate < 1) near(joint, LD(times - 1) * n, LD(rate) * rate, "rows used by a tree and the next");
  ctx.nontrivial_if(n >= 2 && rate < 1);
}

// Feature k makes k + 1 mistakes, so the root takes the first of the features sampled.
PROP(features_of_trees, 1) {
  int m = s.range(1, 6), times = 200, seed = s.range(0, 100000), n = 32;
  Config c;
  bool deep = s.flip();
  c.set_num_leaves(deep ? 3 : 2);
  c.set_l2_lambda(1);
  c.set_example_sampling_rate(1);
  c.set_feature_sampling_rate(s.pick<float>({0.5f, 0.3f, 0.8f, 0.1f, 1.0f}));
  double rate = c.feature_sampling_rate();
  FLAGS_num_threads = s.range(1, 3);
  ctx.describe([&](std::ostream& o) { o << m << " features, rate=" << rate << " seed=" << seed << " threads=" << FLAGS_num_threads << (deep ? " three leaves" : ""); });
  std::vector<GradientData> g;
  for (int i = 0; i < n; ++i) g.emplace_back(i % 2 ? 1 : -1, 1);
  std::vector<std::unique_ptr<Column>> own;
  std::vector<const Column*> cols;
  for (int k = 0; k < m; ++k) {
    std::vector<float> v;
    for (int i = 0; i < n; ++i) v.push_back((i % 2) ^ (i / 2 <= k && i % 2 == 0));
    own.push_back(Column::CreateBucketizedFloatColumn("f" + std::to_string(k), v, 10));
    cols.push_back(own.back().get());
  }
  Subsampling::Reseed(seed);
  std::vector<int> root(m + 1, 0);
  int second = 0, divided = 0;
  for (int k = 0; k < times; ++k) {
    TreeNode t = FitTreeToGradients([](int) { return 1.0f; }, g, cols, c);
    int at = m;
    if (t.has_left_child()) {
      at = atoi(t.split().feature().substr(1).c_str());
      ++divided;
      second += t.left_child().has_left_child() || t.right_child().has_left_child();
    }
    ++root[at];
  }
  LD left = 1;
  for (int k = 0; k < m; ++k) {
    near(root[k], times, left * rate, "feature " + std::to_string(k) + " at the root");
    left *= 1 - LD(rate);
  }
  near(root[m], times, rate == 1 ? 0 : left, "no division");
  ctx.nontrivial_if(m >= 2 && rate < 1);
}

PROP(all_samples, 1) {
  uint n = s.length(0, 3000);
  ctx.describe([&](std::ostream& o) { o << "n=" << n; });
  auto v = Subsampling::CreateAllSamples(n);
  CHECK_THAT(v.size() == n, "all", v.size() << " of " << n);
  for (uint i = 0; i < n; ++i) CHECK_THAT(v[i] == i, "all", "sample " << i << " is " << v[i]);
  ctx.nontrivial_if(n >= 2);
}

PROP(division, 4) {
  bool large = s.chance(1, 6);
  int n = large ? s.pick<int>({1 << 20, (1 << 24) + 1, 1 << 30, 2147483647, 2147483646, 1999999999}) : s.length(0, 400);
  int groups = s.chance(1, 8) ? s.range(1, 5000) : s.range(1, 90);
  ctx.describe([&](std::ostream& o) { o << n << " samples among " << groups; });
  auto v = Subsampling::DivideSamples(n, groups);
  CHECK_THAT(int(v.size()) == groups, "groups", v.size() << " slices for " << groups << " groups");
  uint at = 0;
  for (auto& x : v) {
    CHECK_THAT(x.first == at && x.second >= x.first, "cover", "a slice from " << x.first << " to " << x.second << " after " << at);
    uint size = x.second - x.first;
    CHECK_THAT(size == uint(n / groups) || size == uint(n / groups) + 1, "even", "a slice of " << size << " of " << n << " among " << groups);
    at = x.second;
  }
  CHECK_THAT(at == uint(n), "cover", "the slices end at " << at << " of " << n);
  ctx.nontrivial_if(n >= 2 && groups >= 2 && n % groups);
  if (n < groups) ctx.label("fewer samples than groups");
  if (large) return;
  // Slices of a slice of a vector.
  std::vector<uint> data;
  int before = s.range(0, 5), after = s.range(0, 5);
  auto r = s.bulk();
  for (int i = 0; i < before + n + after; ++i) data.push_back(r.below(1000));
  const std::vector<uint> copy = data;
  VectorSlice<uint> whole(data, before, n);
  auto slices = Subsampling::DivideSamples(whole, groups);
  CHECK_THAT(int(slices.size()) == groups, "groups", slices.size() << " slices for " << groups << " groups");
  at = before;
  for (auto& x : slices) {
    uint size = x.size();
    CHECK_THAT(size == uint(n / groups) || size == uint(n / groups) + 1, "even", "a slice of " << size << " of " << n << " among " << groups);
    CHECK_THAT(uint(x.begin() - data.begin()) == at && uint(x.end() - data.begin()) == at + size, "cover", "a slice elsewhere");
    for (uint i = 0; i < size; ++i) CHECK_THAT(x[i] == copy[at + i], "content", "element " << i << " of a slice is " << x[i]);
    // A slice of the slice.
    int lo = size ? r.below(size + 1) : 0, len = size - lo ? r.below(size - lo + 1) : 0;
    VectorSlice<uint> part(x, lo, len);
    CHECK_THAT(part.size() == len && part.begin() == x.begin() + lo, "slice", "slice of a slice");
    at += size;
  }
  CHECK_THAT(at == uint(before + n) && data == copy, "cover", "the slices end at " << at);
}
