// C09: prediction equals walking every tree for every row.
#include "reference.h"

#include <sys/stat.h>

#include "forests.h"
#include "src/data_store/flatfiles_data_store.h"
#include "src/gbdt_algo/compute_tree_scores.h"
#include "src/gbdt_algo/evaluation.h"

using namespace gbdt;

void harness_init() { quiet_logs(); }

static bool close(double a, double b, double mass) { return a == b || std::fabs(a - b) <= 1e-12 * mass; }
static double mass_of(const Forest& f, const ref::Table& t, int row) {
  double m = 1e-300;
  for (auto& tree : f.tree()) m += std::fabs(ref::walk(tree, t, row).score());
  return m;
}

static void walk(pbt::Source& s, pbt::Ctx& ctx, int bulk) {
  int n = bulk == 2 ? (s.chance(1, 3) ? s.range(20000, 59000) : s.range(1000, 5000)) : bulk ? s.range(100, 2000) : s.length(0, 20);
  ref::Table t = ref::gen_table(s, n, bulk == 2 ? 12 : 4, bulk);
  Forest f = gen_forest(s, t, bulk == 2 ? (n > 10000 ? s.range(1, 8) : s.range(20, 150)) : s.length(0, 6), bulk == 2 ? 7 : bulk ? 4 : 5, true, 400);
  FLAGS_num_threads = bulk == 2 ? s.range(1, 20) : s.range(1, 6);
  ctx.describe([&](std::ostream& o) { t.describe(o); o << "threads=" << FLAGS_num_threads << " forest: " << f.ShortDebugString().substr(0, 1500); });
  auto ds = t.store();
  std::vector<double> scores(s.range(0, 3), 7.0);  // what was in the vector before must not matter
  Status st = EvaluateForest(ds.get(), f, &scores);
  CHECK_THAT(st.ok(), "status", st.ToString());
  CHECK_THAT(int(scores.size()) == n, "size", scores.size() << " scores for " << n << " rows");
  std::vector<double> masses;
  for (int i = 0; i < n; ++i) {
    double want = ref::predict(f, t, i);
    masses.push_back(mass_of(f, t, i));
    CHECK_THAT(close(scores[i], want, masses[i]), "score", "row " << i << " scores " << scores[i] << ", walking the trees gives " << want);
  }
  int splits = 0;
  for (auto& tree : f.tree()) splits += ref::leaves(tree) - 1;
  ctx.nontrivial_if(n >= 1 && splits >= 1);
  if (bulk) ctx.label("many rows");
  // Other threads.
  int old = FLAGS_num_threads;
  FLAGS_num_threads = s.range(1, 8);
  std::vector<double> again;
  st = EvaluateForest(ds.get(), f, &again);
  CHECK_THAT(st.ok() && again.size() == scores.size(), "threads", "with " << FLAGS_num_threads << " threads: " << st.ToString());
  for (int i = 0; i < n; ++i)
    CHECK_THAT(close(again[i], scores[i], masses[i]), "threads", "row " << i << " scores " << scores[i] << " with " << old << " threads and " << again[i] << " with " << FLAGS_num_threads);
  // Other rows: a random selection, reordered and repeated.
  if (n > 0) {
    std::vector<int> idx;
    int m = bulk ? 50 : s.range(1, 2 * n);
    for (int i = 0; i < m; ++i) idx.push_back(s.draw(n));
    ref::Table u = ref::take(t, idx);
    auto ds2 = u.store();
    std::vector<double> part;
    st = EvaluateForest(ds2.get(), f, &part);
    CHECK_THAT(st.ok() && int(part.size()) == m, "rows", st.ToString());
    for (int i = 0; i < m; ++i)
      CHECK_THAT(close(part[i], scores[idx[i]], masses[idx[i]]), "rows", "row " << idx[i] << " scores " << scores[idx[i]] << " in the whole table and " << part[i] << " at place " << i << " of another");
  }
  // The same forest object with other trees, over the same store and over another of as many rows.
  if (n > 0 && n < 10000 && s.chance(1, 3)) {
    int trees = f.tree_size();
    f.Clear();
    f.MergeFrom(gen_forest(s, t, trees, 4));
    std::vector<int> idx;
    for (int i = 0; i < n; ++i) idx.push_back(s.flip() ? n - 1 - i : i);
    ref::Table u = ref::take(t, idx);
    for (int k = 0; k < 2; ++k) {
      auto ds2 = u.store();
      std::vector<double> other;
      st = EvaluateForest(k ? ds2.get() : ds.get(), f, &other);
      CHECK_THAT(st.ok() && int(other.size()) == n, "changed", st.ToString());
      for (int i = 0; i < n; ++i) {
        double want = ref::predict(f, k ? u : t, i);
        CHECK_THAT(close(other[i], want, mass_of(f, k ? u : t, i)), "changed", "with other trees (" << f.ShortDebugString().substr(0, 500) << ") row " << i << " scores " << other[i] << ", walking the trees gives " << want);
      }
      masses.clear();
      for (int i = 0; i < n; ++i) masses.push_back(mass_of(f, t, i));
    }
  }
  // Scores of a single tree are added to what is there.
  if (f.tree_size() > 0) {
    ComputeTreeScores cts(ds.get());
    std::vector<double> acc;
    for (int i = 0; i < n; ++i) acc.push_back(i);
    cts.AddTreeScores(f.tree(0), &acc);
    for (int i = 0; i < n; ++i) {
      double want = i + double(ref::walk(f.tree(0), t, i).score());
      CHECK_THAT(close(acc[i], want, masses[i] + i), "add", "row " << i << ": " << acc[i] << ", expected " << want);
    }
  }
}

PROP(walk, 240) { walk(s, ctx, s.chance(1, 30)); }
// Tens of thousands of rows (below the point where a float column keeps buckets only), or a hundred trees.
PROP_EX(large, 1, 120, false) { walk(s, ctx, 2); }

PROP(missing_feature, 40) {
  int n = s.length(0, 8);
  ref::Table t = ref::gen_table(s, n, 3, false);
  ref::Table wide = t;
  ref::RawCol extra = t.cols[0];
  extra.name = "gone";
  wide.cols.push_back(extra);
  Forest f = gen_forest(s, wide, s.range(1, 4), 3);
  bool uses = false;
  std::function<void(const TreeNode&)> visit = [&](const TreeNode& nd) {
    if (!nd.has_left_child()) return;
    uses |= nd.split().feature() == "gone";
    visit(nd.left_child());
    visit(nd.right_child());
  };
  for (auto& tree : f.tree()) visit(tree);
  ctx.describe([&](std::ostream& o) { t.describe(o); o << " forest: " << f.ShortDebugString().substr(0, 1500); });
  auto ds = t.store();
  std::vector<double> scores;
  FLAGS_num_threads = s.range(1, 4);
  Status st = EvaluateForest(ds.get(), f, &scores);
  ctx.nontrivial_if(uses);
  if (!uses) {
    CHECK_THAT(st.ok(), "status", st.ToString());
    return;
  }
  CHECK_THAT(!st.ok(), "accepted", "a forest using an absent feature is evaluated");
  CHECK_THAT(scores.empty(), "accepted", "scores are returned along with the error");
}

// The same table as flat files, loaded lazily while it is evaluated.
PROP(flatfiles, 40) {
  int bulk = s.chance(1, 200) ? 2 : 0;
  int n = bulk ? s.range(200, 3000) : s.length(1, 30);
  ref::Table t = ref::gen_table(s, n, bulk ? 20 : 5, bulk, false);
  Forest f = gen_forest(s, t, s.range(1, 5), 4);
  FLAGS_num_threads = s.range(1, 6);
  std::string dir = pbt::scratch() + "/flat";
  mkdir(dir.c_str(), 0755);
  for (auto& c : t.cols) {
    std::string text = c.cat ? "# dtype=strings\n" : "# dtype=bucketized_floats\n";
    char b[64];
    for (int i = 0; i < n; ++i) {
      if (c.cat) text += c.s[i] + "\n";
      else snprintf(b, sizeof b, "%.9g\n", c.f[i]), text += std::isnan(c.f[i]) ? "NaN\n" : b;
    }
    pbt::write_file(dir + "/" + c.name, text);
  }
  ctx.describe([&](std::ostream& o) { t.describe(o); o << " forest: " << f.ShortDebugString().substr(0, 1500); });
  FlatfilesDataStore ds(dir);
  // A forest without splits needs no column, and the store then has no rows.
  bool any = false;
  for (auto& tree : f.tree()) any |= tree.has_left_child();
  std::vector<double> scores;
  Status st = EvaluateForest(&ds, f, &scores);
  CHECK_THAT(st.ok(), "status", st.ToString());
  if (!any) return;
  ctx.nontrivial();
  CHECK_THAT(int(scores.size()) == n, "size", scores.size() << " scores for " << n << " rows");
  for (int i = 0; i < n; ++i) {
    double want = ref::predict(f, t, i);
    CHECK_THAT(close(scores[i], want, mass_of(f, t, i)), "score", "row " << i << " scores " << scores[i] << ", walking the trees gives " << want);
  }
}
