// C17: training is reproducible and independent of threads.
#include "training.h"

#include "src/data_store/flatfiles_data_store.h"
#include "src/data_store/tsv_data_store.h"

#include <sys/stat.h>
#include <unistd.h>

using namespace gbdt;

void harness_init() { quiet_logs(); }

static const std::vector<std::string> kPairwise = {"auc", "pairwise_logloss", "gbrank", "lambdamart"};

// A training problem for any loss; the pairwise ones get groups and graded targets.
struct Full {
  Problem p;
  std::vector<std::string> group;  // empty: none
  bool pairwise = false;
  int seed = 0;
  void describe(std::ostream& o) const {
    p.describe(o);
    o << "group=" << pbt::show(group).substr(0, 300) << " seed=" << seed << " ";
  }
  std::unique_ptr<DataStore> store() const {
    auto ds = p.t.store();
    if (!group.empty()) {
      Status st = ds->Add(Column::CreateStringColumn("the group", group));
      CHECK_THAT(st.ok(), "setup", st.ToString());
    }
    return ds;
  }
};
static Full gen_full(pbt::Source& s, int bulk, bool sampling) {
  Full f;
  f.pairwise = s.flip();
  f.p = gen_problem(s, bulk, f.pairwise ? kPairwise : std::vector<std::string>{"mse", "logloss", "huberized_hinge"});
  int n = f.p.t.n;
  if (f.pairwise) {
    auto r = s.bulk();
    bool groups = s.flip();
    int k = s.range(1, 12);
    for (int i = 0; i < n; ++i) {
      f.p.y[i] = std::round(f.p.y[i]);
      if (groups) f.group.push_back(r.below(8) == 0 ? "__missing__" : "g" + std::to_string(r.below(k)));
    }
    if (groups) f.p.config.set_group_column("the group");
    f.p.config.set_pair_sampling_rate(s.pick<float>({3, 1, 20}));
    f.p.config.set_pair_weight_by_delta_target(s.flip());
    f.p.config.set_equal_group_weight(s.chance(1, 3));
  }
  if (sampling) {
    f.p.config.set_example_sampling_rate(s.pick<float>({1, 0.5f, 0.8f}));
    f.p.config.set_feature_sampling_rate(s.pick<float>({1, 0.5f, 0.8f}));
  }
  f.seed = s.range(0, 1000);
  return f;
}

struct Outcome {
  Status st;
  Forest forest;
};
static Outcome train(const Full& f, int threads, LossFunc* loss) {
  Outcome o;
  FLAGS_num_threads = threads;
  auto ds = f.store();
  Subsampling::Reseed(f.seed);
  o.st = TrainGBDT(ds.get(), f.p.t.names(), f.p.wf(), f.p.yf(), loss, f.p.config, nullptr, &o.forest);
  o.forest.clear_meta_info();
  return o;
}

// The same seed and number of threads: the same forest, bit for bit.
PROP_EX(reproducible, 3, 60, true) {
  int bulk = s.chance(1, 150) ? 2 : s.chance(1, 15);
  Full f = gen_full(s, bulk, true);
  int threads = s.range(1, bulk == 2 ? 20 : 8), times = s.range(1, 3);
  ctx.describe([&](std::ostream& o) { f.describe(o); });
  ctx.label(f.p.loss);
  auto l0 = f.p.make_loss();
  Outcome a = train(f, threads, l0.get());
  bool split = false;
  for (auto& t : a.forest.tree()) split |= t.has_left_child();
  ctx.nontrivial_if(split);
  if (f.pairwise && split) ctx.label("pairs sampled and split");
  for (int k = 0; k < times; ++k) {
    auto l = f.p.make_loss();
    // Something else happens in between: other draws, other training.
    if (s.flip()) Subsampling::UniformSubsample(s.range(0, 50), 0.5);
    Outcome b = train(f, threads, l.get());
    CHECK_THAT(a.st.ok() == b.st.ok(), "status", a.st.ToString() << " and " << b.st.ToString());
    if (!a.st.ok()) continue;
    CHECK_THAT(a.forest.SerializeAsString() == b.forest.SerializeAsString(), "reproducible",
               "two runs differ: " << a.forest.ShortDebugString().substr(0, 600) << " and " << b.forest.ShortDebugString().substr(0, 600));
  }
}

// Other numbers of threads: the same model up to rounding, for losses that do not sample pairs.
PROP_EX(thread_counts, 3, 60, true) {
  int bulk = s.chance(1, 150) ? 2 : s.chance(1, 15);
  Full f;
  f.p = gen_problem(s, bulk, {"mse", "logloss", "mse", "huberized_hinge"});
  f.p.config.set_example_sampling_rate(s.pick<float>({1, 1, 0.6f}));
  f.p.config.set_feature_sampling_rate(s.pick<float>({1, 1, 0.6f}));
  bool all = f.p.config.example_sampling_rate() == 1;
  f.seed = s.range(0, 1000);
  int ta = s.range(1, 8), tb = s.range(1, 8);
  ctx.describe([&](std::ostream& o) { f.describe(o); o << ta << " and " << tb << " threads "; });
  ctx.label(f.p.loss);
  Recorder ra(f.p.make_loss()), rb(f.p.make_loss());
  Outcome a = train(f, ta, &ra), b = train(f, tb, &rb);
  if (diverged(ra, a.st, f.p.loss != "logloss") || diverged(rb, b.st, f.p.loss != "logloss")) {
    ctx.label("diverged");
    return;
  }
  CHECK_THAT(a.forest.tree_size() == b.forest.tree_size(), "trees", a.forest.tree_size() << " and " << b.forest.tree_size() << " trees");
  bool split = false;
  double reach = 1;
  for (int k = 1; k < a.forest.tree_size(); ++k) {
    auto &ca = ra.calls[k - 1], &cb = rb.calls[k - 1];
    double far = std::fabs(ca.c);
    for (double v : ca.f) far = std::max(far, std::fabs(v));
    if (f.p.loss == "logloss" && far > 6) {
      ctx.label("far out");
      return;
    }
    if (f.p.loss == "huberized_hinge" && near_bend(f.p, ca.f, k == 1)) {
      ctx.label("at a bend of the hinge");
      return;
    }
    reach = std::max(reach, far);
    for (int i = 0; i < f.p.t.n; ++i)
      CHECK_THAT(std::fabs(ca.f[i] - cb.f[i]) <= 1e-4 * reach, "predictions", "before tree " << k << " row " << i << " has prediction " << ca.f[i] << " and " << cb.f[i]);
    split |= a.forest.tree(k).has_left_child();
    std::string why;
    if (bulk == 2 && largest_leaf(a.forest.tree(k)) < 1e-3 * reach) {
      ctx.label("converged");  // what is left to learn is near the rounding of the scores
      break;
    }
    int d = compare(a.forest.tree(k), b.forest.tree(k), &why, bulk == 2 ? 1e-5 * reach : 1e-6);
    if (d == 0) continue;
    // With row sampling the sums at a node are unknown here, so small gains may be ties.
    if (d == 1 || !all || near_tie(f.p, ra, a.forest.tree(k), k - 1)) {
      ctx.label("tied gains");
      if (!all && d == 2) {
        double ga = a.forest.tree(k).has_left_child() ? a.forest.tree(k).split().gain() : 0, gb = b.forest.tree(k).has_left_child() ? b.forest.tree(k).split().gain() : 0;
        CHECK_THAT(std::fabs(ga - gb) <= 1e-3 * (ga + gb) + 1e-3 + 2e-3 * f.p.config.min_gain() || std::min(ga, gb) == 0, "same-model", "tree " << k << " differs at its root: " << why);
      }
      return;
    }
    FAIL("same-model", "tree " << k << " differs with the number of threads: " << why);
  }
  ctx.nontrivial_if(split && ta != tb);
  std::vector<double> sa, sb;
  auto ds = f.store();
  FLAGS_num_threads = ta;
  CHECK_THAT(EvaluateForest(ds.get(), a.forest, &sa).ok(), "evaluate", "fails");
  FLAGS_num_threads = tb;
  CHECK_THAT(EvaluateForest(ds.get(), a.forest, &sb).ok(), "evaluate", "fails");
  for (int i = 0; i < f.p.t.n; ++i) CHECK_THAT(sa[i] == sb[i], "evaluate", "row " << i << ": the same forest predicts " << sa[i] << " with " << ta << " threads, " << sb[i] << " with " << tb);
}

// Loading, training and evaluation from files; ThreadSanitizer watches when this is built with it.
PROP_EX(pipeline, 2, 90, true) {
  bool bulk = s.chance(1, 10);
  Full f = gen_full(s, bulk, true);
  f.p.config.set_num_trees(std::min(f.p.config.num_trees(), 3));
  int threads = s.range(2, 8);
  bool flat = s.flip();
  ctx.describe([&](std::ostream& o) { f.describe(o); o << threads << " threads" << (flat ? " flat files" : " tsv") << " "; });
  ctx.label(f.p.loss);
  FLAGS_num_threads = threads;
  int n = f.p.t.n;
  auto num = [](float v) { return std::isnan(v) ? std::string("nan") : [](float v) { char b[40]; snprintf(b, sizeof b, "%.9g", v); return std::string(b); }(v); };
  std::string dir = pbt::fresh_path("data");
  mkdir(dir.c_str(), 0755);
  std::vector<std::string> files;
  std::unique_ptr<DataStore> ds;
  Config load = f.p.config;
  if (flat) {
    auto put = [&](const std::string& name, const std::string& head, const std::vector<std::string>& cells) {
      std::string t = "# dtype=" + head + "\n";
      for (auto& c : cells) t += c + "\n";
      pbt::write_file(dir + "/" + name, t);
      files.push_back(dir + "/" + name);
    };
    for (auto& c : f.p.t.cols) {
      std::vector<std::string> cells;
      for (int i = 0; i < n; ++i) cells.push_back(c.cat ? (c.s[i].empty() ? "z" : c.s[i]) : num(c.f[i]));
      put(c.name, c.cat ? "strings" : "bucketized_floats", cells);
    }
    if (!f.group.empty()) put("the group", "strings", f.group);
    ds.reset(new FlatfilesDataStore({dir}));
  } else {
    int blocks = s.range(1, 4);
    std::string head, body;
    for (auto& c : f.p.t.cols) {
      head += c.name + "\t";
      if (c.cat) load.add_categorical_feature(c.name);
      else load.add_float_feature(c.name);
    }
    head += "the group\tx\n";
    if (!f.group.empty()) load.add_additional_string_column("the group");
    std::vector<std::string> text(blocks);
    for (int i = 0; i < n; ++i) {
      std::string line;
      for (auto& c : f.p.t.cols) line += (c.cat ? c.s[i] : num(c.f[i])) + "\t";
      line += (f.group.empty() ? "g" : f.group[i]) + "\t1\n";
      text[i * blocks / n] += line;
    }
    text[0] = head + text[0];
    for (int b = 0; b < blocks; ++b) {
      files.push_back(dir + "/b" + std::to_string(b));
      pbt::write_file(files.back(), text[b]);
    }
    TSVDataStore* tsv = new TSVDataStore(files, load);
    ds.reset(tsv);
    CHECK_THAT(tsv->status().ok(), "load", tsv->status().ToString());
  }
  std::string out;
  std::vector<double> scores, again;
  bool split = false;
  for (int round = 0; round < 2; ++round) {
    auto loss = f.p.make_loss();
    Subsampling::Reseed(f.seed);
    Forest forest;
    // Concurrent requests for the lazily loaded columns are part of training and evaluation.
    Status st = TrainGBDT(ds.get(), f.p.t.names(), f.p.wf(), f.p.yf(), loss.get(), f.p.config, nullptr, &forest);
    if (!st.ok()) {
      ctx.label("training refused");
      break;
    }
    forest.clear_meta_info();
    if (round == 0) out = forest.SerializeAsString();
    else CHECK_THAT(out == forest.SerializeAsString(), "reproducible", "two runs differ");
    CHECK_THAT(EvaluateForest(ds.get(), forest, &scores).ok(), "evaluate", "fails");
    if (round == 0) again = scores;
    else CHECK_THAT(again == scores, "evaluate", "two evaluations differ");
    for (auto& t : forest.tree()) split |= t.has_left_child();
  }
  ctx.nontrivial_if(split);
  for (auto& x : files) unlink(x.c_str());
  rmdir(dir.c_str());
}
