// C11: boosting adds shrunken Newton steps.
#include "training.h"

#include <google/protobuf/descriptor.h>
#include <google/protobuf/text_format.h>

using namespace gbdt;

void harness_init() { quiet_logs(); }

static void check_description(const Problem& p, const Forest& f) {
  const std::string& m = f.meta_info();
  auto has = [&](const std::string& key, const std::string& value) {
    size_t i = m.find(key + ": " + value);
    CHECK_THAT(i != std::string::npos, "description", "the description lacks " << key << ": " << value << " -- " << m);
  };
  // Every field that is set.
  auto* d = p.config.GetDescriptor();
  auto* r = p.config.GetReflection();
  for (int i = 0; i < d->field_count(); ++i) {
    auto* f = d->field(i);
    if (f->name() == "float_feature" || f->name() == "categorical_feature") continue;  // the trees name what they use
    int n = f->is_repeated() ? r->FieldSize(p.config, f) : r->HasField(p.config, f) ? 1 : 0;
    for (int k = 0; k < n; ++k) {
      std::string v;
      google::protobuf::TextFormat::PrintFieldValueToString(p.config, f, f->is_repeated() ? k : -1, &v);
      std::replace(v.begin(), v.end(), '"', '\'');
      has(f->name(), v);
    }
  }
}

static void steps(pbt::Source& s, pbt::Ctx& ctx, int bulk) {
  Problem p = gen_problem(s, bulk, {"mse", "logloss", "huberized_hinge", "custom"});
  // What the library leaves to its callers.
  if (s.chance(1, 4)) {
    p.config.set_eval_interval(s.range(0, 100000));
    p.config.set_binarize_target(s.flip());
    p.config.set_target_column("the target" + std::string(s.length(0, 300), 't'));
    if (s.flip()) p.config.set_weight_column("w");
    int k = s.length(0, 40);
    for (int i = 0; i < k; ++i) (s.flip() ? p.config.add_float_feature(nullptr, 0) : p.config.add_categorical_feature(nullptr, 0));
    for (auto& f : *p.config.mutable_float_feature()) f = "feature " + std::to_string(s.range(0, 99));
    for (auto& f : *p.config.mutable_categorical_feature()) f = "category " + std::to_string(s.range(0, 99));
  }
  ctx.describe([&](std::ostream& o) { p.describe(o); });
  ctx.label(p.loss);
  auto ds = p.t.store();
  std::unique_ptr<Recorder> rec;
  if (p.loss == "custom") rec.reset(new Recorder(s.draw(0), -1, 0));
  else rec.reset(new Recorder(p.make_loss()));
  Forest forest;
  Status st = TrainGBDT(ds.get(), p.t.names(), p.wf(), p.yf(), rec.get(), p.config, nullptr, &forest);
  if (diverged(*rec, st, p.loss != "logloss")) {
    ctx.label("diverged");
    return;
  }
  int splits = check_run(p, *rec, forest, 1, 0);
  for (auto& t : forest.tree()) check_no_internal_fields(t);
  check_description(p, forest);
  ctx.nontrivial_if(splits >= 1);
  // The forest predicts what was optimised.
  std::vector<double> scores;
  st = EvaluateForest(ds.get(), forest, &scores);
  CHECK_THAT(st.ok() && int(scores.size()) == p.t.n, "evaluate", st.ToString());
  auto& last = rec->calls.back();
  const TreeNode& tree = forest.tree(forest.tree_size() - 1);
  for (int i = 0; i < p.t.n; ++i) {
    double want = last.f[i] + last.c + ref::walk(tree, p.t, i).score(), mass = std::fabs(last.f[i]);
    for (auto& c : rec->calls) mass += std::fabs(c.c);
    for (auto& t : forest.tree()) mass += std::fabs(ref::walk(t, p.t, i).score());
    CHECK_THAT(std::fabs(scores[i] - want) <= 2e-6 * mass + 1e-12, "evaluate", "row " << i << ": the forest predicts " << scores[i] << ", training ended at " << want);
  }
  // Squared error never grows.
  if (p.loss == "mse") {
    auto loss = [&](const std::vector<double>& f) {
      long double l = 0;
      for (int i = 0; i < p.t.n; ++i) l += (long double)p.w[i] * (p.y[i] - f[i]) * (p.y[i] - f[i]);
      return l;
    };
    long double scale = 0;
    for (int i = 0; i < p.t.n; ++i) scale += (long double)p.w[i] * (1 + p.y[i] * p.y[i]);
    for (size_t k = 0; k < rec->calls.size(); ++k) {
      long double before = loss(rec->calls[k].f), after = k + 1 < rec->calls.size() ? loss(rec->calls[k + 1].f) : loss(scores);
      CHECK_THAT(after <= before + 1e-5L * scale, "loss", "tree " << k + 1 << " takes the training loss from " << double(before) << " to " << double(after));
    }
  }
}

PROP(steps, 150) { steps(s, ctx, s.chance(1, 25)); }
// Dozens of trees, dozens of features, thousands of rows, more threads.
PROP_EX(large, 1, 120, false) { steps(s, ctx, 2); }

// Constants that are not numbers end the training with an error.
PROP(divergence, 30) {
  Problem p = gen_problem(s, false, {"custom"});
  int at = s.range(0, p.config.num_trees() + 1);
  double bad = s.pick<double>({NAN, INFINITY, -INFINITY});
  uint64_t seed = s.draw(1000);
  ctx.describe([&](std::ostream& o) { p.describe(o); o << "constant " << bad << " at iteration " << at; });
  auto ds = p.t.store();
  Recorder rec(seed, at, bad);
  Forest forest;
  Status st = TrainGBDT(ds.get(), p.t.names(), p.wf(), p.yf(), &rec, p.config, nullptr, &forest);
  bool reached = at < p.config.num_trees();
  ctx.nontrivial_if(reached);
  CHECK_THAT(st.ok() == !reached, "divergence", (reached ? "the constant is not a number, yet training succeeds" : "training fails: " + st.ToString()));
  if (reached) CHECK_THAT(int(rec.calls.size()) == at + 1, "divergence", "training goes on after the constant is not a number");
}

// Row and feature sampling: what does not depend on the draw.
PROP(sampled, 30) {
  Problem p = gen_problem(s, s.chance(1, 200) ? 2 : 0, {"mse", "logloss", "custom"});
  p.config.set_example_sampling_rate(s.pick<float>({0.5f, 0.8f, 1.0f}));
  p.config.set_feature_sampling_rate(s.pick<float>({0.5f, 0.8f, 1.0f}));
  int seed = s.range(0, 100);
  ctx.describe([&](std::ostream& o) { p.describe(o); o << "seed " << seed; });
  auto ds = p.t.store();
  std::unique_ptr<Recorder> rec;
  if (p.loss == "custom") rec.reset(new Recorder(s.draw(0), -1, 0));
  else rec.reset(new Recorder(p.make_loss()));
  Subsampling::Reseed(seed);
  Forest forest;
  Status st = TrainGBDT(ds.get(), p.t.names(), p.wf(), p.yf(), rec.get(), p.config, nullptr, &forest);
  if (diverged(*rec, st, p.loss != "logloss")) {
    ctx.label("diverged");
    return;
  }
  CHECK_THAT(forest.tree_size() == p.config.num_trees() + 1 && int(rec->calls.size()) == p.config.num_trees(), "trees", forest.tree_size() << " trees");
  bool split = false;
  std::vector<double> f(p.t.n, 0.0), mass(p.t.n, 0.0);
  double c = 0, cm = 0;
  for (int k = 0; k < p.config.num_trees(); ++k) {
    auto& call = rec->calls[k];
    for (int i = 0; i < p.t.n; ++i) {
      CHECK_THAT(std::fabs(call.f[i] - f[i]) <= 1e-6 * mass[i] + 1e-12, "predictions", "before tree " << k + 1 << " the loss is given " << call.f[i] << " for row " << i << ", the trees so far predict " << f[i]);
      double x = ref::walk(forest.tree(k + 1), p.t, i).score();
      f[i] += x + call.c, mass[i] += std::fabs(x) + std::fabs(call.c);
    }
    c += call.c, cm += std::fabs(call.c);
    CHECK_THAT(ref::leaves(forest.tree(k + 1)) <= p.config.num_leaves(), "num-leaves", "too many leaves");
    split |= forest.tree(k + 1).has_left_child();
  }
  CHECK_THAT(std::fabs(forest.tree(0).score() - c) <= 1e-6 * cm * (p.config.num_trees() + 8) + 1e-30, "constant", forest.tree(0).score() << " instead of " << c);
  for (auto& t : forest.tree()) check_no_internal_fields(t);
  ctx.nontrivial_if(split);
}
