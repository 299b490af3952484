// C21: invalid training requests are refused cleanly.
#include "training.h"

#include "src/data_store/flatfiles_data_store.h"
#include "src/data_store/tsv_data_store.h"
#include "src/gbdt_algo/utils.h"

#include <sys/stat.h>
#include <unistd.h>

using namespace gbdt;

void harness_init() { quiet_logs(); }

static const std::vector<std::string> kPairwise = {"auc", "pairwise_logloss", "gbrank", "lambdamart"};
static const std::vector<std::string> kAll = {"mse", "logloss", "huberized_hinge", "auc", "pairwise_logloss", "gbrank", "lambdamart"};
static bool is_pairwise(const std::string& l) { return std::find(kPairwise.begin(), kPairwise.end(), l) != kPairwise.end(); }

struct Request {
  Problem p;
  std::vector<std::string> group;
  std::unordered_set<std::string> features;
  std::unique_ptr<Forest> base;
  bool refuse = false, reached = true;  // reached: nothing is refused before the loss is asked
  std::string why;
};

static void scores_finite(const TreeNode& n) {
  CHECK_THAT(std::isfinite(n.score()), "finite", "the model holds score " << n.score());
  if (n.has_left_child()) scores_finite(n.left_child()), scores_finite(n.right_child());
}

static std::string invalidate(pbt::Source& s, Request* r) {
  Config& c = r->p.config;
  const std::vector<float> bad_rates = {0, -0.0f, NAN, -NAN, -1, -1e-30f, 1.0000001f, 2, 1e30f, INFINITY, -INFINITY, 100};
  switch (s.weighted({3, 3, 3, 3, 3, 2, 3, 2, 2})) {
    case 0: c.set_num_trees(s.pick<int>({0, -1, -5, INT_MIN})); return "num_trees";
    case 1: c.set_num_leaves(s.pick<int>({0, -1, -7, INT_MIN})); return "num_leaves";
    case 2: c.set_example_sampling_rate(s.pick(bad_rates)); return "example_sampling_rate";
    case 3: c.set_feature_sampling_rate(s.pick(bad_rates)); return "feature_sampling_rate";
    case 4: {
      std::string extra = s.pick<const char*>({"nothing", "", "F0", "f0 ", "__missing__", "the grou", "x/y", "../f0"});
      if (r->p.t.find(extra)) extra = "no such feature";
      r->features.insert(extra);
      return "unknown feature";
    }
    case 5: {
      if (is_pairwise(r->p.loss)) return "";
      if (r->p.loss == "mse") return "";
      r->p.y[s.draw(r->p.y.size())] = s.pick<float>({0, 2, NAN, 0.5f, -2, INFINITY, 1.0000001f});
      return "target";
    }
    case 6:
      if (!is_pairwise(r->p.loss)) return "";
      c.set_pair_sampling_rate(s.pick<float>({0, -0.0f, -1, NAN, -NAN, -1e-30f, -INFINITY}));
      return "pair_sampling_rate";
    case 7: {
      c.set_group_column("no such group");
      return "group column";
    }
    default: {
      r->base.reset(new Forest(gen_forest(s, r->p.t, s.range(0, 2), 2)));
      auto* t = r->base->add_tree();
      t->mutable_split()->set_feature("not in the data");
      t->mutable_split()->set_gain(1);
      if (s.flip()) t->mutable_split()->mutable_float_split()->set_threshold(1);
      else t->mutable_split()->mutable_cat_split()->add_category("a");
      t->mutable_left_child()->set_score(1);
      t->mutable_right_child()->set_score(2);
      if (s.flip()) {  // deeper down
        TreeNode inner = *t;
        t->mutable_split()->set_feature(r->p.t.cols[0].name);
        if (r->p.t.cols[0].cat) t->mutable_split()->mutable_cat_split()->add_category("a");
        else t->mutable_split()->mutable_float_split()->set_threshold(2);
        *t->mutable_right_child() = inner;
      }
      return "base forest";
    }
  }
}

static Request gen(pbt::Source& s) {
  Request r;
  r.p = gen_problem(s, s.chance(1, 25), kAll);
  Problem& p = r.p;
  auto rb = s.bulk();
  if (is_pairwise(p.loss)) {
    bool groups = s.flip();
    int k = s.range(1, 8);
    for (int i = 0; i < p.t.n; ++i) {
      p.y[i] = std::round(p.y[i]);
      if (groups) r.group.push_back(rb.below(8) == 0 ? "__missing__" : "g" + std::to_string(rb.below(k)));
    }
    if (groups) p.config.set_group_column("the group");
    p.config.set_pair_sampling_rate(s.pick<float>({1, 3, 0.01f, 20}));
    p.config.set_equal_group_weight(s.chance(1, 3));
  }
  p.config.set_example_sampling_rate(s.pick<float>({1, 1, 0.5f, 1e-30f, 0.9999999f}));
  p.config.set_feature_sampling_rate(s.pick<float>({1, 1, 0.5f, 1e-30f, 0.9999999f}));
  if (s.chance(1, 8)) p.config.set_num_leaves(INT_MAX);
  if (s.chance(1, 8)) p.config.set_eval_interval(s.pick<int>({-1, 1, INT_MAX, INT_MIN}));
  // Everything in use that the data has, or some of it.
  for (auto& c : p.t.cols) if (s.chance(4, 5)) r.features.insert(c.name);
  // A hessian limit keeps scores finite without regularization.
  if (p.config.l2_lambda() == 0) p.config.set_l2_lambda(0.5);
  return r;
}

static void describe(pbt::Ctx& ctx, const Request& r, const std::string& why) {
  ctx.describe([&](std::ostream& o) {
    r.p.describe(o);
    o << "features " << pbt::show(std::vector<std::string>(r.features.begin(), r.features.end())) << " group=" << pbt::show(r.group).substr(0, 300);
    if (r.base) o << " base " << r.base->ShortDebugString().substr(0, 500);
    o << (why.empty() ? " (valid)" : " (invalid: " + why + ") ");
  });
}

static Status attempt(const Request& r, DataStore* ds, Forest* out, Recorder* rec) {
  Problem q = r.p;
  Subsampling::Reseed(1);
  return TrainGBDT(ds, r.features, r.p.wf(), r.p.yf(), rec, r.p.config, r.base.get(), out);
}

PROP(requests, 6) {
  Request good = gen(s);
  Request bad;
  bad.p = good.p, bad.group = good.group, bad.features = good.features;
  std::string why;
  int faults = s.weighted({2, 5, 1});
  for (int k = 0; k < faults; ++k) {
    std::string w = invalidate(s, &bad);
    if (!w.empty()) why += (why.empty() ? "" : ", ") + w;
  }
  describe(ctx, bad, why);
  auto ds = good.p.t.store();
  if (!good.group.empty()) CHECK_THAT(ds->Add(Column::CreateStringColumn("the group", good.group)).ok(), "setup", "group");
  if (!why.empty()) {
    ctx.label(why.find(',') == std::string::npos ? why : "several faults");
    ctx.nontrivial();
    Recorder rec(bad.p.make_loss());
    Forest f;
    Status st = attempt(bad, ds.get(), &f, &rec);
    CHECK_THAT(!st.ok(), "refuse", "a request with invalid " << why << " is granted with " << f.tree_size() << " trees");
    CHECK_THAT(!st.ToString().empty() && f.ByteSizeLong() == 0, "no-model", "refused (" << st.ToString() << "), yet there is a model: " << f.ShortDebugString().substr(0, 300));
    CHECK_THAT(rec.calls.empty(), "no-model", "refused after training began");
  }
  // The valid request on the same data is granted, also after the refusal.
  Recorder rec(good.p.make_loss());
  Forest f;
  Status st = attempt(good, ds.get(), &f, &rec);
  if (!is_pairwise(good.p.loss) && diverged(rec, st, good.p.loss != "logloss")) {
    ctx.label("diverged");
    return;
  }
  ctx.label(good.p.loss);
  CHECK_THAT(st.ok(), "grant", "a valid request is refused: " << st.ToString());
  CHECK_THAT(f.tree_size() == good.p.config.num_trees() + 1, "trees", f.tree_size() << " trees for num_trees " << good.p.config.num_trees());
  for (auto& t : f.tree()) scores_finite(t);
  std::vector<double> v;
  st = EvaluateForest(ds.get(), f, &v);
  CHECK_THAT(st.ok() && int(v.size()) == good.p.t.n, "predict", st.ToString());
  for (double x : v) CHECK_THAT(std::isfinite(x), "finite", "prediction " << x);
  std::unordered_set<std::string> used = CollectAllFeatures(f);
  for (auto& x : used) CHECK_THAT(good.features.count(x), "features", "the model uses " << x << ", which was not asked for");
}

// Loss names: the listed ones, exactly.
PROP(loss_names, 1) {
  auto names = LossFuncFactory::LossFuncs();
  std::set<std::string> have(names.begin(), names.end()), want(kAll.begin(), kAll.end());
  CHECK_THAT(names.size() == have.size(), "names", "a loss is listed twice: " << pbt::show(names));
  for (auto& n : want) CHECK_THAT(have.count(n), "names", n << " is not listed");
  Config c;
  std::string name;
  switch (s.range(0, 3)) {
    case 0: name = s.pick(names); break;
    case 1: name = s.pick(kAll) + s.pick<const char*>({" ", "x", "\n", "_"}); break;
    case 2: {
      name = s.pick(kAll);
      size_t i = s.draw(name.size());
      int how = s.range(0, 2);
      if (how == 0) name[i] = toupper(name[i]) == name[i] ? 'q' : toupper(name[i]);
      else if (how == 1) name.erase(i, 1);
      else name = name.substr(0, i) + "m" + name.substr(i);
      break;
    }
    default: name = s.pick<const char*>({"", "MSE", "l2", "rank", "logistic", "auc,mse", "pairwise", "__missing__"}); break;
  }
  c.set_loss_func(name);
  c.set_pair_sampling_rate(s.pick<float>({0, 1, NAN}));
  c.set_lambdamart_dcg_base(s.pick<float>({0, 2, -1, NAN}));
  ctx.describe([&](std::ostream& o) { o << "loss " << pbt::quote(name); });
  auto l = LossFuncFactory::CreateLossFunc(c);
  CHECK_THAT((l != nullptr) == (have.count(name) > 0), "names", pbt::quote(name) << (l ? " yields a loss" : " yields no loss"));
  ctx.nontrivial_if(!have.count(name));
}

// Features and groups that files do not have, or have in a form that cannot be read.
PROP(files, 2) {
  std::string dir = pbt::fresh_path("data");
  mkdir(dir.c_str(), 0755);
  int n = s.range(1, 12);
  bool flat = s.flip();
  std::vector<std::string> paths;
  auto r = s.bulk();
  std::string fs, ts, gs, tsv = "f\ty\tg\n";
  std::vector<float> y;
  for (int i = 0; i < n; ++i) {
    y.push_back(r.below(4));
    std::string a = std::to_string(r.below(6)), b = std::to_string(int(y[i])), g = "g" + std::to_string(r.below(2));
    fs += a + "\n", ts += b + "\n", gs += g + "\n", tsv += a + "\t" + b + "\t" + g + "\n";
  }
  int fault = s.range(0, 4);
  // 0: none; 1: no such feature; 2: unreadable or other length; 3: no such group; 4: group of another type
  int threads = s.range(1, 4);
  FLAGS_num_threads = threads;
  std::string name = s.pick<const char*>({"mse", "auc", "lambdamart"});
  ctx.describe([&](std::ostream& o) { o << (flat ? "flat files" : "tsv") << " " << n << " rows, fault " << fault << " loss " << name << " " << pbt::quote(tsv) << " "; });
  Config c;
  c.set_num_trees(2), c.set_num_leaves(3), c.set_shrinkage(0.5), c.set_l2_lambda(1);
  c.set_example_sampling_rate(1), c.set_feature_sampling_rate(1), c.set_loss_func(name), c.set_pair_sampling_rate(2);
  c.add_float_feature("f");
  c.set_group_column(fault == 3 ? "no group" : fault == 4 ? "f" : "g");
  std::unique_ptr<DataStore> ds;
  auto put = [&](const std::string& x, const std::string& text) {
    pbt::write_file(dir + "/" + x, text);
    paths.push_back(dir + "/" + x);
  };
  std::unordered_set<std::string> features = {"f"};
  std::string odd;
  if (flat) {
    put("f", "# dtype=bucketized_floats\n" + fs);
    put("y", "# dtype=raw_floats\n" + ts);
    put("g", "# dtype=strings\n" + gs);
    put("short", "# dtype=bucketized_floats\n" + fs + "1\n");
    put("untyped", fs);
    put("odd", "# dtype=ints\n" + fs);
    ds.reset(new FlatfilesDataStore({dir}));
    odd = s.pick<const char*>({"short", "untyped", "odd", ".", ".."});
  } else {
    put("t", tsv);
    c.set_target_column("y");
    Config load = c;
    load.set_group_column("g");
    ds.reset(new TSVDataStore({paths[0]}, load));
    odd = "h";
  }
  CHECK_THAT(ds->GetRawFloatColumn("y") || fault, "setup", "targets");
  ds->GetRawFloatColumn("y");
  if (fault == 1) features.insert(s.pick<const char*>({"absent", "F", "f\n", ""}));
  if (fault == 2) features.insert(odd);
  auto loss = LossFuncFactory::CreateLossFunc(c);
  Forest f;
  Status st = TrainGBDT(ds.get(), features, [](int) { return 1.0f; }, [&y](int i) { return y[i]; }, loss.get(), c, nullptr, &f);
  for (auto& x : paths) unlink(x.c_str());
  rmdir(dir.c_str());
  if (fault) {
    ctx.nontrivial();
    ctx.label("fault " + std::to_string(fault));
    CHECK_THAT(!st.ok(), "refuse", "granted with " << f.tree_size() << " trees");
    CHECK_THAT(f.ByteSizeLong() == 0, "no-model", "refused, yet there is a model");
  } else {
    CHECK_THAT(st.ok() && f.tree_size() == 3, "grant", st.ToString());
    for (auto& t : f.tree()) scores_finite(t);
  }
}
