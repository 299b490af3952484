// C22: the command-line tool trains and tests end to end. Runs the binary named by GBDT_BINARY.
#include "tool.h"

void harness_init() {
  quiet_logs();
  const char* b = getenv("GBDT_BINARY");
  g_binary = b ? b : "";
}

static void check_importance(const Forest& f, const std::string& text) {
  std::map<std::string, double> sum;
  std::function<void(const TreeNode&)> visit = [&](const TreeNode& n) {
    if (!n.has_left_child()) return;
    sum[n.split().feature()] += n.split().gain();
    visit(n.left_child()), visit(n.right_child());
  };
  for (auto& t : f.tree()) visit(t);
  double top = 0;
  for (auto& kv : sum) top = std::max(top, kv.second);
  std::istringstream in(text);
  std::string line;
  double last = 1;
  size_t lines = 0;
  while (std::getline(in, line)) {
    size_t tab = line.find('\t');
    CHECK_THAT(tab != std::string::npos, "importance", "line " << pbt::quote(line));
    auto it = sum.find(line.substr(0, tab));
    CHECK_THAT(it != sum.end(), "importance", "feature " << pbt::quote(line.substr(0, tab)) << " is not used by the model, or listed twice");
    char* e;
    double v = strtod(line.c_str() + tab + 1, &e);
    CHECK_THAT(*e == 0 && std::fabs(v - it->second / top) <= 1e-5 * v + 1e-9, "importance", "line " << pbt::quote(line) << ", expected " << it->second / top);
    CHECK_THAT(v <= last, "importance", "lines out of order");
    last = v;
    sum.erase(it);
    ++lines;
  }
  CHECK_THAT(sum.empty(), "importance", "feature " << sum.begin()->first << " is not listed");
}

PROP_EX(end_to_end, 5, 200, true) {
  Setup u = gen(s);
  Dir d;
  int parts = s.range(1, 3);
  bool stale = s.chance(1, 3), base = s.chance(1, 3);
  ctx.describe([&](std::ostream& o) { u.describe(o); o << parts << " parts" << (stale ? ", output exists" : "") << (base ? ", continued" : "") << " "; });
  ctx.label(u.p.loss), ctx.label(u.flat ? "flat" : "tsv");
  if (base) ctx.label("base model");
  write_json(u.p.config, d / "config.json");
  std::string data = write_data(u, d, "data", u.flat, parts, true), out = d / "out";
  Forest bf;
  if (base) {
    bf = normal(gen_forest(s, u.p.t, s.range(1, 3), 2));
    write_json(bf, d / "base.json");
  }
  if (stale) {
    mkdir(out.c_str(), 0755);
    pbt::write_file(out + "/" + u.name + ".json", std::string(200000, 'x'));
    pbt::write_file(out + "/" + u.name + ".fimps", std::string(5000, 'x'));
  }
  auto args = train_args(u, d, data, out);
  if (base) args.push_back("--base_model_file=" + (d / "base.json"));
  Forest want;
  Status st = library_model(u, base ? &bf : nullptr, &want);
  Ran r = run_binary(args, d);
  if (!st.ok()) {
    ctx.label("library refuses");
    expect_refusal(r, "training, which the library refuses with " + st.ToString() + ",");
    return;
  }
  expect_success(r, "training");
  std::set<std::string> names = {u.name + ".json", u.name + ".fimps"};
  std::set<std::string> there = list_dir(out);
  CHECK_THAT(there == names, "outputs", "the output directory holds " << pbt::show(std::vector<std::string>(there.begin(), there.end())));
  Forest f;
  std::string model = out + "/" + u.name + ".json";
  st = JsonUtils::FromJson(pbt::read_file(model), &f);
  CHECK_THAT(st.ok(), "model", "the model file cannot be parsed: " << st.ToString());
  int kept = 0;
  for (auto& t : bf.tree()) kept += t.has_left_child();
  CHECK_THAT(f.tree_size() == 1 + kept + u.p.config.num_trees(), "model", f.tree_size() << " trees for num_trees " << u.p.config.num_trees() << " and " << kept << " kept from the base model");
  CHECK_THAT(!f.meta_info().empty(), "model", "no meta info");
  CHECK_THAT(normal(f).SerializeAsString() == normal(want).SerializeAsString(), "model",
             "the model differs from the one the library trains: " << normal(f).ShortDebugString().substr(0, 700) << " and " << normal(want).ShortDebugString().substr(0, 700));
  check_importance(f, pbt::read_file(out + "/" + u.name + ".fimps"));
  bool split = false;
  for (auto& t : f.tree()) split |= t.has_left_child();
  ctx.nontrivial_if(split);

  // Test with that model: on the same files, and on the other form of the same rows.
  for (int other = 0; other < 2; ++other) {
    bool flat = u.flat != (other == 1);
    // A model without splits needs no column, so that flat files do not tell the number of rows (known finding).
    if (flat && !split) continue;
    std::string scores = d / ("scores" + std::to_string(other));
    std::string td = other ? write_data(u, d, "other", flat, s.range(1, 2), true) : data;
    Ran q = run_binary(test_args(u, d, td, model, scores), d);
    expect_success(q, "testing");
    check_scores(u, f, scores);
  }
  if (s.chance(1, 3)) {  // once more
    ctx.label("trained twice");
    std::string out2 = d / "out2";
    auto args2 = train_args(u, d, data, out2);
    if (base) args2.push_back("--base_model_file=" + (d / "base.json"));
    expect_success(run_binary(args2, d), "training again");
    Forest g;
    CHECK_THAT(JsonUtils::FromJson(pbt::read_file(out2 + "/" + u.name + ".json"), &g).ok(), "model", "cannot be parsed");
    CHECK_THAT(normal(f).SerializeAsString() == normal(g).SerializeAsString(), "same-seed", "the same seed gives another model");
  }
}

// Testing a given model.
PROP_EX(test_mode, 3, 200, true) {
  Setup u = gen(s);
  Dir d;
  Forest f = normal(gen_forest(s, u.p.t, s.length(1, 7), 3));
  bool split = false;
  for (auto& t : f.tree()) split |= t.has_left_child();
  if (!split) u.flat = false;
  bool targets = u.flat || s.flip();
  if (!targets) u.p.config.clear_target_column(), u.p.config.clear_weight_column(), u.p.config.clear_group_column();
  ctx.describe([&](std::ostream& o) { u.describe(o); o << f.ShortDebugString().substr(0, 1500); });
  ctx.nontrivial_if(split);
  write_json(u.p.config, d / "config.json");
  write_json(f, d / "model.json");
  std::string data = write_data(u, d, "data", u.flat, s.range(1, 3), targets), out = d / "out";
  if (s.flip()) mkdir(out.c_str(), 0755);
  expect_success(run_binary(test_args(u, d, data, d / "model.json", out), d), "testing");
  check_scores(u, f, out);
}

// One thing is missing, malformed, or cannot be written.
PROP_EX(faults, 5, 200, true) {
  Setup u = gen(s);
  Problem& p = u.p;
  Dir d;
  bool test = s.chance(2, 5);
  std::string out = d / "out", model = d / "model.json";
  Forest f = gen_forest(s, p.t, 3, 2);
  {
    auto* t = f.add_tree();  // at least one split
    auto& c = p.t.cols[0];
    t->mutable_split()->set_feature(c.name);
    t->mutable_split()->set_gain(1);
    if (c.cat) t->mutable_split()->mutable_cat_split()->add_category("a");
    else t->mutable_split()->mutable_float_split()->set_threshold(1);
    t->mutable_left_child()->set_score(1);
    t->mutable_right_child()->set_score(2);
  }
  f = normal(f);
  std::string config;
  JsonUtils::ToJson(p.config, &config);
  std::string data = write_data(u, d, "data", u.flat, 1, true);
  write_json(f, model);
  std::string base = d / "base.json";
  write_json(f, base);
  bool use_base = !test && s.chance(1, 3);
  const std::vector<std::string> bad_json = {"{", "x", "[]", "{\"nonsense\":1}", "{\"tree\":5,\"numTrees\":\"x\"}", "\x01"};
  std::string what;
  enum { kNone, kDropConfig, kDropData, kDropOut, kDropModel } drop = kNone;
  std::vector<std::string> extra;
  bool dir_in_place = s.flip();
  auto replace_file = [&](const std::string& path) {
    unlink(path.c_str());
    switch (s.range(0, 3)) {
      case 0: what += " missing"; break;
      case 1: mkdir(path.c_str(), 0755); what += " is a directory"; break;
      case 2: pbt::write_file(path, ""); what += " empty"; break;
      default: pbt::write_file(path, s.pick(bad_json)); what += " malformed"; break;
    }
  };
  pbt::write_file(d / "config.json", config);
  Config& c = p.config;
  auto rewrite = [&] { write_json(c, d / "config.json"); };
  int fault = test ? s.range(0, 8) : s.range(0, 19);
  switch (fault) {
    case 0: what = "no config flag", drop = kDropConfig; break;
    case 1: what = "config", replace_file(d / "config.json"); break;
    case 2: what = "no data flag", drop = kDropData; break;
    case 3: {  // data files
      if (u.flat) {
        if (s.flip()) {
          what = "flat file missing: " + p.t.cols[0].name;
          unlink((d / "data0/" + p.t.cols[0].name).c_str());
        } else {
          what = "flat file with another number of rows";
          pbt::write_file(d / "data0/" + p.t.cols[0].name, "# dtype=" + std::string(p.t.cols[0].cat ? "strings" : "bucketized_floats") + "\n" + std::string(2 * (p.t.n + 1), '1').replace(1, 1, "\n") + "\n");
          if (test && p.t.cols.size() < 2) what = "";
          if (test) {  // seen only if another column of the model has the right number
            std::set<std::string> used;
            for (auto& x : CollectAllFeatures(f)) used.insert(x);
            if (used.size() < 2) what = "";
          }
        }
      } else {
        std::string t = pbt::read_file(d / "data0.tsv");
        size_t nl = t.find('\n');
        switch (s.range(0, 3)) {
          case 0: what = "tsv missing", unlink((d / "data0.tsv").c_str()); break;
          case 1: {
            std::string line = "1";
            if (s.flip()) what = "tsv line too short";
            else {
              what = "tsv cell is not a number";
              for (char ch : t.substr(0, nl)) if (ch == '\t') line += "\tabc";
            }
            t.insert(nl + 1, line + "\n");
            pbt::write_file(d / "data0.tsv", t);
            break;
          }
          case 2: {
            what = "tsv header without " + p.t.cols[0].name;
            t.replace(t.find(p.t.cols[0].name), p.t.cols[0].name.size(), "other");
            pbt::write_file(d / "data0.tsv", t);
            break;
          }
          default: what = "second tsv missing", data += "," + (d / "nothing.tsv"); break;
        }
      }
      break;
    }
    case 4: what = "no output flag", drop = kDropOut; break;
    case 5: what = "output directory within a missing one", out = d / "no/such"; break;
    case 6: what = "output directory is a file", pbt::write_file(out, "x"); break;
    case 7:
      if (test) what = "model", replace_file(model);
      else what = "base model", use_base = true, replace_file(base);
      break;
    case 8: {  // outputs on a full device, or a directory in their place
      mkdir(out.c_str(), 0755);
      std::string target = test ? "/forest." + std::to_string(f.tree_size()) + ".score" : "/" + u.name + (s.flip() ? ".json" : ".fimps");
      target = out + target;
      if (dir_in_place) mkdir(target.c_str(), 0755);
      else if (symlink("/dev/full", target.c_str()) != 0) return;
      what = (dir_in_place ? "a directory in place of " : "a full device behind ") + target;
      // An empty importance file is complete on a full device.
      if (!dir_in_place && target.size() > 6 && target.substr(target.size() - 6) == ".fimps") {
        Forest m;
        Status st = library_model(u, use_base ? &f : nullptr, &m);
        bool split = false;
        for (auto& t : m.tree()) split |= t.has_left_child();
        if (st.ok() && !split) what = "";
      }
      break;
    }
    case 9: what = "unknown loss", c.set_loss_func(s.pick<const char*>({"", "MSE", "l2"})), rewrite(); break;
    case 10: what = "no target column configured", c.clear_target_column(), rewrite(); break;
    case 11: what = "target column not in the data", c.set_target_column("absent"), rewrite(); break;
    case 12: what = "weight column not in the data", c.set_weight_column("absent"), rewrite(); break;
    case 13: what = "group column not in the data", c.set_group_column("absent"), rewrite(); break;
    case 14: what = "feature not in the data", c.add_float_feature("absent"), rewrite(); break;
    case 15: {
      int k = s.range(0, 3);
      what = "invalid number in the config: " + std::to_string(k);
      if (k == 0) c.set_num_trees(s.pick<int>({0, -1}));
      if (k == 1) c.set_num_leaves(s.pick<int>({0, -1}));
      if (k == 2) c.set_example_sampling_rate(s.pick<float>({0, 2, NAN}));
      if (k == 3) c.set_feature_sampling_rate(s.pick<float>({0, 2, NAN}));
      rewrite();
      break;
    }
    case 16: what = "unknown mode", extra.push_back(std::string("--mode=") + s.pick<const char*>({"", "Train", "trian", "predict"})); break;
    case 17: what = "bad flag", extra.push_back(s.pick<const char*>({"--num_threads=abc", "--no_such_flag=1", "--seed=1.5"})); break;
    case 18:
      if (!u.pairwise && p.loss != "mse" && !u.binarize) {
        what = "target the loss rejects";
        p.y[0] = 3;
        write_data(u, d, "data", u.flat, 1, true);
      } else if (u.pairwise) {
        what = "pair sampling rate";
        c.set_pair_sampling_rate(s.pick<float>({0, -1, NAN}));
        rewrite();
      }
      break;
    default: {
      what = "base model with a feature not in the data";
      use_base = true;
      f.mutable_tree(f.tree_size() - 1)->mutable_split()->set_feature("absent");
      write_json(f, base);
    }
  }
  ctx.describe([&](std::ostream& o) { u.describe(o); o << (test ? "testing" : "training") << (use_base ? " from a base model" : "") << ", fault: " << what << " "; });
  if (what.empty()) {
    ctx.label("no fault");
    return;
  }
  ctx.nontrivial();
  ctx.label((test ? "test " : "train ") + what.substr(0, what.find(test || fault == 8 || fault == 3 ? " " : "\n")));
  auto args = test ? test_args(u, d, data, model, out) : train_args(u, d, data, out);
  if (use_base) args.push_back("--base_model_file=" + base);
  auto starts = [&](const char* x) {
    args.erase(std::remove_if(args.begin(), args.end(), [&](const std::string& a) { return a.compare(0, strlen(x), x) == 0; }), args.end());
  };
  if (drop == kDropConfig) starts("--config_file");
  if (drop == kDropData) starts("--tsvs"), starts("--flatfiles");
  if (drop == kDropOut) starts("--output_dir");
  for (auto& x : extra) args.push_back(x);
  expect_refusal(run_binary(args, d), what);
}

// ---- known findings ----
// A model without splits is tested on flat files: no column is loaded, so the score file is empty.
static bool constant_model_fails() {
  if (g_binary.empty()) return true;
  Dir d;
  Forest f;
  f.add_tree()->set_score(0.5);
  Config c;
  c.add_float_feature("x");
  c.set_target_column("y");
  write_json(c, d / "config.json");
  write_json(f, d / "model.json");
  mkdir((d / "data").c_str(), 0755);
  pbt::write_file(d / "data/x", "# dtype=bucketized_floats\n1\n2\n");
  pbt::write_file(d / "data/y", "# dtype=raw_floats\n1\n2\n");
  Ran r = run_binary({"--mode=test", "--config_file=" + (d / "config.json"), "--flatfiles_dirs=" + (d / "data"), "--testing_model_file=" + (d / "model.json"), "--output_dir=" + (d / "out")}, d);
  return !r.ok() || pbt::read_file(d / "out/forest.1.score") != "0.5\n0.5";
}
static pbt::RegisterKnown known_constant("constant-model-flatfiles", constant_model_fails);
