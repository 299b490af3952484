// Running the command-line tool on generated problems.
#ifndef VERIF_TOOL_H_
#define VERIF_TOOL_H_
#include "training.h"

#include "src/gbdt_algo/utils.h"
#include "src/utils/json_utils.h"

#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

using namespace gbdt;

static std::string g_binary;

// ---- files ----
static void remove_tree(const std::string& d) {
  if (d.compare(0, pbt::scratch().size() + 1, pbt::scratch() + "/") != 0) return;
  struct stat st;
  if (lstat(d.c_str(), &st) != 0) return;
  if (S_ISDIR(st.st_mode)) {
    if (DIR* h = opendir(d.c_str())) {
      std::vector<std::string> names;
      while (auto* e = readdir(h)) names.push_back(e->d_name);
      closedir(h);
      for (auto& n : names)
        if (n != "." && n != "..") remove_tree(d + "/" + n);
    }
    rmdir(d.c_str());
  } else {
    unlink(d.c_str());
  }
}
struct Dir {
  std::string path;
  Dir() : path(pbt::fresh_path("cli")) { mkdir(path.c_str(), 0755); }
  ~Dir() { remove_tree(path); }
  std::string operator/(const std::string& n) const { return path + "/" + n; }
};
static std::set<std::string> list_dir(const std::string& d) {
  std::set<std::string> r;
  if (DIR* h = opendir(d.c_str())) {
    while (auto* e = readdir(h)) {
      std::string n = e->d_name;
      if (n != "." && n != "..") r.insert(n);
    }
    closedir(h);
  }
  return r;
}

// ---- the binary ----
struct Ran {
  int status = 0;
  bool timeout = false;
  std::string err;
  bool ok() const { return !timeout && WIFEXITED(status) && WEXITSTATUS(status) == 0; }
  std::string show() const {
    std::ostringstream o;
    if (timeout) o << "no end within 60 s";
    else if (WIFEXITED(status)) o << "exit status " << WEXITSTATUS(status);
    else o << "signal " << WTERMSIG(status);
    o << ", last words: " << pbt::quote(err.size() > 600 ? err.substr(err.size() - 600) : err);
    return o.str();
  }
};
static Ran run_binary(const std::vector<std::string>& args, const Dir& dir, const std::vector<std::string>& env = {}) {
  std::string errf = dir / "stderr";
  std::vector<std::string> all = {g_binary};
  for (auto& a : args) all.push_back(a);
  std::vector<char*> argv;
  for (auto& a : all) argv.push_back(&a[0]);
  argv.push_back(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    int n = open("/dev/null", O_RDWR), e = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    dup2(n, 0), dup2(n, 1), dup2(e, 2);
    setenv("GLOG_logtostderr", "1", 1);
    setenv("GLOG_minloglevel", "0", 1);
    for (auto& e : env) putenv(const_cast<char*>(e.c_str()));
    if (chdir(dir.path.c_str()) != 0) _exit(121);
    execv(g_binary.c_str(), argv.data());
    _exit(122);
  }
  Ran r;
  time_t start = time(nullptr);
  useconds_t nap = 200;
  while (true) {
    pid_t p = waitpid(pid, &r.status, WNOHANG);
    if (p == pid) break;
    if (time(nullptr) - start > 60) {
      r.timeout = true;
      kill(pid, SIGKILL);
      waitpid(pid, &r.status, 0);
      break;
    }
    usleep(nap);
    if (nap < 5000) nap *= 2;
  }
  r.err = pbt::read_file(errf);
  unlink(errf.c_str());
  return r;
}
// Success, or a failure of the deliberate kind: an exit status or an abort, with a reason given.
static void expect_success(const Ran& r, const char* what) { CHECK_THAT(r.ok(), "success", what << " fails: " << r.show()); }
static void expect_refusal(const Ran& r, const std::string& what) {
  CHECK_THAT(!r.timeout, "refusal", what << ": " << r.show());
  CHECK_THAT(!r.ok(), "refusal", what << ", yet the exit status is 0: " << r.show());
  CHECK_THAT(WIFEXITED(r.status) ? WEXITSTATUS(r.status) != 98 && WEXITSTATUS(r.status) != 99 && WEXITSTATUS(r.status) != 121 && WEXITSTATUS(r.status) != 122
                                 : WTERMSIG(r.status) == SIGABRT,
             "refusal", what << " crashes: " << r.show());
  CHECK_THAT(!r.err.empty(), "reason", what << ": no reason is given");
}

// ---- problems as files ----
struct Setup {
  Problem p;
  std::vector<std::string> group;
  bool weighted = false, binarize = false, pairwise = false;
  int seed = 1234567;
  bool flat = false;
  std::string name = "forest";
  std::vector<float> targets() const {
    std::vector<float> r = p.y;
    if (binarize) for (auto& v : r) v = v > 0 ? 1 : -1;
    return r;
  }
  void describe(std::ostream& o) const {
    p.describe(o);
    o << "group=" << pbt::show(group).substr(0, 200) << (weighted ? " weighted" : "") << (binarize ? " binarized" : "") << " seed=" << seed << (flat ? " flat files" : " tsv") << " model name " << name << " ";
  }
};
static Setup gen(pbt::Source& s) {
  static const std::vector<std::string> kPointwise = {"mse", "logloss", "huberized_hinge"}, kPairwise = {"auc", "pairwise_logloss", "gbrank", "lambdamart"};
  Setup u;
  u.pairwise = s.chance(1, 3);
  u.p = gen_problem(s, s.chance(1, 20), u.pairwise ? kPairwise : kPointwise);
  Problem& p = u.p;
  auto r = s.bulk();
  for (auto& c : p.t.cols)
    for (auto& x : c.s)
      if (x.empty()) x = "z";
  p.config.set_target_column("target");
  for (auto& v : p.w) v = std::round(v * 8) / 8;
  u.weighted = s.flip();
  if (u.weighted) p.config.set_weight_column("weight");
  if (u.pairwise) {
    bool groups = s.flip();
    int k = s.range(1, 6);
    for (int i = 0; i < p.t.n; ++i) {
      p.y[i] = std::round(p.y[i]);
      if (groups) u.group.push_back(r.below(8) == 0 ? "__missing__" : "g" + std::to_string(r.below(k)));
    }
    if (groups) p.config.set_group_column("the group");
    p.config.set_pair_sampling_rate(s.pick<float>({1, 3, 20}));
  } else {
    u.binarize = p.loss != "mse" && s.flip();
    if (u.binarize) {
      p.config.set_binarize_target(true);
      for (auto& v : p.y) v = v > 0 ? float(1 + r.below(3)) : -float(r.below(3));
    }
  }
  p.config.set_example_sampling_rate(s.pick<float>({1, 1, 0.5f}));
  p.config.set_feature_sampling_rate(s.pick<float>({1, 1, 0.5f}));
  if (p.config.l2_lambda() == 0) p.config.set_l2_lambda(0.5);
  for (auto& c : p.t.cols)
    if (c.cat) p.config.add_categorical_feature(c.name);
    else p.config.add_float_feature(c.name);
  if (s.chance(1, 2)) p.config.set_eval_interval(s.range(1, 3));
  if (s.flip()) u.seed = s.range(0, 1000);
  u.flat = s.flip();
  if (s.chance(1, 3)) u.name = s.pick<const char*>({"m", "model v2", "forest.1"});
  FLAGS_num_threads = s.range(1, 4);
  return u;
}
static std::string num(float v) {
  if (std::isnan(v)) return "nan";
  char b[40];
  snprintf(b, sizeof b, "%.9g", v);
  return b;
}
struct Cols {
  std::vector<std::string> names, kinds;
  std::vector<std::vector<std::string>> cells;
};
static Cols columns(const Setup& u, bool targets) {
  Cols k;
  auto add = [&](const std::string& n, const char* kind) { k.names.push_back(n), k.kinds.push_back(kind), k.cells.emplace_back(); };
  for (auto& c : u.p.t.cols) {
    add(c.name, c.cat ? "strings" : "bucketized_floats");
    for (int i = 0; i < u.p.t.n; ++i) k.cells.back().push_back(c.cat ? c.s[i] : num(c.f[i]));
  }
  if (!targets) return k;
  add("target", "raw_floats");
  for (float v : u.p.y) k.cells.back().push_back(num(v));
  if (u.weighted) {
    add("weight", "raw_floats");
    for (float v : u.p.w) k.cells.back().push_back(num(v));
  }
  if (!u.group.empty()) {
    add("the group", "strings");
    k.cells.back() = u.group;
  }
  return k;
}
// Writes the data and returns the flag that names it.
static std::string write_data(const Setup& u, const Dir& d, const std::string& stem, bool flat, int parts, bool targets) {
  Cols k = columns(u, targets);
  int n = u.p.t.n;
  std::string flag;
  if (flat) {
    std::vector<std::string> dirs;
    for (int q = 0; q < parts; ++q) {
      dirs.push_back(d / (stem + std::to_string(q)));
      mkdir(dirs.back().c_str(), 0755);
      flag += (q ? "," : "--flatfiles_dirs=") + dirs.back();
    }
    for (size_t c = 0; c < k.names.size(); ++c) {
      std::string t = "# dtype=" + k.kinds[c] + "\n";
      for (auto& x : k.cells[c]) t += x + "\n";
      pbt::write_file(dirs[c % parts] + "/" + k.names[c], t);
    }
    return flag;
  }
  std::vector<std::string> text(parts);
  for (size_t c = 0; c < k.names.size(); ++c) text[0] += (c ? "\t" : "") + k.names[c];
  text[0] += "\n";
  for (int i = 0; i < n; ++i) {
    std::string& t = text[int64_t(i) * parts / n];
    for (size_t c = 0; c < k.names.size(); ++c) t += (c ? "\t" : "") + k.cells[c][i];
    t += "\n";
  }
  for (int q = 0; q < parts; ++q) {
    std::string f = d / (stem + std::to_string(q) + ".tsv");
    pbt::write_file(f, text[q]);
    flag += (q ? "," : "--tsvs=") + f;
  }
  return flag;
}
template <typename M>
static void write_json(const M& m, const std::string& path) {
  std::string t;
  Status st = JsonUtils::ToJson(m, &t);
  if (!st.ok()) throw pbt::Failure{"setup", st.ToString()};
  pbt::write_file(path, t);
}
static std::vector<std::string> train_args(const Setup& u, const Dir& d, const std::string& data, const std::string& out) {
  std::vector<std::string> a = {"--mode=train", "--config_file=" + (d / "config.json"), data, "--output_dir=" + out, "--num_threads=" + std::to_string(FLAGS_num_threads)};
  if (u.name != "forest") a.push_back("--output_model_name=" + u.name);
  if (u.seed != 1234567) a.push_back("--seed=" + std::to_string(u.seed));
  return a;
}
static std::vector<std::string> test_args(const Setup& u, const Dir& d, const std::string& data, const std::string& model, const std::string& out) {
  return {"--mode=test", "--config_file=" + (d / "config.json"), data, "--testing_model_file=" + model, "--output_dir=" + out, "--num_threads=" + std::to_string(FLAGS_num_threads)};
}
static Forest normal(Forest f) {
  f.clear_meta_info();
  std::string t;
  Forest g;
  if (!JsonUtils::ToJson(f, &t).ok() || !JsonUtils::FromJson(t, &g).ok()) throw pbt::Failure{"setup", "a forest does not survive JSON"};
  return g;
}

// The model the library trains on the same data, or the error it reports.
static Status library_model(const Setup& u, const Forest* base, Forest* out) {
  auto ds = u.p.t.store();
  if (!u.group.empty() && !ds->Add(Column::CreateStringColumn("the group", u.group)).ok()) throw pbt::Failure{"setup", "group"};
  auto y = u.targets();
  auto w = u.p.w;
  if (!u.weighted) w.assign(w.size(), 1);
  Subsampling::Reseed(u.seed);
  auto loss = u.p.make_loss();
  return TrainGBDT(ds.get(), GetFeaturesSetFromConfig(u.p.config), [&w](int i) { return w[i]; }, [&y](int i) { return y[i]; }, loss.get(), u.p.config, base, out);
}

static void check_scores(const Setup& u, const Forest& f, const std::string& out) {
  int size = f.tree_size();
  std::set<int> points;
  int k = u.p.config.eval_interval();
  if (k > 0) for (int q = size; q > 0; q -= k) points.insert(q);
  else points.insert(size);
  std::set<std::string> want, got = list_dir(out);
  for (int q : points) want.insert("forest." + std::to_string(q) + ".score");
  for (auto& x : want) CHECK_THAT(got.count(x), "score-files", x << " is missing");
  for (auto& x : got) CHECK_THAT(want.count(x), "score-files", x << " is unexpected");
  for (int q : points) {
    std::string text = pbt::read_file(out + "/forest." + std::to_string(q) + ".score");
    std::istringstream in(text);
    std::string line;
    int i = 0;
    while (std::getline(in, line)) {
      CHECK_THAT(i < u.p.t.n, "scores", "more lines than rows");
      double v = 0, mass = 0;
      for (int t = 0; t < q; ++t) {
        double x = ref::walk(f.tree(t), u.p.t, i).score();
        v += x, mass += std::fabs(x);
      }
      char* e;
      double g = strtod(line.c_str(), &e);
      CHECK_THAT(!line.empty() && *e == 0 && (g == v || (std::isnan(g) && std::isnan(v)) || std::fabs(g - v) <= 5.01e-6 * std::fabs(v) + 1e-12 * mass), "scores", "after " << q << " trees row " << i << " is given " << pbt::quote(line) << ", the model predicts " << v);
      ++i;
    }
    CHECK_THAT(i == u.p.t.n, "scores", i << " scores for " << u.p.t.n << " rows");
  }
}
#endif
