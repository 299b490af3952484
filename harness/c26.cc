// C26: operations leave nothing behind: memory, files and threads are given back once their results are destroyed.
#include "training.h"

#include <dirent.h>
#include <malloc.h>
#include <sys/stat.h>
#include <unistd.h>

#include <atomic>
#include <cstdlib>
#include <new>

#include "src/data_store/flatfiles_data_store.h"
#include "src/data_store/tsv_data_store.h"
#include "src/gbdt_algo/utils.h"
#include "src/utils/json_utils.h"
#include "src/utils/threadpool.h"

using namespace gbdt;

// Every allocation of the process is counted.
static std::atomic<long> g_blocks{0}, g_bytes{0};
static void* take(size_t n) {
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  ++g_blocks, g_bytes += malloc_usable_size(p);
  return p;
}
static void give(void* p) {
  if (!p) return;
  --g_blocks, g_bytes -= malloc_usable_size(p);
  free(p);
}
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return take(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return take(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { give(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { give(p); }

void harness_init() { quiet_logs(); }

struct Usage {
  long blocks, bytes, files, threads;
};
static long entries(const char* dir) {
  long n = 0;
  DIR* d = opendir(dir);
  if (!d) return -1;
  while (readdir(d)) ++n;
  closedir(d);
  return n;
}
static Usage usage() {
  Usage u;
  u.blocks = g_blocks, u.bytes = g_bytes;
  u.files = entries("/proc/self/fd"), u.threads = entries("/proc/self/task");
  return u;
}

// Runs the operation again and again: what is taken once may be kept for later (a table that is made on first use), but
// the process must not grow with every run.
template <class F>
static void repeat(F&& op, const std::string& what) {
  const int kRuns = 4;
  Usage at[kRuns + 1];
  Subsampling::Reseed(1);
  op();
  at[0] = usage();
  for (int k = 1; k <= kRuns; ++k) {
    Subsampling::Reseed(1);
    op();
    at[k] = usage();
    // A thread that has been joined may be listed a moment longer.
    for (int i = 0; i < 200 && at[k].threads > at[k - 1].threads; ++i) usleep(5000), at[k].threads = entries("/proc/self/task");
    if (at[k].blocks <= at[k - 1].blocks && at[k].files <= at[k - 1].files && at[k].threads <= at[k - 1].threads) return;
  }
  auto grows = [&](long Usage::*m) {
    for (int k = 1; k <= kRuns; ++k)
      if (at[k].*m <= at[k - 1].*m) return false;
    return true;
  };
  CHECK_THAT(!grows(&Usage::blocks), "memory", what << ": every run leaves " << at[kRuns].blocks - at[kRuns - 1].blocks << " pieces of memory, " << at[kRuns].bytes - at[kRuns - 1].bytes << " bytes");
  CHECK_THAT(!grows(&Usage::files), "files", what << ": every run leaves " << at[kRuns].files - at[kRuns - 1].files << " open files");
  CHECK_THAT(!grows(&Usage::threads), "threads", what << ": every run leaves " << at[kRuns].threads - at[kRuns - 1].threads << " threads");
}

static std::string cell(pbt::Source& s, bool number) {
  if (!number) return s.chance(1, 6) ? "a category of more than a few bytes " + std::to_string(s.range(0, 9)) : "c" + std::to_string(s.range(0, 9));
  return s.chance(1, 8) ? "nan" : std::to_string(s.range(-9, 9)) + ".5";
}

PROP(tsv, 4) {
  int blocks = s.range(1, 5), cols = s.range(1, 4);
  FLAGS_num_threads = s.range(1, 4);
  Config c;
  std::vector<bool> number;
  for (int i = 0; i < cols; ++i) {
    number.push_back(s.flip());
    std::string n(1, char('a' + i));
    int role = s.range(0, 1);
    if (number[i]) role ? c.add_float_feature(n) : c.add_additional_float_column(n);
    else role ? c.add_categorical_feature(n) : c.add_additional_string_column(n);
  }
  int fault = s.weighted({3, 1, 2, 2, 2, 1, 1}), at = s.draw(blocks);
  std::vector<std::string> paths;
  std::string all;
  for (int b = 0; b < blocks; ++b) {
    std::string text;
    if (b == 0) {
      for (int i = 0; i < cols; ++i) text += (i ? "\t" : "") + std::string(1, char('a' + i));
      text += "\n";
    }
    int n = s.length(0, 6), where = n ? int(s.draw(n)) : 0;
    for (int k = 0; k < n; ++k) {
      bool bad = b == at && k == where;
      int width = bad && fault == 2 ? int(s.range(1, cols)) - 1 : cols;
      if (width == 0) width = 1;
      for (int i = 0; i < width; ++i) text += (i ? "\t" : "") + (bad && fault == 3 ? "not a number" : cell(s, number[i]));
      text += "\n";
    }
    paths.push_back(pbt::scratch() + "/block" + std::to_string(b));
    pbt::write_file(paths[b], text);
    all += pbt::quote(text) + " ";
  }
  if (fault == 1) c.add_float_feature("absent");
  if (fault == 4) paths[at] = s.flip() ? pbt::scratch() + "/none" : pbt::scratch();
  if (fault == 5) c.add_float_feature("a"), c.add_categorical_feature("a");
  if (fault == 6) c.set_target_column("a"), c.set_weight_column("b");
  ctx.describe([&](std::ostream& o) { o << "fault " << fault << " config: " << c.ShortDebugString() << " threads=" << FLAGS_num_threads << " " << all; });
  bool ok = false;
  repeat([&] {
    TSVDataStore d(paths, c);
    ok = d.status().ok();
    if (ok) d.GetColumn("a"), d.GetColumn("none"), d.GetStringColumn("a"), d.Description();
  }, "loading tables");
  ctx.label(ok ? "loaded" : "refused");
  ctx.nontrivial_if(!ok || cols * blocks > 1);
}

PROP(flat, 3) {
  std::string dir = pbt::fresh_path("flat");
  mkdir(dir.c_str(), 0755);
  int files = s.range(1, 5), rows = s.range(0, 6);
  std::vector<std::string> names;
  std::string all;
  for (int i = 0; i < files; ++i) {
    names.push_back(std::string(1, char('a' + i)));
    int kind = s.range(0, 2);
    std::string text = s.chance(1, 6) ? "# dtype=other\n" : kind == 0 ? "# dtype=strings\n" : kind == 1 ? "# dtype=raw_floats\n" : "# dtype=bucketized_floats\n";
    int n = s.chance(1, 4) ? int(s.range(0, 7)) : rows;
    for (int k = 0; k < n; ++k) text += cell(s, kind != 0 && !s.chance(1, 20)) + "\n";
    pbt::write_file(dir + "/" + names[i], text);
    all += pbt::quote(text) + " ";
  }
  std::vector<std::string> asked;
  for (int k = s.length(1, 12); k > 0; --k) asked.push_back(s.chance(1, 6) ? s.pick<const char*>({"none", "", ".", "../x"}) : s.pick(names));
  int threads = s.chance(1, 4) ? s.range(2, 4) : 0;
  ctx.describe([&](std::ostream& o) { o << all << "asked for " << pbt::show(asked) << " threads " << threads; });
  std::atomic<int> found{0};
  repeat([&] {
    FlatfilesDataStore d(dir);
    found = 0;
    auto ask = [&] { for (auto& n : asked) found += d.GetColumn(n) != nullptr; };
    if (threads == 0) { ask(); return; }
    std::vector<std::thread> t;
    for (int k = 0; k < threads; ++k) t.emplace_back(ask);
    for (auto& x : t) x.join();
  }, "asking for columns");
  ctx.label(found ? "some found" : "none found");
  ctx.nontrivial_if(asked.size() >= 2);
  for (auto& n : names) unlink((dir + "/" + n).c_str());
  rmdir(dir.c_str());
}

PROP(store, 3) {
  struct Op { int kind, name, type, rows; };
  std::vector<Op> ops;
  for (int k = s.length(1, 20); k > 0; --k) ops.push_back({int(s.weighted({6, 2, 1, 1})), int(s.range(0, 4)), int(s.range(0, 2)), int(s.chance(1, 4) ? s.range(0, 300) : 3)});
  ctx.describe([&](std::ostream& o) { for (auto& p : ops) o << (p.kind == 0 ? "add " : p.kind == 1 ? "remove " : p.kind == 2 ? "get " : "make ") << p.name << " type " << p.type << " rows " << p.rows << "; "; });
  int refused = 0;
  repeat([&] {
    DataStore d;
    refused = 0;
    for (auto& p : ops) {
      std::string name = "a name of some length " + std::to_string(p.name);
      std::unique_ptr<Column> c;
      if (p.type == 0) {
        std::vector<std::string> v;
        for (int i = 0; i < p.rows; ++i) v.push_back("a cell of some length " + std::to_string(i));
        c = Column::CreateStringColumn(name, std::move(v));
      } else {
        std::vector<float> v;
        for (int i = 0; i < p.rows; ++i) v.push_back(i * 7 % 100);
        c = p.type == 1 ? Column::CreateRawFloatColumn(name, std::move(v)) : Column::CreateBucketizedFloatColumn(name, std::move(v));
      }
      if (p.kind == 0) refused += !d.Add(std::move(c)).ok();
      else if (p.kind == 1) d.RemoveColumnIfExists(name);
      else if (p.kind == 2) d.GetColumn(name), d.GetStringColumn(name), d.GetBucketizedFloatColumn(name), d.Description();
    }
  }, "a history of a data store");
  if (refused) ctx.label("refused");
  ctx.nontrivial_if(ops.size() >= 2);
}

PROP(learning, 4) {
  Problem p = gen_problem(s, s.chance(1, 30), {"mse", "logloss", "huberized_hinge", "auc", "pairwise_logloss", "gbrank", "lambdamart"});
  bool pairs = p.loss != "mse" && p.loss != "logloss" && p.loss != "huberized_hinge";
  std::vector<std::string> group;
  auto r = s.bulk();
  if (pairs) {
    for (auto& v : p.y) v = std::round(v);
    p.config.set_pair_sampling_rate(s.pick<float>({1, 5}));
    if (s.flip()) {
      for (int i = 0; i < p.t.n; ++i) group.push_back(r.below(8) == 0 ? "__missing__" : "g" + std::to_string(r.below(3)));
      p.config.set_group_column("the group");
    }
  }
  p.config.set_example_sampling_rate(s.pick<float>({1, 0.5f}));
  p.config.set_feature_sampling_rate(s.pick<float>({1, 0.5f}));
  auto features = p.t.names();
  int fault = s.weighted({5, 1, 1, 1, 1, 1});
  if (fault == 1) features.insert("absent");
  if (fault == 2 && !pairs) p.y[0] = p.loss == "mse" ? NAN : 3;
  if (fault == 3) p.config.set_num_trees(0);
  if (fault == 4) p.config.set_group_column("no such group");
  bool base = s.chance(1, 3), foreign = fault == 5;
  std::string out = pbt::scratch() + (s.chance(1, 4) ? "/no/such" : "");
  bool full = s.chance(1, 4) && out == pbt::scratch();
  if (full) symlink("/dev/full", (out + "/forest." + std::to_string(s.range(1, 3)) + ".score").c_str());
  ctx.describe([&](std::ostream& o) { p.describe(o); o << "group=" << pbt::show(group).substr(0, 300) << " fault " << fault << (base ? " base" : "") << " scores in " << out << (full ? ", one of them on a full device" : ""); });
  bool ok = false, scored = false;
  repeat([&] {
    auto ds = p.t.store();
    if (!group.empty()) ds->Add(Column::CreateStringColumn("the group", group));
    Forest first, second;
    auto loss = p.make_loss();
    ok = TrainGBDT(ds.get(), features, p.wf(), p.yf(), loss.get(), p.config, nullptr, &first).ok();
    if (base) {
      auto again = p.make_loss();
      TrainGBDT(ds.get(), features, p.wf(), p.yf(), again.get(), p.config, &first, &second);
    }
    if (foreign) {
      auto* t = first.add_tree();
      t->mutable_split()->set_feature("not in the data");
      t->mutable_left_child()->set_score(1);
      t->mutable_right_child()->set_score(1);
    }
    std::vector<double> scores;
    EvaluateForest(ds.get(), first, &scores);
    scored = EvaluateForest(ds.get(), first, GetTestPoints(p.config, first.tree_size()), out).ok();
    ComputeFeatureImportance(first), CollectAllFeatures(first);
    std::string text;
    JsonUtils::ToJson(first, &text);
    Forest loaded;
    JsonUtils::FromJson(text, &loaded);
  }, "training and evaluation");
  ctx.label(ok ? "trained" : "refused");
  if (!scored) ctx.label("scores refused");
  ctx.nontrivial();
  if (full && !scored) ctx.label("full device");
  if (out == pbt::scratch())
    for (int k = 0; k < 100; ++k) unlink((out + "/forest." + std::to_string(k) + ".score").c_str());
}

PROP(models, 2) {
  ref::Table t = ref::gen_table(s, s.length(1, 6), 3, false);
  Forest f = gen_forest(s, t, s.length(0, 6), 4);
  std::string text;
  JsonUtils::ToJson(f, &text);
  for (int k = s.length(0, 4); k > 0 && !text.empty(); --k) {
    size_t i = s.draw(text.size());
    switch (s.range(0, 3)) {
      case 0: text.erase(i, s.range(1, 20)); break;
      case 1: text[i] = s.pick<char>({'{', '}', '[', '"', ',', '9', 'x'}); break;
      case 2: text.insert(i, s.pick<const char*>({"{", "\"a\":", "null", "[[", "}", "1e999", "\"tree\":[{}],"})); break;
      default: text.resize(i); break;
    }
  }
  bool config = s.chance(1, 3);
  ctx.describe([&](std::ostream& o) { o << pbt::quote(text).substr(0, 1500); });
  bool ok = false;
  repeat([&] {
    Forest g;
    Config c;
    ok = config ? JsonUtils::FromJson(text, &c).ok() : JsonUtils::FromJson(text, &g).ok();
    std::string again;
    JsonUtils::ToJson(g, &again);
    if (!ok || config) return;
    auto ds = t.store();
    std::vector<double> scores;
    EvaluateForest(ds.get(), g, &scores);
  }, "reading a model");
  ctx.label(ok ? "read" : "refused");
  ctx.nontrivial_if(!ok || f.tree_size() > 0);
}

PROP(pools, 1) {
  int n = s.range(1, 8), tasks = s.length(0, 30);
  bool nested = s.chance(1, 3);
  ctx.describe([&](std::ostream& o) { o << "pool of " << n << ", " << tasks << " tasks" << (nested ? ", nested" : ""); });
  std::atomic<int> ran{0};
  repeat([&] {
    auto big = std::make_shared<std::vector<int>>(1000, 7);
    ThreadPool pool(n);
    for (int k = 0; k < tasks; ++k)
      pool.Enqueue([&, big] {
        ++ran;
        if (nested) pool.Enqueue([&, big] { ++ran; });
      });
  }, "a thread pool");
  ctx.nontrivial_if(tasks >= 1);
}
