// C27: faults of the operating system while files are read or written end in an error, or change nothing.
#include "tool.h"

#include "src/data_store/flatfiles_data_store.h"
#include "src/data_store/tsv_data_store.h"

#include "iofault.h"

using iofault::Plan;

static std::string g_shim;
void harness_init() {
  quiet_logs();
  const char* b = getenv("GBDT_BINARY");
  g_binary = b ? b : "";
  b = getenv("IOFAULT_SO");
  g_shim = b ? b : "";
}

static const char* const kNames[] = {"no fault", "read error", "one read error", "short reads", "interrupted reads", "write error", "one write error", "short writes", "interrupted writes", "close error", "open error", "one open error"};

static std::string full_path(const std::string& p) {
  char to[4096];
  char* r = realpath(p.c_str(), to);
  return r ? r : p;
}
// The directory exists, the file may not.
static std::string full_path(const std::string& dir, const std::string& name) { return full_path(dir) + "/" + name; }

static Plan gen_fault(pbt::Source& s, bool output, const std::string& path, long size) {
  Plan p;
  using namespace iofault;
  p.kind = output ? s.pick<Kind>({kWriteError, kWriteOnce, kWriteShort, kWriteInterrupted, kClose, kOpen}) : s.pick<Kind>({kReadError, kReadOnce, kReadShort, kReadInterrupted, kOpen, kOpenOnce});
  p.path = path;
  p.err = output ? s.pick<int>({ENOSPC, EIO, EDQUOT, EFBIG}) : s.pick<int>({EIO, ESTALE, ENOMEM});
  if (p.kind == kOpen || p.kind == kOpenOnce) p.err = s.pick<int>({EMFILE, EACCES, EIO}), p.at = s.range(1, output ? 1 : 3);
  else if (p.kind == kReadShort || p.kind == kWriteShort) p.at = s.pick<int>({1, 2, 3, 7, 100, 4096});
  else p.at = s.weighted({4, 1, 1, 1}) == 0 ? long(s.draw(uint64_t(size) + 1)) : s.pick<long>({0, 1, 8191, 8192, size - 1, size / 2});
  if (p.at < 0) p.at = 0;
  return p;
}
static std::string show(const Plan& p) { return std::string(kNames[p.kind]) + " at " + std::to_string(p.at) + " of " + p.path + " (errno " + std::to_string(p.err) + ") "; }

// The contents of a column, its type included; "none" for no column.
static std::string contents(const Column* c) {
  if (!c) return "none";
  if (!c->status().ok()) return "bad";
  std::ostringstream o;
  o << c->name() << "/" << int(c->type()) << "/" << c->size() << ":";
  for (uint i = 0; i < c->size(); ++i) {
    if (c->type() == Column::kStringColumn) {
      o << pbt::quote(static_cast<const StringColumn*>(c)->get_row_string(i)) << " ";
    } else {
      float v = c->type() == Column::kRawFloatColumn ? (*static_cast<const RawFloatColumn*>(c))[i] : static_cast<const BucketizedFloatColumn*>(c)->get_row_max(i);
      uint32_t b;
      if (std::isnan(v)) v = NAN;
      memcpy(&b, &v, 4);
      o << b << " ";
    }
  }
  return o.str();
}

// Rows enough that files need several reads or writes.
static void enlarge(pbt::Source& s, Setup* u) {
  if (!s.chance(1, 3)) return;
  Problem& p = u->p;
  auto r = s.bulk();
  int n = s.range(300, 6000);
  std::vector<int> idx;
  for (int i = 0; i < n; ++i) idx.push_back(r.below(p.t.n));
  p.t = ref::take(p.t, idx);
  auto pick = [&](auto& v) {
    auto old = v;
    v.clear();
    for (int i : idx) v.push_back(old[i]);
  };
  pick(p.w), pick(p.y);
  if (!u->group.empty()) pick(u->group);
}
static long file_size(const std::string& p) {
  struct stat st;
  return stat(p.c_str(), &st) == 0 ? st.st_size : 0;
}
static std::vector<std::string> column_names(const Setup& u) { return columns(u, true).names; }

struct Disarm {
  ~Disarm() { iofault::disarm(); }
};

PROP(tsv, 4) {
  Setup u = gen(s);
  enlarge(s, &u);
  Dir d;
  int parts = s.range(1, 3);
  write_data(u, d, "data", false, parts, true);
  std::vector<std::string> files;
  for (int i = 0; i < parts; ++i) files.push_back(d / ("data" + std::to_string(i) + ".tsv"));
  bool header = s.chance(1, 4);
  if (header) {  // a last column that nobody asks for, whose name begins like another one's
    for (auto& f : files) {
      std::string t = pbt::read_file(f), r;
      bool first = f == files[0];
      for (char ch : t) {
        if (ch == '\n') r += first ? "\t" + u.p.t.cols[0].name + s.pick<const char*>({"0", "_squared", " "}) + "x" : std::string("\t7"), first = false;
        r += ch;
      }
      pbt::write_file(f, r);
    }
  }
  auto names = column_names(u);
  auto load = [&](std::map<std::string, std::string>* out) {
    TSVDataStore store(files, u.p.config);
    if (!store.status().ok()) return store.status();
    for (auto& n : names) (*out)[n] = contents(store.GetColumn(n));
    return store.status();
  };
  std::map<std::string, std::string> want, got;
  Status st = load(&want);
  CHECK_THAT(st.ok(), "setup", st.ToString());
  std::string file = full_path(s.pick(files));
  Plan p = gen_fault(s, false, file, file_size(file));
  if (header && s.flip() && !iofault::harmless(p.kind)) {
    file = p.path = full_path(files[0]);
    p.kind = s.pick<iofault::Kind>({iofault::kReadError, iofault::kReadOnce});
    p.at = long(pbt::read_file(file).find('\n')) - s.range(0, 10);
    if (p.at < 0) p.at = 0;
  }
  ctx.describe([&](std::ostream& o) { o << show(p) << parts << " parts: "; u.describe(o); });
  ctx.label(kNames[p.kind]);
  {
    Disarm guard;
    iofault::arm(p);
    st = load(&got);
  }
  bool hit = iofault::hits > 0;
  ctx.nontrivial_if(hit);
  if (!hit || iofault::harmless(p.kind)) CHECK_THAT(st.ok(), "harmless", show(p) << ": loading fails with " << st.ToString());
  if (st.ok())
    for (auto& n : names) CHECK_THAT(got[n] == want[n], "table", show(p) << ": loading succeeds, but column " << n << " holds " << got[n].substr(0, 300) << " instead of " << want[n].substr(0, 300));
  Status again = load(&got);
  CHECK_THAT(again.ok(), "afterwards", "once the fault is gone, loading fails with " << again.ToString());
}

// Tables of one column in use: a line that is read in part is a valid line.
PROP(narrow, 2) {
  Dir d;
  bool flat = s.flip(), floats = s.chance(3, 4);
  int extra = flat ? 0 : s.range(0, 2);
  int n = s.chance(1, 2) ? s.range(1, 40) : s.range(300, 8000), digits = s.range(1, 9);
  auto r = s.bulk();
  std::string text, name = "col";
  if (flat) text = std::string("# dtype=") + (floats ? s.pick<const char*>({"raw_floats", "bucketized_floats"}) : "strings") + "\n";
  else text = extra == 2 ? "col\tcolumn\tcol2\n" : extra ? "col\tcolumn\n" : "col\n";
  for (int i = 0; i < n; ++i) {
    for (int k = 0, m = 1 + r.below(digits); k < m; ++k) text += char('0' + r.below(10));
    for (int k = 0; k < extra; ++k) text += "\t" + std::to_string(r.below(100));
    if (i + 1 < n || s.flip()) text += "\n";
  }
  std::string file = d / (flat ? name : "data.tsv");
  pbt::write_file(file, text);
  Config c;
  int role = s.range(0, 1);
  if (floats) role ? c.add_float_feature(name) : c.add_additional_float_column(name);
  else role ? c.add_categorical_feature(name) : c.add_additional_string_column(name);
  auto load = [&](std::string* out) {
    *out = "none";
    if (flat) {
      FlatfilesDataStore store(d.path);
      *out = contents(store.GetColumn(name));
      return *out != "none";
    }
    TSVDataStore store({file}, c);
    if (store.status().ok()) *out = contents(store.GetColumn(name));
    return store.status().ok();
  };
  std::string want, got;
  CHECK_THAT(load(&want), "setup", "the table cannot be loaded");
  Plan p = gen_fault(s, false, full_path(file), text.size());
  ctx.describe([&](std::ostream& o) { o << show(p) << n << " rows, " << (flat ? "flat: " : "TSV: ") << pbt::quote(text.substr(0, 600)); });
  ctx.label(kNames[p.kind]);
  bool ok;
  {
    Disarm guard;
    iofault::arm(p);
    ok = load(&got);
  }
  bool hit = iofault::hits > 0;
  ctx.nontrivial_if(hit);
  if (!hit || iofault::harmless(p.kind)) CHECK_THAT(ok, "harmless", show(p) << ": loading fails");
  if (ok) CHECK_THAT(got == want, "table", show(p) << ": loading succeeds, but the column holds " << got.substr(0, 300) << " (" << got.size() << " bytes) instead of " << want.substr(0, 300) << " (" << want.size() << ")");
  CHECK_THAT(load(&got) && got == want, "afterwards", "once the fault is gone, the column holds " << got.substr(0, 300));
}

PROP(flat, 4) {
  Setup u = gen(s);
  enlarge(s, &u);
  Dir d;
  int parts = s.range(1, 2);
  write_data(u, d, "data", true, parts, true);
  std::vector<std::string> dirs;
  for (int i = 0; i < parts; ++i) dirs.push_back(d / ("data" + std::to_string(i)));
  auto names = column_names(u);
  std::map<std::string, std::string> want;
  {
    FlatfilesDataStore store(dirs);
    for (auto& n : names) want[n] = contents(store.GetColumn(n));
  }
  size_t k = s.draw(names.size());
  std::string victim = names[k], file = full_path(dirs[k % parts]) + "/" + victim;
  Plan p = gen_fault(s, false, file, file_size(file));
  for (size_t i = names.size(); i > 1; --i) std::swap(names[i - 1], names[s.draw(i)]);
  ctx.describe([&](std::ostream& o) { o << show(p) << parts << " directories, order " << pbt::show(names) << ": "; u.describe(o); });
  ctx.label(kNames[p.kind]);
  FlatfilesDataStore store(dirs);
  {
    Disarm guard;
    iofault::arm(p);
    for (auto& n : names) {
      std::string got = contents(store.GetColumn(n));
      bool may_fail = n == victim && iofault::hits > 0 && !iofault::harmless(p.kind);
      CHECK_THAT(got == want[n] || (may_fail && got == "none"), "column", show(p) << ": column " << n << " holds " << got.substr(0, 300) << " instead of " << want[n].substr(0, 300));
    }
  }
  ctx.nontrivial_if(iofault::hits > 0);
  for (auto& n : names) {
    std::string got = contents(store.GetColumn(n));
    CHECK_THAT(got == want[n], "afterwards", "once the fault (" << show(p) << ") is gone, column " << n << " holds " << got.substr(0, 300) << " instead of " << want[n].substr(0, 300));
  }
}

PROP(scores, 3) {
  Setup u = gen(s);
  enlarge(s, &u);
  Dir d;
  Forest f = normal(gen_forest(s, u.p.t, s.range(1, 5), 3));
  auto store = u.p.t.store();
  std::list<int> points;
  for (int i = 1; i <= f.tree_size(); ++i) if (s.flip()) points.push_back(i);
  if (points.empty()) points.push_back(f.tree_size());
  std::string good = d / "good", out = d / "out";
  Status st = EvaluateForest(store.get(), f, points, good);
  CHECK_THAT(st.ok(), "setup", st.ToString());
  mkdir(out.c_str(), 0755);
  std::vector<std::string> names;
  for (int i : points) names.push_back("forest." + std::to_string(i) + ".score");
  std::string victim = s.pick(names);
  Plan p = gen_fault(s, true, full_path(out, victim), file_size(good + "/" + victim));
  ctx.describe([&](std::ostream& o) { o << show(p) << f.tree_size() << " trees: "; u.describe(o); });
  ctx.label(kNames[p.kind]);
  {
    Disarm guard;
    iofault::arm(p);
    st = EvaluateForest(store.get(), f, points, out);
  }
  bool hit = iofault::hits > 0;
  ctx.nontrivial_if(hit);
  if (!hit || iofault::harmless(p.kind)) CHECK_THAT(st.ok(), "harmless", show(p) << ": scoring fails with " << st.ToString());
  if (st.ok())
    for (auto& n : names) CHECK_THAT(pbt::read_file(out + "/" + n) == pbt::read_file(good + "/" + n), "scores", show(p) << ": success is reported, but " << n << " holds " << pbt::quote(pbt::read_file(out + "/" + n).substr(0, 300)));
  st = EvaluateForest(store.get(), f, points, out);
  CHECK_THAT(st.ok(), "afterwards", "once the fault is gone, scoring fails with " << st.ToString());
}

// The tool, with a fault in any file it reads or writes.
PROP_EX(tool, 3, 200, true) {
  Setup u = gen(s);
  enlarge(s, &u);
  Dir d;
  bool test = s.flip(), base = !test && s.chance(1, 3);
  Forest f = normal(gen_forest(s, u.p.t, s.range(1, 4), 3));
  bool split = false;
  for (auto& t : f.tree()) split |= t.has_left_child();
  // A model without splits needs no column, so that flat files do not tell the number of rows (known finding).
  if (test && !split) u.flat = false;
  write_json(u.p.config, d / "config.json");
  write_json(f, d / "model.json");
  int parts = s.range(1, 2);
  std::string data = write_data(u, d, "data", u.flat, parts, true), good = d / "good", out = d / "out";
  auto args = [&](const std::string& o) {
    auto a = test ? test_args(u, d, data, d / "model.json", o) : train_args(u, d, data, o);
    if (base) a.push_back("--base_model_file=" + (d / "model.json"));
    return a;
  };
  Ran r = run_binary(args(good), d);
  if (!r.ok()) {
    ctx.label("refused without fault");
    return;
  }
  std::vector<std::string> inputs = {"config.json"}, outputs;
  if (test || base) inputs.push_back("model.json");
  auto names = column_names(u);
  for (size_t i = 0; i < (u.flat ? names.size() : size_t(parts)); ++i) inputs.push_back("data" + std::to_string(i % parts) + (u.flat ? "/" + names[i] : ".tsv"));
  for (auto& n : list_dir(good)) outputs.push_back(n);
  mkdir(out.c_str(), 0755);
  bool output = s.flip();
  std::string victim = output ? s.pick(outputs) : s.pick(inputs);
  Plan p = gen_fault(s, output, output ? full_path(out, victim) : full_path(d / victim), file_size((output ? good + "/" : d.path + "/") + victim));
  ctx.describe([&](std::ostream& o) { o << (test ? "testing, " : "training, ") << show(p) << ": "; u.describe(o); });
  ctx.label(std::string(test ? "test: " : "train: ") + kNames[p.kind]);
  std::string mark = d / "hit", spec = "IOFAULT=" + std::to_string(p.kind) + " " + std::to_string(p.at) + " " + std::to_string(p.err) + " " + p.path;
  r = run_binary(args(out), d, {"LD_PRELOAD=" + g_shim, spec, "IOFAULT_HIT=" + mark});
  bool hit = access(mark.c_str(), F_OK) == 0;
  ctx.nontrivial_if(hit);
  if (!hit || iofault::harmless(p.kind)) CHECK_THAT(r.ok(), "harmless", show(p) << ": the tool fails: " << r.show());
  if (!r.ok()) {
    expect_refusal(r, show(p));
    return;
  }
  for (auto& n : outputs) {
    std::string a = pbt::read_file(good + "/" + n), b = pbt::read_file(out + "/" + n);
    if (n.size() > 5 && n.substr(n.size() - 5) == ".json") {  // it tells the time of the training
      Forest x, y;
      CHECK_THAT(JsonUtils::FromJson(a, &x).ok(), "setup", "model");
      CHECK_THAT(JsonUtils::FromJson(b, &y).ok(), "outputs", show(p) << ": the exit status is 0, but " << n << " is no model: " << pbt::quote(b.substr(0, 300)));
      CHECK_THAT(normal(x).SerializeAsString() == normal(y).SerializeAsString(), "outputs", show(p) << ": the exit status is 0, but the model is another one");
    } else {
      CHECK_THAT(a == b, "outputs", show(p) << ": the exit status is 0, but " << n << " holds " << pbt::quote(b.substr(0, 300)) << " instead of " << pbt::quote(a.substr(0, 300)));
    }
  }
}
