// C06: flat-file columns load lazily, faithfully and thread-safely.
#include "common.h"

#include <sys/stat.h>
#include <unistd.h>

#include <atomic>
#include <map>
#include <thread>

#include "src/data_store/column.h"
#include "src/data_store/flatfiles_data_store.h"

using namespace gbdt;

void harness_init() { quiet_logs(); }

struct File {
  int kind;  // 0 strings, 1 raw, 2 bucketized, 3 unknown
  std::vector<std::string> cells;
  std::string text() const {
    static const char* t[] = {"# dtype=strings", "# dtype=raw_floats", "# dtype=bucketized_floats", "# dtype=integers"};
    std::string r = t[kind];
    r += "\n";
    for (auto& c : cells) r += c + "\n";
    return r;
  }
};
static File gen_file(pbt::Source& s, int rows, int salt, bool bulk) {
  File f;
  f.kind = s.weighted({5, 5, 5, 1});
  pbt::Rng r(0);
  if (bulk) r = s.bulk();
  for (int i = 0; i < rows; ++i) {
    int v = bulk ? int(r.below(90)) : int(s.range(0, 9));
    switch (v % 10) {
      case 8: f.cells.push_back(f.kind == 0 ? "" : "NaN"); break;
      case 9: f.cells.push_back(f.kind == 0 ? "s" + std::to_string(salt) : std::to_string(salt) + ".5"); break;
      case 7:
        if (f.kind == 0 && !bulk && s.chance(1, 20)) {
          f.cells.push_back(std::string(s.pick<int>({4096, 300, 65535, 65536, 200000}), 'l') + std::to_string(salt));
          break;
        }
        // falls through
      default: f.cells.push_back((f.kind == 0 ? "v" : "") + std::to_string(v + salt * 100)); break;
    }
  }
  return f;
}
// Compares a column with a file; returns what differs.
static std::string differs(const Column* c, const std::string& name, const File& f) {
  if (c->name() != name) return "name " + pbt::quote(c->name());
  Column::ColumnType t = f.kind == 0 ? Column::kStringColumn : f.kind == 1 ? Column::kRawFloatColumn : Column::kBucketizedFloatColumn;
  if (c->type() != t) return "type " + std::to_string(c->type());
  if (c->size() != f.cells.size()) return std::to_string(c->size()) + " rows instead of " + std::to_string(f.cells.size());
  for (size_t i = 0; i < f.cells.size(); ++i) {
    if (f.kind == 0) {
      auto& g = static_cast<const StringColumn*>(c)->get_row_string(i);
      if (g != f.cells[i]) return "row " + std::to_string(i) + " " + pbt::quote(g) + " instead of " + pbt::quote(f.cells[i]);
      continue;
    }
    float want = f.cells[i] == "NaN" ? NAN : strtof(f.cells[i].c_str(), nullptr), got;
    if (f.kind == 1) got = (*static_cast<const RawFloatColumn*>(c))[i];
    else got = static_cast<const BucketizedFloatColumn*>(c)->get_row_max(i);
    if (!same_float(got, want)) return "row " + std::to_string(i) + " " + pbt::show(got) + " instead of " + f.cells[i];
  }
  return "";
}
static std::vector<std::string> make_dirs(int n) {
  std::vector<std::string> dirs;
  for (int d = 0; d < n; ++d) {
    dirs.push_back(pbt::scratch() + "/dir" + std::to_string(d));
    mkdir(dirs.back().c_str(), 0755);
    for (char c = 'a'; c <= 'f'; ++c) unlink((dirs.back() + "/" + c).c_str());
  }
  return dirs;
}

PROP(history, 4) {
  int nd = s.weighted({3, 3, 2}) + 1;
  auto dirs = make_dirs(nd);
  int rows = s.range(0, 6);
  std::vector<std::map<std::string, File>> disk(nd);
  int salt = 1;
  std::string log;
  auto put = [&](int d, const std::string& n) {
    int r = s.chance(1, 5) ? int(s.range(0, 7)) : rows;
    File f = gen_file(s, r, salt++, false);
    pbt::write_file(dirs[d] + "/" + n, f.text());
    disk[d][n] = f;
    if (ctx.describing()) log += "write " + dirs[d] + "/" + n + " = " + pbt::quote(f.text()) + "; ";
  };
  int nf = s.range(0, 8);
  for (int i = 0; i < nf; ++i) put(s.draw(nd), std::string(1, char('a' + s.range(0, 5))));
  FlatfilesDataStore store(dirs);
  // Model: what is loaded.
  std::map<std::string, std::pair<File, const Column*>> loaded;
  int ops = s.length(1, 20);
  bool repeated = false, later = false, shadow = false;
  for (int k = 0; k < ops; ++k) {
    if (s.chance(1, 8)) {
      put(s.draw(nd), std::string(1, char('a' + s.range(0, 5))));
      later = true;
      continue;
    }
    std::string n = s.chance(1, 15) ? "zz" : std::string(1, char('a' + s.range(0, 5)));
    if (ctx.describing()) log += "get " + n + "; ";
    const Column* c = store.GetColumn(n);
    auto it = loaded.find(n);
    if (it != loaded.end()) {
      repeated = true;
      if (c != it->second.second) { ctx.describe([&](std::ostream& o) { o << log; }); FAIL("same-column", "a second request for " << n << " returns another column"); }
      continue;
    }
    const File* f = nullptr;
    for (int d = 0; d < nd; ++d) {
      auto p = disk[d].find(n);
      if (p == disk[d].end()) continue;
      if (!f) f = &p->second;
      else shadow = true;
    }
    bool want = f && f->kind != 3 && (loaded.empty() || loaded.begin()->second.first.cells.size() == f->cells.size());
    if ((c != nullptr) != want) { ctx.describe([&](std::ostream& o) { o << log; }); FAIL("lookup", "request for " << n << (want ? " fails" : " succeeds")); }
    if (!c) continue;
    std::string d = differs(c, n, *f);
    if (!d.empty()) { ctx.describe([&](std::ostream& o) { o << log; }); FAIL("contents", n << ": " << d); }
    loaded[n] = std::make_pair(*f, c);
  }
  ctx.describe([&](std::ostream& o) { o << log; });
  CHECK_THAT(store.num_cols() == loaded.size(), "num-cols", store.num_cols() << " columns, " << loaded.size() << " loaded");
  CHECK_THAT(store.num_rows() == (loaded.empty() ? 0 : loaded.begin()->second.first.cells.size()), "num-rows", store.num_rows());
  for (auto& p : loaded) {
    std::string d = differs(p.second.second, p.first, p.second.first);
    CHECK_THAT(d.empty(), "lifetime", "at the end " << p.first << ": " << d);
    CHECK_THAT((store.GetStringColumn(p.first) != nullptr) == (p.second.first.kind == 0), "typed", p.first);
    CHECK_THAT((store.GetRawFloatColumn(p.first) != nullptr) == (p.second.first.kind == 1), "typed", p.first);
    CHECK_THAT((store.GetBucketizedFloatColumn(p.first) != nullptr) == (p.second.first.kind == 2), "typed", p.first);
  }
  ctx.nontrivial_if(loaded.size() >= 1 && (repeated || later || shadow || nd > 1));
  if (repeated) ctx.label("repeated request");
  if (later) ctx.label("file written after the store was made");
  if (shadow) ctx.label("name in two directories");
}

PROP_EX(concurrent, 1, 60, true) {
  int nd = s.range(1, 2);
  auto dirs = make_dirs(nd);
  int rows = s.pick<int>({1, 20, 200, 1000});
  std::vector<std::map<std::string, File>> disk(nd);
  int names = s.range(1, 4);
  bool mixed = s.chance(1, 4);
  for (int i = 0; i < names; ++i) {
    std::string n(1, char('a' + i));
    for (int d = 0; d < nd; ++d) {
      if (d > 0 && !s.chance(1, 3)) continue;
      File f = gen_file(s, mixed && s.chance(1, 3) ? rows + 1 : rows, i * 10 + d, true);
      pbt::write_file(dirs[d] + "/" + n, f.text());
      disk[d][n] = f;
    }
  }
  int threads = s.range(2, 8);
  std::vector<std::vector<int>> plan(threads);
  for (auto& p : plan) {
    int k = s.range(1, 6);
    for (int i = 0; i < k; ++i) p.push_back(s.draw(names));
  }
  ctx.describe([&](std::ostream& o) {
    o << rows << " rows, " << names << " names" << (mixed ? ", some with another row" : "") << ", requests:";
    for (auto& p : plan) o << " " << pbt::show(p);
  });
  ctx.nontrivial();
  ctx.label(std::to_string(threads) + " threads");
  FlatfilesDataStore store(dirs);
  std::vector<std::vector<const Column*>> got(threads);
  std::vector<std::string> wrong(threads);
  std::atomic<int> ready(0);
  std::vector<std::thread> th;
  for (int t = 0; t < threads; ++t)
    th.emplace_back([&, t] {
      ++ready;
      while (ready < threads) {}
      for (int n : plan[t]) {
        std::string name(1, char('a' + n));
        const Column* c = store.GetColumn(name);
        got[t].push_back(c);
        if (c && wrong[t].empty()) {
          std::string d = differs(c, name, disk[0][name]);
          if (!d.empty()) wrong[t] = name + ": " + d;
        }
      }
    });
  for (auto& t : th) t.join();
  std::map<int, const Column*> seen;
  bool any_rows = false;
  size_t nrows = 0;
  for (int t = 0; t < threads; ++t) {
    CHECK_THAT(wrong[t].empty(), "contents", wrong[t]);
    for (size_t k = 0; k < plan[t].size(); ++k) {
      int n = plan[t][k];
      const Column* c = got[t][k];
      const File& f = disk[0][std::string(1, char('a' + n))];
      if (f.kind == 3) CHECK_THAT(!c, "lookup", "a column of unknown type is returned");
      else if (!mixed) CHECK_THAT(c, "lookup", "no column for " << char('a' + n));
      if (!c) continue;
      if (!seen.count(n)) seen[n] = c;
      CHECK_THAT(seen[n] == c, "same-column", "two columns were returned for " << char('a' + n));
      std::string d = differs(c, std::string(1, char('a' + n)), f);
      CHECK_THAT(d.empty(), "lifetime", "after all requests: " << d);
      if (any_rows) CHECK_THAT(c->size() == nrows, "rows", "columns of " << nrows << " and " << c->size() << " rows in one store");
      any_rows = true;
      nrows = c->size();
    }
  }
  CHECK_THAT(store.num_cols() == seen.size(), "num-cols", store.num_cols() << " columns, " << seen.size() << " were returned");
  for (auto& p : seen) CHECK_THAT(store.GetColumn(std::string(1, char('a' + p.first))) == p.second, "same-column", "later request for " << char('a' + p.first));
}
