// C10: checkpoint score files hold exactly the prefix predictions.
#include "forests.h"

#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>

#include "src/gbdt_algo/evaluation.h"
#include "src/gbdt_algo/utils.h"

using namespace gbdt;

void harness_init() { quiet_logs(); }

static void clear_dir(const std::string& d) {
  DIR* h = opendir(d.c_str());
  if (!h) return;
  while (auto* e = readdir(h)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    if (unlink((d + "/" + n).c_str()) != 0) rmdir((d + "/" + n).c_str());
  }
  closedir(h);
}
static std::set<std::string> list_dir(const std::string& d) {
  std::set<std::string> r;
  DIR* h = opendir(d.c_str());
  if (!h) return r;
  while (auto* e = readdir(h)) {
    std::string n = e->d_name;
    if (n != "." && n != "..") r.insert(n);
  }
  closedir(h);
  return r;
}

PROP(score_files, 5) {
  int bulk = s.chance(1, 250) ? 2 : s.chance(1, 30);
  int n = bulk == 2 ? s.range(2000, 40000) : bulk ? s.range(500, 3000) : s.length(0, 12);
  ref::Table t = ref::gen_table(s, n, 3, bulk);
  int trees = bulk == 2 ? s.range(3, 25) : s.chance(1, 60) ? s.range(9, 120) : s.length(0, 8);
  Forest f = gen_forest(s, t, trees, 3);
  std::list<int> points;
  int k = s.range(0, 5);
  for (int i = 0; i < k; ++i) points.push_back(s.chance(1, 8) ? s.range(-2, trees + 3) : s.range(1, std::max(1, trees)));
  bool sorted = std::is_sorted(points.begin(), points.end());
  FLAGS_num_threads = bulk == 2 ? s.range(1, 16) : s.range(1, 4);
  std::string dir = pbt::scratch() + "/out", parent = "";
  clear_dir(dir);
  rmdir(dir.c_str());
  int where = s.weighted({6, 3, 1, 1});
  bool writable = true;
  if (where == 0) mkdir(dir.c_str(), 0755);
  if (where == 2) dir += "/no/such", writable = false;
  if (where == 3) pbt::write_file(pbt::scratch() + "/plain", "x"), dir = pbt::scratch() + "/plain", writable = false;
  // A fault at one score file: a device that is full, or something that is not a file.
  int fault = where == 0 ? s.weighted({6, 2, 1}) : 0;
  int at = 0;
  if (fault) {
    at = s.range(1, std::max(1, trees));
    std::string p = dir + "/forest." + std::to_string(at) + ".score";
    if (fault == 1) { if (symlink("/dev/full", p.c_str()) != 0) fault = 0; }
    else mkdir(p.c_str(), 0755);
  }
  std::set<int> want;
  for (int p : points) if (p >= 1 && p <= trees) want.insert(p);
  // Files of an earlier run, longer or shorter than what will be written.
  std::string old;
  if (where == 0)
    for (int p : want)
      if (!(fault && p == at) && s.chance(1, 5)) {
        pbt::write_file(dir + "/forest." + std::to_string(p) + ".score", std::string(s.range(0, 40 + 20 * n), s.flip() ? '1' : '\n'));
        old += " " + std::to_string(p);
      }
  if (!old.empty()) ctx.label("over an earlier run's files");
  ctx.describe([&](std::ostream& o) {
    t.describe(o);
    o << "old files" << old << " test points";
    for (int p : points) o << " " << p;
    o << (writable ? "" : ", unwritable directory") << (fault == 1 ? ", full device at " : fault == 2 ? ", a directory in place of the file for " : ", no fault ") << at
      << " forest: " << f.ShortDebugString().substr(0, 1200);
  });
  auto ds = t.store();
  Status st = EvaluateForest(ds.get(), f, points, dir);
  if (!writable) {
    ctx.nontrivial_if(!want.empty());
    if (!want.empty()) CHECK_THAT(!st.ok(), "unreported", "the scores cannot be written, yet success is reported");
    return;
  }
  // An empty score file is complete on a full device, too.
  bool hit = want.count(at) && (fault == 2 || (fault == 1 && n > 0));
  if (hit) {
    ctx.label("write fault");
    ctx.nontrivial();
    CHECK_THAT(!st.ok(), "unreported", "the score file of " << at << " trees cannot be written, yet success is reported");
    return;
  }
  CHECK_THAT(st.ok(), "status", st.ToString());
  ctx.nontrivial_if(!want.empty() && n > 0);
  if (!sorted) ctx.label("unsorted test points");
  auto names = list_dir(dir);
  if (fault) names.erase("forest." + std::to_string(at) + ".score");
  std::set<std::string> expected;
  for (int p : want) expected.insert("forest." + std::to_string(p) + ".score");
  if (fault) expected.erase("forest." + std::to_string(at) + ".score");
  std::string diff;
  for (auto& e : expected) if (!names.count(e)) diff += " missing " + e;
  for (auto& e : names) if (!expected.count(e)) diff += " unexpected " + e;
  CHECK_THAT(diff.empty(), "files", "score files:" << diff);
  for (int p : want) {
    std::string name = "forest." + std::to_string(p) + ".score";
    if (!expected.count(name)) continue;
    std::string text = pbt::read_file(dir + "/" + name);
    std::vector<std::string> lines;
    size_t pos = 0;
    while (pos < text.size()) {
      size_t q = text.find('\n', pos);
      if (q == std::string::npos) q = text.size();
      lines.push_back(text.substr(pos, q - pos));
      pos = q + 1;
    }
    CHECK_THAT(int(lines.size()) == n, "lines", name << " has " << lines.size() << " lines for " << n << " rows");
    for (int i = 0; i < n; ++i) {
      double w = 0, mass = 0;
      for (int k = 0; k < p; ++k) {
        double x = ref::walk(f.tree(k), t, i).score();
        w += x, mass += std::fabs(x);
      }
      char* e;
      double got = strtod(lines[i].c_str(), &e);
      CHECK_THAT(!lines[i].empty() && *e == 0, "number", name << " line " << i << ": " << pbt::quote(lines[i]));
      CHECK_THAT(std::fabs(got - w) <= 5.01e-6 * std::fabs(w) + 1e-12 * mass, "score", name << " line " << i << " says " << lines[i] << ", the first " << p << " trees give " << w);
    }
  }
}

PROP(test_points, 2) {
  Config c;
  int n = s.length(0, 500);
  int k = s.chance(1, 6) ? s.pick<int>({0, -1, -100, 1000000, 2147483647, -2147483647 - 1}) : int(s.range(0, 40));
  c.set_eval_interval(k);
  ctx.describe([&](std::ostream& o) { o << "size " << n << " interval " << k; });
  ctx.nontrivial_if(n > 0);
  std::set<int> want;
  if (k > 0) for (long p = n; p > 0; p -= k) want.insert(p);
  else want.insert(n);
  auto got = GetTestPoints(c, n);
  std::set<int> g(got.begin(), got.end());
  CHECK_THAT(g.size() == got.size(), "test-points", "a test point is repeated");
  if (n == 0) g.erase(0), want.erase(0);  // there is no prefix of zero trees
  CHECK_THAT(g == want, "test-points", g.size() << " test points, expected " << want.size());
}
