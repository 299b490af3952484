// Reference side shared by the training and prediction harnesses: raw tables, routing by raw values, exhaustive
// search for the best division, and walking of trees. Written from the documented semantics, on raw values.
#ifndef VERIF_REFERENCE_H_
#define VERIF_REFERENCE_H_

#include "common.h"

#include <map>

#include "src/data_store/column.h"
#include "src/data_store/data_store.h"
#include "src/loss_func/gradient_data.h"
#include "src/proto/config.pb.h"
#include "src/proto/tree.pb.h"

namespace ref {
typedef long double LD;

struct RawCol {
  std::string name;
  bool cat = false;
  std::vector<float> f;
  std::vector<std::string> s;
};
struct Table {
  int n = 0;
  std::vector<RawCol> cols;
  const RawCol* find(const std::string& name) const {
    for (auto& c : cols)
      if (c.name == name) return &c;
    return nullptr;
  }
  std::unique_ptr<gbdt::DataStore> store() const {
    std::unique_ptr<gbdt::DataStore> ds(new gbdt::DataStore);
    for (auto& c : cols) {
      auto st = ds->Add(c.cat ? gbdt::Column::CreateStringColumn(c.name, c.s) : gbdt::Column::CreateBucketizedFloatColumn(c.name, c.f));
      if (!st.ok()) throw pbt::Failure{"store", st.ToString()};
    }
    return ds;
  }
  std::unordered_set<std::string> names() const {
    std::unordered_set<std::string> r;
    for (auto& c : cols) r.insert(c.name);
    return r;
  }
  void describe(std::ostream& o) const {
    for (auto& c : cols) o << c.name << "=" << (c.cat ? pbt::show(c.s) : pbt::show(c.f)).substr(0, 500) << " ";
  }
};

// Takes the rows listed in `idx` (repetitions allowed).
inline Table take(const Table& t, const std::vector<int>& idx) {
  Table r;
  r.n = idx.size();
  for (auto& c : t.cols) {
    RawCol k;
    k.name = c.name;
    k.cat = c.cat;
    for (int i : idx) {
      if (c.cat) k.s.push_back(c.s[i]);
      else k.f.push_back(c.f[i]);
    }
    r.cols.push_back(k);
  }
  return r;
}

// A table of n rows and 1..max_cols features. Its size: 0, drawn cell by cell; 1, hundreds of rows; 2, also with many levels
// (more than 256 and more than 65536), sorted columns and long tails.
inline Table gen_table(pbt::Source& s, int n, int max_cols, int bulk, bool odd_floats = true) {
  Table t;
  t.n = n;
  int k = s.range(1, max_cols);
  pbt::Rng r(0);
  if (bulk) r = s.bulk();
  bool large = bulk == 2;
  for (int c = 0; c < k; ++c) {
    RawCol col;
    col.cat = s.chance(2, 5);
    col.name = (col.cat ? "c" : "x") + std::to_string(c);
    int levels = large ? s.pick<int>({2, 30, 255, 256, 257, 700, 70000}) : s.range(1, bulk ? 30 : 8);
    int miss = s.weighted({2, 1, 1});  // none, some, many
    int mode = large ? s.range(0, odd_floats ? 4 : 3) : s.weighted({4, 2, odd_floats ? 1 : 0});
    if (large && !odd_floats && mode == 2) mode = 4;
    FloatGen fg;
    for (int i = 0; i < n; ++i) {
      auto num = [&](int m) { return bulk ? int(r.below(m)) : int(s.draw(m)); };
      bool missing = miss == 0 ? false : miss == 1 ? num(6) == 5 : num(2) == 1;
      if (col.cat && large) {
        int l = mode == 3 ? (long long)i * levels / n : mode == 2 ? int(std::pow(r.unit(), 6) * levels) : num(levels);
        col.s.push_back(missing ? "__missing__" : std::string(1, char('a' + l % 26)) + std::to_string(l / 26));
      } else if (col.cat) {
        int l = num(levels);
        col.s.push_back(missing ? "__missing__" : l == 7 ? "" : std::string(1, char('a' + l % 26)) + (l >= 26 ? "x" : ""));
      } else if (missing) {
        col.f.push_back(NAN);
      } else if (mode == 0) {
        col.f.push_back(num(levels));
      } else if (mode == 3) {
        col.f.push_back(i);
      } else if (mode == 4) {
        col.f.push_back(float(std::pow(r.unit(), 8) * 100));
      } else if (mode == 1) {
        col.f.push_back(float(bulk ? r.unit() * 10 - 5 : (double(s.draw(4001)) - 2000) / 400));
      } else {
        col.f.push_back(bulk ? num(levels) * 0.3f : fg(s));
      }
    }
    t.cols.push_back(col);
  }
  return t;
}

// Which side the row takes at a split, by its raw value. The second category listing (internal indices) is ignored.
inline bool goes_left(const gbdt::Split& split, const RawCol& c, int row) {
  if (c.cat) {
    for (auto& k : split.cat_split().category())
      if (k == c.s[row]) return true;
    return false;
  }
  float v = c.f[row];
  if (std::isnan(v)) return !split.float_split().missing_to_right_child();
  return v < split.float_split().threshold();
}
inline const gbdt::TreeNode& walk(const gbdt::TreeNode& tree, const Table& t, int row) {
  const gbdt::TreeNode* n = &tree;
  while (n->has_left_child()) {
    const RawCol* c = t.find(n->split().feature());
    if (!c) throw pbt::Failure{"feature", "the tree splits on " + n->split().feature() + ", which is not a column"};
    n = goes_left(n->split(), *c, row) ? &n->left_child() : &n->right_child();
  }
  return *n;
}
inline double predict(const gbdt::Forest& f, const Table& t, int row) {
  double r = 0;
  for (auto& tree : f.tree()) r += walk(tree, t, row).score();
  return r;
}
inline int leaves(const gbdt::TreeNode& n) { return n.has_left_child() ? leaves(n.left_child()) + leaves(n.right_child()) : 1; }
inline int depth(const gbdt::TreeNode& n) { return n.has_left_child() ? 1 + std::max(depth(n.left_child()), depth(n.right_child())) : 0; }

struct Sum {
  LD g = 0, h = 0;
  void add(const Sum& o) { g += o.g, h += o.h; }
  LD energy(LD lambda) const { return h + lambda == 0 ? 0 : g * g / (h + lambda); }
  LD score(LD lambda) const { return h + lambda == 0 ? 0 : g / (h + lambda); }
};
inline Sum sub(const Sum& a, const Sum& b) {
  Sum r;
  r.g = a.g - b.g, r.h = a.h - b.h;
  return r;
}
typedef std::vector<Sum> Rows;  // weighted gradient and hessian of every row

inline Sum total(const Rows& rows, const std::vector<int>& idx) {
  Sum t;
  for (int i : idx) t.add(rows[i]);
  return t;
}

struct Best {
  LD gain = 0, scale = 0;
  std::string what;
};
// The largest gain among the divisions of the rows by one feature that the search is bound to find: every threshold with
// missing rows on either side; for categories the cuts of the order by score. `slack` is left below the hessian limit.
inline void best_division(const RawCol& c, const Rows& rows, const std::vector<int>& idx, double lambda, double min_hessian,
                          LD slack, Best* best) {
  Sum T = total(rows, idx);
  best->scale = std::max(best->scale, T.energy(lambda));
  auto consider = [&](const Sum& left, const std::string& what) {
    Sum right = sub(T, left);
    if (!(std::min(left.h, right.h) > min_hessian + slack)) return;
    LD e = left.energy(lambda) + right.energy(lambda);
    best->scale = std::max(best->scale, e);
    LD g = e - T.energy(lambda);
    if (g > best->gain) best->gain = g, best->what = c.name + ": " + what;
  };
  if (c.cat) {
    std::map<std::string, Sum> by;
    for (int i : idx) by[c.s[i]].add(rows[i]);
    std::vector<std::pair<LD, std::pair<std::string, Sum>>> cats;
    for (auto& p : by) {
      if (p.second.g == 0 && p.second.h == 0) continue;
      if (p.second.h + lambda <= 0) return;  // no score, no order
      cats.push_back(std::make_pair(p.second.score(lambda), std::make_pair(p.first, p.second)));
    }
    std::sort(cats.begin(), cats.end(), [](const std::pair<LD, std::pair<std::string, Sum>>& a, const std::pair<LD, std::pair<std::string, Sum>>& b) { return a.first < b.first; });
    Sum left;
    std::string names;
    for (size_t i = 0; i + 1 < cats.size(); ++i) {
      left.add(cats[i].second.second);
      names += cats[i].second.first + " ";
      if (cats[i + 1].first - cats[i].first > 1e-9L * (fabsl(cats[i].first) + fabsl(cats[i + 1].first)) + slack) consider(left, names);
    }
    return;
  }
  std::map<float, Sum> by;
  Sum missing;
  bool has_missing = false;
  for (int i : idx) {
    if (std::isnan(c.f[i])) missing.add(rows[i]), has_missing = true;
    else by[c.f[i]].add(rows[i]);
  }
  Sum acc;
  size_t seen = 0;
  for (auto& p : by) {
    acc.add(p.second);
    if (++seen == by.size()) break;
    consider(acc, "above " + pbt::show(p.first) + ", missing right");
    if (has_missing) {
      Sum a = acc;
      a.add(missing);
      consider(a, "above " + pbt::show(p.first) + ", missing left");
    }
  }
  if (has_missing && !by.empty()) consider(missing, "missing only");
}

// Checks a fitted tree against the gradients it was fitted to. `exact`: the numbers are small dyadic ones. `all_features`:
// no feature sampling, so every split has to be the best of all features. `scale_scores`: the shrinkage applied.
struct TreeCheck {
  const Table& t;
  const Rows& rows;
  const gbdt::Config& config;
  bool exact, all_features;
  double shrinkage = 1;
  int internal = 0;

  LD rel() const { return exact ? 1e-11L : 1e-6L; }
  LD slack() const { return exact ? 0 : 1e-9L; }

  void score(const gbdt::TreeNode& n, const std::vector<int>& idx) {
    Sum S = total(rows, idx);
    LD want = S.score(config.l2_lambda()) * shrinkage;
    LD mass = 0;
    for (int i : idx) mass += fabsl(rows[i].g);
    LD d = S.h + config.l2_lambda();
    LD tol = 4e-7L * fabsl(want) + 1e-37L + (exact || d <= 0 ? 0 : 1e-12L * mass / d);
    CHECK_THAT(fabsl(LD(n.score()) - want) <= tol, "score",
               "a node of " << idx.size() << " rows has score " << n.score() << ", G/(H+lambda)" << (shrinkage != 1 ? " shrunk" : "") << " is " << double(want));
  }

  // What the tree should have found for these rows.
  Best best(const std::vector<int>& idx) {
    Best b;
    for (auto& c : t.cols) best_division(c, rows, idx, config.l2_lambda(), config.min_hessian(), slack(), &b);
    return b;
  }
  struct Item {
    const gbdt::TreeNode* node;
    std::vector<int> idx;
    LD gain;  // what dividing this node is worth
    LD tol;
    std::string what;
  };
  Item item(const gbdt::TreeNode& n, const std::vector<int>& idx) {
    score(n, idx);
    Item it;
    it.node = &n;
    it.idx = idx;
    Best b = best(idx);
    it.tol = rel() * b.scale;
    it.gain = b.gain;
    it.what = b.what;
    LD limit = std::max(config.min_gain(), 1e-6);
    if (!n.has_left_child()) {
      if (b.gain <= limit + it.tol) it.gain = 0;
      return it;
    }
    CHECK_THAT(n.has_right_child() && n.has_split(), "shape", "an inner node lacks a part");
    it.gain = n.split().gain();
    CHECK_THAT(n.split().gain() > config.min_gain(), "min-gain", "a split gains " << n.split().gain() << ", the limit is " << config.min_gain());
    if (all_features)
      CHECK_THAT(n.split().gain() >= b.gain - it.tol, "best-feature", "a split on " << n.split().feature() << " gains " << n.split().gain() << " but " << b.what << " gains " << double(b.gain));
    return it;
  }
  void run(const gbdt::TreeNode& root, const std::vector<int>& all) {
    int nl = leaves(root);
    CHECK_THAT(nl <= config.num_leaves(), "num-leaves", nl << " leaves, the limit is " << config.num_leaves());
    std::vector<Item> frontier{item(root, all)};
    for (;;) {
      // The inner node that gains most must be what a largest-gain-first search divides next.
      int next = -1;
      for (size_t k = 0; k < frontier.size(); ++k)
        if (frontier[k].node->has_left_child() && (next < 0 || frontier[k].gain > frontier[next].gain)) next = k;
      if (all_features && (next >= 0 || int(frontier.size()) < config.num_leaves()))
        for (auto& f : frontier)
          if (!f.node->has_left_child() && f.gain > 0) {
            if (next < 0) FAIL("growth", "the tree has " << nl << " leaves, yet a leaf of " << f.idx.size() << " rows could be divided by " << f.what << " with gain " << double(f.gain));
            CHECK_THAT(f.gain <= frontier[next].gain + f.tol + frontier[next].tol, "growth",
                       "a node with gain " << double(frontier[next].gain) << " was divided before a leaf that gains " << double(f.gain) << " by " << f.what);
          }
      if (next < 0) break;
      Item it = frontier[next];
      frontier.erase(frontier.begin() + next);
      ++internal;
      const RawCol* c = t.find(it.node->split().feature());
      CHECK_THAT(c, "feature", "a split on " << it.node->split().feature() << ", which is not a feature");
      CHECK_THAT(c->cat ? it.node->split().has_cat_split() && !it.node->split().has_float_split() : it.node->split().has_float_split() && !it.node->split().has_cat_split(), "kind", it.node->split().ShortDebugString());
      std::vector<int> L, R;
      for (int i : it.idx) (goes_left(it.node->split(), *c, i) ? L : R).push_back(i);
      Sum l = total(rows, L), r = total(rows, R), T = total(rows, it.idx);
      double lambda = config.l2_lambda();
      LD gain = l.energy(lambda) + r.energy(lambda) - T.energy(lambda);
      LD tol = rel() * (l.energy(lambda) + r.energy(lambda) + T.energy(lambda));
      CHECK_THAT(fabsl(gain - it.node->split().gain()) <= tol, "gain", "a split records gain " << it.node->split().gain() << ", the rows it separates gain " << double(gain) << ": " << it.node->split().ShortDebugString());
      CHECK_THAT(std::min(l.h, r.h) > config.min_hessian() - slack(), "min-hessian", "hessians " << double(l.h) << " and " << double(r.h) << ", limit " << config.min_hessian());
      frontier.push_back(item(it.node->left_child(), L));
      frontier.push_back(item(it.node->right_child(), R));
    }
  }
};

}  // namespace ref
#endif
