// C20: feature importance sums the gains of the model's splits.
#include "forests.h"

#include <map>
#include <unordered_set>

#include "src/gbdt_algo/utils.h"

using namespace gbdt;
typedef long double LD;

void harness_init() { quiet_logs(); }

static void node(pbt::Source& s, const std::vector<std::string>& names, int depth, int mode, TreeNode* n, int* budget) {
  if (s.flip()) n->set_score(float(s.range(-40, 40)) / 8);
  bool inner = depth > 0 && *budget > 0 && s.chance(3, 5);
  if (!inner) return;
  --*budget;
  auto* sp = n->mutable_split();
  sp->set_feature(s.pick(names));
  switch (mode) {
    case 0: sp->set_gain(double(s.range(1, 4000)) / 64); break;
    case 1: sp->set_gain(std::ldexp(double(s.range(1, 1000)), int(s.range(-60, 60)))); break;
    case 2: sp->set_gain(1); break;
    case 3: if (!s.chance(2, 3)) sp->set_gain(double(s.range(0, 3))); break;  // none, as in models made elsewhere
    default: sp->set_gain(s.pick<double>({1e-300, 1e300, 1, 1e-10, 3.5, 1e16})); break;
  }
  if (s.flip()) sp->mutable_float_split()->set_threshold(float(s.range(-4, 4)));
  else if (s.flip()) sp->mutable_cat_split()->add_category("a");
  node(s, names, depth - 1, mode, n->mutable_left_child(), budget);
  node(s, names, depth - 1, mode, n->mutable_right_child(), budget);
}

static void walk(const TreeNode& n, std::map<std::string, LD>* sum, std::map<std::string, int>* count) {
  if (!n.has_left_child()) return;
  (*sum)[n.split().feature()] += n.split().gain();
  ++(*count)[n.split().feature()];
  walk(n.left_child(), sum, count);
  walk(n.right_child(), sum, count);
}

PROP(importance, 1) {
  std::vector<std::string> names;
  int k = s.chance(1, 50) ? s.range(100, 1200) : s.chance(1, 6) ? s.range(10, 60) : s.range(1, 8);
  for (int i = 0; i < k; ++i) names.push_back(i < 8 ? std::vector<std::string>{"a", "b", "a b", "", "__missing__", "\xc3\xa4", "A", "aa"}[i] : "f" + std::to_string(i));
  int trees = s.length(0, 40), mode = s.weighted({4, 2, 2, 1, 1});
  Forest f;
  if (k >= 100) {  // each of them is used
    for (auto& name : names) {
      auto* t = f.add_tree();
      t->mutable_split()->set_feature(name);
      t->mutable_split()->set_gain(mode == 2 ? 1 : double(s.range(1, 4000)) / 64);
      t->mutable_left_child(), t->mutable_right_child();
    }
  }
  int budget = s.chance(1, 10) ? 2000 : 80;
  for (int i = 0; i < trees; ++i) {
    TreeNode* t = f.add_tree();
    if (s.chance(1, 30)) {  // a chain
      int d = s.range(10, 400);
      for (int q = 0; q < d; ++q) {
        t->mutable_split()->set_feature(names[q % names.size()]);
        t->mutable_split()->set_gain(1 + q);
        auto* other = s.flip() ? t->mutable_left_child() : nullptr;
        auto* next = other ? t->mutable_right_child() : t->mutable_left_child();
        if (!other) t->mutable_right_child();
        t = next;
      }
    } else {
      node(s, names, s.range(0, 8), mode, t, &budget);
    }
  }
  ctx.describe([&](std::ostream& o) { o << f.ShortDebugString().substr(0, 3000); });
  std::map<std::string, LD> sum;
  std::map<std::string, int> count;
  for (auto& t : f.tree()) walk(t, &sum, &count);
  std::string before = f.SerializeAsString();
  auto imp = ComputeFeatureImportance(f);
  auto needed = CollectAllFeatures(f);
  CHECK_THAT(f.SerializeAsString() == before, "unchanged", "the forest was modified");
  LD top = 0;
  for (auto& kv : sum) top = std::max(top, kv.second);
  CHECK_THAT(imp.size() == sum.size(), "features", imp.size() << " features listed, " << sum.size() << " are used");
  std::set<std::string> seen;
  for (size_t i = 0; i < imp.size(); ++i) {
    auto it = sum.find(imp[i].first);
    CHECK_THAT(it != sum.end(), "features", "feature " << pbt::quote(imp[i].first) << " is used by no split");
    CHECK_THAT(seen.insert(imp[i].first).second, "features", "feature " << pbt::quote(imp[i].first) << " is listed twice");
    if (top == 0) continue;  // nothing to compare with
    LD want = it->second / top;
    CHECK_THAT(fabsl(imp[i].second - want) <= 1e-9L * want + 1e-300L, "importance", "feature " << pbt::quote(imp[i].first) << " has importance " << imp[i].second << " instead of " << double(want));
    if (i) CHECK_THAT(imp[i].second <= imp[i - 1].second, "order", "importance " << imp[i].second << " after " << imp[i - 1].second);
  }
  if (top > 0) CHECK_THAT(imp[0].second == 1, "importance", "the largest importance is " << imp[0].second);
  std::set<std::string> want, got(needed.begin(), needed.end());
  for (auto& kv : sum) want.insert(kv.first);
  CHECK_THAT(want == got, "collect", got.size() << " features collected, " << want.size() << " are used");
  bool twice = false;
  for (auto& kv : count) twice |= kv.second >= 2;
  ctx.nontrivial_if(sum.size() >= 2 && twice);
  if (sum.empty()) ctx.label("no split");
  if (sum.size() == 1) ctx.label("one feature");
}
