// Random forests over a table: any thresholds, any categories (also unseen ones), any shapes.
#ifndef VERIF_FORESTS_H_
#define VERIF_FORESTS_H_

#include "reference.h"

inline void gen_node(pbt::Source& s, const ref::Table& t, int max_depth, gbdt::TreeNode* n, bool gains) {
  switch (s.weighted({5, 2, 1, 1})) {
    case 0: n->set_score(float(s.range(-40, 40)) / 8); break;
    case 1: n->set_score(float(double(s.draw(1 << 24)) / (1 << 23) - 1)); break;
    case 2: n->set_score(s.pick<float>({0.0f, -0.0f, 1e-20f, 1e10f, -1e10f, 3e38f})); break;
    default: n->set_score(1 / float(1 + s.range(0, 999))); break;
  }
  if (max_depth <= 0 || !s.chance(3, 5)) return;
  const ref::RawCol& c = t.cols[s.draw(t.cols.size())];
  auto* sp = n->mutable_split();
  sp->set_feature(c.name);
  if (gains) sp->set_gain(double(s.range(1, 4000)) / 64);
  if (c.cat) {
    auto* cs = sp->mutable_cat_split();
    int k = s.chance(1, 8) ? s.range(5, 60) : s.range(0, 4);
    for (int i = 0; i < k; ++i) {
      if (!c.s.empty() && !s.chance(1, 4)) cs->add_category(c.s[s.draw(c.s.size())]);
      else cs->add_category(s.pick<const char*>({"never seen", "__missing__", "", "a", "b"}));
    }
  } else {
    auto* fs = sp->mutable_float_split();
    fs->set_missing_to_right_child(s.flip());
    if (!c.f.empty() && s.chance(1, 2)) {
      float v = c.f[s.draw(c.f.size())];
      if (std::isnan(v)) v = 0;
      int k = s.range(0, 2);  // at, just above or just below a value
      fs->set_threshold(k == 0 ? v : std::nextafter(v, k == 1 ? INFINITY : -INFINITY));
    } else {
      fs->set_threshold(s.chance(1, 10) ? s.pick<float>({INFINITY, -INFINITY, 0.0f, 1e-45f, 3.4e38f, -3.4e38f}) : float(s.range(-40, 80)) / 8);
    }
  }
  gen_node(s, t, max_depth - 1, n->mutable_left_child(), gains);
  gen_node(s, t, max_depth - 1, n->mutable_right_child(), gains);
}
inline gbdt::Forest gen_forest(pbt::Source& s, const ref::Table& t, int trees, int max_depth, bool gains = true, int chain = 60) {
  gbdt::Forest f;
  for (int i = 0; i < trees; ++i) {
    auto* n = f.add_tree();
    if (s.chance(1, 8)) {
      n->set_score(float(s.range(-20, 20)) / 4);
    } else if (s.chance(1, 40)) {  // a chain
      int d = chain > 60 && s.flip() ? s.range(60, chain) : s.range(20, 60);
      // Either any way, or the way that a row takes.
      int row = t.n > 0 && s.chance(3, 4) ? int(s.draw(t.n)) : -1;
      for (int k = 0; k < d; ++k) {
        const ref::RawCol& c = t.cols[s.draw(t.cols.size())];
        n->mutable_split()->set_feature(c.name);
        n->mutable_split()->set_gain(1);
        if (c.cat) n->mutable_split()->mutable_cat_split()->add_category(s.flip() ? "a" : "b");
        else n->mutable_split()->mutable_float_split()->set_threshold(float(s.range(0, 8)));
        bool left = row >= 0 ? ref::goes_left(n->split(), c, row) : s.flip();
        (left ? n->mutable_right_child() : n->mutable_left_child())->set_score(float(k) / 16);
        n = left ? n->mutable_left_child() : n->mutable_right_child();
      }
      n->set_score(1);
    } else {
      gen_node(s, t, max_depth, n, gains);
    }
  }
  return f;
}
#endif
