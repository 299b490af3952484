// C12: continuing from a base forest equals one uninterrupted run.
#include "training.h"

using namespace gbdt;

void harness_init() { quiet_logs(); }


static void split_run(pbt::Source& s, pbt::Ctx& ctx, int bulk) {
  Problem p = gen_problem(s, bulk, {"mse", "logloss"});
  int total = bulk == 2 ? s.range(2, 20) : s.range(2, 6), first = s.range(1, total - 1);
  int pieces = total - first >= 2 && s.flip() ? 2 : 1;
  int second = pieces == 2 ? int(s.range(1, total - first - 1)) : total - first;
  ctx.describe([&](std::ostream& o) { p.describe(o); o << total << " trees, " << first << " first, then " << second; });
  ctx.label(p.loss);
  auto ds = p.t.store();
  bool wild = false;
  auto train = [&](int trees, const Forest* base, Forest* out, Recorder* rec) {
    if (wild) return;
    Problem q = p;
    q.config.set_num_trees(trees);
    std::string before = base ? base->SerializeAsString() : "";
    Status st = TrainGBDT(ds.get(), p.t.names(), p.wf(), p.yf(), rec, q.config, base, out);
    wild = diverged(*rec, st, p.loss != "logloss");
    if (base) CHECK_THAT(base->SerializeAsString() == before, "base", "the base forest was modified");
  };
  Recorder r0(p.make_loss()), r1(p.make_loss()), r2(p.make_loss()), r3(p.make_loss());
  Forest whole, part1, part2, part3;
  train(total, nullptr, &whole, &r0);
  train(first, nullptr, &part1, &r1);
  train(second, &part1, &part2, &r2);
  Forest* joined = &part2;
  if (first + second < total) {
    train(total - first - second, &part2, &part3, &r3);
    joined = &part3;
  }
  if (wild) {
    ctx.label("diverged");
    return;
  }
  // The trees each piece added; when it is continued, its constant trees go into the one constant.
  std::vector<const TreeNode*> made;
  std::vector<const Recorder::Call*> calls;
  int counts[] = {first, second, total - first - second};
  const Forest* parts[] = {&part1, &part2, &part3};
  const Recorder* recs[] = {&r1, &r2, &r3};
  int kept = 0;
  for (int q = 0; q < 3; ++q) {
    if (counts[q] == 0) break;
    CHECK_THAT(parts[q]->tree_size() == 1 + kept + counts[q], "trees", parts[q]->tree_size() << " trees instead of " << 1 + kept + counts[q]);
    for (auto& c : recs[q]->calls) calls.push_back(&c);
    for (int k = 1 + kept; k < parts[q]->tree_size(); ++k) {
      made.push_back(&parts[q]->tree(k));
      kept += made.back()->has_left_child();
    }
  }
  bool split = false;
  for (int k = 1; k <= total; ++k) {
    split |= whole.tree(k).has_left_child();
    // The same predictions to start from. Newton steps for the constant of logloss amplify rounding without limit where
    // the scores are far out, so the comparison ends there.
    double far = std::fabs(r0.calls[k - 1].c);
    for (double v : r0.calls[k - 1].f) far = std::max(far, std::fabs(v));
    if (p.loss == "logloss" && far > 6) {
      ctx.label("far out");
      return;
    }
    for (int i = 0; i < p.t.n; ++i) {
      double a = r0.calls[k - 1].f[i], b = calls[k - 1]->f[i], mass = 1;
      for (int q = 1; q < k; ++q) mass += std::fabs(ref::walk(whole.tree(q), p.t, i).score()) + std::fabs(r0.calls[q - 1].c);
      CHECK_THAT(std::fabs(a - b) <= 1e-3 * mass, "same-predictions", "before tree " << k << " row " << i << " has prediction " << a << " in one run, " << b << " in pieces");
    }
    std::string why;
    if (bulk == 2 && largest_leaf(whole.tree(k)) < 1e-3 * std::max(1.0, far)) {
      ctx.label("converged");  // what is left to learn is near the rounding of the scores
      break;
    }
    int d = compare(whole.tree(k), *made[k - 1], &why, bulk == 2 ? 1e-5 * std::max(1.0, far) : 1e-6);
    if (d == 0) continue;
    if (d == 1 || near_tie(p, r0, whole.tree(k), k - 1)) {
      ctx.label("tied gains");
      return;  // from here on the two runs may part
    }
    FAIL("same-model", "tree " << k << " differs: " << why);
  }
  ctx.nontrivial_if(split);
  for (int i = 0; i < p.t.n; ++i) {
    double a = ref::predict(whole, p.t, i), b = ref::predict(*joined, p.t, i), mass = 0;
    for (auto& t : whole.tree()) mass += std::fabs(ref::walk(t, p.t, i).score());
    CHECK_THAT(std::fabs(a - b) <= 1e-3 * mass + 1e-6, "same-predictions", "row " << i << ": " << a << " in one run, " << b << " in pieces");
  }
}

PROP(split_run, 200) { split_run(s, ctx, s.chance(1, 25)); }
PROP_EX(split_large, 1, 120, false) { split_run(s, ctx, 2); }

// Any base forest, any loss: what is absorbed, what is kept, and that the run goes on from the base's predictions.
PROP(any_base, 200) {
  int bulk = s.chance(1, 300) ? 2 : s.chance(1, 25);
  Problem p = gen_problem(s, bulk, {"mse", "logloss", "huberized_hinge", "custom"});
  Forest base;
  if (s.flip()) {
    base = gen_forest(s, p.t, bulk == 2 ? s.range(5, 40) : s.length(0, 5), 3);
    // moderate scores, or the losses saturate
    std::function<void(TreeNode*)> tame = [&](TreeNode* n) {
      if (std::fabs(n->score()) > 3) n->set_score(0.25f);
      if (n->has_left_child()) tame(n->mutable_left_child()), tame(n->mutable_right_child());
    };
    for (auto& t : *base.mutable_tree()) tame(&t);
  } else {
    Recorder r(1, -1, 0);
    auto ds = p.t.store();
    Problem q = p;
    q.config.set_num_trees(s.range(1, 3));
    Status st = TrainGBDT(ds.get(), p.t.names(), p.wf(), p.yf(), &r, q.config, nullptr, &base);
    CHECK_THAT(st.ok(), "status", st.ToString());
  }
  int consts = s.range(0, 2);
  for (int i = 0; i < consts; ++i) base.add_tree()->set_score(float(s.range(-8, 8)) / 8);
  base.set_meta_info("base");
  ctx.describe([&](std::ostream& o) { p.describe(o); o << "base: " << base.ShortDebugString().substr(0, 1500); });
  auto ds = p.t.store();
  std::unique_ptr<Recorder> rec;
  if (p.loss == "custom") rec.reset(new Recorder(s.draw(0), -1, 0));
  else rec.reset(new Recorder(p.make_loss()));
  std::string before = base.SerializeAsString();
  Forest forest;
  Status st = TrainGBDT(ds.get(), p.t.names(), p.wf(), p.yf(), rec.get(), p.config, &base, &forest);
  if (diverged(*rec, st, p.loss != "logloss")) {
    ctx.label("diverged");
    return;
  }
  CHECK_THAT(base.SerializeAsString() == before, "base", "the base forest was modified");
  double constant = 0, constants = 0;
  std::vector<const TreeNode*> kept;
  for (auto& t : base.tree()) {
    if (t.has_left_child()) kept.push_back(&t);
    else constant += t.score(), constants += std::fabs(t.score());
  }
  CHECK_THAT(forest.tree_size() >= int(kept.size()) + 1, "trees", forest.tree_size() << " trees");
  for (size_t k = 0; k < kept.size(); ++k)
    CHECK_THAT(forest.tree(k + 1).SerializeAsString() == kept[k]->SerializeAsString(), "kept", "tree " << k << " of the base is changed or out of place");
  int splits = check_run(p, *rec, forest, kept.size() + 1, constant, constants);
  for (int k = kept.size() + 1; k < forest.tree_size(); ++k) check_no_internal_fields(forest.tree(k));
  ctx.nontrivial_if(!kept.empty() && splits >= 1);
  if (kept.size() < size_t(base.tree_size())) ctx.label("constant trees in the base");
}
