// C18: learning respects the symmetries of the data.
#include "training.h"

using namespace gbdt;
using ref::LD;

void harness_init() { quiet_logs(); }

// Whether some node of the tree could as well have been divided otherwise: another division of its weighted rows with nearly
// the same gain, or limits that are nearly met. Then rounding decides, and the two runs may part.
static bool ambiguous(const Problem& p, const Recorder& rec, const TreeNode& tree, int k, double scaled) {
  if (near_tie(p, rec, tree, k)) return true;
  int n = p.t.n;
  ref::Rows rows;
  std::vector<uint64_t> mark;
  std::vector<int> all;
  pbt::Rng r(12345);
  for (int i = 0; i < n; ++i) {
    ref::Sum sum;
    sum.g = LD(p.w[i]) * rec.calls[k].g[i].g, sum.h = LD(p.w[i]) * rec.calls[k].g[i].h;
    rows.push_back(sum);
    uint64_t m = r.next();
    mark.push_back(p.w[i] == 0 ? 0 : m);
    all.push_back(i);
  }
  double lambda = p.config.l2_lambda(), min_h = p.config.min_hessian();
  LD limit = std::max(p.config.min_gain(), 1e-6);
  bool found = false;
  std::function<void(const TreeNode&, const std::vector<int>&)> visit = [&](const TreeNode& node, const std::vector<int>& idx) {
    if (found) return;
    ref::Sum T = ref::total(rows, idx);
    uint64_t whole = 0;
    for (int i : idx) whole ^= mark[i];
    struct Cand {
      uint64_t key;
      LD gain;
    };
    std::vector<Cand> cands;
    LD best = 0, scale = T.energy(lambda);
    auto consider = [&](const ref::Sum& left, uint64_t key) {
      if (key == 0 || key == whole) return;
      ref::Sum right = ref::sub(T, left);
      LD m = std::min(left.h, right.h), slack = 1e-4L * min_h + 1e-4L * T.h;
      if (m < min_h - slack) return;
      if (left.h + lambda <= 0 || right.h + lambda <= 0) return;
      LD e = left.energy(lambda) + right.energy(lambda);
      scale = std::max(scale, e);
      LD gain = e - T.energy(lambda);
      if (m < min_h + slack && gain > limit / 2) found = true;  // the limit decides
      cands.push_back({std::min(key, whole ^ key), gain});
      best = std::max(best, gain);
    };
    for (auto& c : p.t.cols) {
      if (c.cat) {
        std::map<std::string, std::pair<ref::Sum, uint64_t>> by;
        for (int i : idx) by[c.s[i]].first.add(rows[i]), by[c.s[i]].second ^= mark[i];
        std::vector<std::pair<LD, std::pair<ref::Sum, uint64_t>>> cats;
        for (auto& kv : by)
          if (kv.second.second) {
            if (kv.second.first.h + lambda <= 0) {
              found = true;  // no order
              return;
            }
            cats.push_back({kv.second.first.score(lambda), kv.second});
          }
        std::sort(cats.begin(), cats.end(), [](const std::pair<LD, std::pair<ref::Sum, uint64_t>>& a, const std::pair<LD, std::pair<ref::Sum, uint64_t>>& b) { return a.first < b.first; });
        ref::Sum left;
        uint64_t key = 0;
        for (size_t i = 0; i < cats.size(); ++i) {
          // Nearly equal scores can be ordered either way; a cut between them is the best one only at a limit, or as a tie.
          if (i && cats[i].first - cats[i - 1].first < 1e-5L * (fabsl(cats[i].first) + fabsl(cats[i - 1].first)) + 1e-9L) {
            if (min_h > 0) found = true;
            ref::Sum other = left;
            other.add(cats[i].second.first);
            consider(other, key ^ cats[i].second.second);
            other = ref::sub(other, cats[i - 1].second.first);
            consider(other, key ^ cats[i].second.second ^ cats[i - 1].second.second);
          }
          left.add(cats[i].second.first);
          key ^= cats[i].second.second;
          consider(left, key);
        }
      } else {
        std::map<float, std::pair<ref::Sum, uint64_t>> by;
        ref::Sum missing;
        uint64_t mkey = 0;
        for (int i : idx)
          if (std::isnan(c.f[i])) missing.add(rows[i]), mkey ^= mark[i];
          else by[c.f[i]].first.add(rows[i]), by[c.f[i]].second ^= mark[i];
        ref::Sum acc;
        uint64_t key = 0;
        for (auto& kv : by) {
          acc.add(kv.second.first), key ^= kv.second.second;
          consider(acc, key);
          ref::Sum a = acc;
          a.add(missing);
          consider(a, key ^ mkey);
        }
        consider(missing, mkey);
      }
    }
    // Which of the divisions is the best?
    uint64_t first = 0;
    for (auto& c : cands)
      if (c.gain == best) first = c.key;
    for (auto& c : cands)
      if (c.key != first && c.gain > best - 1e-3L * best - 1e-5L * scale - 1e-6L && best > limit / 2) found = true;
    // The smallest gain worth a division, 1e-6, does not scale with the data.
    if (std::min<LD>(best, best * scaled) < 2e-6L && std::max<LD>(best, best * scaled) > 5e-7L && best > 0) found = true;
    if (best > 0 && fabsl(best - limit) < 1e-3L * limit + 1e-5L * scale) found = true;
    if (!node.has_left_child() || found) return;
    std::vector<int> L, R;
    for (int i : idx) (ref::goes_left(node.split(), *p.t.find(node.split().feature()), i) ? L : R).push_back(i);
    visit(node.left_child(), L);
    visit(node.right_child(), R);
  };
  visit(tree, all);
  return found;
}

// The same problem seen differently: row i of one is row at[i] of the other, and predictions are mapped by sign and shift.
struct Twin {
  Problem q;
  std::vector<int> at;
  double factor = 1, shift = 0;
  double gain_factor = 1;
  std::string name;
};

static Problem rows_of(const Problem& p, const std::vector<int>& idx) {
  Problem q = p;
  q.t = ref::take(p.t, idx);
  q.w.clear(), q.y.clear();
  for (int i : idx) q.w.push_back(p.w[i]), q.y.push_back(p.y[i]);
  return q;
}

static float increasing(float v, int kind) {
  switch (kind) {
    case 0: return v * 4;
    case 1: return v < 0 ? v / 8 : v * 16;
    case 2: return v + 1024;
    default: return std::copysign(std::sqrt(std::fabs(v)), v);
  }
}

static Twin gen_twin(pbt::Source& s, const Problem& p) {
  Twin t;
  int n = p.t.n;
  auto r = s.bulk();
  std::vector<int> idx;
  for (int i = 0; i < n; ++i) idx.push_back(i), t.at.push_back(i);
  t.q = p;
  std::vector<int> kinds = {0, 1, 2, 3, 4, 5, 6, 7, 8};
  if (p.loss == "mse") kinds.push_back(10), kinds.push_back(11), kinds.push_back(12), kinds.push_back(9), kinds.push_back(13);
  else kinds.push_back(10);
  switch (s.pick(kinds)) {
    case 0: {
      t.name = "rows permuted";
      for (int i = n - 1; i > 0; --i) std::swap(idx[i], idx[r.below(i + 1)]);
      t.q = rows_of(p, idx);
      for (int i = 0; i < n; ++i) t.at[idx[i]] = i;
      break;
    }
    case 1: {
      t.name = "weights as repetitions";
      idx.clear();
      for (int i = 0; i < n; ++i) {
        t.at[i] = idx.size();
        for (int k = 0; k < int(p.w[i]); ++k) idx.push_back(i);
      }
      for (int i = 0; i < n; ++i) if (p.w[i] == 0) t.at[i] = -1;
      t.q = rows_of(p, idx);
      for (auto& w : t.q.w) w = 1;
      break;
    }
    case 2: {
      t.name = "rows of weight zero added";
      int extra = s.range(1, 8);
      std::set<int> added;
      for (int k = 0; k < extra; ++k) {
        int pos = r.below(idx.size() + 1);
        std::vector<int> moved;
        idx.insert(idx.begin() + pos, -1 - int(r.below(n)));
      }
      std::vector<int> src;
      for (int x : idx) src.push_back(x < 0 ? -1 - x : x);
      t.q = rows_of(p, src);
      for (size_t k = 0; k < idx.size(); ++k) {
        if (idx[k] >= 0) {
          t.at[idx[k]] = k;
          continue;
        }
        t.q.w[k] = 0;
        t.q.y[k] = p.loss == "mse" ? float(int(r.below(2001)) - 1000) : r.below(2) ? 1 : -1;
        // other values, also ones no other row has
        for (auto& c : t.q.t.cols) {
          if (c.cat && r.below(2)) c.s[k] = r.below(2) ? "only here" : c.s[r.below(c.s.size())];
          else if (!c.cat && r.below(2)) c.f[k] = r.below(4) == 0 ? NAN : r.below(2) ? c.f[r.below(c.f.size())] : float(r.unit() * 20 - 10);
        }
      }
      break;
    }
    case 3: {
      t.name = "categories renamed";
      for (auto& c : t.q.t.cols)
        for (auto& x : c.s)
          if (x != "__missing__") x = std::string(1, char('z' - (x.empty() ? 0 : x[0] - 'a' + 1) % 27 % 26)) + "/" + x + (x.empty() ? "" : std::string(1, char('A' + (x[0] * 7) % 26)));
      break;
    }
    case 4: {
      t.name = "constant feature added";
      ref::RawCol c;
      c.cat = s.flip();
      c.name = s.flip() ? "aaa" : "zzz";
      bool missing = s.chance(1, 3);
      for (int i = 0; i < n; ++i)
        if (c.cat) c.s.push_back(missing ? "__missing__" : "same");
        else c.f.push_back(missing ? NAN : 3);
      t.q.t.cols.insert(t.q.t.cols.begin() + r.below(t.q.t.cols.size() + 1), c);
      break;
    }
    case 5: {
      t.name = "feature duplicated";
      ref::RawCol c = p.t.cols[r.below(p.t.cols.size())];
      c.name += s.flip() ? "-again" : "'";
      if (s.flip()) {
        if (c.cat) for (auto& x : c.s) x = x == "__missing__" ? x : "d" + x;
        else for (auto& x : c.f) x = increasing(x, 0);
      }
      t.q.t.cols.insert(t.q.t.cols.begin() + r.below(t.q.t.cols.size() + 1), c);
      break;
    }
    case 6: {
      t.name = "features mapped increasingly";
      int kind = s.range(0, 3);
      for (auto& c : t.q.t.cols)
        if (!c.cat) {
          std::map<float, float> m;
          std::set<float> image;
          for (float v : c.f) if (!std::isnan(v)) m[v] = increasing(v, kind), image.insert(increasing(v, kind));
          if (image.size() != m.size() || image.count(INFINITY)) continue;  // two values would fall together
          for (auto& v : c.f) if (!std::isnan(v)) v = m[v];
        }
      break;
    }
    case 7: {
      t.name = "features renamed and reordered";
      for (auto& c : t.q.t.cols) c.name = "renamed " + std::to_string(r.below(1000)) + c.name;
      for (int i = t.q.t.cols.size() - 1; i > 0; --i) std::swap(t.q.t.cols[i], t.q.t.cols[r.below(i + 1)]);
      break;
    }
    case 8: {
      t.name = "weights scaled";
      float k = s.flip() ? s.pick<float>({2, 4, 64, 0.5f, 0.25f}) : std::ldexp(1.0f, int(s.range(-20, 20)));
      for (auto& w : t.q.w) w *= k;
      t.q.config.set_l2_lambda(p.config.l2_lambda() * k);
      t.q.config.set_min_hessian(p.config.min_hessian() * k);
      t.q.config.set_min_gain(p.config.min_gain() * k);
      t.gain_factor = k;
      break;
    }
    case 9: {
      t.name = "targets scaled";
      float k = s.pick<float>({2, 8, 0.5f});
      for (auto& v : t.q.y) v *= k;
      t.q.config.set_min_gain(p.config.min_gain() * k * k);
      t.gain_factor = double(k) * k;
      t.factor = k;
      break;
    }
    case 10: {
      t.name = "targets negated";
      for (auto& v : t.q.y) v = -v;
      t.factor = -1;
      break;
    }
    case 13: {
      t.name = "weights and targets scaled";  // all gains stay
      int k = -s.range(0, 10);  // a constant is left alone once it is small in absolute terms
      for (auto& w : t.q.w) w = std::ldexp(w, 2 * k);
      for (auto& v : t.q.y) v = std::ldexp(v, -k);
      t.q.config.set_l2_lambda(std::ldexp(p.config.l2_lambda(), 2 * k));
      t.q.config.set_min_hessian(std::ldexp(p.config.min_hessian(), 2 * k));
      t.factor = std::ldexp(1.0, -k);
      break;
    }
    default: {
      t.name = "targets shifted";
      t.shift = s.pick<double>({1, -8, 100, 0.125});
      for (auto& v : t.q.y) v += float(t.shift);
    }
  }
  return t;
}

// The loss that is trained stops being comparable: rounding is amplified without limit, or decides.
static bool unstable(const Problem& p, const Recorder& rec, int k, pbt::Ctx& ctx) {
  double far = std::fabs(rec.calls[k].c);
  for (double v : rec.calls[k].f) far = std::max(far, std::fabs(v));
  if (p.loss == "logloss" && far > 6) {
    ctx.label("far out");
    return true;
  }
  if (p.loss == "huberized_hinge" && near_bend(p, rec.calls[k].f, k == 0)) {
    ctx.label("at a bend of the hinge");
    return true;
  }
  return false;
}

PROP(twins, 1) {
  bool bulk = s.chance(1, 25);
  Problem p = gen_problem(s, bulk, {"mse", "mse", "logloss", "huberized_hinge"});
  // Targets and weights that bear the transformations exactly.
  // Mostly without regularities, or ties would end most comparisons early.
  auto noise = s.bulk();
  bool generic = s.chance(5, 6);
  for (auto& v : p.y) if (p.loss == "mse") v = generic ? std::round(v * 64) / 64 + float(noise.below(512)) / 1024 : std::round(v * 8) / 8;
  if (generic && p.loss != "mse")
    for (auto& w : p.w) w = float(1 + noise.below(1000)) / 256;
  Twin t = gen_twin(s, p);
  if (t.name == "weights as repetitions") {
    // whole weights, some of them zero
    auto r = s.bulk();
    for (int i = 0; i < p.t.n; ++i) p.w[i] = float(r.below(bulk ? 3 : 4)) + (i == 0);
    std::vector<int> idx;
    for (int i = 0; i < p.t.n; ++i) {
      t.at[i] = p.w[i] == 0 ? -1 : int(idx.size());
      for (int k = 0; k < int(p.w[i]); ++k) idx.push_back(i);
    }
    t.q = rows_of(p, idx);
    for (auto& w : t.q.w) w = 1;
  }
  const Problem& q = t.q;
  int ta = FLAGS_num_threads, tb = s.range(1, 4);
  ctx.describe([&](std::ostream& o) { p.describe(o); o << "; " << t.name << ": "; q.describe(o); o << "factor " << t.factor << " shift " << t.shift << " "; });
  ctx.label(t.name);
  Recorder ra(p.make_loss()), rb(q.make_loss());
  Forest a, b;
  auto da = p.t.store(), db = q.t.store();
  FLAGS_num_threads = ta;
  Status sa = TrainGBDT(da.get(), p.t.names(), p.wf(), p.yf(), &ra, p.config, nullptr, &a);
  FLAGS_num_threads = tb;
  Status sb = TrainGBDT(db.get(), q.t.names(), q.wf(), q.yf(), &rb, q.config, nullptr, &b);
  if (diverged(ra, sa, p.loss != "logloss") || diverged(rb, sb, q.loss != "logloss")) {
    ctx.label("diverged");
    return;
  }
  bool split = false;
  double reach = 1;
  for (auto& v : p.y) reach = std::max(reach, std::fabs(double(v)));
  reach += std::fabs(t.shift);
  int N = p.config.num_trees();
  auto same = [&](const std::vector<double>& fa, const std::vector<double>& fb, double shift, int k) {
    for (double v : fa) reach = std::max(reach, std::fabs(v));
    for (int i = 0; i < p.t.n; ++i) {
      // Divisions that part the rows of positive weight alike may differ in where the others go.
      if (t.at[i] < 0 || p.w[i] == 0) continue;
      double want = fa[i] * t.factor + shift;
      CHECK_THAT(std::fabs(want - fb[t.at[i]]) <= (1e-4 * reach + 2e-4) * std::fabs(t.factor), "predictions",
                 t.name << ": after " << k << " trees row " << i << " should be predicted " << want << ", is predicted " << fb[t.at[i]]);
    }
  };
  for (int k = 0; k < N; ++k) {
    if (unstable(p, ra, k, ctx) || unstable(q, rb, k, ctx)) return;
    same(ra.calls[k].f, rb.calls[k].f, k ? t.shift : 0, k);
    if (ambiguous(p, ra, a.tree(k + 1), k, t.gain_factor) || ambiguous(q, rb, b.tree(k + 1), k, 1 / t.gain_factor)) {
      ctx.label("tied gains");
      ctx.nontrivial_if(split);
      return;
    }
    bool sp = a.tree(k + 1).has_left_child();
    CHECK_THAT(sp == b.tree(k + 1).has_left_child(), "divided", t.name << ": tree " << k + 1 << " is divided in only one of the runs");
    if (sp) {
      split = true;
      double ga = a.tree(k + 1).split().gain() * t.gain_factor, gb = b.tree(k + 1).split().gain();
      CHECK_THAT(std::fabs(ga - gb) <= 1e-3 * (ga + gb) + 1e-3 * t.gain_factor, "gain", t.name << ": root gain of tree " << k + 1 << " should be " << ga << ", is " << gb);
    }
  }
  ctx.nontrivial_if(split);
  ctx.label("compared to the end");
  std::vector<double> fa, fb;
  CHECK_THAT(EvaluateForest(da.get(), a, &fa).ok() && EvaluateForest(db.get(), b, &fb).ok(), "evaluate", "fails");
  same(fa, fb, t.shift, N);
}
