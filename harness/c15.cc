// C15: pairwise losses move only comparable rows, by the right amount.
#include "common.h"

#include <gflags/gflags.h>

#include <algorithm>
#include <map>

#include "src/data_store/column.h"
#include "src/loss_func/loss_func.h"
#include "src/loss_func/loss_func_factory.h"
#include "src/proto/config.pb.h"
#include "src/utils/subsampling.h"

DECLARE_int32(num_threads);
using namespace gbdt;
typedef long double LD;

void harness_init() { quiet_logs(); }

struct Case {
  Config config;
  std::vector<float> y, w;
  std::vector<std::string> group;  // empty: no group column
  std::vector<std::vector<double>> f;
  int seed;
};

// Negative derivative and second derivative of a pair's loss, by the difference of targets and of scores.
static void pair_loss(const std::string& name, LD dt, LD df, LD* g, LD* h) {
  if (name == "auc") {  // hinge with margin 1, quadratic in between
    *g = df >= 1 ? 0 : df >= 0 ? 1 - df : 1;
    *h = df >= 0 && df < 1 ? 1 : 0;
  } else if (name == "gbrank") {  // squared hinge with the target difference as margin
    *g = df < dt ? dt - df : 0;
    *h = df < dt ? 1 : 0;
  } else {
    LD e = expl(-fabsl(df)), p = (df < 0 ? 1 : e) / (1 + e);
    *g = p;
    *h = e / ((1 + e) * (1 + e));
  }
}

static LD pair_loss_value(const std::string& name, LD dt, LD df) {
  if (name == "auc") return df >= 1 ? 0 : df >= 0 ? (1 - df) * (1 - df) / 2 : 0.5L - df;
  if (name == "gbrank") return df < dt ? (dt - df) * (dt - df) : 0;
  return log1pl(expl(-fabsl(df))) + (df < 0 ? -df : 0);
}

static std::map<std::string, std::vector<int>> groups_of(const Case& c) {
  std::map<std::string, std::vector<int>> r;
  for (size_t i = 0; i < c.y.size(); ++i)
    if (c.group.empty()) r["all"].push_back(i);
    else if (c.group[i] != "__missing__") r[c.group[i]].push_back(i);
  return r;
}

struct Expect {
  std::vector<LD> g, h, vg, vh, mg, mh;  // mean, variance and largest single contribution per row
  LD pairs = 0, sampled = 0, largest = 0;
  struct Pair { LD weight, loss, often; };  // often: how many samples of this pair are expected
  std::vector<Pair> losses;
};

// With `upper` the discount differences are replaced by their bound, since ties in f can be ranked either way.
static Expect expect(const Case& c, const std::vector<double>& f, bool upper) {
  size_t n = c.y.size();
  Expect e;
  for (auto* v : {&e.g, &e.h, &e.vg, &e.vh, &e.mg, &e.mh}) v->assign(n, 0);
  auto groups = groups_of(c);
  const std::string& name = c.config.loss_func();
  std::map<std::string, LD> count;
  LD most = 0;
  for (auto& kv : groups) {
    LD k = 0;
    for (int i : kv.second)
      for (int j : kv.second) k += c.y[i] > c.y[j];
    count[kv.first] = k;
    e.pairs += k;
    most = std::max(most, k);
  }
  LD base = c.config.lambdamart_dcg_base() > 0 ? c.config.lambdamart_dcg_base() : 2;
  for (auto& kv : groups) {
    LD k = count[kv.first];
    if (k == 0) continue;
    auto& rows = kv.second;
    LD K = floorl(k * (LD(c.config.pair_sampling_rate()) * n / e.pairs / 2) + 1e-9L);
    e.sampled += K;
    std::map<int, LD> discount;
    for (int i : rows) {
      int rank = 0;
      for (int j : rows) rank += f[j] > f[i];
      discount[i] = logl(base) / logl(base + rank);
    }
    std::map<int, LD> sg, sh, qg, qh;
    for (int i : rows)
      for (int j : rows) {
        if (!(c.y[i] > c.y[j])) continue;
        LD g, h, dt = LD(c.y[i]) - c.y[j];
        pair_loss(name, dt, f[i] - f[j], &g, &h);
        LD w = LD(c.w[i]) * c.w[j];
        if (name == "lambdamart") w *= dt * (upper ? 1 : fabsl(discount[i] - discount[j]));
        else if (c.config.pair_weight_by_delta_target()) w *= dt;
        if (c.config.equal_group_weight()) w *= most / k;
        e.losses.push_back({w, pair_loss_value(name, dt, f[i] - f[j]), K / k});
        g *= w, h *= 2 * w;
        sg[i] += g, sg[j] -= g, sh[i] += h, sh[j] += h;
        for (int x : {i, j}) {
          qg[x] += g * g, qh[x] += h * h;
          e.mg[x] = std::max(e.mg[x], fabsl(g)), e.mh[x] = std::max(e.mh[x], h);
        }
        e.largest = std::max(e.largest, std::max(fabsl(g), h));
      }
    for (int i : rows) {
      e.g[i] = K * sg[i] / k, e.h[i] = K * sh[i] / k;
      e.vg[i] = K * (qg[i] / k - sg[i] / k * sg[i] / k), e.vh[i] = K * (qh[i] / k - sh[i] / k * sh[i] / k);
    }
  }
  return e;
}

static void describe(pbt::Ctx& ctx, const Case& c) {
  ctx.describe([&](std::ostream& o) {
    o << c.config.ShortDebugString() << " y=" << pbt::show(c.y).substr(0, 500) << " w=" << pbt::show(c.w).substr(0, 300) << " group=" << pbt::show(c.group).substr(0, 500);
    for (auto& f : c.f) o << " f=" << pbt::show(f).substr(0, 500);
    o << " seed=" << c.seed << " threads=" << FLAGS_num_threads << " ";
  });
}

static Case gen(pbt::Source& s, bool distinct, int max_rows) {
  Case c;
  bool many = s.chance(1, 20);  // groups
  int n = many ? s.range(200, 1500) : s.chance(1, 12) ? s.range(20, max_rows) : s.chance(1, 10) ? s.range(1, 2) : s.range(3, 14);
  auto r = s.bulk();
  c.config.set_loss_func(s.pick<const char*>({"auc", "pairwise_logloss", "gbrank", "lambdamart"}));
  c.config.set_pair_weight_by_delta_target(s.flip());
  c.config.set_equal_group_weight(s.chance(1, 3));
  if (s.flip()) c.config.set_lambdamart_dcg_base(s.pick<float>({2, 1.5f, 3, 10, 0, -1}));
  int gmode = s.weighted({6, 6, 6, 1, 1, 3});
  int levels = s.pick<int>({2, 3, 5, 2, 50, 0, 3, 5, 0, 1});
  int wmode = s.weighted({3, 2, 2, 1, 1});
  int k = s.range(1, 5);
  if (many) gmode = s.range(1, 2), k = s.range(n / 5, n / 2);
  for (int i = 0; i < n; ++i) {
    c.y.push_back(levels == 0 ? float(r.unit() * 8 - 4) : float(int(r.below(levels))) - 1);
    c.w.push_back(wmode == 0 ? 1 : wmode == 1 ? float(r.unit() * 2 + 0.1) : wmode == 2 ? float(r.below(3)) : wmode == 3 ? 0.5f : float(std::exp(r.unit() * 16 - 12)));
    switch (gmode) {
      case 0: break;
      case 1: c.group.push_back("g" + std::to_string(r.below(k))); break;
      case 2: c.group.push_back(r.below(4) == 0 ? "__missing__" : "g" + std::to_string(r.below(k))); break;
      case 3: c.group.push_back("__missing__"); break;
      case 4: c.group.push_back("g" + std::to_string(i)); break;
      default: c.group.push_back(r.below(3) ? "big" : "g" + std::to_string(r.below(6)));
    }
  }
  int calls = s.range(1, 3), keep = s.chance(1, 3) ? s.range(2, 4) : 0;
  int fmode = s.draw(distinct ? 2 : 5);
  for (int q = 0; q < calls; ++q) {
    std::vector<double> f;
    for (int i = 0; i < n; ++i)
      switch (fmode) {
        case 0: f.push_back(r.unit() * 4 - 2); break;
        case 1: f.push_back((r.unit() * 2 - 1) * 3 + c.y[i] * 0.5); break;
        case 2: f.push_back(0); break;
        case 3: f.push_back(double(int(r.below(5)) - 2) / 2); break;
        default: f.push_back((r.below(2) ? 1 : -1) * std::pow(10.0, r.unit() * 100)); break;
      }
    // Between two calls many scores may stay as they are.
    if (q > 0 && keep) for (int i = 0; i < n; ++i) if (r.below(keep)) f[i] = c.f[q - 1][i];
    c.f.push_back(f);
  }
  c.seed = s.range(0, 1000);
  FLAGS_num_threads = s.range(1, many ? 2 : 4);
  return c;
}

struct Run {
  std::unique_ptr<StringColumn> column;
  std::unique_ptr<LossFunc> loss;
  Run(const Case& c) {
    if (!c.group.empty()) {
      column.reset(new StringColumn("group"));
      column->Add(&c.group);
      column->Finalize();
    }
    loss = LossFuncFactory::CreateLossFunc(c.config);
    if (c.seed % 3 == 0) used_before(c);
    Subsampling::Reseed(c.seed);
    Status st = loss->Init(c.y.size(), [&c](int i) { return c.w[i]; }, [&c](int i) { return c.y[i]; }, column.get());
    CHECK_THAT(st.ok(), "init", st.ToString());
  }
  // The loss function served for a training on other rows.
  void used_before(const Case& c) {
    int n = 1 + c.seed % 61;
    std::vector<std::string> names;
    for (int i = 0; i < n; ++i) names.push_back("earlier" + std::to_string(i % (1 + int(c.seed % 7))));
    StringColumn other("group");
    other.Add(&names);
    other.Finalize();
    auto y = [](int i) { return float(i * 7 % 5); };
    auto w = [](int i) { return float(2 + i % 3); };
    Status st = loss->Init(n, w, y, c.seed % 2 ? &other : nullptr);
    if (!st.ok()) return;
    std::vector<GradientData> g;
    double constant;
    std::string progress;
    loss->ComputeFunctionalGradientsAndHessians(std::vector<double>(n, 0.5), &constant, &g, &progress);
  }
};

// The progress text: the mean loss of the sampled pairs, and how far it fell since the first call of this training.
static void check_progress(const Case& c, const Expect& e, bool mean, const std::string& text, double* first) {
  size_t a = text.find("loss="), b = text.find("reduced=");
  CHECK_THAT(a != std::string::npos && b != std::string::npos, "progress", "the progress text is " << text);
  double now = strtod(text.c_str() + a + 5, nullptr), reduced = strtod(text.c_str() + b + 8, nullptr);
  if (*first < 0) *first = now;
  if (*first > 1e-300 && *first < 1e200 && now < 1e200)
    CHECK_THAT(std::fabs(reduced - (*first - now) / *first * 100) <= 0.01 + 1e-3 * (1 + now / *first), "progress", "the progress text says " << text << ", the first loss was " << *first);
  LD lo = INFINITY, hi = -INFINITY, total = 0, sum = 0, var = 0, most = 0, wvar = 0, wmost = 0;
  for (auto& p : e.losses) {
    if (p.often == 0 || p.weight == 0) continue;
    lo = std::min(lo, p.loss), hi = std::max(hi, p.loss);
    total += p.often * p.weight, sum += p.often * p.weight * p.loss, wvar += p.often * p.weight * p.weight, wmost = std::max(wmost, p.weight);
  }
  if (total == 0) {
    CHECK_THAT(now == 0, "progress", "the progress text says " << text << ", but no pair has any weight");
    return;
  }
  // The differences of the targets, which are floats, are rounded to floats.
  float least_y = *std::min_element(c.y.begin(), c.y.end()), largest_y = *std::max_element(c.y.begin(), c.y.end());
  LD slack = 1e-6L * (1 + fabsl(hi)) * (1 + LD(largest_y) - least_y);
  // Nothing sampled by chance has any weight: no loss.
  CHECK_THAT((now >= lo - slack && now <= hi + slack) || now == 0, "progress", "the progress text says " << text << ", the losses of the pairs are from " << double(lo) << " to " << double(hi));
  if (!mean) return;
  LD want = sum / total;
  for (auto& p : e.losses) {
    if (p.often == 0) continue;
    LD d = p.weight * fabsl(p.loss - want);
    var += p.often * d * d, most = std::max(most, d);
  }
  const LD L = 28;
  LD least = total - sqrtl(2 * L * wvar) - (2 * L / 3 + 2) * wmost;
  if (least <= 0) return;
  LD tol = (sqrtl(2 * L * var) + (2 * L / 3 + 2) * most) / least + slack;
  CHECK_THAT(fabsl(now - want) <= tol, "progress", "the progress text says " << text << ", the weighted mean loss of all pairs is " << double(want) << " give or take " << double(tol));
}

// What holds whatever pairs are sampled.
PROP(structure, 4) {
  Case c = gen(s, false, 150);
  c.config.set_pair_sampling_rate(s.pick<float>({5, 20, 50, 2, 10, 1, 0.3f, 0.01f, 1e-10f}));
  describe(ctx, c);
  ctx.label(c.config.loss_func());
  size_t n = c.y.size();
  Run run(c);
  auto groups = groups_of(c);
  std::vector<GradientData> g;
  double first = -1;
  for (auto& f : c.f) {
    if (s.flip()) g.assign(s.pick<size_t>({n, 0, n + 2}), GradientData(3, 4));
    double constant = 5;
    std::string progress;
    run.loss->ComputeFunctionalGradientsAndHessians(f, &constant, &g, &progress);
    CHECK_THAT(g.size() == n, "size", g.size() << " gradients for " << n << " rows");
    CHECK_THAT(constant == 0, "constant", "constant " << constant);
    Expect e = expect(c, f, true);
    if (c.config.loss_func() != "lambdamart") check_progress(c, e, false, progress, &first);
    LD slack = 1e-9L * (1 + e.sampled) * e.largest;
    std::vector<bool> comparable(n, false);
    bool some = false;
    for (size_t i = 0; i < n; ++i) {
      CHECK_THAT(std::isfinite(g[i].g) && std::isfinite(g[i].h), "finite", "row " << i << " has gradient " << g[i].g << " and hessian " << g[i].h);
      CHECK_THAT(g[i].h >= 0, "hessian", "row " << i << " has hessian " << g[i].h);
    }
    for (auto& kv : groups) {
      float lo = INFINITY, hi = -INFINITY;
      for (int i : kv.second) lo = std::min(lo, c.y[i]), hi = std::max(hi, c.y[i]);
      if (lo == hi) continue;
      LD sum = 0;
      for (int i : kv.second) {
        comparable[i] = true;
        sum += g[i].g;
        if (c.y[i] == hi) CHECK_THAT(g[i].g >= -slack, "sign", "row " << i << " has the largest target of its group and gradient " << g[i].g);
        if (c.y[i] == lo) CHECK_THAT(g[i].g <= slack, "sign", "row " << i << " has the smallest target of its group and gradient " << g[i].g);
        some |= g[i].g != 0;
      }
      CHECK_THAT(fabsl(sum) <= slack * n, "zero-sum", "the gradients of group " << kv.first << " sum to " << double(sum));
    }
    for (size_t i = 0; i < n; ++i) {
      if (!comparable[i]) CHECK_THAT(g[i].g == 0 && g[i].h == 0, "incomparable", "row " << i << " has no row to be compared with, but gradient " << g[i].g << " and hessian " << g[i].h);
      // Never more than all the samples put together.
      CHECK_THAT(fabsl(g[i].g) <= (e.sampled + groups.size()) * e.largest * (1 + 1e-9L) && g[i].h <= (e.sampled + groups.size()) * e.largest * (1 + 1e-9L), "bound",
                 "row " << i << " has gradient " << g[i].g << " and hessian " << g[i].h << " from " << double(e.sampled) << " sampled pairs of at most " << double(e.largest));
    }
    ctx.nontrivial_if(some && groups.size() >= 1);
    if (!some) ctx.label(e.pairs == 0 ? "no pairs" : e.sampled == 0 ? "no samples" : "nothing moved");
  }
}

// With many samples: the mean over all pairs. The tolerance is Bernstein's at 1e-12 per comparison.
PROP(expectation, 3) {
  Case c = gen(s, true, 130);
  size_t n = c.y.size();
  LD want = s.chance(1, 6) ? 60000 : 6000;
  if (n > 200) want = std::max<LD>(want, 60 * n), ctx.label("many groups");
  LD rate = want * 2 / n;
  c.config.set_pair_sampling_rate(float(rate));
  describe(ctx, c);
  ctx.label(c.config.loss_func());
  if (c.config.equal_group_weight()) ctx.label("equal group weight");
  Run run(c);
  std::vector<GradientData> g;
  double first = -1;
  bool told = s.chance(2, 3);
  for (auto& f : c.f) {
    double constant = 5;
    std::string progress;
    run.loss->ComputeFunctionalGradientsAndHessians(f, &constant, &g, told ? &progress : nullptr);
    Expect e = expect(c, f, false);
    if (told) check_progress(c, e, true, progress, &first);
    const LD L = 28;
    for (size_t i = 0; i < n; ++i) {
      LD tg = sqrtl(2 * L * std::max<LD>(e.vg[i], 0)) + (2 * L / 3 + 2) * e.mg[i], th = sqrtl(2 * L * std::max<LD>(e.vh[i], 0)) + (2 * L / 3 + 2) * e.mh[i];
      // A row that is in every pair of its group has no variance: then only rounding and one sample are allowed.
      if (e.vg[i] < 1e-12L * e.sampled * e.mg[i] * e.mg[i]) tg = 2 * e.mg[i];
      if (e.vh[i] < 1e-12L * e.sampled * e.mh[i] * e.mh[i]) th = 2 * e.mh[i];
      tg += 1e-9L * (1 + e.sampled) * e.mg[i], th += 1e-9L * (1 + e.sampled) * e.mh[i];
      CHECK_THAT(fabsl(g[i].g - e.g[i]) <= tg, "gradient", "row " << i << ": gradient " << g[i].g << " from " << double(e.sampled) << " samples, the mean over all pairs is " << double(e.g[i]) << " give or take " << double(tg));
      CHECK_THAT(fabsl(g[i].h - e.h[i]) <= th, "hessian", "row " << i << ": hessian " << g[i].h << " from " << double(e.sampled) << " samples, the mean over all pairs is " << double(e.h[i]) << " give or take " << double(th));
    }
    ctx.nontrivial_if(e.pairs >= 2);
  }
}

PROP(refused_rates, 1) {
  Case c = gen(s, false, 40);
  c.config.set_pair_sampling_rate(s.pick<float>({0, -1, -1e-30f}));
  describe(ctx, c);
  ctx.nontrivial();
  auto loss = LossFuncFactory::CreateLossFunc(c.config);
  Status st = loss->Init(c.y.size(), [&](int i) { return c.w[i]; }, [&](int i) { return c.y[i]; }, nullptr);
  CHECK_THAT(!st.ok(), "rate", "pair sampling rate " << c.config.pair_sampling_rate() << " is accepted");
}
