// C14: pointwise losses return true derivatives and the best constant.
#include "common.h"

#include <gflags/gflags.h>

#include "src/data_store/column.h"
#include "src/loss_func/loss_func.h"
#include "src/loss_func/loss_func_factory.h"
#include "src/proto/config.pb.h"

DECLARE_int32(num_threads);
using namespace gbdt;
typedef long double LD;

void harness_init() { quiet_logs(); }

// The definitions, in extended precision: loss, negative derivative, second derivative.
struct Point {
  LD loss, g, h;
};
static Point reference(const std::string& name, LD y, LD f) {
  if (name == "mse") return {(y - f) * (y - f), y - f, 1};
  LD m = y * f;
  if (name == "logloss") {
    LD e = expl(-fabsl(m));
    return {log1pl(e) + (m < 0 ? -m : 0), y * (m < 0 ? 1 : e) / (1 + e), e / ((1 + e) * (1 + e))};
  }
  if (m >= 1) return {0, 0, 0};
  if (m >= 0) return {(1 - m) * (1 - m) / 2, (1 - m) * y, 1};
  return {0.5L - m, y, 0};
}

struct Case {
  std::string loss;
  std::vector<float> y, w;
  std::vector<std::vector<double>> f;  // one vector per call
};

static Case gen(pbt::Source& s, bool extreme) {
  Case c;
  c.loss = s.pick<const char*>({"mse", "logloss", "logloss", "huberized_hinge"});
  int n = s.chance(1, 20) ? s.range(50, 400) : s.range(1, 20);
  auto r = s.bulk();
  int wmode = s.weighted({3, 3, 2, 1, 1}), ymode = s.draw(4), fmode = s.draw(extreme ? 6 : 4);
  int calls = s.range(1, 3);
  for (int i = 0; i < n; ++i) {
    if (c.loss == "mse") c.y.push_back(ymode == 0 ? float(int(r.below(11)) - 5) : ymode == 1 ? float(r.unit() * 20 - 10) : ymode == 2 ? float((r.unit() - 0.5) * 1e6) : float(r.below(2)));
    else c.y.push_back(r.below(10) < (ymode == 0 ? 5u : ymode == 1 ? 8u : ymode == 2 ? 1u : 10u) ? 1 : -1);
    c.w.push_back(wmode == 0 ? 1 : wmode == 1 ? float(r.unit() * 3) : wmode == 2 ? float(r.below(3)) : wmode == 3 ? float(std::exp(r.unit() * 20 - 10)) : 0);
  }
  for (int k = 0; k < calls; ++k) {
    std::vector<double> f;
    double base = fmode == 1 ? double(s.range(-3, 3)) : 0;
    for (int i = 0; i < n; ++i) {
      double v = 0;
      switch (fmode) {
        case 0: v = k == 0 ? 0 : double(int(r.below(9)) - 4) / 4; break;
        case 1: v = base + r.unit() * 4 - 2; break;
        case 2: v = double(int(r.below(17)) - 8) / 4; break;
        case 3: v = c.y[i] * r.unit() + r.unit() - 0.5; break;
        case 4: v = (r.below(2) ? 1 : -1) * std::exp(r.unit() * 20 - 8); break;
        default: v = (r.below(2) ? 1 : -1) * std::pow(10.0, r.unit() * (c.loss == "mse" ? 100 : 300)); break;
      }
      f.push_back(v);
    }
    c.f.push_back(f);
  }
  return c;
}

static void describe(pbt::Ctx& ctx, const Case& c) {
  ctx.describe([&](std::ostream& o) {
    o << c.loss << " y=" << pbt::show(c.y).substr(0, 400) << " w=" << pbt::show(c.w).substr(0, 600);
    for (auto& f : c.f) o << " f=" << pbt::show(f).substr(0, 600);
    o << " threads=" << FLAGS_num_threads << " ";
  });
}

static std::unique_ptr<LossFunc> make(const Case& c) {
  Config config;
  config.set_loss_func(c.loss);
  return LossFuncFactory::CreateLossFunc(config);
}

// Newton's method from 0 in extended precision; true if it settles well within ten steps without leaving a safe region.
static bool newton(const Case& c, const std::vector<double>& f, LD* best, bool* near_bend) {
  LD x = 0;
  *near_bend = false;
  for (int k = 0; k < 7; ++k) {
    LD G = 0, H = 0, W = 0;
    for (size_t i = 0; i < f.size(); ++i) {
      auto p = reference(c.loss, c.y[i], f[i] + x);
      G += c.w[i] * p.g, H += c.w[i] * p.h, W += c.w[i];
      LD m = c.y[i] * (f[i] + x);
      if (k > 0 && std::min(fabsl(m), fabsl(m - 1)) < 1e-6L) *near_bend = true;
    }
    if (H < 1e-6L * W || H == 0) return false;
    LD d = G / H;
    if (fabsl(d) > 6) return false;
    x += d;
    if (fabsl(d) < 1e-5L) {
      *best = x;
      return true;
    }
  }
  return false;
}

struct Result {
  double c;
  std::vector<GradientData> g;
  std::string progress;
};

static bool check(const Case& c, const std::vector<double>& f, const Result& r, pbt::Ctx& ctx) {
  size_t n = f.size();
  CHECK_THAT(r.g.size() == n, "size", r.g.size() << " gradients for " << n << " rows");
  if (!std::isfinite(r.c)) {
    ctx.label("constant not finite");
    return false;
  }
  LD G = 0, H = 0, mass = 0, W = 0;
  for (size_t i = 0; i < n; ++i) {
    CHECK_THAT(std::isfinite(r.g[i].g) && std::isfinite(r.g[i].h), "finite", "row " << i << " has gradient " << r.g[i].g << " and hessian " << r.g[i].h);
    G += LD(c.w[i]) * r.g[i].g, H += LD(c.w[i]) * r.g[i].h, mass += LD(c.w[i]) * fabsl(r.g[i].g), W += c.w[i];
  }
  LD step = H == 0 ? 0 : G / H, c0 = LD(r.c) - step;
  LD tol = 1e-10L * (1 + fabsl(r.c) + (H == 0 ? 0 : mass / H));
  if (tol < 1e-4L) {
    // The gradients were taken at c0, one Newton step before the constant.
    for (size_t i = 0; i < n; ++i) {
      LD at = f[i] + c0, t = tol + 1e-12L * fabsl(at);
      auto p = reference(c.loss, c.y[i], at);
      bool ok;
      if (c.loss == "mse") {
        ok = fabsl(r.g[i].g - p.g) <= t + 1e-10L * fabsl(p.g) && r.g[i].h == 1;
      } else if (c.loss == "logloss") {
        ok = fabsl(r.g[i].g - p.g) <= (2 * t + 1e-9L) * fabsl(p.g) + 1e-300L && fabsl(r.g[i].h - p.h) <= (2 * t + 1e-9L) * p.h + 1e-300L;
      } else {
        auto lo = reference(c.loss, c.y[i], at - t), hi = reference(c.loss, c.y[i], at + t);
        ok = fabsl(r.g[i].g - p.g) <= 2 * t + 1e-12L && (r.g[i].h == double(p.h) || r.g[i].h == double(lo.h) || r.g[i].h == double(hi.h));
      }
      CHECK_THAT(ok, "derivative", "row " << i << ": y=" << c.y[i] << " score " << f[i] << " + constant " << double(c0) << ": gradient " << r.g[i].g << " instead of " << double(p.g) << ", hessian "
                                          << r.g[i].h << " instead of " << double(p.h));
    }
    // The progress text tells the weighted mean loss at that point.
    LD total = 0;
    for (size_t i = 0; i < n; ++i) total += LD(c.w[i]) * reference(c.loss, c.y[i], f[i] + c0).loss;
    if (W > 0 && total < 1e200L) {
      size_t k = r.progress.find("loss=");
      CHECK_THAT(k != std::string::npos, "progress", "no loss in the progress text: " << r.progress);
      double shown = strtod(r.progress.c_str() + k + 5, nullptr), want = double(total / W);
      CHECK_THAT(std::fabs(shown - want) <= 1e-4 * std::fabs(want) + 1e-4 * double(tol) + 1e-12, "progress", "the progress text says " << r.progress << ", the weighted mean loss is " << want);
    }
  } else {
    ctx.label("constant far out");
  }
  // Identities that hold wherever the gradients were taken.
  for (size_t i = 0; i < n; ++i) {
    double g = r.g[i].g, h = r.g[i].h, y = c.y[i];
    if (c.loss == "logloss") CHECK_THAT(g * y >= 0 && std::fabs(g) <= 1 && h >= 0 && std::fabs(h - std::fabs(g) * (1 - std::fabs(g))) <= 1e-9, "derivative", "row " << i << ": gradient " << g << " with hessian " << h);
    if (c.loss == "huberized_hinge") CHECK_THAT(g * y >= 0 && std::fabs(g) <= 1 && (h == 0 || h == 1) && (h == 1 || g == 0 || std::fabs(g) == 1), "derivative", "row " << i << ": gradient " << g << " with hessian " << h);
  }
  return tol < 1e-4L;
}

static void check_constant(const Case& c, const std::vector<double>& f, const Result& r, pbt::Ctx& ctx) {
  if (c.loss == "mse") {
    LD s = 0, W = 0, mass = 0;
    for (size_t i = 0; i < f.size(); ++i) s += LD(c.w[i]) * (LD(c.y[i]) - f[i]), W += c.w[i], mass += LD(c.w[i]) * (std::fabs(c.y[i]) + std::fabs(f[i]));
    if (W == 0 || mass / W > 1e100L) return;
    CHECK_THAT(fabsl(r.c - s / W) <= 1e-9L * mass / W + 1e-12L, "constant", "the constant is " << r.c << ", the weighted mean residual " << double(s / W));
  } else if (c.loss == "logloss") {
    LD best;
    bool bend;
    if (!newton(c, f, &best, &bend)) return;
    ctx.label("logloss has its minimum in reach");
    CHECK_THAT(fabsl(r.c - best) <= 1e-5L, "constant", "the constant is " << r.c << ", the weighted logloss is least at " << double(best));
  }
}

// The progress text also tells how far the loss fell since the first call for this training.
static void check_reduction(const std::vector<Result>& results, const Result& r) {
  auto shown = [](const std::string& p, const char* key) {
    size_t k = p.find(key);
    CHECK_THAT(k != std::string::npos, "progress", "no " << key << " in the progress text: " << p);
    return strtod(p.c_str() + k + strlen(key), nullptr);
  };
  double first = shown(results[0].progress, "loss="), now = shown(r.progress, "loss=");
  if (!(first > 1e-300) || !(std::fabs(now) < 1e200) || !(first < 1e200)) return;
  double want = (first - now) / first * 100, got = shown(r.progress, "reduced=");
  CHECK_THAT(std::fabs(got - want) <= 0.01 + 1e-3 * (1 + now / first), "progress", "the progress text says " << r.progress << ", the first loss was " << first << ": " << want << "% less");
}

static void run_case(pbt::Source& s, pbt::Ctx& ctx, bool extreme) {
  Case c = gen(s, extreme);
  FLAGS_num_threads = s.range(1, 5);
  bool reuse = s.flip();
  int other = s.range(1, 6);
  describe(ctx, c);
  ctx.label(c.loss);
  int n = c.y.size();
  auto wf = [&](int i) { return c.w[i]; };
  auto yf = [&](int i) { return c.y[i]; };
  auto loss = make(c);
  if (s.chance(1, 3)) {
    // The loss function served for a training on other rows, or was refused one.
    int m = s.range(1, 40), bad = s.range(-40, m - 1);
    Status before = loss->Init(m, [](int i) { return float(2 + i % 3); }, [bad](int i) { return i == bad ? 7.0f : i % 2 ? 1.0f : -1.0f; }, nullptr);
    Result r;
    if (before.ok()) loss->ComputeFunctionalGradientsAndHessians(std::vector<double>(m, 0.5), &r.c, &r.g, &r.progress);
  }
  Status st = loss->Init(n, wf, yf, nullptr);
  CHECK_THAT(st.ok(), "init", st.ToString());
  Result r;
  std::vector<Result> results;
  for (auto& f : c.f) {
    if (!reuse) r.g.clear();
    if (!reuse && s.flip()) r.g.assign(s.range(0, n + 3), GradientData(5, 5));
    r.c = 77;
    loss->ComputeFunctionalGradientsAndHessians(f, &r.c, &r.g, &r.progress);
    bool tight = check(c, f, r, ctx);
    ctx.nontrivial_if(tight && n >= 2);
    check_constant(c, f, r, ctx);
    results.push_back(r);
    check_reduction(results, r);
  }
  // The same with another number of threads.
  FLAGS_num_threads = other;
  auto loss2 = make(c);
  loss2->Init(n, wf, yf, nullptr);
  for (size_t k = 0; k < c.f.size(); ++k) {
    Result q;
    std::string* none = nullptr;
    loss2->ComputeFunctionalGradientsAndHessians(c.f[k], &q.c, &q.g, none);
    LD best;
    bool bend, settled = newton(c, c.f[k], &best, &bend);
    if (c.loss == "huberized_hinge" ? (!settled || bend) : (c.loss == "logloss" && !settled)) continue;
    double mass = 1;
    for (int i = 0; i < n; ++i) mass = std::max(mass, std::fabs(c.f[k][i]));
    if (mass > 1e6) continue;
    CHECK_THAT(std::fabs(q.c - results[k].c) <= 1e-5 * mass, "threads", "constant " << results[k].c << ", and " << q.c << " with " << other << " threads");
    for (int i = 0; i < n; ++i)
      CHECK_THAT(std::fabs(q.g[i].g - results[k].g[i].g) <= 1e-3 * mass && std::fabs(q.g[i].h - results[k].g[i].h) <= 1e-3, "threads",
                 "row " << i << " gradient " << results[k].g[i].g << " hessian " << results[k].g[i].h << ", and " << q.g[i].g << " and " << q.g[i].h << " with " << other << " threads");
  }
}

PROP(derivatives, 5) { run_case(s, ctx, false); }
PROP(large_scores, 2) { run_case(s, ctx, true); }

PROP(refused_targets, 1) {
  Case c = gen(s, false);
  int n = c.y.size(), at = s.range(0, n - 1);
  float bad = s.pick<float>({0, 2, NAN, 1.0000001f, -1.5f, 0.5f, INFINITY, -2, -0.99999994f, 1e30f});
  c.y[at] = bad;
  FLAGS_num_threads = s.range(1, 3);
  ctx.describe([&](std::ostream& o) { o << c.loss << " y=" << pbt::show(c.y).substr(0, 500) << " w=" << pbt::show(c.w).substr(0, 300); });
  auto loss = make(c);
  Status st = loss->Init(n, [&](int i) { return c.w[i]; }, [&](int i) { return c.y[i]; }, nullptr);
  if (c.loss == "mse") {
    CHECK_THAT(st.ok(), "targets", "mse refuses target " << bad);
    return;
  }
  ctx.nontrivial();
  CHECK_THAT(!st.ok(), "targets", c.loss << " accepts target " << bad << " in row " << at);
}
