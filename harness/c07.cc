// C07: the split chosen for a feature is truthful and optimal.
#include "common.h"

#include <map>

#include "src/data_store/column.h"
#include "src/gbdt_algo/split_algo.h"
#include "src/loss_func/gradient_data.h"
#include "src/proto/config.pb.h"
#include "src/proto/tree.pb.h"
#include "src/utils/vector_slice.h"

using namespace gbdt;
typedef long double LD;

void harness_init() { quiet_logs(); }

struct Sum {
  LD g = 0, h = 0;
  void add(const Sum& o) { g += o.g, h += o.h; }
  LD energy(LD lambda) const { return h + lambda == 0 ? 0 : g * g / (h + lambda); }
};
static Sum sub(const Sum& a, const Sum& b) {
  Sum r;
  r.g = a.g - b.g, r.h = a.h - b.h;
  return r;
}

struct Data {
  int n;
  std::vector<GradientData> grad;
  std::vector<float> w;
  std::vector<uint> samples;
  Config config;
  GradientData total;
  Sum of(uint i) const {
    Sum r;
    r.g = LD(w[i]) * grad[i].g, r.h = LD(w[i]) * grad[i].h;
    return r;
  }
};

// Gradients, hessians and weights are dyadic numbers of few bits, so that every sum is exact in double
// precision and a comparison with a limit has one right answer.
static Data gen_data(pbt::Source& s, int n, bool bulk) {
  Data d;
  d.n = n;
  pbt::Rng r(0);
  if (bulk) r = s.bulk();
  auto num = [&](int lo, int hi) { return bulk ? lo + int64_t(r.below(hi - lo + 1)) : s.range(lo, hi); };
  int gmode = s.weighted({5, 2, 1, 1});
  int hmode = s.weighted({5, 2, 2, 1});
  int wmode = s.weighted({4, 2, 2, 1});
  double gscale = s.pick<double>({1, 0.125, 1024, 1.0 / 1024});
  // All weights small or large, or some of them tiny next to others.
  double wscale = s.chance(1, 5) ? std::ldexp(1.0, int(s.range(-30, 20))) : 1;
  if (wscale < 1 && s.flip()) gscale = 32768;
  bool mixed = s.chance(1, 12);
  for (int i = 0; i < n; ++i) {
    double g = 0, h = 1;
    switch (gmode) {
      case 0: g = num(-6, 6); break;
      case 1: g = num(-1, 1); break;
      case 2: g = num(-500, 500); break;
      default: g = num(0, 3); break;
    }
    switch (hmode) {
      case 0: h = 1; break;
      case 1: h = num(0, 3); break;
      case 2: h = num(1, 16) / 16.0; break;
      default: h = num(0, 5) == 0 ? 0 : 1; break;
    }
    d.grad.push_back(GradientData(g * gscale, h));
    float w = 1;
    switch (wmode) {
      case 0: break;
      case 1: w = num(0, 2); break;
      case 2: w = num(1, 8) / 4.0f; break;
      default: w = num(0, 3) == 0 ? 0 : 0.5f; break;
    }
    w *= float(wscale);
    if (mixed && num(0, 2) == 0) w = std::ldexp(w, -20);
    d.w.push_back(w);
  }
  // Row subset, in any order.
  if (s.chance(1, 3)) {
    for (int i = 0; i < n; ++i) if (num(0, 3) != 0) d.samples.push_back(i);
    if (s.flip()) for (size_t i = d.samples.size(); i > 1; --i) std::swap(d.samples[i - 1], d.samples[bulk ? r.below(i) : s.draw(i)]);
  } else {
    for (int i = 0; i < n; ++i) d.samples.push_back(i);
  }
  d.config.set_l2_lambda(s.pick<double>({0, 0, 0, 1, 0.125, 16}));
  d.config.set_min_hessian(s.pick<double>({0, 0, 0, 1, 2, 0.5, 5}));
  if (wscale != 1 && s.flip()) d.config.set_l2_lambda(d.config.l2_lambda() * wscale), d.config.set_min_hessian(d.config.min_hessian() * wscale);
  d.config.set_min_gain(s.pick<double>({0, 0, 0.5, 1, 8, 1e-3}) * (s.flip() ? gscale * gscale : 1));
  for (uint i : d.samples) {
    d.total.g += d.w[i] * d.grad[i].g;
    d.total.h += d.w[i] * d.grad[i].h;
  }
  return d;
}
static void retotal(Data* d) {
  d->total = GradientData();
  for (uint i : d->samples) d->total.g += d->w[i] * d->grad[i].g, d->total.h += d->w[i] * d->grad[i].h;
}
static void describe_data(std::ostream& o, const Data& d) {
  o << " lambda=" << d.config.l2_lambda() << " min_hessian=" << d.config.min_hessian() << " min_gain=" << d.config.min_gain() << " (g,h)w:";
  for (int i = 0; i < d.n && i < 60; ++i) o << " (" << d.grad[i].g << "," << d.grad[i].h << ")" << d.w[i];
  o << " samples=" << pbt::show(d.samples).substr(0, 400);
}

struct Outcome {
  bool found;
  Split split;
  std::vector<char> left;  // by row
};
static const char* kNoSplit = "no-split";

// Runs the split search and checks that what it reports is true. Returns the best gain that may be missed.
static Outcome run(const Column* col, Data& d, Sum* L, Sum* R, LD* tol) {
  Outcome o;
  const Data& cd = d;
  FloatVector w = [&cd](int i) { return cd.w[i]; };
  VectorSlice<uint> slice(d.samples);
  auto before = d.samples;
  o.found = FindBestSplit(col, w, &d.grad, slice, d.config, d.total, &o.split);
  CHECK_THAT(before == d.samples, "samples", "the search changed the samples");
  if (!o.found) {
    CHECK_THAT(o.split.gain() == 0 && !o.split.has_float_split() && !o.split.has_cat_split(), kNoSplit, "no split found, yet the split is " << o.split.ShortDebugString());
    return o;
  }
  auto parts = Partition(col, o.split, slice);
  o.left.assign(d.n, 2);
  for (uint i : parts.first) { CHECK_THAT(i < uint(d.n) && o.left[i] == 2, "partition", "row " << i << " twice"); o.left[i] = 1; L->add(d.of(i)); }
  for (uint i : parts.second) { CHECK_THAT(i < uint(d.n) && o.left[i] == 2, "partition", "row " << i << " twice"); o.left[i] = 0; R->add(d.of(i)); }
  auto after = d.samples;
  std::sort(before.begin(), before.end());
  std::sort(after.begin(), after.end());
  CHECK_THAT(before == after, "partition", "the two sides are not the samples");
  CHECK_THAT(parts.first.size() + parts.second.size() == int(before.size()), "partition", "sizes");
  LD lambda = d.config.l2_lambda();
  Sum T = *L;
  T.add(*R);
  LD gain = L->energy(lambda) + R->energy(lambda) - T.energy(lambda);
  *tol = 1e-12L * (L->energy(lambda) + R->energy(lambda) + T.energy(lambda));
  CHECK_THAT(fabsl(gain - o.split.gain()) <= *tol, "gain", "reported gain " << o.split.gain() << ", the rows it separates gain " << double(gain) << " split " << o.split.ShortDebugString());
  CHECK_THAT(std::min(L->h, R->h) > d.config.min_hessian(), "min-hessian", "hessians " << double(L->h) << " and " << double(R->h) << ", limit " << d.config.min_hessian());
  CHECK_THAT(o.split.gain() > d.config.min_gain() && o.split.gain() > 0, "min-gain", "gain " << o.split.gain() << ", limit " << d.config.min_gain());
  return o;
}
static std::unique_ptr<Column> column_in_parts(const std::vector<float>& v, int buckets, int late) {
  std::unique_ptr<BucketizedFloatColumn> c(new BucketizedFloatColumn("f", buckets));
  std::vector<float> first(v.begin(), v.begin() + late), rest(v.begin() + late, v.end());
  c->Add(&first);
  c->Add(&rest);
  c->Finalize();
  return std::move(c);
}
static void optimal(const Outcome& o, const Data& d, LD best, LD scale, const std::string& what) {
  LD tol = 1e-11L * scale;
  LD limit = std::max(d.config.min_gain(), 1e-6);
  if (o.found)
    CHECK_THAT(o.split.gain() >= best - tol, "optimal", "gain " << o.split.gain() << " but " << what << " gains " << double(best) << "; split " << o.split.ShortDebugString());
  else
    CHECK_THAT(best <= limit + tol, kNoSplit, "no split found but " << what << " gains " << double(best));
}

static void float_feature(pbt::Source& s, pbt::Ctx& ctx, bool huge) {
  bool bulk = huge || s.chance(1, 12);
  int n = huge ? s.range(60000, 75000) : bulk ? s.range(100, 600) : s.length(0, 24);
  Data d = gen_data(s, n, bulk);
  std::vector<float> v;
  pbt::Rng r(0);
  if (bulk) r = s.bulk();
  int vm = s.weighted({4, 2, 2, 2});
  FloatGen fg;
  float base = s.pick<float>({1.0f, 3.0f, 16777216.0f, -1e-3f, 1e30f, -3.4e38f, 3.3e38f, 0.0f});
  for (int i = 0; i < n; ++i) {
    if (bulk) {
      int k = r.below(huge ? 200000 : 40);
      if (huge && vm < 3) k = (i * 7919LL) % n;  // all different
      v.push_back(k == 0 ? NAN : k * 0.5f);
      if (huge && vm && r.below(4)) d.grad[i].g = std::fabs(d.grad[i].g) * (k > n * (vm == 1 ? 0.97 : 0.5) ? 1 : -1);
      continue;
    }
    switch (vm) {
      case 0: v.push_back(s.chance(1, 5) ? NAN : float(s.range(0, 8))); break;
      case 1: v.push_back(fg(s)); break;
      case 2: {  // neighbouring floats
        if (s.chance(1, 6)) { v.push_back(NAN); break; }
        float x = base;
        for (int k = s.range(0, 4); k > 0; --k) x = std::nextafter(x, INFINITY);
        if (std::isinf(x)) x = base;
        v.push_back(x);
        break;
      }
      default: v.push_back(s.chance(1, 5) ? NAN : s.pick<float>({-3.4e38f, 3.4e38f, 3.3e38f, 3.2e38f, -3.3e38f, 0.0f, 1.0f, -1.0f})); break;
    }
  }
  if (huge) retotal(&d);
  uint buckets = huge ? s.pick<int>({30000, 100000, 255, 65535, 70000}) : s.chance(1, 4) ? s.range(2, 6) : 30000;
  // Rows that arrive when the buckets are fixed may lie beyond all of them.
  int late = n;
  if (bulk && !huge && s.flip()) {
    buckets = s.range(2, 5);
    late = std::min<int>(n, 100 * buckets + 1 + s.draw(20));
    float shift = s.pick<float>({0, 15, -15, 0.25f});
    for (int i = late; i < n; ++i) v[i] += shift;
  }
  ctx.describe([&](std::ostream& o) { o << n << " rows, values " << pbt::show(std::vector<float>(v.begin(), v.begin() + std::min(n, 100))).substr(0, 600) << " buckets=" << buckets; describe_data(o, d); });
  auto col = late < n ? column_in_parts(v, buckets, late) : Column::CreateBucketizedFloatColumn("f", v, buckets);
  auto* bc = static_cast<const BucketizedFloatColumn*>(col.get());
  Sum L, R;
  LD tol = 0;
  Outcome o = run(col.get(), d, &L, &R, &tol);
  LD lambda = d.config.l2_lambda();
  // The rows go where the split says, by their raw values.
  if (o.found) {
    CHECK_THAT(o.split.has_float_split() && !o.split.has_cat_split(), "kind", o.split.ShortDebugString());
    float t = o.split.float_split().threshold();
    CHECK_THAT(!std::isnan(t), "threshold", "the threshold is not a number");
    for (uint i : d.samples) {
      bool left = std::isnan(v[i]) ? !o.split.float_split().missing_to_right_child() : bc->get_row_max(i) < t;
      CHECK_THAT(left == (o.left[i] == 1), "routing", "row " << i << " with value " << pbt::show(v[i]) << " is " << (o.left[i] ? "left" : "right") << " of " << o.split.ShortDebugString());
    }
  }
  // The division made on buckets is one of the values: a table that keeps every value apart is divided alike. (Rows of
  // buckets without gradient and hessian belong to neither side.)
  if (o.found) {
    std::map<float, std::pair<double, double>> sums;
    double mg = 0, mh = 0;
    for (uint i : d.samples) {
      auto x = d.of(i);
      if (std::isnan(v[i])) mg += x.g, mh += x.h;
      else { auto& q = sums[bc->get_row_max(i)]; q.first += x.g, q.second += x.h; }
    }
    auto exact = Column::CreateBucketizedFloatColumn("f", v, 200000);
    std::vector<uint> order(d.samples.begin(), d.samples.end());
    VectorSlice<uint> sl(order);
    auto parts = Partition(exact.get(), o.split, sl);
    for (int side = 0; side < 2; ++side)
      for (uint i : side ? parts.first : parts.second) {
        if (std::isnan(v[i]) ? mg == 0 && mh == 0 : sums[bc->get_row_max(i)] == std::make_pair(0.0, 0.0)) continue;
        CHECK_THAT(o.left[i] == side, "exact", "row " << i << " with value " << pbt::show(v[i]) << " is " << (o.left[i] ? "left" : "right") << " in training and on the other side when its value is kept exactly: " << o.split.ShortDebugString());
      }
  }
  // All divisions: bucket ranges in order, missing on either side.
  std::map<float, Sum> by_value;
  Sum missing, T;
  bool has_missing = false;
  for (uint i : d.samples) {
    T.add(d.of(i));
    if (std::isnan(v[i])) missing.add(d.of(i)), has_missing = true;
    else by_value[bc->get_row_max(i)].add(d.of(i));
  }
  LD best = 0, scale = T.energy(lambda);
  std::string what;
  int candidates = 0;
  auto consider = [&](const Sum& left, const std::function<std::string()>& w) {
    Sum right = sub(T, left);
    ++candidates;
    if (!(std::min(left.h, right.h) > d.config.min_hessian())) return;
    LD e = left.energy(lambda) + right.energy(lambda);
    scale = std::max(scale, e);
    LD g = e - T.energy(lambda);
    if (g > best) best = g, what = w();
  };
  Sum acc;
  size_t seen = 0;
  for (auto& p : by_value) {
    acc.add(p.second);
    if (++seen < by_value.size()) {
      consider(acc, [&] { return "cutting above " + pbt::show(p.first) + " with missing right"; });
      if (has_missing) {
        Sum a = acc;
        a.add(missing);
        consider(a, [&] { return "cutting above " + pbt::show(p.first) + " with missing left"; });
      }
    }
  }
  if (has_missing) consider(missing, [] { return std::string("separating the missing rows"); });
  optimal(o, d, best, scale, what);
  ctx.nontrivial_if(candidates >= 2);
  ctx.label(o.found ? "split found" : "no split");
  if (has_missing) ctx.label("missing rows");
  if (o.found && o.split.float_split().missing_to_right_child()) ctx.label("missing to the right");
  if (buckets < 10) ctx.label("few buckets");
  if (late < n) ctx.label("late rows");
  if (huge) ctx.label("many values");
}
PROP(float_feature, 3000) { float_feature(s, ctx, false); }
PROP(float_feature_huge, 1) { float_feature(s, ctx, true); }

static void categorical_feature(pbt::Source& s, pbt::Ctx& ctx, bool huge) {
  bool bulk = huge || s.chance(1, 12);
  int n = huge ? s.range(60000, 75000) : bulk ? s.range(100, 500) : s.length(0, 24);
  Data d = gen_data(s, n, bulk);
  std::vector<std::string> v;
  pbt::Rng r(0);
  if (bulk) r = s.bulk();
  int k = s.range(1, 8);
  if (bulk && s.flip()) k = s.range(9, 400);
  if (huge) k = s.pick<int>({300, 65535, 65536, 200000});
  for (int i = 0; i < n; ++i) {
    if (k > 8) {
      int c = k == 200000 ? i : r.below(k);
      v.push_back(c == 0 ? "__missing__" : "c" + std::to_string(c));
      if (huge && c > k / 2) d.grad[i].g += 3 * std::fabs(d.grad[i].g);
      continue;
    }
    int c = bulk ? r.below(k + 1) : s.range(0, k);
    v.push_back(c == k ? "__missing__" : std::string(1, char('a' + c)));
  }
  if (huge) retotal(&d);
  ctx.describe([&](std::ostream& o) { o << n << " rows, " << k << " categories " << pbt::show(std::vector<std::string>(v.begin(), v.begin() + std::min(n, 100))).substr(0, 600); describe_data(o, d); });
  auto col = Column::CreateStringColumn("c", v);
  Sum L, R;
  LD tol = 0;
  Outcome o = run(col.get(), d, &L, &R, &tol);
  LD lambda = d.config.l2_lambda();
  std::map<std::string, Sum> by_cat;
  Sum T;
  for (uint i : d.samples) by_cat[v[i]].add(d.of(i)), T.add(d.of(i));
  if (o.found) {
    CHECK_THAT(o.split.has_cat_split() && !o.split.has_float_split(), "kind", o.split.ShortDebugString());
    std::map<std::string, char> side;
    for (uint i : d.samples) {
      auto it = side.insert(std::make_pair(v[i], o.left[i])).first;
      CHECK_THAT(it->second == o.left[i], "routing", "category " << v[i] << " is on both sides");
    }
    // The split is the set of listed categories, also when it is read from a model: by name.
    Split named;
    for (auto i : o.split.cat_split().internal_categorical_index()) named.mutable_cat_split()->add_category(static_cast<const StringColumn*>(col.get())->get_cat_string(i));
    if (o.split.cat_split().internal_categorical_index_size() > 0) {
      auto again = d.samples;
      VectorSlice<uint> sl(again);
      auto parts = Partition(col.get(), named, sl);
      for (uint i : parts.first) CHECK_THAT(o.left[i] == 1, "routing", "row " << i << " goes left by name and right by index");
      for (uint i : parts.second) CHECK_THAT(o.left[i] == 0, "routing", "row " << i << " goes right by name and left by index");
    }
  }
  LD best = 0, scale = T.energy(lambda);
  std::string what;
  int candidates = 0;
  auto consider = [&](const Sum& left, const std::function<std::string()>& w) {
    Sum right = sub(T, left);
    ++candidates;
    if (!(std::min(left.h, right.h) > d.config.min_hessian())) return;
    LD e = left.energy(lambda) + right.energy(lambda);
    scale = std::max(scale, e);
    LD g = e - T.energy(lambda);
    if (g > best) best = g, what = w();
  };
  // With no hessian and no lambda a category has no score: such inputs are checked for truthfulness only.
  bool degenerate = false;
  std::vector<std::pair<std::string, Sum>> cats;
  for (auto& p : by_cat) {
    if (p.second.g == 0 && p.second.h == 0) continue;
    if (p.second.h + lambda == 0) degenerate = true;
    cats.push_back(p);
  }
  if (degenerate) {
    ctx.label("category without hessian");
  } else if (lambda == 0 && d.config.min_hessian() == 0 && cats.size() <= 9) {
    for (uint m = 1; m + 1 < (1u << cats.size()); ++m) {
      Sum left;
      std::string names;
      for (size_t i = 0; i < cats.size(); ++i) if (m >> i & 1) left.add(cats[i].second), names += cats[i].first + " ";
      consider(left, [&] { return "separating " + names; });
    }
    optimal(o, d, best, scale, what);
    ctx.label("all divisions");
  } else {
    std::sort(cats.begin(), cats.end(), [&](const std::pair<std::string, Sum>& a, const std::pair<std::string, Sum>& b) {
      return a.second.g / (a.second.h + lambda) < b.second.g / (b.second.h + lambda);
    });
    Sum left;
    for (size_t i = 0; i + 1 < cats.size(); ++i) {
      left.add(cats[i].second);
      LD a = cats[i].second.g / (cats[i].second.h + lambda), b = cats[i + 1].second.g / (cats[i + 1].second.h + lambda);
      if (b - a > 1e-12L * (fabsl(a) + fabsl(b))) consider(left, [&] { return "separating the " + std::to_string(i + 1) + " categories of least score, up to " + cats[i].first; });
    }
    optimal(o, d, best, scale, what);
    ctx.label("ordered divisions");
  }
  ctx.nontrivial_if(candidates >= 2);
  ctx.label(o.found ? "split found" : "no split");
  if (k > 8) ctx.label("many categories");
}
PROP(categorical_feature, 2500) { categorical_feature(s, ctx, false); }
PROP(categorical_feature_huge, 1) { categorical_feature(s, ctx, true); }

// Real-valued gradients, hessians and weights over many orders of magnitude: truthfulness with a relative tolerance.
PROP(real_valued, 1000) {
  int n = s.length(2, 30);
  Data d;
  d.n = n;
  auto r = s.bulk();
  int spread = s.range(0, 3);
  std::vector<float> fv;
  std::vector<std::string> sv;
  int k = s.range(2, 8);
  for (int i = 0; i < n; ++i) {
    double m = std::pow(10.0, spread * (r.unit() * 2 - 1));
    d.grad.push_back(GradientData((r.unit() * 2 - 1) * m, r.below(8) == 0 ? 0 : r.unit() + 0.05));
    d.w.push_back(float(r.unit() + 0.01));
    d.samples.push_back(i);
    int c = r.below(k);
    fv.push_back(c == 0 ? NAN : float(c));
    sv.push_back(std::to_string(c));
  }
  d.config.set_l2_lambda(s.flip() ? 0 : r.unit() * 3);
  d.config.set_min_hessian(s.flip() ? 0 : r.unit());
  for (int i = 0; i < n; ++i) {
    d.total.g += d.w[i] * d.grad[i].g;
    d.total.h += d.w[i] * d.grad[i].h;
  }
  bool cat = s.flip();
  auto col = cat ? Column::CreateStringColumn("x", sv) : Column::CreateBucketizedFloatColumn("x", fv);
  ctx.describe([&](std::ostream& o) { o << (cat ? pbt::show(sv) : pbt::show(fv)); describe_data(o, d); });
  const Data& cd = d;
  FloatVector w = [&cd](int i) { return cd.w[i]; };
  Split split;
  VectorSlice<uint> slice(d.samples);
  bool found = FindBestSplit(col.get(), w, &d.grad, slice, d.config, d.total, &split);
  ctx.nontrivial_if(found);
  if (!found) return;
  auto parts = Partition(col.get(), split, slice);
  Sum L, R, T;
  for (uint i : parts.first) L.add(d.of(i)), T.add(d.of(i));
  for (uint i : parts.second) R.add(d.of(i)), T.add(d.of(i));
  LD la = d.config.l2_lambda();
  LD gain = L.energy(la) + R.energy(la) - T.energy(la);
  LD scale = L.energy(la) + R.energy(la) + T.energy(la);
  CHECK_THAT(fabsl(gain - split.gain()) <= 1e-9L * scale, "gain", "reported gain " << split.gain() << ", the rows it separates gain " << double(gain) << " split " << split.ShortDebugString());
  CHECK_THAT(std::min(L.h, R.h) > d.config.min_hessian() - 1e-9, "min-hessian", "hessians " << double(L.h) << " " << double(R.h));
  CHECK_THAT(L.h > 0 && R.h > 0, "min-hessian", "a side without hessian: " << double(L.h) << " " << double(R.h));
}

PROP(raw_column, 500) {
  int n = s.range(0, 6);
  Data d = gen_data(s, n, false);
  std::vector<float> v(n, 1.0f);
  auto col = Column::CreateRawFloatColumn("r", std::move(v));
  Sum L, R;
  LD tol;
  Outcome o = run(col.get(), d, &L, &R, &tol);
  ctx.nontrivial_if(n > 0);
  CHECK_THAT(!o.found, "raw", "a raw column is split");
}
