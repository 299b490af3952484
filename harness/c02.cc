// C02: float bucketization keeps value, order and missingness.
#include "common.h"

#include <map>

#include "src/data_store/column.h"

using gbdt::BucketizedFloatColumn;
using gbdt::Column;

void harness_init() { quiet_logs(); }

struct Data {
  std::vector<float> v;
  std::vector<size_t> batches;
  int nb;
};

static std::vector<size_t> gen_batches(pbt::Source& s, size_t n) {
  std::vector<size_t> b;
  size_t at = 0;
  while (at < n && b.size() < 40) {
    size_t k = s.chance(1, 8) ? 0 : s.range(1, std::max<int64_t>(1, n - at));
    b.push_back(k);
    at += k;
  }
  if (at < n) b.push_back(n - at);
  if (s.chance(1, 10)) b.push_back(0);
  return b;
}

static std::unique_ptr<BucketizedFloatColumn> build(const Data& d) {
  std::unique_ptr<BucketizedFloatColumn> c(new BucketizedFloatColumn("f", d.nb));
  size_t at = 0;
  std::vector<float> shared;
  for (size_t k : d.batches) {
    std::vector<float> fresh;
    auto& part = d.v.size() % 2 ? shared : fresh;  // the batches may all be handed over in the same vector
    part.assign(d.v.begin() + at, d.v.begin() + at + k);
    c->Add(&part);
    at += k;
  }
  c->Finalize();
  return c;
}

static void check(const Data& d, const BucketizedFloatColumn& c, pbt::Ctx& ctx) {
  size_t n = d.v.size();
  CHECK_THAT(c.status().ok(), "status", "status " << c.status().ToString());
  CHECK_THAT(c.size() == n, "size", "size " << c.size() << " for " << n << " rows");
  CHECK_THAT(c.max_int() <= 3u * d.nb + 3, "bucket-count", c.max_int() << " buckets for B=" << d.nb);
  std::map<float, std::pair<float, float>> range_of;  // value -> reported range
  std::map<float, uint> bucket_of;
  std::map<float, size_t> count;
  for (size_t i = 0; i < n; ++i) {
    float v = d.v[i];
    uint k = c.col()[i];
    CHECK_THAT(k < c.max_int(), "index-range", "row " << i << " in bucket " << k << " of " << c.max_int());
    CHECK_THAT(c.col().missing(i) == std::isnan(v), "missing",
               "row " << i << " value " << pbt::show(v) << " missing=" << c.col().missing(i));
    float lo = c.get_row_min(i), hi = c.get_row_max(i);
    if (std::isnan(v)) {
      CHECK_THAT(std::isnan(lo) && std::isnan(hi), "missing-range",
                 "missing row " << i << " reports " << pbt::show(lo) << ".." << pbt::show(hi));
      continue;
    }
    CHECK_THAT(lo <= v && v <= hi, "interval", "row " << i << " value " << pbt::show(v) << " reported as "
                                                      << pbt::show(lo) << ".." << pbt::show(hi));
    auto b = bucket_of.insert({v, k});
    CHECK_THAT(b.first->second == k, "equal-share", "value " << pbt::show(v) << " in buckets " << b.first->second
                                                             << " and " << k);
    range_of[v] = {lo, hi};
    CHECK_THAT(c.get_bucket_min(k) == lo && c.get_bucket_max(k) == hi, "bucket-range", "row and bucket range differ");
    ++count[v];
  }
  const float* prev = nullptr;
  for (auto& p : range_of) {
    if (prev) {
      auto a = range_of[*prev];
      uint ka = bucket_of[*prev], kb = bucket_of[p.first];
      CHECK_THAT(ka <= kb, "order", pbt::show(*prev) << " in bucket " << ka << ", larger " << pbt::show(p.first)
                                                     << " in bucket " << kb);
      if (ka != kb)
        CHECK_THAT(a.second < p.second.first, "order-range",
                   pbt::show(*prev) << " reported up to " << pbt::show(a.second) << ", larger "
                                    << pbt::show(p.first) << " in another bucket from "
                                    << pbt::show(p.second.first));
    }
    prev = &p.first;
  }
  // Tightness: a bucket's lower end is a value that is in the bucket.
  std::map<uint, float> least;
  std::map<uint, size_t> in_bucket;
  for (size_t i = 0; i < n; ++i) {
    if (std::isnan(d.v[i])) continue;
    uint k = c.col()[i];
    auto it = least.insert({k, d.v[i]}).first;
    it->second = std::min(it->second, d.v[i]);
    ++in_bucket[k];
  }
  for (auto& p : least) {
    float lo = c.get_bucket_min(p.first);
    CHECK_THAT(lo == p.second || (lo == 0 && p.second == 0), "tight-min",
               "bucket " << p.first << " starts at " << pbt::show(lo) << ", its least value is "
                         << pbt::show(p.second));
  }
  bool one_stage = true;  // the buckets saw all rows
  {
    size_t at = 0;
    for (size_t j = 0; j < d.batches.size(); ++j) {
      at += d.batches[j];
      if (at > 100u * d.nb && j + 1 < d.batches.size() && at < n) one_stage = false;
    }
  }
  if (!one_stage) {
    ctx.label("rows after the buckets were fixed");
    return;
  }
  if (n < 2u * d.nb) {
    ctx.label("exact range");
    for (auto& p : range_of)
      CHECK_THAT(p.second.first == p.first && p.second.second == p.first, "exact",
                 "value " << pbt::show(p.first) << " kept only as " << pbt::show(p.second.first) << ".."
                          << pbt::show(p.second.second) << " with " << n << " rows and B=" << d.nb);
  }
  if (d.nb >= 3 && n > 0) {
    bool heavy = false;
    for (auto& p : count)
      if (p.second >= std::max<size_t>(1, n / d.nb)) heavy = true;
    if (!heavy) {
      ctx.label("no heavy value");
      size_t fair = (n + d.nb - 1) / d.nb;
      for (auto& p : in_bucket)
        CHECK_THAT(p.second <= 3 * fair, "equal-frequency",
                   "bucket " << p.first << " holds " << p.second << " of " << n << " rows with B=" << d.nb);
    }
  }
}

static void run(const Data& d, pbt::Ctx& ctx, bool compare_single) {
  auto c = build(d);
  check(d, *c, ctx);
  if (compare_single && d.v.size() < 100u * d.nb && d.batches.size() > 1) {
    ctx.label("compared with one batch");
    auto one = Column::CreateBucketizedFloatColumn("f", d.v, d.nb);
    auto& o = static_cast<BucketizedFloatColumn&>(*one);
    CHECK_THAT(o.size() == c->size() && o.max_int() == c->max_int(), "batching", "batching changes the buckets");
    for (size_t i = 0; i < d.v.size(); ++i)
      CHECK_THAT(o.col()[i] == c->col()[i] && same_float(o.get_row_min(i), c->get_row_min(i)) &&
                     same_float(o.get_row_max(i), c->get_row_max(i)),
                 "batching", "row " << i << " differs between one and " << d.batches.size() << " batches");
  }
}

// Few rows drawn one by one, with small bucket counts.
PROP(small, 40) {
  Data d;
  d.nb = s.weighted({3, 1}) == 0 ? s.range(2, 12) : s.range(2, 40);
  int n = s.length(0, 80);
  FloatGen g;
  std::vector<float> pool;
  int np = s.range(1, 8);
  for (int i = 0; i < np; ++i) pool.push_back(g(s));
  for (int i = 0; i < n; ++i) d.v.push_back(s.chance(1, 3) ? g(s) : s.pick(pool));
  d.batches = gen_batches(s, n);
  ctx.describe([&](std::ostream& o) {
    o << "B=" << d.nb << " values=" << pbt::show(d.v) << " batches=" << pbt::show(std::vector<uint64_t>(d.batches.begin(), d.batches.end()));
  });
  std::set<float> distinct;
  for (float v : d.v)
    if (!std::isnan(v)) distinct.insert(v);
  ctx.nontrivial_if(distinct.size() >= 3 && n > int(distinct.size()));
  run(d, ctx, true);
}

// More rows than 100 * B, so that buckets are fixed before the last rows arrive.
PROP(late_rows, 10) {
  Data d;
  d.nb = s.range(2, 6);
  size_t n = s.range(90, 1400);
  int shape = s.range(0, 4);
  pbt::Rng r = s.bulk();
  int spread = s.pick<int>({3, 10, 50, 1000, 100000});
  for (size_t i = 0; i < n; ++i) {
    float v;
    switch (shape) {
      case 0: v = float(r.below(spread)); break;
      case 1: v = float(r.unit() * spread - spread / 2.0); break;
      case 2: v = i < n / 2 ? float(r.below(spread)) : float(r.below(spread)) * 3 - spread; break;
      case 3: v = r.below(3) ? 5.0f : float(r.below(spread)); break;
      default: v = r.below(10) == 0 ? NAN : float(i); break;
    }
    d.v.push_back(v);
  }
  if (s.chance(1, 3)) {
    FloatGen g;
    for (int k = 0; k < 8; ++k) d.v[s.draw(n)] = g(s);
  }
  // The rows that fix the buckets may look like nothing that follows.
  int head = s.chance(1, 4) ? s.range(1, 4) : 0;
  size_t m = head ? s.range(80, n) : 0;
  float same = head == 2 ? s.pick<float>({0.0f, 7.0f, -1e30f, 50.0f}) : head == 3 ? std::numeric_limits<float>::max() : NAN;
  for (size_t i = 0; i < m; ++i) d.v[i] = head == 4 ? (r.below(20) ? NAN : d.v[i]) : same;
  if (head) ctx.label("peculiar first rows");
  if (head && s.flip()) {
    d.batches = {m};
    if (m < n) d.batches.push_back(n - m);
  } else {
    d.batches = gen_batches(s, n);
  }
  ctx.describe([&](std::ostream& o) {
    if (head) o << m << " first rows of kind " << head << " ";
    o << "B=" << d.nb << " n=" << n << " shape " << shape << " spread " << spread << " first "
      << pbt::show(std::vector<float>(d.v.begin(), d.v.begin() + std::min<size_t>(n, 30))) << " batches="
      << pbt::show(std::vector<uint64_t>(d.batches.begin(), d.batches.end()));
  });
  ctx.nontrivial_if(n > 100u * d.nb);
  run(d, ctx, false);
}

// Counts arranged around the point where the heavy values use up the buckets.
PROP(heavy, 10) {
  Data d;
  d.nb = s.range(2, 24);
  int heavy = std::max<int64_t>(0, d.nb + s.range(-4, 3));
  int per = s.range(1, 6), light = s.range(0, 30), nans = s.chance(1, 3) ? s.range(1, 20) : 0;
  std::vector<float> v;
  for (int i = 0; i < heavy; ++i)
    for (int k = 0; k < per; ++k) v.push_back(float(2 * i));
  for (int i = 0; i < light; ++i) v.push_back(float(s.range(-3, 2 * heavy + 3)) + 0.5f);
  for (int i = 0; i < nans; ++i) v.push_back(NAN);
  pbt::Rng r = s.bulk();
  for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]);
  d.v = v;
  d.batches = gen_batches(s, v.size());
  ctx.describe([&](std::ostream& o) { o << "B=" << d.nb << " values=" << pbt::show(d.v); });
  ctx.nontrivial_if(heavy > 1);
  if (heavy + 1 == d.nb) ctx.label("heavy values leave no bucket");
  run(d, ctx, true);
}

// Widths: around 256 and 65536 buckets.
PROP_EX(width, 1, 60, false) {
  Data d;
  bool big = s.chance(1, 6);
  int64_t distinct = big ? 65534 + s.range(-2, 3) : 254 + s.range(-4, 4);
  d.nb = s.flip() ? 30000 : int(distinct + s.range(-3, 40000));
  d.nb = std::max(d.nb, 2);
  pbt::Rng r = s.bulk();
  for (int64_t i = 0; i < distinct; ++i) d.v.push_back(float(i) * 0.5f - 100);
  int64_t extra = s.range(0, 300);
  for (int64_t i = 0; i < extra; ++i) d.v.push_back(r.below(5) ? d.v[r.below(distinct)] : NAN);
  for (size_t i = d.v.size(); i > 1; --i) std::swap(d.v[i - 1], d.v[r.below(i)]);
  d.batches = gen_batches(s, d.v.size());
  ctx.describe([&](std::ostream& o) { o << "B=" << d.nb << ", " << distinct << " distinct values, " << extra << " more rows"; });
  ctx.nontrivial();
  ctx.label(big ? "about 65536 buckets" : "about 256 buckets");
  run(d, ctx, true);
}

// Widths again, with buckets that are fixed before rows outside of them arrive.
PROP_EX(width_late, 1, 60, false) {
  Data d;
  int distinct = 254 + s.range(-3, 3);
  d.nb = distinct + s.range(0, 30);
  pbt::Rng r = s.bulk();
  int n = 100 * d.nb + 1 + s.range(0, 50);
  for (int i = 0; i < n; ++i) d.v.push_back(float(i % distinct) * 0.5f - 100);
  for (size_t i = d.v.size(); i > 1; --i) std::swap(d.v[i - 1], d.v[r.below(i)]);
  d.batches = {d.v.size()};
  int later = s.range(1, 30);
  for (int i = 0; i < later; ++i) d.v.push_back(s.pick<float>({1000, -1000, NAN, 27, 1e30f, -100}) + float(s.range(0, 3)) / 4);
  d.batches.push_back(later);
  ctx.describe([&](std::ostream& o) { o << "B=" << d.nb << ", " << n << " rows of " << distinct << " distinct values, then " << pbt::show(std::vector<float>(d.v.begin() + n, d.v.end())); });
  ctx.nontrivial();
  run(d, ctx, false);
}

// The default bucket count.
PROP_EX(default_buckets, 1, 60, false) {
  Data d;
  d.nb = 30000;
  int64_t distinct = s.pick<int>({29990, 29999, 29998, 30000, 30001, 45000, 70000}) + s.range(-2, 2);
  int64_t dup = s.range(0, 3);
  pbt::Rng r = s.bulk();
  for (int64_t i = 0; i < distinct; ++i) d.v.push_back(float(i));
  for (int64_t i = 0; i < dup * 1000; ++i) d.v.push_back(float(r.below(distinct)));
  d.batches = {d.v.size()};
  ctx.describe([&](std::ostream& o) { o << distinct << " distinct values, " << dup * 1000 << " repeats, default buckets"; });
  ctx.nontrivial();
  run(d, ctx, false);
}
