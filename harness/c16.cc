// C16: groups enumerate and sample preference pairs exactly.
#include "common.h"

#include <algorithm>
#include <map>
#include <random>

#include "src/loss_func/group.h"

using namespace gbdt;
typedef long double LD;

void harness_init() { quiet_logs(); }

static std::string rows_text(const std::vector<uint>& rows, const std::vector<float>& y) {
  std::ostringstream o;
  o << "rows=[";
  for (size_t i = 0; i < rows.size() && i < 60; ++i) o << (i ? "," : "") << rows[i] << ":" << y[rows[i]];
  o << "] ";
  return o.str();
}

static void check_identity(const Group& g, const std::vector<uint>& rows, const std::vector<float>& y) {
  CHECK_THAT(g.size() == rows.size(), "identity", "size " << g.size() << " for " << rows.size() << " rows");
  std::vector<uint> got, want = rows;
  for (uint i = 0; i < g.size(); ++i) {
    got.push_back(g[i]);
    CHECK_THAT(g.y(i) == y[g[i]], "identity", "position " << i << " is row " << g[i] << " with target " << y[g[i]] << ", but reports " << g.y(i));
  }
  std::sort(got.begin(), got.end());
  std::sort(want.begin(), want.end());
  CHECK_THAT(got == want, "identity", "the group's rows are not the ones it was given");
}

static void check_ranks(Group& g, const std::vector<double>& f) {
  std::vector<bool> seen(g.size(), false);
  std::vector<uint> at(g.size());
  for (uint i = 0; i < g.size(); ++i) {
    uint r = g.rank(i);
    CHECK_THAT(r < g.size() && !seen[r], "ranks", "rank " << r << " at position " << i << " is out of range or taken");
    seen[r] = true;
    at[r] = i;
  }
  for (uint r = 1; r < g.size(); ++r)
    CHECK_THAT(f[g[at[r - 1]]] >= f[g[at[r]]], "ranks", "rank " << r - 1 << " has score " << f[g[at[r - 1]]] << ", rank " << r << " has " << f[g[at[r]]]);
}

static void check_pair(const Group& g, const std::pair<uint, uint>& p) {
  CHECK_THAT(p.first < g.size() && p.second < g.size(), "pair", "sampled positions " << p.first << " and " << p.second << " of " << g.size());
  CHECK_THAT(g.y(p.first) > g.y(p.second), "pair", "sampled targets " << g.y(p.first) << " and " << g.y(p.second));
}

PROP(small, 5) {
  int total = s.range(1, 30);
  auto r = s.bulk();
  int levels = s.pick<int>({2, 3, 1, 4, 30, 0});
  std::vector<float> y;
  for (int i = 0; i < total; ++i) y.push_back(levels == 0 ? float(r.unit() - 0.5) * 1e3f : float(r.below(levels)) - 1);
  if (s.chance(1, 6)) y[0] = s.pick<float>({INFINITY, -INFINITY, 1e38f, -0.0f, 1e-45f});
  std::vector<uint> rows;
  for (int i = 0; i < total; ++i)
    if (r.below(4)) rows.push_back(i);
  for (size_t i = rows.size(); i > 1; --i) std::swap(rows[i - 1], rows[r.below(i)]);
  if (rows.size() > 20) rows.resize(20);
  int seed = s.range(0, 10000), reranks = s.range(0, 3), fmode = s.range(0, 2);
  ctx.describe([&](std::ostream& o) { o << rows_text(rows, y) << "seed " << seed; });
  auto given = rows;
  Group g(std::move(given), [&y](int i) { return y[i]; });
  check_identity(g, rows, y);
  uint64_t pairs = 0;
  std::map<std::pair<uint, uint>, int> count;
  for (uint a : rows)
    for (uint b : rows)
      if (y[a] > y[b]) ++pairs, count[{a, b}] = 0;
  CHECK_THAT(g.num_pairs() == pairs, "num-pairs", g.num_pairs() << " pairs counted, there are " << pairs);
  for (int k = 0; k < reranks; ++k) {
    std::vector<double> f;
    for (int i = 0; i < total; ++i) f.push_back(fmode == 0 ? r.unit() - 0.5 : fmode == 1 ? double(r.below(3)) : -double(y[i]));
    g.Rerank(f);
    check_ranks(g, f);
    check_identity(g, rows, y);
  }
  CHECK_THAT(g.num_pairs() == pairs, "num-pairs", "the number of pairs changed to " << g.num_pairs());
  if (pairs == 0) {
    ctx.label("no pairs");
    return;
  }
  ctx.nontrivial_if(pairs >= 2);
  std::mt19937 gen(seed);
  const int per = pairs <= 30 ? 400 : 120;
  int n = per * pairs;
  for (int k = 0; k < n; ++k) {
    auto p = g.SamplePair(&gen);
    check_pair(g, p);
    ++count[{g[p.first], g[p.second]}];
  }
  // Every pair equally often, within Bernstein's bound at 1e-12 per pair.
  const LD L = 28;
  LD tol = sqrtl(2 * L * per) + 2 * L / 3 + 1;
  if (pairs == 1) tol = 0.5;
  for (auto& kv : count)
    CHECK_THAT(kv.second > 0 && std::fabs(LD(kv.second) - per) <= tol, "uniform", "pair of rows " << kv.first.first << ", " << kv.first.second << " sampled " << kv.second << " times of " << n << ", expected about " << per);
}

// Groups whose pairs do not fit 32 bits.
PROP(large, 1) {
  int n = s.chance(1, 2) ? s.range(60000, 200000) : s.range(500, 5000);
  int levels = s.chance(1, 20) ? 70000 : s.pick<int>({2, 3, 100, 2});
  auto r = s.bulk();
  int share = s.range(1, 9);
  std::vector<float> y(n);
  std::map<float, uint64_t> size;
  for (auto& v : y) {
    v = levels == 2 ? float(r.below(10) < uint64_t(share)) : float(r.below(levels));
    ++size[v];
  }
  ctx.describe([&](std::ostream& o) { o << n << " rows, " << levels << " levels, share " << share; });
  uint64_t pairs = 0, below = 0;
  std::map<float, LD> as_first, as_second;  // probability that a pair's first (second) row has this target
  for (auto& kv : size) {
    pairs += kv.second * below;
    as_first[kv.first] = LD(kv.second) * below;
    as_second[kv.first] = LD(kv.second) * (n - below - kv.second);
    below += kv.second;
  }
  std::vector<uint> rows(n);
  for (int i = 0; i < n; ++i) rows[i] = i;
  auto given = rows;
  Group g(std::move(given), [&y](int i) { return y[i]; });
  CHECK_THAT(g.num_pairs() == pairs, "num-pairs", g.num_pairs() << " pairs counted, there are " << pairs);
  check_identity(g, rows, y);
  for (int k = s.chance(1, 6) ? s.range(1, 2) : 0; k > 0; --k) {
    std::vector<double> f;
    bool ties = s.flip();
    for (int i = 0; i < n; ++i) f.push_back(ties ? double(r.below(30)) : r.unit() - 0.5);
    g.Rerank(f);
    check_ranks(g, f);
  }
  if (pairs == 0) return;
  ctx.nontrivial();
  if (pairs > (1ull << 32)) ctx.label("more than 2^32 pairs");
  std::mt19937 gen(s.range(0, 10000));
  const int samples = 20000;
  std::map<float, LD> first, second;
  std::vector<LD> fq(8), sq(8);  // where in its block of equal targets the row stands
  std::map<float, uint> start;
  for (int i = n - 1; i >= 0; --i) start[g.y(i)] = i;
  for (int k = 0; k < samples; ++k) {
    auto p = g.SamplePair(&gen);
    check_pair(g, p);
    float a = g.y(p.first), b = g.y(p.second);
    first[a] += 1, second[b] += 1;
    fq[8 * uint64_t(p.first - start[a]) / size[a]] += 1;
    sq[8 * uint64_t(p.second - start[b]) / size[b]] += 1;
  }
  auto near = [&](LD got, LD prob, const char* what) {
    LD mean = prob * samples, tol = sqrtl(2 * 28 * mean * (1 - std::min<LD>(prob, 1))) + 2 * 28 / 3.0L + 2;
    CHECK_THAT(fabsl(got - mean) <= tol, "uniform", what << ": " << double(got) << " of " << samples << " samples, expected about " << double(mean));
  };
  for (auto& kv : size) {
    near(first[kv.first], as_first[kv.first] / pairs, "rows of one target as first");
    near(second[kv.first], as_second[kv.first] / pairs, "rows of one target as second");
  }
  // A block of fewer than 800 rows does not divide evenly into eighths.
  LD smallest = n;
  for (auto& kv : size) smallest = std::min<LD>(smallest, kv.second);
  if (smallest >= 8000)
    for (int q = 0; q < 8; ++q) near(fq[q], 0.125L, "an eighth of a block as first"), near(sq[q], 0.125L, "an eighth of a block as second");
}
