// C01: categorical columns are lossless.
#include "common.h"

#include <unordered_map>

#include "src/data_store/column.h"

using gbdt::Column;
using gbdt::StringColumn;

void harness_init() { quiet_logs(); }

static std::string gen_string(pbt::Source& s) {
  switch (s.weighted({6, 2, 1, 1, 1, 1})) {
    case 0: return std::string(1, char('a' + s.range(0, 6)));
    case 1: return s.pick<const char*>({"__missing__", "__missing__ ", "__MISSING__", "", " ", "_", "missing"});
    case 2: {
      std::string r;
      int n = s.length(0, 12);
      for (int i = 0; i < n; ++i) r += char(s.draw(256));
      return r;
    }
    case 3: return "k" + std::to_string(s.range(0, 400));
    case 4: {
      std::string r(s.range(0, 70), 'x');
      return r + char('a' + s.range(0, 3));
    }
    default: {
      std::string r = "a";
      r += '\0';
      r += char('a' + s.range(0, 2));
      return r;
    }
  }
}

// Rows as a vocabulary and indices into it, split into batches.
static void check_column(const StringColumn& col, const std::vector<std::string>& rows) {
  CHECK_THAT(col.status().ok(), "status", "status not OK: " << col.status().ToString());
  CHECK_THAT(col.size() == rows.size(), "size", "size " << col.size() << " for " << rows.size() << " rows");
  CHECK_THAT(col.type() == Column::kStringColumn, "type", "wrong type");
  std::unordered_map<std::string, uint> index;
  std::unordered_map<uint, std::string> back;
  index["__missing__"] = 0;
  back[0] = "__missing__";
  for (size_t i = 0; i < rows.size(); ++i) {
    uint k = col.col()[i];
    CHECK_THAT(col.get_row_string(i) == rows[i], "row-string",
               "row " << i << " was " << pbt::quote(rows[i]) << ", read " << pbt::quote(col.get_row_string(i)));
    CHECK_THAT(k < col.max_int(), "range", "row " << i << " has index " << k << " of " << col.max_int());
    CHECK_THAT(col.col().missing(i) == (rows[i] == "__missing__"), "missing",
               "row " << i << " " << pbt::quote(rows[i]) << " missing=" << col.col().missing(i));
    auto a = index.insert({rows[i], k});
    CHECK_THAT(a.first->second == k, "one-index",
               pbt::quote(rows[i]) << " has indices " << a.first->second << " and " << k);
    auto b = back.insert({k, rows[i]});
    CHECK_THAT(b.first->second == rows[i], "one-string",
               "index " << k << " stands for " << pbt::quote(b.first->second) << " and " << pbt::quote(rows[i]));
    CHECK_THAT(col.get_cat_string(k) == rows[i], "cat-string", "category string of index " << k << " differs");
  }
  CHECK_THAT(col.max_int() == index.size(), "max-int",
             "max_int " << col.max_int() << " for " << index.size() << " strings (with __missing__)");
  for (auto& p : index) {
    uint k = 12345;
    CHECK_THAT(col.get_cat_index(p.first, &k) && k == p.second, "lookup",
               "lookup of " << pbt::quote(p.first) << " gives " << k << ", expected " << p.second);
    std::string absent = p.first + "~";
    if (!index.count(absent))
      CHECK_THAT(!col.get_cat_index(absent, &k), "lookup-absent", "found absent " << pbt::quote(absent));
  }
}

static void build_and_check(pbt::Source& s, pbt::Ctx& ctx, const std::vector<std::string>& rows) {
  bool factory = s.chance(1, 4);
  if (factory) {
    ctx.label("factory");
    std::unique_ptr<Column> c = Column::CreateStringColumn("c", rows);
    CHECK_THAT(c->name() == "c", "name", "wrong name");
    check_column(static_cast<StringColumn&>(*c), rows);
    return;
  }
  StringColumn col("c");
  size_t at = 0;
  int batches = 0;
  // The batches may all be handed over in the same vector.
  bool same = s.flip();
  std::vector<std::string> shared;
  if (same) ctx.label("one vector for all batches");
  while (at < rows.size()) {
    size_t n = s.chance(1, 8) ? 0 : s.range(1, std::max<int64_t>(1, rows.size() - at));
    std::vector<std::string> fresh;
    auto& part = same ? shared : fresh;
    part.assign(rows.begin() + at, rows.begin() + at + n);
    col.Add(&part);
    at += n;
    ++batches;
    if (batches > 60) {
      std::vector<std::string> rest(rows.begin() + at, rows.end());
      col.Add(&rest);
      break;
    }
  }
  if (batches > 1) ctx.label("several batches");
  col.Finalize();
  check_column(col, rows);
}

PROP(small, 80) {
  int n = s.length(0, 60);
  std::vector<std::string> rows;
  for (int i = 0; i < n; ++i) rows.push_back(gen_string(s));
  ctx.describe([&](std::ostream& o) { o << "rows=" << pbt::show(rows); });
  std::set<std::string> d(rows.begin(), rows.end());
  ctx.nontrivial_if(d.size() >= 2 && d.size() < rows.size());
  if (d.count("__missing__")) ctx.label("has __missing__");
  build_and_check(s, ctx, rows);
}

// Vocabulary sizes around the points where the width of the integers changes.
static void boundary(pbt::Source& s, pbt::Ctx& ctx, int64_t pivot, int64_t spread) {
  int64_t distinct = pivot + s.range(-spread, spread);
  bool with_missing = s.flip();
  int64_t repeats = s.range(0, 200);
  pbt::Rng r = s.bulk();
  std::vector<std::string> rows;
  for (int64_t i = 0; i < distinct; ++i) rows.push_back("v" + std::to_string(i));
  if (with_missing) rows.push_back("__missing__");
  for (int64_t i = 0; i < repeats; ++i) rows.push_back(rows[r.below(rows.size())]);
  if (s.flip())
    for (size_t i = rows.size(); i > 1; --i) std::swap(rows[i - 1], rows[r.below(i)]);
  ctx.describe([&](std::ostream& o) {
    o << distinct << " distinct strings v0.. , " << repeats << " repeats, missing=" << with_missing;
  });
  ctx.nontrivial();
  ctx.label("boundary " + std::to_string(pivot));
  build_and_check(s, ctx, rows);
}
PROP(width_8_16, 12) { boundary(s, ctx, 255, 4); }
PROP_EX(width_16_32, 1, 60, false) { boundary(s, ctx, 65535, 3); }


