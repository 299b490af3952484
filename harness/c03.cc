// C03: a data store is a consistent table of named columns (model-based, over operation histories).
#include "common.h"

#include <map>

#include "src/data_store/column.h"
#include "src/data_store/data_store.h"

using namespace gbdt;

void harness_init() { quiet_logs(); }

struct Model {
  Column::ColumnType type;
  std::vector<float> f;
  std::vector<std::string> s;
  const Column* ptr;
  size_t size() const { return type == Column::kStringColumn ? s.size() : f.size(); }
};

static void check_contents(const std::string& name, const Model& m, const Column* c) {
  CHECK_THAT(c != nullptr, "lookup", "column " << name << " not found");
  CHECK_THAT(c->name() == name, "name", "column " << name << " calls itself " << c->name());
  CHECK_THAT(c->type() == m.type, "type", "column " << name << " has type " << c->type() << ", expected " << m.type);
  CHECK_THAT(c->size() == m.size(), "size", "column " << name << " has " << c->size() << " rows, expected " << m.size());
  for (size_t i = 0; i < m.size(); ++i) {
    if (m.type == Column::kStringColumn) {
      CHECK_THAT(static_cast<const StringColumn*>(c)->get_row_string(i) == m.s[i], "content", name << " row " << i);
    } else if (m.type == Column::kRawFloatColumn) {
      CHECK_THAT(same_float((*static_cast<const RawFloatColumn*>(c))[i], m.f[i]), "content", name << " row " << i);
    } else {
      CHECK_THAT(same_float(static_cast<const BucketizedFloatColumn*>(c)->get_row_max(i), m.f[i]), "content",
                 name << " row " << i);
    }
  }
}

static std::vector<int> numbers(const std::string& s) {
  std::vector<int> r;
  for (size_t i = 0; i < s.size();) {
    if (isdigit(s[i])) {
      int v = 0;
      while (i < s.size() && isdigit(s[i])) v = v * 10 + (s[i++] - '0');
      r.push_back(v);
    } else {
      ++i;
    }
  }
  return r;
}

template <typename C>
static std::set<const Column*> as_set(const std::vector<const C*>& v) {
  std::set<const Column*> r;
  for (auto* p : v) r.insert(p);
  CHECK_THAT(r.size() == v.size(), "listing", "a listing repeats a column");
  return r;
}

PROP(history, 1) {
  DataStore store;
  std::map<std::string, Model> model;
  int steps = s.length(1, 40);
  int max_rows = s.range(0, 4);
  int usual = s.range(0, max_rows);
  std::vector<std::string> names = {"a", "b", "c", "d", "", "A", "a b", "__missing__"};
  bool failed_dup = false, failed_rows = false, removed = false, zero = false;
  for (int step = 0; step < steps; ++step) {
    std::string name = s.pick(names);
    switch (s.weighted({6, 2, 2})) {
      case 0: {
        Model m;
        m.type = s.pick<Column::ColumnType>(
            {Column::kStringColumn, Column::kBucketizedFloatColumn, Column::kRawFloatColumn});
        int n = s.chance(1, 3) ? s.range(0, max_rows) : usual;
        std::unique_ptr<Column> c;
        if (m.type == Column::kStringColumn) {
          for (int i = 0; i < n; ++i) m.s.push_back(s.pick<const char*>({"x", "y", "__missing__", ""}));
          c = Column::CreateStringColumn(name, m.s);
        } else {
          for (int i = 0; i < n; ++i) m.f.push_back(s.chance(1, 6) ? NAN : float(s.range(-3, 3)));
          if (m.type == Column::kRawFloatColumn) {
            auto copy = m.f;
            c = Column::CreateRawFloatColumn(name, std::move(copy));
          } else {
            c = Column::CreateBucketizedFloatColumn(name, m.f);
          }
        }
        m.ptr = c.get();
        bool dup = model.count(name), rows = !model.empty() && model.begin()->second.size() != m.size();
        bool expect_ok = !dup && !rows;
        ctx.describe([&](std::ostream& o) { o << "add " << pbt::quote(name) << " type " << m.type << " rows " << n << "; "; });
        auto st = store.Add(std::move(c));
        CHECK_THAT(st.ok() == expect_ok, dup ? "duplicate" : rows ? "row-count" : "add",
                   "adding " << pbt::quote(name) << " with " << m.size() << " rows to a store with " << model.size()
                             << " columns of " << (model.empty() ? 0 : model.begin()->second.size())
                             << " rows gives " << st.ToString());
        if (expect_ok) {
          if (n == 0) zero = true;
          model[name] = m;
        } else {
          CHECK_THAT(!st.ToString().empty(), "message", "error without a message");
          if (dup) failed_dup = true;
          else failed_rows = true;
        }
        break;
      }
      case 1: {
        ctx.describe([&](std::ostream& o) { o << "remove " << pbt::quote(name) << "; "; });
        if (model.count(name)) removed = true;
        store.RemoveColumnIfExists(name);
        model.erase(name);
        break;
      }
      default: {
        const Column* c = store.GetColumn(name);
        CHECK_THAT((c != nullptr) == (model.count(name) > 0), "lookup", "lookup of " << pbt::quote(name));
        break;
      }
    }
    // The whole state after every step.
    CHECK_THAT(store.num_cols() == model.size(), "num-cols", store.num_cols() << " columns, expected " << model.size());
    uint rows = model.empty() ? 0 : model.begin()->second.size();
    CHECK_THAT(store.num_rows() == rows, "num-rows", store.num_rows() << " rows, expected " << rows);
    std::set<const Column*> by_type[3];
    for (auto& p : model) by_type[p.second.type].insert(p.second.ptr);
    CHECK_THAT(as_set(store.GetStringColumns()) == by_type[Column::kStringColumn], "listing", "string columns");
    CHECK_THAT(as_set(store.GetBucketizedFloatColumns()) == by_type[Column::kBucketizedFloatColumn], "listing",
               "bucketized columns");
    CHECK_THAT(as_set(store.GetRawFloatColumns()) == by_type[Column::kRawFloatColumn], "listing", "raw columns");
    std::vector<int> expect = {int(by_type[1].size()), int(by_type[2].size()), int(by_type[0].size()), int(rows)};
    CHECK_THAT(numbers(store.Description()) == expect, "description", store.Description());
    for (auto& n : names) {
      auto it = model.find(n);
      auto type = it == model.end() ? -1 : int(it->second.type);
      CHECK_THAT((store.GetStringColumn(n) != nullptr) == (type == Column::kStringColumn), "typed", "string lookup of " << n);
      CHECK_THAT((store.GetRawFloatColumn(n) != nullptr) == (type == Column::kRawFloatColumn), "typed", "raw lookup of " << n);
      CHECK_THAT((store.GetBucketizedFloatColumn(n) != nullptr) == (type == Column::kBucketizedFloatColumn), "typed",
                 "bucketized lookup of " << n);
      if (it == model.end()) CHECK_THAT(store.GetColumn(n) == nullptr, "lookup", "found " << pbt::quote(n));
      else {
        CHECK_THAT(store.GetColumn(n) == it->second.ptr, "identity", "another column under " << pbt::quote(n));
        check_contents(n, it->second, store.GetColumn(n));
      }
    }
    CHECK_THAT(store.status().ok(), "status", "store status " << store.status().ToString());
  }
  if (failed_dup) ctx.label("refused duplicate");
  if (failed_rows) ctx.label("refused row count");
  if (removed) ctx.label("removed a column");
  if (zero) ctx.label("zero-row columns");
  ctx.nontrivial_if(failed_dup || failed_rows || removed);
}
