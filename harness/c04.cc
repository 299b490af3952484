// C04: TSV loading returns the cells of the files.
#include "common.h"

#include <map>

#include "src/data_store/column.h"
#include "src/data_store/tsv_data_store.h"
#include "src/proto/config.pb.h"

using namespace gbdt;

void harness_init() { quiet_logs(); }

enum Kind { kNone, kBucket, kRaw, kStr };
struct Col {
  std::string name;
  bool numeric;
  Kind kind = kNone;
  std::vector<std::string> cells;
};

static std::string gen_number(pbt::Source& s) {
  char b[64];
  switch (s.weighted({5, 3, 2, 2, 1, 1, 1})) {
    case 0: return std::to_string(s.range(-20, 20));
    case 1: snprintf(b, sizeof b, "%.*f", int(s.range(0, 8)), double(s.range(-100000, 100000)) / 777.0); return b;
    case 2: return s.pick<const char*>({"NAN", "nan", "NaN", "?", "_", "-", "*"});
    case 3: {
      FloatGen g;
      g.nan = false;
      snprintf(b, sizeof b, "%.9g", g(s));
      return b;
    }
    case 4: return s.pick<const char*>({"1e5", "1E-5", "+3", ".5", "5.", "-.25e1", "0", "-0", "1e-46", "00012"});
    case 5: return s.flip() ? gen_halfway(s) : std::to_string(s.range(16777210, 16777230));  // beyond exact integers
    default: snprintf(b, sizeof b, "%.17g", double(s.range(1, 1 << 20)) / 3.0); return b;
  }
}
static std::string gen_text(pbt::Source& s) {
  switch (s.weighted({5, 2, 2, 1, 1})) {
    case 0: return std::string(1, char('a' + s.range(0, 5)));
    case 1: return s.pick<const char*>({"", " ", "NaN", "?", "__missing__", "1.5", "#x", "# dtype=strings", "\"q\"", ",", "a b", " lead", "trail "});
    case 2: {
      std::string r;
      int n = s.range(1, 10);
      for (int i = 0; i < n; ++i) {
        char c = char(s.draw(256));
        if (c == '\t' || c == '\n' || c == '\r') c = 'z';
        r += c;
      }
      return r;
    }
    case 3: return std::string(s.range(1, 300), 'L');
    default: return "in\rside";  // a carriage return that does not end the line
  }
}
static bool missing_marker(const std::string& c) {
  return c == "NAN" || c == "nan" || c == "NaN" || c == "?" || c == "_" || c == "-" || c == "*";
}

PROP(load, 1) {
  FLAGS_num_threads = s.range(1, 6);
  // Large in one direction: rows, columns, length of the cells or number of files.
  enum { kPlain, kRows, kManyRows, kWide, kLong };
  int shape = s.chance(1, 30) ? 1 + int(s.weighted({20, 2, 8, 6})) : 0;
  bool big = shape != kPlain;
  int ncols = shape == kWide ? s.range(200, 700) : s.range(1, shape == kManyRows ? 3 : 6);
  int nrows = shape == kPlain ? s.length(0, 24) : shape == kRows ? s.range(300, 3000) : shape == kManyRows ? s.range(65000, 70000) : s.range(1, 5);
  std::vector<Col> cols;
  pbt::Rng r(0);
  if (big) r = s.bulk();
  for (int c = 0; c < ncols; ++c) {
    Col col;
    col.name = s.pick<const char*>({"x", "y z", "col", "a.b", "c#", "-"}) + std::to_string(c);
    col.numeric = s.flip();
    int vocab = shape == kWide ? 2 : big ? 12 : 0;
    std::vector<std::string> pool;
    for (int k = 0; k < vocab; ++k) {
      pool.push_back(col.numeric ? gen_number(s) : gen_text(s));
      // Neighbouring columns and long cells differ in their ends.
      if (shape == kWide) pool.back() = std::to_string(c) + (col.numeric ? "" : "w");
      if (shape == kLong && !col.numeric) pool.back() = std::string(s.range(100, 200000), char('a' + k)) + std::to_string(k);
    }
    for (int i = 0; i < nrows; ++i)
      col.cells.push_back(big ? pool[r.below(vocab)] : col.numeric ? gen_number(s) : gen_text(s));
    cols.push_back(col);
  }
  // A line must not be empty and its end must not be a line ending: the file could not say so.
  for (int i = 0; i < nrows; ++i) {
    bool empty = true;
    for (auto& c : cols) empty = empty && c.cells[i].empty();
    if (empty && ncols == 1) cols[0].cells[i] = cols[0].numeric ? "1" : "q";
  }
  // Roles.
  Config config;
  bool conflict = false, dup = false;
  std::string roles;
  auto assign = [&](Col& c, int role) {
    Kind k = role == 0 ? kBucket : role <= 3 ? kRaw : kStr;
    if (role == 2 && !config.target_column().empty()) return;
    if (role == 3 && !config.weight_column().empty()) return;
    if (role == 5 && !config.group_column().empty()) return;
    if (c.kind != kNone && c.kind != k) conflict = true;
    if (c.kind == k) dup = true;
    if (c.kind == kNone) c.kind = k;
    static const char* names[] = {"float", "additional_float", "target", "weight", "categorical", "group", "additional_string"};
    roles += pbt::quote(c.name) + ":" + names[role] + " ";
    switch (role) {
      case 0: config.add_float_feature(c.name); break;
      case 1: config.add_additional_float_column(c.name); break;
      case 2: config.set_target_column(c.name); break;
      case 3: config.set_weight_column(c.name); break;
      case 4: config.add_categorical_feature(c.name); break;
      case 5: config.set_group_column(c.name); break;
      case 6: config.add_additional_string_column(c.name); break;
    }
  };
  auto pick_role = [&](Col& c) { return c.numeric && !s.chance(1, 5) ? int(s.range(0, 3)) : int(s.range(4, 6)); };
  std::vector<int> order;
  for (int c = 0; c < ncols; ++c) order.push_back(c);
  for (int c = ncols; c > 1; --c)
    if (s.flip()) std::swap(order[c - 1], order[s.draw(c)]);
  for (int c : order)
    if (!s.chance(1, 5)) assign(cols[c], pick_role(cols[c]));
  int extra = s.weighted({4, 2, 1});
  for (int e = 0; e < extra; ++e) {
    Col& c = cols[s.draw(ncols)];
    if (c.kind == kNone) continue;
    if (s.chance(1, 4) && c.numeric) {
      assign(c, pick_role(c));
    } else {
      int role = c.kind == kBucket ? 0 : c.kind == kRaw ? int(s.range(1, 3)) : int(s.range(4, 6));
      assign(c, role);
    }
  }
  // Files.
  int nblocks = s.weighted({3, 3, 1}) == 0 ? 1 : s.chance(1, 60) ? s.range(7, 80) : s.range(1, 6);
  std::vector<std::string> files(nblocks);
  std::vector<int> cut;
  for (int b = 1; b < nblocks; ++b) cut.push_back(s.range(0, nrows));
  std::sort(cut.begin(), cut.end());
  cut.push_back(nrows);
  bool crlf_seen = false, blank_seen = false;
  int row = 0;
  for (int b = 0; b < nblocks; ++b) {
    const char* eol = s.chance(1, 3) ? "\r\n" : "\n";
    crlf_seen |= eol[0] == '\r';
    std::vector<std::string> lines;
    if (b == 0) {
      std::string h;
      for (int c = 0; c < ncols; ++c) {
        if (c) h += "\t";
        if (s.chance(1, 8)) h += " ";
        h += cols[c].name;
        if (s.chance(1, 8)) h += " ";
      }
      lines.push_back(h);
    }
    for (; row < cut[b]; ++row) {
      while (!big && s.chance(1, 16)) {
        lines.push_back("");
        blank_seen = true;
      }
      std::string l;
      for (int c = 0; c < ncols; ++c) l += (c ? "\t" : "") + cols[c].cells[row];
      lines.push_back(l);
    }
    bool final_newline = s.chance(2, 3);
    for (size_t i = 0; i < lines.size(); ++i) {
      files[b] += lines[i];
      if (i + 1 < lines.size() || final_newline) files[b] += eol;
    }
    if (lines.empty() && s.flip()) files[b] = eol;
  }
  ctx.describe([&](std::ostream& o) {
    o << "threads=" << FLAGS_num_threads << " roles: " << roles << " files: ";
    for (auto& f : files) o << (big ? std::to_string(f.size()) + " bytes: " + pbt::quote(f.substr(0, 300)) : pbt::quote(f)) << " ";
  });
  std::vector<std::string> paths;
  for (int b = 0; b < nblocks; ++b) {
    paths.push_back(pbt::scratch() + "/block" + std::to_string(b));
    pbt::write_file(paths[b], files[b]);
  }
  TSVDataStore store(paths, config);
  if (conflict) {
    ctx.label("roles of different kinds");
    ctx.nontrivial();
    CHECK_THAT(!store.status().ok(), "conflict", "a column in roles of different kinds is accepted");
    return;
  }
  if (dup) ctx.label("column in several roles of one kind");
  if (nblocks > 1) ctx.label("several blocks");
  if (crlf_seen) ctx.label("CRLF");
  if (blank_seen) ctx.label("blank lines");
  if (big) ctx.label(shape == kWide ? "many columns" : shape == kLong ? "long cells" : "many rows");
  if (nblocks > 6) ctx.label("many files");
  CHECK_THAT(store.status().ok(), "status", store.status().ToString());
  uint expected_cols = 0;
  for (auto& c : cols) expected_cols += c.kind != kNone;
  ctx.nontrivial_if(expected_cols >= 1 && nrows >= 2);
  CHECK_THAT(store.num_cols() == expected_cols, "num-cols", store.num_cols() << " columns, expected " << expected_cols);
  for (auto& c : cols) {
    const Column* col = store.GetColumn(c.name);
    CHECK_THAT((col != nullptr) == (c.kind != kNone), "columns", "column " << pbt::quote(c.name));
    if (!col) continue;
    CHECK_THAT(col->name() == c.name, "name", "column " << pbt::quote(c.name) << " calls itself " << pbt::quote(col->name()));
    Column::ColumnType t = c.kind == kStr ? Column::kStringColumn : c.kind == kRaw ? Column::kRawFloatColumn : Column::kBucketizedFloatColumn;
    CHECK_THAT(col->type() == t, "type", "column " << pbt::quote(c.name) << " has type " << col->type());
    CHECK_THAT(int(col->size()) == nrows, "rows", "column " << pbt::quote(c.name) << " has " << col->size() << " rows, the files " << nrows);
    for (int i = 0; i < nrows; ++i) {
      if (c.kind == kStr) {
        const std::string& got = static_cast<const StringColumn*>(col)->get_row_string(i);
        // Carriage returns at the very end of a line belong to the line ending.
        CHECK_THAT(got == c.cells[i], "string-cell", c.name << " row " << i << " " << pbt::quote(c.cells[i].substr(0, 300)) << " (" << c.cells[i].size() << " bytes) read " << pbt::quote(got.substr(0, 300)) << " (" << got.size() << " bytes)");
        continue;
      }
      float want = missing_marker(c.cells[i]) ? NAN : strtof(c.cells[i].c_str(), nullptr);
      float got;
      if (c.kind == kRaw) {
        got = (*static_cast<const RawFloatColumn*>(col))[i];
      } else {
        auto* bc = static_cast<const BucketizedFloatColumn*>(col);
        got = bc->get_row_max(i);
        CHECK_THAT(same_float(bc->get_row_min(i), got), "float-cell", "bucket of " << i << " is not exact");
        CHECK_THAT(bc->col().missing(i) == std::isnan(want), "missing", c.name << " row " << i);
      }
      CHECK_THAT(same_float(got, want), "float-cell", c.name << " row " << i << " " << pbt::quote(c.cells[i]) << " read " << pbt::show(got));
    }
  }
}
