// C05: malformed input files give an error, never a crash or wrong data.
#include "common.h"

#include <sys/stat.h>
#include <unistd.h>

#include <map>

#include "src/data_store/column.h"
#include "src/data_store/flatfiles_data_store.h"
#include "src/data_store/tsv_data_store.h"
#include "src/proto/config.pb.h"

using namespace gbdt;

void harness_init() { quiet_logs(); }

// ---- reference reading of the formats, on byte strings ----
static std::vector<std::string> lines_of(const std::string& content) {
  std::vector<std::string> r;
  size_t p = 0;
  while (p < content.size()) {
    size_t q = content.find('\n', p);
    size_t e = q == std::string::npos ? content.size() : q;
    std::string l = content.substr(p, e - p);
    while (!l.empty() && (l.back() == '\r' || l.back() == '\n')) l.pop_back();
    r.push_back(l);
    if (q == std::string::npos) break;
    p = q + 1;
  }
  return r;
}
static std::vector<std::string> cells_of(const std::string& line) {
  std::vector<std::string> r;
  size_t p = 0;
  for (;;) {
    size_t q = line.find('\t', p);
    r.push_back(line.substr(p, q == std::string::npos ? q : q - p));
    if (q == std::string::npos) return r;
    p = q + 1;
  }
}
static std::string trim(const std::string& s) {
  size_t a = 0, b = s.size();
  auto sp = [](char c) { return c == ' ' || (c >= 9 && c <= 13); };
  while (a < b && sp(s[a])) ++a;
  while (b > a && sp(s[b - 1])) --b;
  return s.substr(a, b - a);
}
static bool number(const std::string& s, float* v) {
  if (s.empty()) return false;
  char* e;
  *v = strtof(s.c_str(), &e);
  return e == s.c_str() + s.size();
}
static bool marker(const std::string& c) {
  return c == "NAN" || c == "nan" || c == "NaN" || c == "?" || c == "_" || c == "-" || c == "*";
}

// ---- generators ----
static std::string gen_cell(pbt::Source& s) {
  switch (s.weighted({6, 3, 3, 2, 2, 1, 1})) {
    case 0: return s.chance(1, 12) ? gen_halfway(s) : std::to_string(s.range(-9, 99));
    case 1: return s.pick<const char*>({"NaN", "nan", "NAN", "?", "_", "-", "*", "Nan", "--", "**", "N/A", "nan(1)", "-nan"});
    case 2: return s.pick<const char*>({"", " ", "x", "a b", "#", "# dtype=strings", "1.5.2", "1e", "0x1p3", "inf", "-Infinity", "1e400", "-1e400", "1e-400", "{0}", "{", "%s", "1,5", "5 ", " 5", "+", ".", "e5", "12abc"});
    case 3: return std::to_string(s.range(-100000, 100000)) + "." + std::to_string(s.range(0, 999));
    case 4: return std::string("7") + char(s.draw(256)) + (s.flip() ? "1" : "");
    case 5: {
      std::string r;
      int n = s.range(1, 6);
      for (int i = 0; i < n; ++i) r += char(s.draw(256));
      return r;
    }
    default: return std::string(s.chance(1, 8) ? s.range(60000, 150000) : s.range(1, 2000), s.flip() ? '9' : 'q');
  }
}
static std::string gen_bytes(pbt::Source& s) {
  static const std::vector<std::string> tok = {"\n", "\t", "\r\n", "a", "b", "c", "1", "NaN", "", "#", "# dtype=", "strings", "raw_floats",
                                               "bucketized_floats", "# dtype=strings\n", "# dtype=raw_floats\n", "# dtype=bucketized_floats\r\n",
                                               "\n\n", "-", "\xef\xbb\xbf", "a\tb\tc\n", "1\t2\t3\n", ".5e3", "\r"};
  std::string r;
  int n = s.length(0, 60);
  for (int i = 0; i < n; ++i) {
    if (s.chance(1, 6))
      r += char(s.draw(256));
    else
      r += s.pick(tok);
  }
  return r;
}
static std::string gen_header_name(pbt::Source& s) {
  return s.pick<const char*>({"a", "b", "c", "d", "", " a", "a ", "a b", "#", "x\x01", "\xff"});
}
static std::string gen_tsv(pbt::Source& s, bool first, int ncols) {
  if (s.chance(1, 8)) return gen_bytes(s);
  std::string r;
  const char* eol = s.chance(1, 4) ? "\r\n" : "\n";
  if (first) {
    static const char* names[] = {"a", "b", "c", "d"};
    for (int c = 0; c < ncols; ++c) {
      if (c) r += '\t';
      r += s.chance(1, 12) ? gen_header_name(s) : std::string(names[c]);
    }
    r += eol;
  }
  int n = s.length(0, 20);
  for (int i = 0; i < n; ++i) {
    if (s.chance(1, 12)) {
      r += eol;
      continue;
    }
    int k = s.chance(1, 15) ? s.range(1, 7) : ncols;
    for (int c = 0; c < k; ++c) {
      if (c) r += '\t';
      r += s.chance(1, 10) ? gen_cell(s) : c == 0 ? std::string(1, char('a' + s.range(0, 3))) : std::to_string(s.range(0, 9));
    }
    if (i + 1 < n || s.flip()) r += eol;
  }
  return r;
}

static void check_tsv(pbt::Source& s, pbt::Ctx& ctx, const std::vector<std::string>& paths,
                      const std::vector<std::string>& files, const std::vector<bool>& readable, const Config& config,
                      const std::vector<std::string>& floats, const std::vector<std::string>& strs) {
  // What must happen.
  std::string must_fail;  // empty: must succeed
  bool ambiguous = false;
  std::map<std::string, std::vector<float>> fcols;
  std::map<std::string, std::vector<std::string>> scols;
  std::map<std::string, int> where;
  for (auto& n : floats) fcols[n];
  for (auto& n : strs) {
    scols[n];
    if (fcols.count(n)) must_fail = "one column in roles of different kinds";
  }
  if (files.empty()) must_fail = "no files";
  size_t rows = 0;
  if (!files.empty()) {
    if (!readable[0]) must_fail = "unreadable first block";
    auto l0 = lines_of(files[0]);
    auto header = cells_of(l0.empty() ? "" : l0[0]);
    for (size_t i = 0; i < header.size(); ++i) {
      std::string h = trim(header[i]);
      if (where.count(h)) {
        if (fcols.count(h) || scols.count(h)) ambiguous = true;  // which of them is meant is not specified
      }
      where[h] = i;
    }
    for (auto& p : fcols) if (!where.count(p.first) && header != std::vector<std::string>{""}) must_fail = "a configured header is absent";
    for (auto& p : scols) if (!where.count(p.first) && header != std::vector<std::string>{""}) must_fail = "a configured header is absent";
    if (header == std::vector<std::string>{""}) {
      // An empty first line: no header at all. Only the name "" could be argued to be there.
      for (auto& p : fcols) { if (p.first != "") must_fail = "a configured header is absent"; else ambiguous = true; }
      for (auto& p : scols) { if (p.first != "") must_fail = "a configured header is absent"; else ambiguous = true; }
    }
    for (size_t b = 0; b < files.size() && must_fail.empty(); ++b) {
      if (!readable[b]) {
        must_fail = "unreadable block";
        break;
      }
      auto ls = lines_of(files[b]);
      for (size_t i = b == 0 ? 1 : 0; i < ls.size(); ++i) {
        if (ls[i].empty()) continue;
        ++rows;
        auto cells = cells_of(ls[i]);
        for (auto& p : fcols) {
          if (where[p.first] >= int(cells.size())) { must_fail = "a line has too few cells: " + pbt::quote(ls[i]); continue; }
          const std::string& c = cells[where[p.first]];
          float v;
          if (number(c, &v)) p.second.push_back(v);
          else if (marker(c)) p.second.push_back(NAN);
          else must_fail = "a float cell is neither a number nor a marker: " + pbt::quote(c);
        }
        for (auto& p : scols) {
          if (where[p.first] >= int(cells.size())) { must_fail = "a line has too few cells: " + pbt::quote(ls[i]); continue; }
          p.second.push_back(cells[where[p.first]]);
        }
      }
    }
  }
  TSVDataStore store(paths, config);
  if (ambiguous) {
    ctx.label("ambiguous header");
    return;
  }
  ctx.nontrivial_if(rows >= 1 || !must_fail.empty());
  if (!must_fail.empty()) {
    ctx.label(must_fail.substr(0, must_fail.find(':')));
    CHECK_THAT(!store.status().ok(), "accepted", "loading succeeds although " << must_fail);
    CHECK_THAT(!store.status().ToString().empty(), "accepted", "no message");
    return;
  }
  ctx.label("well-formed");
  CHECK_THAT(store.status().ok(), "refused", "loading fails without cause: " << store.status().ToString());
  CHECK_THAT(store.num_cols() == fcols.size() + scols.size(), "columns", store.num_cols() << " columns");
  for (auto& p : fcols) {
    const Column* c = store.GetColumn(p.first);
    CHECK_THAT(c && c->size() == rows, "rows", "column " << pbt::quote(p.first));
    for (size_t i = 0; i < rows; ++i) {
      float lo, hi;
      if (c->type() == Column::kRawFloatColumn) lo = hi = (*static_cast<const RawFloatColumn*>(c))[i];
      else {
        auto* bc = static_cast<const BucketizedFloatColumn*>(c);
        lo = bc->get_row_min(i), hi = bc->get_row_max(i);
      }
      CHECK_THAT(same_float(lo, p.second[i]) && same_float(hi, p.second[i]), "float-cell",
                 pbt::quote(p.first) << " row " << i << " is [" << pbt::show(lo) << "," << pbt::show(hi) << "], the file says " << pbt::show(p.second[i]));
    }
  }
  for (auto& p : scols) {
    const Column* c = store.GetColumn(p.first);
    CHECK_THAT(c && c->size() == rows && c->type() == Column::kStringColumn, "rows", "column " << pbt::quote(p.first));
    for (size_t i = 0; i < rows; ++i)
      CHECK_THAT(static_cast<const StringColumn*>(c)->get_row_string(i) == p.second[i], "string-cell", pbt::quote(p.first) << " row " << i);
  }
}

PROP_EX(tsv, 15, 20, false) {
  FLAGS_num_threads = s.range(1, 4);
  int ncols = s.range(1, 4);
  int nfiles = s.weighted({5, 2, 1}) + 1;
  if (s.chance(1, 60)) nfiles = 0;
  std::vector<std::string> paths, files;
  std::vector<bool> readable;
  std::string dir = pbt::scratch();
  mkdir((dir + "/d").c_str(), 0755);
  for (int b = 0; b < nfiles; ++b) {
    std::string p = dir + "/b" + std::to_string(b), content;
    bool ok = true;
    switch (s.weighted({30, 1, 1, 1, 1})) {
      case 0:
        content = gen_tsv(s, b == 0, ncols);
        if (s.chance(1, 40)) {  // thousands of good lines somewhere in between
          size_t at = content.find('\n');
          for (int hop = s.range(0, 6); hop > 0 && at != std::string::npos && content.find('\n', at + 1) != std::string::npos; --hop) at = content.find('\n', at + 1);
          std::string good;
          for (int c = 0; c < ncols; ++c) good += c == 0 ? "a" : "\t" + std::to_string(c);
          std::string many;
          for (int k = s.pick<int>({1000, 300, 2500, 7000}); k > 0; --k) many += good + "\n";
          if (at != std::string::npos) content.insert(at + 1, many), ctx.label("thousands of lines");
        }
        pbt::write_file(p, content);
        break;
      case 1: p = dir + "/none"; ok = false; break;
      case 2: p = dir + "/d"; ok = false; break;
      case 3: p = dir + "/b0/x"; ok = false; break;
      default: p = s.pick<const char*>({"", "/dev/null/x", "/dev/null"}); ok = p == "/dev/null"; break;
    }
    paths.push_back(p);
    files.push_back(content);
    readable.push_back(ok);
  }
  Config config;
  std::vector<std::string> floats, strs;
  int roles = s.weighted({1, 4, 4, 3, 1});
  for (int i = 0; i < roles; ++i) {
    std::string n = s.chance(1, 12) ? gen_header_name(s) : std::string(1, char('a' + s.range(0, ncols - 1)));
    auto in = [&](const std::vector<std::string>& v) { return std::find(v.begin(), v.end(), n) != v.end(); };
    bool text = n == "a" ? !s.chance(1, 6) : in(strs) ? !s.chance(1, 6) : in(floats) ? s.chance(1, 20) : s.chance(1, 4);
    if (text) {
      strs.push_back(n);
      if (s.flip()) config.add_categorical_feature(n);
      else if (!n.empty() && config.group_column().empty() && s.flip()) config.set_group_column(n);
      else config.add_additional_string_column(n);
    } else {
      // the empty string cannot name a target or weight column
      int role = s.range(0, 3);
      if (n.empty() && role >= 2) role = 0;
      if (role == 2 && !config.target_column().empty()) role = 1;
      if (role == 3 && !config.weight_column().empty()) role = 1;
      bool bucket = role == 0;
      // keep one kind per column: conflicts are C04's
      for (int k = 0; k < config.float_feature_size(); ++k) if (config.float_feature(k) == n) role = 0;
      for (auto& f : floats) if (f == n && bucket) { role = 1; for (int k = 0; k < config.float_feature_size(); ++k) if (config.float_feature(k) == n) role = 0; }
      floats.push_back(n);
      if (role == 0) config.add_float_feature(n);
      else if (role == 1) config.add_additional_float_column(n);
      else if (role == 2) config.set_target_column(n);
      else config.set_weight_column(n);
    }
  }
  ctx.describe([&](std::ostream& o) {
    o << "config: " << config.ShortDebugString() << " threads=" << FLAGS_num_threads;
    for (size_t i = 0; i < paths.size(); ++i) o << "\n  " << pbt::quote(paths[i]) << (readable[i] ? ": " + pbt::quote(files[i]) : std::string(" (not a file)"));
    o << "\n";
  });
  check_tsv(s, ctx, paths, files, readable, config, floats, strs);
}

// One fault far into a long file.
PROP_EX(late, 1, 30, false) {
  FLAGS_num_threads = s.range(1, 4);
  int ncols = s.range(2, 4), blocks = s.range(1, 2);
  Config config;
  std::vector<std::string> floats, strs;
  std::vector<int> kind;
  for (int c = 0; c < ncols; ++c) {
    std::string n(1, char('a' + c));
    kind.push_back(s.range(0, 2));  // string, float, not asked for
    if (kind[c] == 0) s.flip() ? config.add_categorical_feature(n) : config.add_additional_string_column(n), strs.push_back(n);
    if (kind[c] == 1) s.flip() ? config.add_float_feature(n) : config.add_additional_float_column(n), floats.push_back(n);
  }
  size_t before = s.pick<int>({1, 10, 100, 300, 1000, 1100, 3000, 5000, 10100, 17000}), after = s.length(0, 20);
  auto line = [&](int width, int odd, const std::string& cell) {
    std::string r;
    for (int c = 0; c < width; ++c) r += (c ? "\t" : "") + (c == odd ? cell : kind[c] == 0 ? std::string("v") : std::to_string(c));
    return r + "\n";
  };
  std::string fault;
  switch (s.weighted({3, 2, 2, 1, 1})) {
    case 0: fault = line(s.range(1, ncols - 1), -1, ""); break;
    case 1: fault = line(ncols, s.draw(ncols), gen_cell(s)); break;
    case 2: fault = line(ncols, s.draw(ncols), s.pick<const char*>({"", "x", "1x", "NaN", "?"})); break;
    case 3: fault = "\n"; break;
    default: fault = line(ncols - 1, -1, ""), fault.insert(fault.size() - 1, "\textra\textra\textra"); break;
  }
  std::vector<std::string> paths, files;
  int where = s.draw(blocks);
  for (int b = 0; b < blocks; ++b) {
    std::string content, good = line(ncols, -1, "");
    if (b == 0) for (int c = 0; c < ncols; ++c) content += (c ? "\t" : "") + std::string(1, char('a' + c));
    if (b == 0) content += "\n";
    if (b == where) {
      for (size_t k = 0; k < before; ++k) content += good;
      content += fault;
    }
    for (size_t k = 0; k < after; ++k) content += good;
    paths.push_back(pbt::scratch() + "/late" + std::to_string(b));
    files.push_back(content);
    pbt::write_file(paths[b], content);
  }
  ctx.describe([&](std::ostream& o) {
    o << "config: " << config.ShortDebugString() << " threads=" << FLAGS_num_threads << " " << before << " good lines, then " << pbt::quote(fault).substr(0, 200)
      << " and " << after << " good ones in file " << where << " of " << blocks;
  });
  check_tsv(s, ctx, paths, files, std::vector<bool>(blocks, true), config, floats, strs);
}

PROP_EX(flat, 12, 20, false) {
  std::string dir = pbt::scratch() + "/flat";
  mkdir(dir.c_str(), 0755);
  mkdir((dir + "/sub").c_str(), 0755);
  std::string content, type;
  bool structured = !s.chance(1, 8);
  if (structured) {
    const char* eol = s.chance(1, 4) ? "\r\n" : "\n";
    type = s.pick<const char*>({"strings", "raw_floats", "bucketized_floats"});
    content = "# dtype=" + type + eol;
    if (s.chance(1, 80))
      for (int k = s.pick<int>({1000, 300, 2500, 7000}); k > 0; --k) content += std::string("7") + eol;
    if (s.chance(1, 12)) content = s.pick<const char*>({"# dtype=floats\n", "#dtype=strings\n", "# dtype=strings x\n", "# dtype=\n", "\n", "# dtype=raw_float\n", " # dtype=strings\n"});
    int n = s.length(0, 20);
    for (int i = 0; i < n; ++i) {
      if (s.chance(1, 10)) content += s.chance(1, 2) ? "# comment" : "#";
      else if (!s.chance(1, 10)) content += s.chance(1, 2) ? gen_cell(s) : std::to_string(s.range(-5, 50));
      if (i + 1 < n || s.flip()) content += eol;
    }
  } else {
    content = gen_bytes(s);
  }
  pbt::write_file(dir + "/col", content);
  // Reference.
  auto ls = lines_of(content);
  std::string first = ls.empty() ? "" : ls[0];
  int kind = first == "# dtype=strings" ? 0 : first == "# dtype=raw_floats" ? 1 : first == "# dtype=bucketized_floats" ? 2 : -1;
  std::vector<std::string> cells;
  bool ends_in_newline = !content.empty() && content.back() == '\n';
  for (size_t i = 0; i < ls.size(); ++i) {
    if (!ls[i].empty() && ls[i][0] == '#') continue;
    if (ls[i].empty() && i + 1 == ls.size() && !ends_in_newline) continue;  // a lone carriage return after the last newline
    cells.push_back(ls[i]);
  }
  std::string name = "col";
  bool exists = true;
  if (s.chance(1, 20)) {
    name = s.pick<const char*>({"", "sub", "none", "..", ".", "col/x", "sub/../none"});
    exists = false;
  }
  ctx.describe([&](std::ostream& o) { o << "column " << pbt::quote(name) << " file " << pbt::quote(content); });
  FlatfilesDataStore store(dir);
  const Column* c = store.GetColumn(name);
  ctx.nontrivial_if(kind < 0 || !exists || cells.size() >= 1);
  if (!exists || kind < 0) {
    ctx.label(!exists ? "no such column" : "unknown type");
    CHECK_THAT(c == nullptr, "accepted", "a column is returned");
    CHECK_THAT(store.num_cols() == 0, "accepted", "a column is kept");
    return;
  }
  ctx.label("loaded");
  CHECK_THAT(c != nullptr, "refused", "no column");
  CHECK_THAT(c->size() == cells.size(), "rows", c->size() << " rows, the file has " << cells.size());
  CHECK_THAT(c->type() == (kind == 0 ? Column::kStringColumn : kind == 1 ? Column::kRawFloatColumn : Column::kBucketizedFloatColumn), "type", "type " << c->type());
  for (size_t i = 0; i < cells.size(); ++i) {
    if (kind == 0) {
      CHECK_THAT(static_cast<const StringColumn*>(c)->get_row_string(i) == cells[i], "string-cell", "row " << i);
      continue;
    }
    float v;
    if (!number(cells[i], &v)) v = NAN;
    float lo, hi;
    if (kind == 1) lo = hi = (*static_cast<const RawFloatColumn*>(c))[i];
    else {
      auto* bc = static_cast<const BucketizedFloatColumn*>(c);
      lo = bc->get_row_min(i), hi = bc->get_row_max(i);
    }
    CHECK_THAT(same_float(lo, v) && same_float(hi, v), "float-cell", "row " << i << " " << pbt::quote(cells[i]) << " read [" << pbt::show(lo) << "," << pbt::show(hi) << "]");
  }
}
