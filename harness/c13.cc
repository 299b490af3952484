// C13: models and configs survive saving and loading.
#include "forests.h"

#include <google/protobuf/descriptor.h>
#include <google/protobuf/message.h>

#include "src/gbdt_algo/evaluation.h"
#include "src/gbdt_algo/utils.h"
#include "src/proto/config.pb.h"
#include "src/utils/json_utils.h"
#include "src/utils/utils.h"

using namespace gbdt;
using google::protobuf::FieldDescriptor;
using google::protobuf::Message;

void harness_init() { quiet_logs(); }

// Same structure and values; NaN equals NaN, and -0 equals 0. Returns where they differ, or nothing.
static std::string differ(const Message& a, const Message& b, const std::string& at = "") {
  auto *ra = a.GetReflection(), *rb = b.GetReflection();
  auto* d = a.GetDescriptor();
  for (int i = 0; i < d->field_count(); ++i) {
    const FieldDescriptor* f = d->field(i);
    std::string here = at + "." + f->name();
    int n = 1;
    if (f->is_repeated()) {
      n = ra->FieldSize(a, f);
      if (n != rb->FieldSize(b, f)) return here + ": " + std::to_string(n) + " and " + std::to_string(rb->FieldSize(b, f)) + " entries";
    } else if (f->cpp_type() == FieldDescriptor::CPPTYPE_MESSAGE) {
      if (ra->HasField(a, f) != rb->HasField(b, f)) return here + ": present in one only";
      if (!ra->HasField(a, f)) continue;
    }
    for (int k = 0; k < n; ++k) {
#define GET(r, m, type) (f->is_repeated() ? r->GetRepeated##type(m, f, k) : r->Get##type(m, f))
      bool same = true;
      switch (f->cpp_type()) {
        case FieldDescriptor::CPPTYPE_MESSAGE: {
          std::string s = f->is_repeated() ? differ(ra->GetRepeatedMessage(a, f, k), rb->GetRepeatedMessage(b, f, k), here + "[" + std::to_string(k) + "]")
                                           : differ(ra->GetMessage(a, f), rb->GetMessage(b, f), here);
          if (!s.empty()) return s;
          break;
        }
        case FieldDescriptor::CPPTYPE_FLOAT: {
          float x = GET(ra, a, Float), y = GET(rb, b, Float);
          same = x == y || (std::isnan(x) && std::isnan(y));
          if (!same) return here + ": " + pbt::show(x) + " and " + pbt::show(y);
          break;
        }
        case FieldDescriptor::CPPTYPE_DOUBLE: {
          double x = GET(ra, a, Double), y = GET(rb, b, Double);
          same = x == y || (std::isnan(x) && std::isnan(y));
          if (!same) return here + ": " + pbt::show(x) + " and " + pbt::show(y);
          break;
        }
        case FieldDescriptor::CPPTYPE_INT32: same = GET(ra, a, Int32) == GET(rb, b, Int32); break;
        case FieldDescriptor::CPPTYPE_BOOL: same = GET(ra, a, Bool) == GET(rb, b, Bool); break;
        case FieldDescriptor::CPPTYPE_STRING: {
          std::string x = GET(ra, a, String), y = GET(rb, b, String);
          if (x != y) return here + ": " + pbt::quote(x) + " and " + pbt::quote(y);
          break;
        }
        default: return here + ": unexpected type";
      }
      if (!same) return here + " differs";
    }
  }
  return "";
}

// ---- values ----
static std::string gen_text(pbt::Source& s) {
  static const std::vector<std::string> piece = {"a", "b", "feature 1", "__missing__", "\"", "\\", "/", "\n", "\t", "\r", "\b", "\f", std::string(1, '\0'), "\x01", "\x1f", "\x7f",
                                                 "<", ">", "&", "'", "\xc3\xa9", "\xe2\x80\xa8", "\xe2\x80\xa9", "\xef\xbb\xbf", "\xef\xbf\xbd", "\xed\x9f\xbf", "\xee\x80\x80",
                                                 "\xf0\x9f\x98\x80", "\xf4\x8f\xbf\xbf", "\xc2\x80", "\\u0041", "NaN", "null", "{", "}", "[", "]", ":", ",", " ", "%s", "{0}", "},{", "}, {", "],[", "\":\"", "\",\"", ": ", ", ", ",}", "//", "/*", "*/", "#", "=", ";", "  ", "\r\n", "&amp;", "\\n", "\\\"", "\\\\", "true", "1e5"};
  if (s.chance(1, 60)) return std::string(s.range(200, 70000), s.flip() ? 'x' : '"');
  std::string r;
  int n = s.length(0, 8);
  for (int i = 0; i < n; ++i) r += s.chance(1, 4) ? std::string(1, char(s.draw(128))) : s.pick(piece);
  return r;
}
static double gen_double(pbt::Source& s, bool single) {
  double v;
  switch (s.weighted({3, 3, 2, 3})) {
    case 0: v = s.range(-20, 20); break;
    case 1: v = double(s.range(-1000000, 1000000)) / 997; break;
    case 2:
      if (single) v = s.pick<float>({NAN, INFINITY, -INFINITY, -0.0f, 1e-45f, 3.40282347e38f, -3.40282347e38f, 1.17549435e-38f, 16777216.0f, 16777217.0f, 0.1f, 1e7f, 1e21f, 8388608.5f});
      else v = s.pick<double>({NAN, INFINITY, -INFINITY, -0.0, 5e-324, 1.7976931348623157e308, -1.7976931348623157e308, 2.2250738585072014e-308, 9007199254740993.0, 0.1, 1e21, 1e22, 1e-7, 123456789012345678.0});
      break;
    default: {
      if (single) {
        uint32_t b = uint32_t(s.draw(1ull << 32));
        float f;
        memcpy(&f, &b, 4);
        v = f;
      } else {
        uint64_t b = s.draw(0);
        memcpy(&v, &b, 8);
      }
    }
  }
  return v;
}

static void fill(pbt::Source& s, Message* m, int depth, int* budget);
static void fill_field(pbt::Source& s, Message* m, const FieldDescriptor* f, int depth, int* budget) {
  auto* r = m->GetReflection();
  int n = f->is_repeated() ? int(s.length(0, 6)) : 1;
  for (int k = 0; k < n; ++k) {
#define PUT(type, v) (f->is_repeated() ? r->Add##type(m, f, v) : r->Set##type(m, f, v))
    switch (f->cpp_type()) {
      case FieldDescriptor::CPPTYPE_MESSAGE:
        if (depth > 0 && *budget > 0) {
          --*budget;
          fill(s, f->is_repeated() ? r->AddMessage(m, f) : r->MutableMessage(m, f), depth - 1, budget);
        }
        break;
      case FieldDescriptor::CPPTYPE_FLOAT: PUT(Float, float(gen_double(s, true))); break;
      case FieldDescriptor::CPPTYPE_DOUBLE: PUT(Double, gen_double(s, false)); break;
      case FieldDescriptor::CPPTYPE_INT32: PUT(Int32, s.chance(1, 3) ? s.pick<int>({INT32_MIN, INT32_MAX, -1}) : int(s.range(0, 1000))); break;
      case FieldDescriptor::CPPTYPE_BOOL: PUT(Bool, s.flip()); break;
      case FieldDescriptor::CPPTYPE_STRING: PUT(String, gen_text(s)); break;
      default: break;
    }
  }
}
static void fill(pbt::Source& s, Message* m, int depth, int* budget) {
  auto* d = m->GetDescriptor();
  for (int i = 0; i < d->field_count(); ++i)
    if (s.flip()) fill_field(s, m, d->field(i), depth, budget);
}
static Forest any_forest(pbt::Source& s, pbt::Ctx& ctx) {
  Forest f;
  if (s.chance(1, 10)) {  // a chain down to the deepest nesting the format takes
    TreeNode* n = f.add_tree();
    int d = s.range(30, 60);
    for (int i = 0; i < d; ++i) {
      n->set_score(i);
      n->mutable_split()->set_feature("f");
      if (s.flip()) n->mutable_split()->mutable_float_split()->set_threshold(i);
      else n->mutable_split()->mutable_cat_split()->add_category("c");
      n->mutable_right_child()->set_score(-1);
      n = n->mutable_left_child();
    }
    n->set_score(7);
    ctx.label("chain");
    return f;
  }
  if (s.chance(1, 4)) {
    ref::Table t = ref::gen_table(s, s.range(0, 5), 3, false, true);
    f = gen_forest(s, t, s.length(0, 6), 4);
    f.set_meta_info(gen_text(s));
    ctx.label("proper forest");
    return f;
  }
  int budget = s.range(0, 60);
  fill(s, &f, 12, &budget);
  return f;
}
static Config any_config(pbt::Source& s) {
  Config c;
  int budget = 0;
  fill(s, &c, 1, &budget);
  return c;
}

template <typename M>
static void round_trip(const M& m, pbt::Source& s) {
  std::string json;
  Status st = JsonUtils::ToJson(m, &json);
  CHECK_THAT(st.ok(), "save", st.ToString());
  M back;
  if (s.flip()) {  // what was in the message before does not shine through
    int budget = 10;
    fill(s, &back, 3, &budget);
  }
  st = JsonUtils::FromJson(json, &back);
  CHECK_THAT(st.ok(), "load", st.ToString() << " for " << json.substr(0, 500));
  std::string d = differ(m, back);
  CHECK_THAT(d.empty(), "equal", d << " after saving as " << json.substr(0, 1500));
}

PROP(forest, 4) {
  Forest f = any_forest(s, ctx);
  ctx.describe([&](std::ostream& o) { o << f.ShortDebugString().substr(0, 3000); });
  ctx.nontrivial_if(f.tree_size() >= 1 && f.ByteSizeLong() > 8);
  round_trip(f, s);
}
PROP(config, 2) {
  Config c = any_config(s);
  ctx.describe([&](std::ostream& o) { o << c.ShortDebugString().substr(0, 3000); });
  ctx.nontrivial_if(c.ByteSizeLong() > 8);
  round_trip(c, s);
}

// A model kept in a file gives the same message and the same predictions.
PROP(file, 1) {
  ref::Table t = ref::gen_table(s, s.range(1, 12), 3, false, true);
  Forest f = gen_forest(s, t, s.length(1, 6), 4);
  f.set_meta_info(gen_text(s));
  ctx.describe([&](std::ostream& o) { t.describe(o); o << f.ShortDebugString().substr(0, 2000); });
  std::string json;
  CHECK_THAT(JsonUtils::ToJson(f, &json).ok(), "save", "refused");
  std::string path = pbt::fresh_path("model.json");
  WriteStringToFile(json, path);
  Forest g = LoadForestOrDie(path);
  unlink(path.c_str());
  std::string d = differ(f, g);
  CHECK_THAT(d.empty(), "equal", d);
  auto ds = t.store();
  std::vector<double> a, b;
  CHECK_THAT(EvaluateForest(ds.get(), f, &a).ok() && EvaluateForest(ds.get(), g, &b).ok(), "predict", "evaluation fails");
  for (int i = 0; i < t.n; ++i) CHECK_THAT(a[i] == b[i], "predict", "row " << i << ": " << a[i] << " before saving, " << b[i] << " after loading");
  bool split = false;
  for (auto& x : f.tree()) split |= x.has_left_child();
  ctx.nontrivial_if(split);
}

// ---- texts ----
template <typename M>
static void text_case(pbt::Source& s, pbt::Ctx& ctx, const M& m) {
  std::string json;
  CHECK_THAT(JsonUtils::ToJson(m, &json).ok(), "save", "refused");
  std::string text = json;
  bool refuse = false;
  switch (s.weighted({3, 2, 3, 2, 6, 2})) {
    case 0: {  // cut short
      text = json.substr(0, s.draw(json.size()));
      refuse = true;
      break;
    }
    case 1: {  // something after the end
      text = json + s.pick<const char*>({"x", "{}", "}", "]", ",", " 1", "\n{", json.c_str()});
      refuse = true;
      break;
    }
    case 2: {  // an unknown field, at the top or deeper
      std::vector<size_t> at;
      bool str = false;
      for (size_t i = 0; i < json.size(); ++i) {
        if (json[i] == '\\' && str) ++i;
        else if (json[i] == '"') str = !str;
        else if (!str && json[i] == '{') at.push_back(i + 1);
      }
      size_t i = at[s.draw(at.size())];
      bool last = json[i] == '}';
      text = json.substr(0, i) + s.pick<const char*>({"\"nonsense\":1", "\"Tree\":[]", "\"tree_\":[]", "\"numtrees\":3", "\"\":0", "\"scores\":{}", "\"loss_func \":\"mse\""}) + (last ? "" : ",") + json.substr(i);
      refuse = true;
      break;
    }
    case 3: {  // not an object, or another message
      text = s.pick<const char*>({"", " ", "null", "5", "\"x\"", "[]", "[{}]", "tree {}", "\n", "true", "{\"tree\":5}", "{\"tree\":[5]}", "{\"numTrees\":\"x\"}", "{\"metaInfo\":{}}",
                                  "{\"metaInfo\":[\"x\"]}", "{\"numTrees\":1.5}", "{\"numTrees\":3000000000}", "{\"numTrees\":{}}", "{\"tree\":[{\"score\":\"x\"}]}",
                                  "{\"tree\":[{\"score\":1e39}]}", "{\"tree\":[{\"split\":{\"gain\":1e400}}]}", "{\"tree\":[{\"leftChild\":[{}]}]}", "{\"shrinkage\":{}}", "{\"floatFeature\":{\"a\":1}}",
                                  "{\"floatFeature\":[1]}", "{\"lossFunc\":[\"mse\"]}", "{\"binarizeTarget\":2}", "\x80{}", "{\"tree\":[{\"score\":1}"});
      refuse = true;
      break;
    }
    case 4: {  // random damage
      int n = s.range(1, 4);
      for (int k = 0; k < n && !text.empty(); ++k) {
        size_t i = s.draw(text.size());
        switch (s.draw(4)) {
          case 0: text[i] = char(s.draw(256)); break;
          case 1: text.erase(i, 1 + s.draw(8)); break;
          case 2: text.insert(i, s.pick<const char*>({"{", "}", "[", "]", "\"", ",", ":", "null", "1", "-", "\\u", "\\ud800", "e9", "NaN", "{}", " ", "\\"})); break;
          default: text.insert(i, text.substr(s.draw(text.size()), s.draw(20))); break;
        }
      }
      break;
    }
    default: {  // nesting
      int d = s.range(1, 3000);
      const char* open = s.pick<const char*>({"[", "{\"tree\":[", "{\"tree\":[{\"leftChild\":", "{\"leftChild\":", "{\"a\":"});
      text.clear();
      for (int k = 0; k < d; ++k) text += open;
      refuse = true;
      break;
    }
  }
  ctx.describe([&](std::ostream& o) { o << "text: " << pbt::quote(text.substr(0, 3000)) << (refuse ? " (to be refused) " : " "); });
  M a;
  Status st = JsonUtils::FromJson(text, &a);
  if (refuse) {
    ctx.nontrivial();
    CHECK_THAT(!st.ok(), "refuse", "accepted as " << a.ShortDebugString().substr(0, 500));
    return;
  }
  ctx.label(st.ok() ? "damaged text accepted" : "damaged text refused");
  if (!st.ok()) return;
  ctx.nontrivial();
  std::string again;
  st = JsonUtils::ToJson(a, &again);
  CHECK_THAT(st.ok(), "save", "what was loaded cannot be saved: " << st.ToString());
  M b;
  st = JsonUtils::FromJson(again, &b);
  CHECK_THAT(st.ok(), "load", st.ToString());
  std::string d = differ(a, b);
  CHECK_THAT(d.empty(), "equal", d);
}
PROP(forest_text, 3) {
  Forest f;
  int budget = s.range(0, 12);
  fill(s, &f, 6, &budget);
  text_case(s, ctx, f);
}
PROP(config_text, 2) { text_case(s, ctx, any_config(s)); }

// ---- known findings ----
static bool deep_tree_fails() {
  Forest f;
  TreeNode* n = f.add_tree();
  for (int i = 0; i < 70; ++i) {
    n->mutable_split()->set_feature("f");
    n->mutable_split()->mutable_float_split()->set_threshold(i);
    n->mutable_right_child()->set_score(1);
    n = n->mutable_left_child();
  }
  std::string json;
  Forest g;
  return !JsonUtils::ToJson(f, &json).ok() || !JsonUtils::FromJson(json, &g).ok() || !differ(f, g).empty();
}
static pbt::RegisterKnown known_deep("deep-tree", deep_tree_fails);
static bool latin1_fails() {
  Forest f;
  f.add_tree()->mutable_split()->mutable_cat_split()->add_category("caf\xe9");
  std::string json;
  Forest g;
  return !JsonUtils::ToJson(f, &json).ok() || !JsonUtils::FromJson(json, &g).ok() || !differ(f, g).empty();
}
static pbt::RegisterKnown known_latin1("latin1-category", latin1_fails);
