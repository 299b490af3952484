// Helpers shared by the C++ harnesses: generators for columns, tables, configs, and small oracles.
#ifndef VERIF_COMMON_H_
#define VERIF_COMMON_H_

#include <gflags/gflags.h>
#include <glog/logging.h>
#undef CHECK_THAT
#include "pbt.h"

#include <algorithm>
#include <limits>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "src/base/base.h"

DECLARE_int32(num_threads);

inline void quiet_logs() {
  FLAGS_logtostderr = true;
  FLAGS_minloglevel = 3;
}

// Floats of many shapes. Shrinks to 0.
struct FloatGen {
  bool nan = true, inf = false, extreme = true;
  float operator()(pbt::Source& s) const {
    switch (s.weighted({6, 4, 3, 2, 2, 2, 1})) {
      case 0: return float(s.range(0, 12)) - 4;
      case 1: return float(s.range(-1000, 1000)) / 8.0f;
      case 2: return float(double(s.draw(1 << 24)) / (1 << 24) * 2 - 1);
      case 3:
        if (nan) return NAN;
        return 1;
      case 4: {  // neighbouring floats
        float base = float(s.pick<int>({1, 3, 100, -7, 16777216}));
        int k = s.range(0, 4);
        for (int i = 0; i < k; ++i) base = std::nextafter(base, 1e30f);
        return base;
      }
      case 5: {
        if (!extreme) return float(s.range(0, 3));
        return s.pick<float>({0.0f, -0.0f, 1e-30f, -1e-30f, 1e30f, -1e30f, 1.401298464e-45f,
                              std::numeric_limits<float>::max(), -std::numeric_limits<float>::max(),
                              std::numeric_limits<float>::min(), 3.3e38f, -3.3e38f});
      }
      default: {
        if (inf && s.chance(1, 2)) return s.flip() ? INFINITY : -INFINITY;
        // any finite bit pattern
        uint32_t b = uint32_t(s.draw(1ull << 32));
        float f;
        memcpy(&f, &b, 4);
        if (std::isnan(f) || std::isinf(f)) f = 2;
        if (!extreme && (std::fabs(f) > 1e6 || std::fabs(f) < 1e-6)) f = 3;
        return f;
      }
    }
  }
};

// The decimal form of a number half way between two neighbouring floats, or next to it: rounding it in two steps goes wrong.
inline std::string gen_halfway(pbt::Source& s) {
  float f = std::ldexp(float((1 << 23) + s.draw(1 << 23)), int(s.range(-30, 10)));
  char buf[200];
  snprintf(buf, sizeof buf, "%.70f", (double(f) + double(std::nextafter(f, INFINITY))) / 2);
  std::string t = buf;
  while (t.back() == '0') t.pop_back();
  switch (s.range(0, 2)) {
    case 0: t += (t.back() == '.' ? "0" : "") + std::string(s.range(0, 30), '0') + "1"; break;
    case 1:
      if (t.back() == '5') t.back() = '4', t += std::string(s.range(10, 30), '9');
      break;
    default: break;
  }
  if (t.back() == '.') t.pop_back();
  return (s.flip() ? "-" : "") + t;
}

inline bool same_float(float a, float b) { return (std::isnan(a) && std::isnan(b)) || a == b; }

#endif
