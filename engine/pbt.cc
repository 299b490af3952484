#include "pbt.h"

#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <iostream>
#include <set>
#include <unordered_set>

namespace pbt {

static const size_t kMaxRec = 1 << 20;
struct Shared {
  uint64_t case_index, n, outcome;  // outcome: 0 running, 1 pass, 2 discard, 3 fail, 4 deadlock, 5 timeout
  char prop[64];
  char tag[64];
  char msg[4096];
  uint64_t choices[kMaxRec];
};
static Shared* g_shared = nullptr;
static double g_cpu_start = 0;

static double cpu_now() {
  struct timespec t;
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}
static double wall_now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

uint64_t Source::draw(uint64_t n) {
  uint64_t v;
  if (random_) {
    v = n == 0 ? rng_.next() : rng_.below(n);
  } else {
    v = pos_ < replay_.size() ? replay_[pos_] : 0;
    if (n != 0 && v >= n) v = n - 1;
  }
  ++pos_;
  if (rec_.size() < kMaxRec) {
    rec_.push_back(v);
    if (g_shared) {
      g_shared->choices[rec_.size() - 1] = v;
      g_shared->n = rec_.size();
    }
  }
  return v;
}

std::vector<Prop>& registry() {
  static std::vector<Prop> r;
  return r;
}
std::vector<Known>& known_registry() {
  static std::vector<Known> r;
  return r;
}

// ---------------------------------------------------------------- scratch files
static std::string g_scratch;
static pid_t g_scratch_pid = 0;
static void remove_tree(const std::string& dir) {
  DIR* d = opendir(dir.c_str());
  if (!d) return;
  while (struct dirent* e = readdir(d)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    std::string p = dir + "/" + n;
    struct stat st;
    if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) remove_tree(p);
    else unlink(p.c_str());
  }
  closedir(d);
  rmdir(dir.c_str());
}
static void clean_scratch() {
  if (!g_scratch.empty() && g_scratch_pid == getpid() && g_scratch.find("/gbdt-pbt-") != std::string::npos)
    remove_tree(g_scratch);
}
const std::string& scratch() {
  if (g_scratch.empty() || g_scratch_pid != getpid()) {
    const char* base = getenv("PBT_SCRATCH");
    std::string t = std::string(base ? base : "/tmp") + "/gbdt-pbt-XXXXXX";
    std::vector<char> buf(t.begin(), t.end());
    buf.push_back(0);
    if (!mkdtemp(buf.data())) {
      perror("mkdtemp");
      _exit(3);
    }
    g_scratch = buf.data();
    g_scratch_pid = getpid();
    atexit(clean_scratch);
  }
  return g_scratch;
}
std::string fresh_path(const std::string& stem) {
  static uint64_t n = 0;
  return scratch() + "/" + stem + std::to_string(n++);
}
void write_file(const std::string& path, const std::string& content) {
  FILE* f = fopen(path.c_str(), "wb");
  if (!f) {
    perror(path.c_str());
    _exit(3);
  }
  fwrite(content.data(), 1, content.size(), f);
  fclose(f);
}
std::string read_file(const std::string& path, bool* ok) {
  std::ifstream in(path, std::ios::binary);
  if (ok) *ok = in.good();
  std::string s((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
  return s;
}

std::string quote(const std::string& s) {
  std::string r = "\"";
  char b[8];
  size_t shown = 0;
  for (unsigned char c : s) {
    if (++shown > 400) {
      r += "...";
      break;
    }
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (c == '\n') r += "\\n";
    else if (c == '\t') r += "\\t";
    else if (c == '\r') r += "\\r";
    else if (c < 32 || c >= 127) {
      snprintf(b, sizeof b, "\\x%02x", c);
      r += b;
    } else r += c;
  }
  return r + "\"";
}
std::string show(float v) {
  char b[40];
  snprintf(b, sizeof b, "%.9g", v);
  return b;
}
std::string show(double v) {
  char b[40];
  snprintf(b, sizeof b, "%.17g", v);
  return b;
}

// ---------------------------------------------------------------- running one case
enum Outcome { kPass = 1, kDiscard = 2, kFail = 3 };

static void on_alarm(int) {
  // Blocked (deadlock) or busy (no termination)? A case takes milliseconds of CPU time.
  double used = cpu_now() - g_cpu_start;
  if (g_shared) g_shared->outcome = used < 0.5 ? 4 : 5;
  _exit(used < 0.5 ? 44 : 45);
}
static void set_timer(int s) {
  struct itimerval t;
  memset(&t, 0, sizeof t);
  t.it_value.tv_sec = s;
  setitimer(ITIMER_REAL, &t, nullptr);
}

static Outcome run_case(const Prop& p, Source& src, Ctx& ctx, std::string* tag, std::string* msg,
                        double limit_scale = 1) {
  if (g_shared) {
    g_shared->n = 0;
    g_shared->outcome = 0;
    strncpy(g_shared->prop, p.name, 63);
  }
  g_cpu_start = cpu_now();
  set_timer(std::max(1, int(p.limit_s * limit_scale)));
  Outcome out = kPass;
  try {
    p.fn(src, ctx);
  } catch (const Discard&) {
    out = kDiscard;
  } catch (const Failure& f) {
    out = kFail;
    *tag = f.tag;
    *msg = f.msg;
  } catch (const std::bad_alloc&) {
    throw;
  } catch (const std::exception& e) {
    out = kFail;
    *tag = "exception";
    *msg = std::string("unexpected C++ exception: ") + e.what();
  }
  set_timer(0);
  if (g_shared) {
    g_shared->outcome = out;
    if (out == kFail) {
      strncpy(g_shared->tag, tag->c_str(), 63);
      strncpy(g_shared->msg, msg->c_str(), 4095);
    }
  }
  return out;
}

static uint64_t mix(uint64_t h, uint64_t v) {
  Rng r(h ^ (v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2)));
  return r.next();
}
static uint64_t hash_str(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}

static std::string json_str(const std::string& s) {
  std::string r = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (c == '\n') r += "\\n";
    else if (c < 32 || c >= 127) {
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else r += c;
  }
  return r + "\"";
}

static const Prop* find_prop(const std::string& n) {
  for (auto& p : registry())
    if (n == p.name) return &p;
  fprintf(stderr, "no property %s\n", n.c_str());
  exit(3);
}

static void map_shared(const char* path) {
  size_t len = sizeof(Shared);
  void* m;
  if (path) {
    int fd = open(path, O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ftruncate(fd, len) != 0) {
      perror(path);
      exit(3);
    }
    m = mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
  } else {
    m = mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  }
  if (m == MAP_FAILED) {
    perror("mmap");
    exit(3);
  }
  g_shared = static_cast<Shared*>(m);
}

typedef std::map<std::string, std::string> Opts;

// run --seed S --start A --stride K --end N --rec FILE --out FILE [--time T] [--only PROP]
static int cmd_run(Opts o) {
  uint64_t seed = strtoull(o["seed"].c_str(), 0, 10);
  uint64_t start = strtoull(o["start"].c_str(), 0, 10), stride = strtoull(o["stride"].c_str(), 0, 10),
           end = strtoull(o["end"].c_str(), 0, 10);
  double budget = o.count("time") ? atof(o["time"].c_str()) : 1e9;
  double t0 = wall_now();
  map_shared(o["rec"].c_str());
  harness_init();
  int total_weight = 0;
  for (auto& p : registry()) total_weight += p.weight;
  struct Stat {
    uint64_t evals = 0, discards = 0, nontrivial = 0;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
  };
  std::map<std::string, Stat> stats;
  std::unordered_set<uint64_t> hashes;
  int rc = 0;
  std::string failed_prop, tag, msg;
  std::vector<uint64_t> failed;
  uint64_t i = start;
  for (; i < end; i += stride) {
    if (wall_now() - t0 > budget) break;
    // The case number alone decides which property it exercises, evenly interleaved.
    Rng pick(mix(hash_str("prop"), i));
    int64_t d = pick.below(total_weight);
    const Prop* p = &registry()[0];
    for (auto& q : registry()) {
      if (d < q.weight) {
        p = &q;
        break;
      }
      d -= q.weight;
    }
    if (o.count("only")) {
      p = find_prop(o["only"]);
    }
    Stat& st = stats[p->name];
    g_shared->case_index = i;
    uint64_t case_seed = mix(mix(mix(hash_str(p->name), seed), i), 77);
    Source src(case_seed);
    bool want_sample = st.samples.size() < 2;
    Ctx ctx(want_sample);
    Outcome out = run_case(*p, src, ctx, &tag, &msg);
    if (out == kDiscard) {
      ++st.discards;
      continue;
    }
    ++st.evals;
    for (auto& l : ctx.labels()) st.labels[l.first] += 1;
    if (ctx.is_nontrivial()) {
      uint64_t h = hash_str(p->name);
      for (auto c : src.recorded()) h = mix(h, c);
      hashes.insert(h);
      ++st.nontrivial;
      if (want_sample && !ctx.text().empty()) {
        std::string t = ctx.text();
        if (t.size() > 600) t = t.substr(0, 600) + "...";
        st.samples.push_back(t);
      }
    }
    if (out == kFail) {
      rc = 10;
      failed = src.recorded();
      failed_prop = p->name;
      break;
    }
  }
  std::ofstream f(o["out"]);
  f << "{\"next\":" << i << ",\"rc\":" << rc << ",\"props\":{";
  bool first = true;
  for (auto& kv : stats) {
    if (!first) f << ",";
    first = false;
    f << json_str(kv.first) << ":{\"evals\":" << kv.second.evals << ",\"discards\":" << kv.second.discards
      << ",\"nontrivial\":" << kv.second.nontrivial << ",\"labels\":{";
    bool lf = true;
    for (auto& l : kv.second.labels) {
      if (!lf) f << ",";
      lf = false;
      f << json_str(l.first) << ":" << l.second;
    }
    f << "},\"samples\":[";
    lf = true;
    for (auto& t : kv.second.samples) {
      if (!lf) f << ",";
      lf = false;
      f << json_str(t);
    }
    f << "]}";
  }
  f << "}";
  if (rc) {
    f << ",\"failed\":{\"prop\":" << json_str(failed_prop) << ",\"tag\":" << json_str(tag)
      << ",\"msg\":" << json_str(msg) << ",\"choices\":[";
    for (size_t k = 0; k < failed.size(); ++k) f << (k ? "," : "") << failed[k];
    f << "]}";
  }
  f << "}\n";
  f.close();
  std::ofstream hf(o["out"] + ".hashes", std::ios::binary);
  for (auto h : hashes) hf.write(reinterpret_cast<const char*>(&h), 8);
  hf.close();
  return rc;
}

static std::vector<uint64_t> read_choices(const std::string& path) {
  std::ifstream in(path);
  std::vector<uint64_t> v;
  uint64_t x;
  while (in >> x) v.push_back(x);
  return v;
}

// replay --prop P --choices FILE [--describe]: exit 0 held, 10 failed, 44/45 hang, else crash
static int cmd_replay(Opts o) {
  map_shared(nullptr);
  harness_init();
  const Prop* p = find_prop(o["prop"]);
  Source src(read_choices(o["choices"]));
  bool describe = o.count("describe");
  Ctx ctx(describe, true);
  std::string tag, msg;
  Outcome out = run_case(*p, src, ctx, &tag, &msg, 1.5);
  if (out == kFail) {
    std::cout << "FAILED " << p->name << " [" << tag << "] " << msg << std::endl;
    return 10;
  }
  std::cout << (out == kDiscard ? "DISCARDED" : "HELD") << std::endl;
  return 0;
}

struct Result {
  int kind = 0;  // 0 held, 1 failed
  std::string tag, msg;
  std::vector<uint64_t> used;
};

static Result try_choices(const Prop& p, const std::vector<uint64_t>& c, double limit_scale) {
  Result r;
  g_shared->outcome = 0;
  g_shared->n = 0;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 1);
    dup2(dn, 2);
    Source src(c);
    Ctx ctx(false);
    std::string tag, msg;
    Outcome out = run_case(p, src, ctx, &tag, &msg, limit_scale);
    // remove this child's scratch directory; skip other exit handlers
    clean_scratch();
    _exit(out == kFail ? 10 : 0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  r.used.assign(g_shared->choices, g_shared->choices + std::min<uint64_t>(g_shared->n, kMaxRec));
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return r;
  r.kind = 1;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 10) {
    r.tag = g_shared->tag;
    r.msg = g_shared->msg;
  } else if (WIFEXITED(st) && (WEXITSTATUS(st) == 44 || WEXITSTATUS(st) == 45)) {
    r.tag = "hang";
  } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
    r.kind = 0;
  } else {
    r.tag = "crash";
  }
  return r;
}

// shrink --prop P --choices FILE --out FILE --time T
static int cmd_shrink(Opts o) {
  map_shared(nullptr);
  harness_init();
  const Prop* p = find_prop(o["prop"]);
  double budget = atof(o["time"].c_str()), t0 = wall_now();
  std::vector<uint64_t> best = read_choices(o["choices"]);
  double scale = 1;
  Result r0;
  int tries = p->scheduled ? 20 : 3;
  for (int k = 0; k < tries && !r0.kind; ++k) r0 = try_choices(*p, best, 1);
  if (!r0.kind) {
    std::cout << "NOT-REPRODUCED" << std::endl;
    return 0;
  }
  if (r0.tag == "hang") scale = 0.25;
  std::string tag = r0.tag;
  if (!r0.used.empty() && r0.used.size() < best.size()) best = r0.used;
  int attempts = 0;
  auto better = [&](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
    return a.size() != b.size() ? a.size() < b.size() : a < b;
  };
  auto accept = [&](const std::vector<uint64_t>& c) {
    if (wall_now() - t0 > budget) return false;
    if (!better(c, best)) return false;
    ++attempts;
    int reps = p->scheduled ? 3 : 1;
    for (int k = 0; k < reps; ++k) {
      Result r = try_choices(*p, c, scale);
      if (r.kind && r.tag == tag) {
        std::vector<uint64_t> u = r.used;
        best = (!u.empty() && tag != "crash" && tag != "hang" && better(u, c)) ? u : c;
        return true;
      }
    }
    return false;
  };
  bool improved = true;
  while (improved && wall_now() - t0 < budget) {
    improved = false;
    // delete chunks
    for (size_t k = std::max<size_t>(1, best.size() / 2); k >= 1; k /= 2) {
      for (size_t i = 0; i + k <= best.size() && wall_now() - t0 < budget;) {
        std::vector<uint64_t> c(best);
        c.erase(c.begin() + i, c.begin() + i + k);
        if (accept(c)) improved = true;
        else i += k;
      }
      if (k == 1) break;
    }
    // lower a length and delete what follows it
    for (size_t i = 0; i < best.size() && wall_now() - t0 < budget; ++i) {
      if (best[i] == 0) continue;
      for (size_t k : {1, 2, 3, 4, 6, 8}) {
        if (i + 1 + k > best.size() || i >= best.size() || best[i] == 0) continue;
        std::vector<uint64_t> c(best);
        c[i] -= 1;
        c.erase(c.begin() + i + 1, c.begin() + i + 1 + k);
        if (accept(c)) {
          improved = true;
          break;
        }
      }
    }
    // zero chunks, then minimise single values
    for (size_t k = std::max<size_t>(1, best.size() / 2); k >= 1; k /= 2) {
      for (size_t i = 0; i + k <= best.size() && wall_now() - t0 < budget; i += k) {
        std::vector<uint64_t> c(best);
        std::fill(c.begin() + i, c.begin() + i + k, 0);
        if (accept(c)) improved = true;
      }
      if (k == 1) break;
    }
    for (size_t i = 0; i < best.size() && wall_now() - t0 < budget; ++i) {
      uint64_t lo = 0;
      while (i < best.size() && best[i] > lo && wall_now() - t0 < budget) {
        std::vector<uint64_t> c(best);
        c[i] = lo + (best[i] - lo) / 2;
        if (accept(c)) improved = true;
        else lo = lo + (best[i] - lo) / 2 + 1;
      }
    }
  }
  std::ofstream f(o["out"]);
  for (auto c : best) f << c << "\n";
  std::cout << "SHRUNK from " << read_choices(o["choices"]).size() << " to " << best.size() << " choices in "
            << attempts << " attempts; tag " << tag << std::endl;
  return 0;
}

}  // namespace pbt

#ifdef PBT_LIBFUZZER
// The same properties driven by libFuzzer: input bytes become choices.
extern "C" int LLVMFuzzerInitialize(int*, char***) {
  harness_init();
  return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  static const pbt::Prop* p = nullptr;
  if (!p) {
    const char* n = getenv("PBT_PROP");
    p = n ? pbt::find_prop(n) : &pbt::registry()[0];
  }
  std::vector<uint64_t> c;
  c.reserve(size);
  // One byte per choice, 0xff introduces an eight-byte one.
  for (size_t i = 0; i < size; ++i) {
    if (data[i] == 0xff && i + 8 < size) {
      uint64_t v;
      memcpy(&v, data + i + 1, 8);
      c.push_back(v);
      i += 8;
    } else {
      c.push_back(data[i]);
    }
  }
  pbt::Source src(c);
  pbt::Ctx ctx(false);
  try {
    p->fn(src, ctx);
  } catch (const pbt::Discard&) {
    return -1;
  } catch (const pbt::Failure& f) {
    const char* out = getenv("PBT_FAIL_OUT");
    if (out) {
      FILE* fp = fopen(out, "w");
      for (auto x : src.recorded()) fprintf(fp, "%llu\n", (unsigned long long)x);
      fclose(fp);
    }
    fprintf(stderr, "FAILED %s [%s] %s\n", p->name, f.tag.c_str(), f.msg.c_str());
    pbt::clean_scratch();
    __builtin_trap();
  }
  return 0;
}
#else
int main(int argc, char** argv) {
  if (argc < 2) return 3;
  std::string cmd = argv[1];
  pbt::Opts o;
  for (int i = 2; i < argc; ++i) {
    std::string a = argv[i];
    if (a.compare(0, 2, "--") != 0) return 3;
    a = a.substr(2);
    if (a == "describe") o[a] = "1";
    else if (i + 1 < argc) o[a] = argv[++i];
  }
  signal(SIGALRM, pbt::on_alarm);
  signal(SIGPIPE, SIG_IGN);
  if (cmd == "run") return pbt::cmd_run(o);
  if (cmd == "replay") return pbt::cmd_replay(o);
  if (cmd == "shrink") return pbt::cmd_shrink(o);
  if (cmd == "known") {
    harness_init();
    for (auto& k : pbt::known_registry())
      if (o["key"] == k.key) {
        bool fails = k.fn();
        std::cout << (fails ? "STILL-FAILS" : "NO-LONGER-FAILS") << std::endl;
        return 0;
      }
    return 3;
  }
  if (cmd == "props") {
    for (auto& p : pbt::registry())
      std::cout << p.name << " " << p.weight << " " << (p.scheduled ? 1 : 0) << std::endl;
    return 0;
  }
  return 3;
}
#endif
