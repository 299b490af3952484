// C19: the thread pool runs every task exactly once.
#include "common.h"

#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <chrono>
#include <thread>

#include "src/utils/threadpool.h"

// Between the pool and the system, unless a sanitizer stands there: delays at every lock, wait and signal, and wake-ups
// without a reason, as condition variables are allowed to have.
#if defined(__has_feature)
#if __has_feature(thread_sanitizer) || __has_feature(address_sanitizer)
#define SANITIZED 1
#endif
#endif
static std::atomic<int> g_jitter{0};  // 0: none; otherwise one step in so many is delayed
static std::atomic<uint64_t> g_jitter_seed{0};
static void jitter() {
  int j = g_jitter.load(std::memory_order_relaxed);
  if (!j) return;
  static thread_local uint64_t state = 0, epoch = 0;
  uint64_t now = g_jitter_seed.load(std::memory_order_relaxed);
  if (epoch != now) epoch = now, state = now + uint64_t(pthread_self()) * 0x9E3779B97F4A7C15ull;
  state = state * 6364136223846793005ull + 1442695040888963407ull;
  if ((state >> 33) % j) return;
  switch ((state >> 53) % 4) {
    case 0: sched_yield(); break;
    case 1: usleep(1); break;
    case 2: usleep(50); break;
    default: usleep(300); break;
  }
}
#ifndef SANITIZED
template <typename F>
static F real(const char* name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
static std::atomic<int> g_spurious{0};
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
  static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
  jitter();
  return f(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
  int r = f(m);
  jitter();
  return r;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  static auto wait = real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
  static auto timed = real<int (*)(pthread_cond_t*, pthread_mutex_t*, const timespec*)>("pthread_cond_timedwait");
  jitter();
  if (g_spurious.load(std::memory_order_relaxed)) {
    timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    t.tv_nsec += 200000;
    if (t.tv_nsec >= 1000000000) t.tv_nsec -= 1000000000, ++t.tv_sec;
    timed(c, m, &t);  // whether signalled or not
    return 0;
  }
  return wait(c, m);
}
int pthread_cond_signal(pthread_cond_t* c) {
  static auto f = real<int (*)(pthread_cond_t*)>("pthread_cond_signal");
  jitter();
  return f(c);
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  static auto f = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
  jitter();
  return f(c);
}
}
#else
static std::atomic<int> g_spurious{0};
#endif

void harness_init() { quiet_logs(); }

struct Jitter {
  explicit Jitter(pbt::Source& s) {
    g_jitter_seed = s.draw(0) | 1;
    g_jitter = s.pick<int>({0, 1, 2, 3, 10});
    g_spurious = s.chance(1, 5);
  }
  void off() { g_jitter = 0, g_spurious = 0; }
  ~Jitter() { off(); }
  std::string show() const {
    return "jitter " + std::to_string(g_jitter) + " spurious " + std::to_string(g_spurious);
  }
};

struct Task {
  int work = 0;                // what it does before it is done
  std::vector<int> submits;    // tasks handed over from within
};
struct State {
  std::vector<Task> plan;
  std::vector<int> runs;       // not atomic: the pool must order them
  std::vector<std::string> result;
  std::atomic<int> inside{0}, most{0};
  ThreadPool* pool = nullptr;
};
static void work(int kind) {
  switch (kind) {
    case 1: std::this_thread::yield(); break;
    case 2: usleep(1); break;
    case 3: usleep(200); break;
    case 4: for (volatile int i = 0; i < 3000; i = i + 1) {} break;
    default: break;
  }
}
static void run(State* st, int id) {
  int now = ++st->inside, most = st->most;
  while (now > most && !st->most.compare_exchange_weak(most, now)) {}
  const Task& t = st->plan[id];
  for (size_t i = 0; i < t.submits.size(); ++i) {
    if (i == t.submits.size() / 2) work(t.work);
    int next = t.submits[i];
    st->pool->Enqueue([st, next] { run(st, next); });
  }
  if (t.submits.empty()) work(t.work);
  ++st->runs[id];
  st->result[id] = "done " + std::to_string(id);
  --st->inside;
}

// Any plan of tasks, submitted from several threads and from tasks.
PROP_EX(exactly_once, 6, 40, true) {
  int n = s.range(1, 8), threads = s.weighted({3, 2}) == 0 ? 1 : s.range(2, 4);
  int count = s.chance(1, 10) ? s.range(100, 1000) : s.length(0, 60);
  // Long queues: one task may hand over all the others.
  bool lots = s.chance(1, 150), burst = lots && s.flip();
  if (lots) count = s.range(2000, 70000);
  if (burst && s.flip()) n = 1;
  pbt::Rng r(0);
  if (lots) r = s.bulk();
  State st;
  st.plan.resize(count);
  std::vector<std::vector<int>> from(threads);
  int nested = 0;
  for (int i = 0; i < count; ++i) {
    if (lots) {
      st.plan[i].work = r.below(200) ? 0 : 1;
      if (i && (burst || r.below(3) == 0)) st.plan[burst ? 0 : i - 1 - r.below(std::min(i, 20))].submits.push_back(i), ++nested;
      else from[r.below(threads)].push_back(i);
      continue;
    }
    st.plan[i].work = s.draw(5);
    if (i && s.chance(1, 3)) st.plan[s.range(std::max(0, i - 20), i - 1)].submits.push_back(i), ++nested;
    else from[s.draw(threads)].push_back(i);
  }
  int pause = s.range(0, 3);  // before the pool is destroyed
  Jitter jitter(s);
  if (lots) jitter.off();
  ctx.describe([&](std::ostream& o) {
    o << "pool of " << n << ", " << count << " tasks, " << nested << " of them nested, " << threads << " submitting threads, pause " << pause << " " << jitter.show() << " plan:";
    for (int i = 0; i < count && i < 60; ++i) o << " " << i << ":w" << st.plan[i].work << pbt::show(st.plan[i].submits).substr(0, 100);
  });
  st.runs.assign(count, 0);
  st.result.resize(count);
  {
    ThreadPool pool(n);
    st.pool = &pool;
    auto submit = [&](int k) {
      for (int id : from[k]) {
        State* p = &st;
        pool.Enqueue([p, id] { run(p, id); });
        if (pause == 3 && id % 3 == 0) std::this_thread::yield();
      }
    };
    if (threads == 1) submit(0);
    else {
      std::vector<std::thread> ts;
      for (int k = 0; k < threads; ++k) ts.emplace_back(submit, k);
      for (auto& t : ts) t.join();
    }
    if (pause == 1) std::this_thread::yield();
    if (pause == 2) usleep(500);
  }
  CHECK_THAT(st.inside == 0, "finished", st.inside << " tasks are still running after the pool is gone");
  for (int i = 0; i < count; ++i) {
    CHECK_THAT(st.runs[i] == 1, "once", "task " << i << " ran " << st.runs[i] << " times");
    CHECK_THAT(st.result[i] == "done " + std::to_string(i), "effect", "task " << i << " left " << pbt::quote(st.result[i]));
  }
  CHECK_THAT(st.most <= n, "width", st.most << " tasks at the same time in a pool of " << n);
  ctx.nontrivial_if(count >= 2 && (n >= 2 || nested));
  if (nested) ctx.label("nested");
  if (lots) ctx.label("long queue");
  if (st.most == n && n > 1) ctx.label("all threads busy");
}

// As many tasks as threads wait for each other: they must all be running at the same time.
PROP_EX(together, 4, 90, true) {
  bool wide = s.chance(1, 40);  // more threads than there are processors
  int n = wide ? s.range(9, 100) : s.range(1, 8), rounds = wide ? s.range(1, 2) : s.range(1, 6);
  bool idle = s.flip(), nested = s.chance(1, 3);
  int mode = s.range(wide ? 1 : 0, 2);  // the tasks of wide pools sleep while they wait
  Jitter jitter(s);
  ctx.describe([&](std::ostream& o) { o << "pool of " << n << ", " << rounds << " rounds" << (idle ? ", idle in between" : "") << (nested ? ", from within a task" : "") << " mode " << mode << " " << jitter.show(); });
  std::vector<std::atomic<int>> arrived(rounds), left(rounds);
  for (auto& a : arrived) a = 0;
  for (auto& a : left) a = 0;
  std::atomic<int> late{0}, over{0}, inside{0};
  {
    ThreadPool pool(n);
    auto deadline = std::chrono::steady_clock::now() + std::chrono::seconds(25);
    auto one = [&](int r) {
      if (++inside > n) ++over;
      ++arrived[r];
      while (arrived[r] < n) {
        if (std::chrono::steady_clock::now() > deadline) {
          ++late;
          break;
        }
        if (mode == 0) std::this_thread::yield();
        else usleep(mode == 1 ? 1 : 100);
      }
      --inside;
      ++left[r];
    };
    for (int r = 0; r < rounds; ++r) {
      if (idle) usleep(r % 2 ? 100 : 1000);  // every thread of the pool waits for work
      if (nested) {
        // The first task hands over the others; its own place is the last.
        pool.Enqueue([&pool, &one, n, r] {
          for (int k = 1; k < n; ++k) pool.Enqueue([&one, r] { one(r); });
          one(r);
        });
      } else {
        for (int k = 0; k < n; ++k) pool.Enqueue([&one, r] { one(r); });
      }
      // The next round only when this one is over, or all at once.
      if (idle)
        while (left[r] < n && std::chrono::steady_clock::now() < deadline + std::chrono::seconds(5)) usleep(20);
      // Handing over from within while others wait is only certain to get room if nothing else is queued.
      else if (nested)
        while (left[r] < n && std::chrono::steady_clock::now() < deadline + std::chrono::seconds(5)) usleep(20);
    }
  }
  CHECK_THAT(late == 0, "width", late << " tasks waited in vain for the others of their round: fewer than " << n << " run at the same time");
  CHECK_THAT(over == 0, "width", "more than " << n << " tasks at the same time");
  for (int r = 0; r < rounds; ++r) CHECK_THAT(left[r] == n, "once", left[r] << " of " << n << " tasks of round " << r << " ran");
  ctx.nontrivial_if(n >= 2);
}

// Pools are made and destroyed at once, with nothing or little to do, while their threads are still starting.
PROP_EX(short_lived, 2, 40, true) {
  int pools = s.range(1, 30), n = s.range(1, 6);
  std::vector<int> tasks;
  int total = 0;
  for (int k = 0; k < pools; ++k) tasks.push_back(s.weighted({2, 2, 1})), total += tasks.back();
  Jitter jitter(s);
  ctx.describe([&](std::ostream& o) { o << pools << " pools of " << n << " threads with tasks " << pbt::show(tasks) << " " << jitter.show(); });
  int done = 0;
  for (int k = 0; k < pools; ++k) {
    int a = 0, b = 0;
    {
      ThreadPool pool(n);
      if (tasks[k] >= 1) pool.Enqueue([&a] { ++a; });
      if (tasks[k] >= 2) pool.Enqueue([&b] { ++b; });
    }
    CHECK_THAT(a == (tasks[k] >= 1) && b == (tasks[k] >= 2), "once", "tasks of pool " << k << " ran " << a << " and " << b << " times");
    done += a + b;
  }
  ctx.nontrivial_if(total >= 1 && pools >= 2);
}

// What a task carries is its own: moved or copied in, usable until it is done, released with the pool.
PROP_EX(captures, 1, 40, true) {
  int n = s.range(1, 4), count = s.range(1, 30);
  Jitter jitter(s);
  ctx.describe([&](std::ostream& o) { o << "pool of " << n << ", " << count << " tasks with captured state " << jitter.show(); });
  auto shared = std::make_shared<std::vector<int>>(100, 7);
  std::vector<std::string> out(count);
  {
    ThreadPool pool(n);
    for (int i = 0; i < count; ++i) {
      std::string text(30, char('a' + i % 26));
      pool.Enqueue([&out, i, text, shared] { out[i] = text + std::to_string((*shared)[i]); });
    }
  }
  for (int i = 0; i < count; ++i) CHECK_THAT(out[i] == std::string(30, char('a' + i % 26)) + "7", "effect", "task " << i << " wrote " << pbt::quote(out[i]));
  CHECK_THAT(shared.use_count() == 1, "released", "tasks keep their state after the pool is gone: " << shared.use_count() - 1 << " copies");
  ctx.nontrivial_if(count >= 2);
}
