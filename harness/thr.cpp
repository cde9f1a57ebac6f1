// Threads that share dictionaries and distance functions.  A session's
// commands before `go` are executed by one thread; those queued with `t K` by
// thread K, all at the same time.  What they do changes nothing a caller can
// see, so their records are appended one after the other and judged by
// LibraryTrace.tla.
//
// Without a sanitizer the threads run under a scheduler of our own: one at a
// time, switched when they lock, unlock or allocate, according to a plan:
//   sched 1 2 1 ...  the thread for every acquisition of a lock, in turn
//   sweep            every schedule with one preemption at a lock
//   random SEED P    a switch with probability P/1000 at every point
//   free             no control
// Blocked threads are noticed: if nobody can go on, that is a deadlock.
// With the thread sanitizer they run freely, and it reports data races.
#include "gen.hpp"
#include "main.hpp"

#include <atomic>
#include <cerrno>
#include <cxxabi.h>
#include <pthread.h>
#include <semaphore.h>
#include <thread>

#if defined(__SANITIZE_THREAD__)
#define CONTROL 0
#else
#define CONTROL 1
#endif

// --------------------------------------------------------------- scheduler

enum Kind { LOCK, UNLOCK, MEM };

#if CONTROL
#include <dlfcn.h>

namespace sched {
enum Mode { SEQ, ORDER, SWEEP, RANDOM, FREE };
struct T {
  sem_t go;
  bool done, blocked;
};
static T threads[16];
static int count = 0;
static std::atomic<bool> active{false}, loose{false};
static std::atomic<long> progress{0};
static std::atomic<int> finished{0};
static thread_local int me = -1;
static thread_local int pinned = 0;
static int mode = SEQ;
static vector<int> order;
static size_t next_in_order = 0;
static long point = 0, points = 0; // preemption at this point; points so far
static int target = 0;
static std::mt19937_64 rng;
static int permille = 0;

static void hand_over(int to) {
  int from = me;
  sem_post(&threads[to].go);
  while (!loose.load() && sem_wait(&threads[from].go) != 0) {}
}
static int another(bool only_unblocked) {
  for (int k = 1; k < count; ++k) {
    int t = (me + k) % count;
    if (!threads[t].done && !(only_unblocked && threads[t].blocked)) return t;
  }
  return -1;
}
static bool on() { return me >= 0 && active.load(std::memory_order_relaxed) && !loose.load(std::memory_order_relaxed) && pinned == 0; }

static void at(Kind k) {
  if (!on()) return;
  progress.fetch_add(1, std::memory_order_relaxed);
  if (mode == ORDER && k == LOCK) {
    while (next_in_order < order.size() && order[next_in_order] != me) {
      int t = order[next_in_order];
      if (t < 0 || t >= count || threads[t].done || threads[t].blocked) { ++next_in_order; continue; }
      hand_over(t);
      if (!on()) return;
    }
    if (next_in_order < order.size()) ++next_in_order;
  } else if (mode == SWEEP && k != MEM) {
    if (points++ == point) {
      int t = (me + target) % count;
      if (t != me && !threads[t].done && !threads[t].blocked) hand_over(t);
    }
  } else if (mode == RANDOM) {
    if ((int)(rng() % 1000) < (k == MEM ? permille : permille * 5)) {
      int t = (int)(rng() % (unsigned)count);
      if (t != me && !threads[t].done && !threads[t].blocked) hand_over(t);
    }
  }
}
// The lock is taken: let another thread run until it is released.
static void wait_for_lock() {
  threads[me].blocked = true;
  int t = another(true);
  if (t < 0) {
    static const char msg[] = "ERROR: deadlock of all threads\n";
    if (write(2, msg, sizeof msg - 1)) {}
    _exit(67);
  }
  hand_over(t);
  threads[me].blocked = false;
}
static void released() {
  if (!on()) return;
  for (int t = 0; t < count; ++t) threads[t].blocked = false;
  at(UNLOCK);
}
static void finish() {
  threads[me].done = true;
  if (active && !loose) {
    int t = another(true);
    if (t < 0) t = another(false);
    if (t >= 0 && threads[t].blocked) {
      static const char msg[] = "ERROR: deadlock of the remaining threads\n";
      if (write(2, msg, sizeof msg - 1)) {}
      _exit(67);
    }
    if (t >= 0) sem_post(&threads[t].go);
  }
  me = -1;
  ++finished;
}
template <class F> static F real(const char *name) { return (F)dlsym(RTLD_NEXT, name); }
} // namespace sched

#define ACQUIRE(NAME, TYPE, TRY)                                               \
  extern "C" int NAME(TYPE *x) {                                               \
    static auto f = sched::real<int (*)(TYPE *)>(#NAME);                       \
    static auto t = sched::real<int (*)(TYPE *)>(#TRY);                        \
    if (!sched::on()) return f(x);                                             \
    sched::at(LOCK);                                                           \
    while (sched::on()) {                                                      \
      int r = t(x);                                                            \
      if (r != EBUSY && r != EDEADLK && r != EAGAIN) return r;                 \
      sched::wait_for_lock();                                                  \
    }                                                                          \
    return f(x);                                                               \
  }
#define RELEASE(NAME, TYPE)                                                    \
  extern "C" int NAME(TYPE *x) {                                               \
    static auto f = sched::real<int (*)(TYPE *)>(#NAME);                       \
    int r = f(x);                                                              \
    sched::released();                                                         \
    return r;                                                                  \
  }
ACQUIRE(pthread_mutex_lock, pthread_mutex_t, pthread_mutex_trylock)
RELEASE(pthread_mutex_unlock, pthread_mutex_t)
ACQUIRE(pthread_rwlock_rdlock, pthread_rwlock_t, pthread_rwlock_tryrdlock)
ACQUIRE(pthread_rwlock_wrlock, pthread_rwlock_t, pthread_rwlock_trywrlock)
RELEASE(pthread_rwlock_unlock, pthread_rwlock_t)
ACQUIRE(pthread_spin_lock, pthread_spinlock_t, pthread_spin_trylock)
RELEASE(pthread_spin_unlock, pthread_spinlock_t)

// Nobody is switched away inside a one-time initialisation.
extern "C" int pthread_once(pthread_once_t *o, void (*init)(void)) {
  static auto f = sched::real<int (*)(pthread_once_t *, void (*)(void))>("pthread_once");
  ++sched::pinned;
  int r = f(o, init);
  --sched::pinned;
  return r;
}
namespace __cxxabiv1 {
extern "C" int __cxa_guard_acquire(__guard *g) {
  static int (*f)(__guard *) = nullptr;
  if (f == nullptr) f = sched::real<int (*)(__guard *)>("__cxa_guard_acquire");
  ++sched::pinned;
  int r = f(g);
  if (r == 0) --sched::pinned;
  return r;
}
extern "C" void __cxa_guard_release(__guard *g) noexcept {
  static void (*f)(__guard *) = nullptr;
  if (f == nullptr) f = sched::real<void (*)(__guard *)>("__cxa_guard_release");
  f(g);
  --sched::pinned;
}
extern "C" void __cxa_guard_abort(__guard *g) noexcept {
  static void (*f)(__guard *) = nullptr;
  if (f == nullptr) f = sched::real<void (*)(__guard *)>("__cxa_guard_abort");
  f(g);
  --sched::pinned;
}
} // namespace __cxxabiv1

void *operator new(size_t n) {
  sched::at(MEM);
  void *p = malloc(n ? n : 1);
  if (p == nullptr) throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
#endif

// ----------------------------------------------------------------- sessions

struct ThrSession : Recorder {
  Session base;
  vector<std::unique_ptr<Session>> part;
  long sweep_points = 0;

  void clear() {
    part.clear();
    base.clear();
    forget();
  }

  // Once, under one plan.
  void once(const vector<string> &cmds, const string &plan) {
    part.clear();
    base.clear();
    base.dir = dir;
    base.logging = logging;
    base.screening = screening;
    base.run([&] {
      vector<string> v;
      for (auto &c : cmds) {
        if (c == "go") break;
        if (c.substr(0, 2) != "t " && c.substr(0, 5) != "plan ") v.push_back(c);
      }
      return v;
    }());
    std::map<int, vector<string>> todo;
    for (auto &c : cmds)
      if (c.substr(0, 2) == "t ") {
        size_t k = c.find(' ', 2);
        todo[atoi(c.c_str() + 2)].push_back(c.substr(k + 1));
      }
    vector<vector<string>> work;
    for (auto &[k, v] : todo) {
      work.push_back(v);
      auto s = std::make_unique<Session>();
      s->parent = &base;
      s->dir = dir + "/t" + std::to_string(k);
      fs::create_directories(s->dir);
      s->logging = logging;
      s->screening = screening;
      for (auto &[d, D] : base.dicts) {
        s->dicts[d].dawg = D.dawg;
        s->dicts[d].terms = D.terms;
        s->idx(d, "");
      }
      part.push_back(std::move(s));
      for (auto &c : v) // distance functions exist before they are shared
        if (c.substr(0, 5) == "dist " || c.substr(0, 7) == "axioms ") {
          int a = 0, o = 0;
          sscanf(c.c_str() + c.find(' '), "%d %d", &a, &o);
          base.dist_object(a, o);
        }
    }
    int n = (int)part.size();
#if CONTROL
    using namespace sched;
    count = n;
    order.clear();
    next_in_order = 0;
    points = 0;
    loose = false;
    finished = 0;
    std::istringstream is(plan);
    string kind;
    is >> kind;
    mode = SEQ;
    if (kind == "sched") {
      mode = ORDER;
      int x;
      while (is >> x) order.push_back(x - 1);
    } else if (kind == "point") {
      mode = SWEEP;
      is >> point >> target;
    } else if (kind == "random") {
      mode = RANDOM;
      unsigned long seed = 0;
      is >> seed >> permille;
      rng.seed(seed);
    } else if (kind == "free") mode = FREE;
    for (int k = 0; k < n; ++k) {
      sem_destroy(&threads[k].go);
      sem_init(&threads[k].go, 0, 0);
      threads[k].done = threads[k].blocked = false;
    }
    active = mode != FREE;
#endif
    std::atomic<int> ready{0};
    vector<std::thread> ts;
    for (int k = 0; k < n; ++k)
      ts.emplace_back([&, k] {
#if CONTROL
        if (mode != FREE) {
          me = k;
          while (sem_wait(&threads[k].go) != 0) {}
        } else
#endif
        {
          ++ready;
          while (ready.load() < n) std::this_thread::yield();
        }
        part[(size_t)k]->run(work[(size_t)k]);
#if CONTROL
        if (mode != FREE) finish();
#endif
      });
#if CONTROL
    if (mode != FREE && n > 0) {
      sem_post(&threads[0].go);
      long seen = -1;
      for (int idle = 0; finished < n;) {
        usleep(idle < 20 ? 50 : 5000);
        ++idle;
        if (idle % 200 == 0) { // about a second without a step: no more control
          long p = progress.load();
          if (p == seen && !loose) {
            loose = true;
            for (int k = 0; k < n; ++k) sem_post(&threads[k].go);
          }
          seen = p;
        }
      }
    }
#endif
    for (auto &t : ts) t.join();
#if CONTROL
    sweep_points = points;
    active = false;
#endif
    suspect = base.suspect;
    for (auto &s : part) suspect = suspect || s->suspect;
    out.clear();
    first = true;
    if (logging) {
      out = base.out;
      for (auto &s : part)
        if (!s->out.empty()) out += (out.empty() ? "" : ",") + s->out;
      first = out.empty();
    }
  }

  void run(const vector<string> &cmds) {
    vector<string> plans;
    for (auto &c : cmds) if (c.substr(0, 5) == "plan ") plans.push_back(c.substr(5));
    if (plans.empty()) plans.push_back("seq");
    for (auto &p : plans) {
      if (p.substr(0, 5) == "sweep") {
        long step = 1, upto = 1000000;
        sscanf(p.c_str(), "sweep %ld %ld", &step, &upto);
        once(cmds, "point -1 0");
        long n = std::min(upto, sweep_points);
        for (long k = 0; k <= n && !suspect; k += step) once(cmds, "point " + std::to_string(k) + " 1");
      } else once(cmds, p);
      if (suspect) return;
    }
  }
};

struct ThrGen : Gen {
  using Gen::Gen;
  string plan() {
    switch (below(6)) {
    case 0: return "plan free";
    case 1: { // at the locks
      string s = "plan sched";
      size_t n = between(4, 60);
      for (size_t k = 0; k < n; ++k) s += " " + std::to_string(1 + below(3));
      return s;
    }
    default: return "plan random " + std::to_string(below(1000000)) + " " + std::to_string(between(1, chance(50) ? 5 : 300));
    }
  }
  vector<string> session(const string &profile) {
    vector<string> c;
    int threads = (int)between(2, 4);
    if (profile == "memo" || profile == "sweep") {
      size_t alg = below(3);
      bool several = chance(20); // function objects that have nothing to do with one another
      string a = chance(70) ? "ab" : alphabet();
      size_t maxlen = profile == "sweep" ? 4 : between(2, 9);
      vector<string> pool;
      for (int k = 0; k < 4; ++k) pool.push_back(k > 0 && chance(60) ? edits(a, pick(pool), between(1, 3)) : word(a, between(1, maxlen)));
      for (auto &w : pool) if (w.size() > 12) w.resize(12);
      if (profile == "sweep") threads = 2;
      for (int k = 1; k <= threads; ++k) {
        int calls = profile == "sweep" ? 1 : (int)between(1, 3);
        for (int m = 0; m < calls; ++m) {
          string s = "t " + std::to_string(k) + " dist " + std::to_string(several ? below(3) : alg) + " " + std::to_string(several ? below(2) : 0);
          int pairs = profile == "sweep" ? 2 : (int)between(1, 8);
          for (int x = 0; x < pairs; ++x) {
            string v = pick(pool), w = pick(pool);
            if (chance(30)) v = v.substr(below(v.size() + 1));
            s += " " + hex(v) + " " + hex(w);
          }
          c.push_back(s);
        }
      }
      if (profile == "sweep") c.push_back("plan sweep");
      else for (int k = 0; k < 4; ++k) c.push_back(plan());
      return c;
    }
    // readers of one or two dictionaries
    Shape s = shape();
    if (s.maxlen > 16) s.maxlen = 16;
    if (s.count > 30) s.count = 30;
    vector<string> t = sorted_terms(s.a, s.maxlen, s.count), u = chance(50) ? t : sorted_terms(s.a, s.maxlen, s.count);
    budget(t);
    c.push_back("build 1 v" + join(t));
    c.push_back("build 2 l" + join(u));
    // sometimes the threads share transducers, or even a range
    bool shared = chance(50);
    string q0 = query(s.a, t, s.maxlen);
    if (shared) {
      c.push_back("tr 900 " + std::to_string(below(3)) + (chance(50) ? " c 1" : " s 1"));
      c.push_back("tr 901 " + std::to_string(below(3)) + (chance(50) ? " c 2" : " s 1"));
      c.push_back("rg 900 900 " + hex(q0) + " " + limits(q0, 1));
    }
    for (int k = 1; k <= threads; ++k) {
      int n = (int)between(1, 5);
      string p = "t " + std::to_string(k) + " ", it = std::to_string(k * 10);
      for (int m = 0; m < n; ++m) {
        string q = query(s.a, t, s.maxlen);
        switch (below(shared ? 13 : 9)) {
        case 9: case 10: c.push_back(p + "ts 900 " + hex(q) + " " + limits(q, 1)); break;
        case 11:
          c.push_back(p + "rg " + it + "3 901 " + hex(q) + " " + limits(q, 1));
          c.push_back(p + "rb " + it + "3 " + it + "3");
          c.push_back(p + "iz " + it + "3");
          break;
        case 12:
          c.push_back(p + "rb " + it + "4 900");
          c.push_back(p + "ir " + it + "4");
          c.push_back(p + "iz " + it + "4");
          break;
        case 0: case 1: c.push_back(p + "search " + std::to_string(below(3)) + " 1 " + (chance(50) ? "c " : "s ") + hex(q) + " " + limits(q, 1)); break;
        case 2: c.push_back(p + "con 1" + join(probes(s.a, t, 8))); break;
        case 3: c.push_back(p + "probe 1"); break;
        case 4: c.push_back(p + "eq 1 2"); break;
        case 5: c.push_back(p + "enum 1"); break;
        case 6:
          c.push_back(p + "tr " + it + " " + std::to_string(below(3)) + (chance(50) ? " c 1" : " s 1"));
          c.push_back(p + "rg " + it + " " + it + " " + hex(q) + " " + limits(q, 1));
          c.push_back(p + "rb " + it + " " + it);
          c.push_back(p + "ir " + it);
          c.push_back(p + "iz " + it);
          c.push_back(p + "rb " + it + "1 " + it);
          c.push_back(p + "iz " + it + "1");
          break;
        case 7:
          c.push_back(p + "eb " + it + "2 1");
          c.push_back(p + "ir " + it + "2");
          c.push_back(p + "in " + it + "2");
          c.push_back(p + "iz " + it + "2");
          break;
        case 8:
          c.push_back(p + "ser 1 " + std::to_string(k) + " " + string(1, "cpso"[below(4)]) + " -1");
          c.push_back(p + "eq 2 1");
          break;
        }
      }
    }
    for (int k = 0; k < 3; ++k) c.push_back(plan());
    return c;
  }
};

int main(int argc, char **argv) { return driver<ThrSession, ThrGen>(argc, argv); }
