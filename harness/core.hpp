// A session: calls to the real library's public API, and a record of what every
// call returned, as one JSON line that LibraryTrace.tla judges.  `suspect` is
// only a filter: it decides which sessions of a large random run are worth
// handing to TLC (all that look wrong, and a sample of the others).
#pragma once
#include <algorithm>
#include <csignal>
#include <climits>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>

#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>

#include "liblevenshtein/collection/dawg.h"
#include "liblevenshtein/collection/sorted_dawg.h"
#include "liblevenshtein/distance/merge_and_split_distance.h"
#include "liblevenshtein/distance/standard_distance.h"
#include "liblevenshtein/distance/transposition_distance.h"
#include "liblevenshtein/proto/liblevenshtein.pb.h"
#include "liblevenshtein/serialization/serializer.h"
#include "liblevenshtein/transducer/algorithm.h"
#include "liblevenshtein/transducer/transducer.h"
#include "message.hpp"

#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#define LIVE_BYTES() __sanitizer_get_current_allocated_bytes()
#else
#define LIVE_BYTES() ((size_t)0)
#endif

namespace ll = liblevenshtein;
namespace lld = liblevenshtein::distance;
namespace fs = std::filesystem;
using std::size_t;
using std::string;
using std::vector;

// ---------------------------------------------------------------- utilities

// lld::Distance has no virtual destructor; delete through the right type.
struct DistanceDeleter {
  void operator()(lld::Distance *p) const {
    if (auto *s = dynamic_cast<lld::StandardDistance *>(p)) delete s;
    else if (auto *t = dynamic_cast<lld::TranspositionDistance *>(p)) delete t;
    else if (auto *m = dynamic_cast<lld::MergeAndSplitDistance *>(p)) delete m;
  }
};
using DistancePtr = std::unique_ptr<lld::Distance, DistanceDeleter>;


static string unhex(const string &h) {
  if (h == "-") return "";
  string s;
  for (size_t k = 0; k + 1 < h.size(); k += 2)
    s.push_back((char)strtol(h.substr(k, 2).c_str(), nullptr, 16));
  return s;
}

static long clip(size_t n) { return n > 1000000000UL ? 1000000000L : (long)n; }

static string jterm(const string &s) {
  string o = "[";
  for (size_t k = 0; k < s.size(); ++k) {
    if (k) o += ",";
    o += std::to_string((unsigned char)s[k]);
  }
  return o + "]";
}
static const char *jb(bool b) { return b ? "true" : "false"; }

static const char *ALG[] = {"standard", "transposition", "merge_and_split"};

// ------------------------------------------------------------ type erasure

struct Iter {
  virtual ~Iter() = default;
  virtual bool at_end() = 0;
  virtual void next() = 0;
  virtual string term() = 0;
  virtual size_t dist() { return 0; }
  virtual Iter *copy() { return nullptr; }
  virtual bool assign(Iter &) { return false; } // whether it is of the same kind
  virtual Iter *move() { return nullptr; }
  bool has_dist = false;
  int d = -1, tr = -1;
};

template <class R> struct QIter : Iter {
  ll::LazyQuery<R> q;
  ll::LazyQuery<R> e;
  explicit QIter(ll::LazyIterator<R> &r) : q(r.begin()), e(r.end()) {
    has_dist = !std::is_same_v<R, string>;
  }
#ifndef NO_COPIES
  QIter(const QIter &other) = default;
  QIter(QIter &&other) = default;
  Iter *copy() override { return new QIter(*this); }
  Iter *move() override { return new QIter(std::move(*this)); }
  bool assign(Iter &other) override {
    auto *o = dynamic_cast<QIter *>(&other);
    if (o == nullptr) return false;
    q = o->q;
    d = o->d;
    tr = o->tr;
    return true;
  }
#endif
  bool at_end() override { return !(q != e); }
  void next() override { ++q; }
  string term() override {
    if constexpr (std::is_same_v<R, string>) return *q; else return (*q).first;
  }
  size_t dist() override {
    if constexpr (std::is_same_v<R, string>) return 0; else return (*q).second;
  }
};

struct EIter : Iter {
  ll::DawgIterator it;
  ll::DawgIterator e;
  explicit EIter(ll::Dawg *d) : it(d->begin()), e(d->end()) {}
  EIter(ll::DawgNode *root, size_t n) : it(root), e(n) {}
#ifndef NO_COPIES
  EIter(const EIter &other) = default;
  EIter(EIter &&other) = default;
  Iter *copy() override { return new EIter(*this); }
  Iter *move() override { return new EIter(std::move(*this)); }
  bool assign(Iter &other) override {
    auto *o = dynamic_cast<EIter *>(&other);
    if (o == nullptr) return false;
    it = o->it;
    e = o->e;
    d = o->d;
    tr = o->tr;
    return true;
  }
#endif
  bool at_end() override { return !(it != e); }
  void next() override { ++it; }
  string term() override { return *it; }
};

struct Range {
  virtual ~Range() = default;
  virtual Iter *begin() = 0;
  virtual Range *copy() { return nullptr; }
  int alg = 0, d = 0, tr = -1;
  string q;
  size_t n = 0;
};
template <class R> struct RangeT : Range {
  ll::LazyIterator<R> r;
  explicit RangeT(ll::LazyIterator<R> x) : r(std::move(x)) {}
  Iter *begin() override { return new QIter<R>(r); }
#ifndef NO_COPIES
  Range *copy() override { return new RangeT(*this); }
#endif
};

using Out = std::function<bool(const string &, size_t)>;

struct Trans {
  virtual ~Trans() = default;
  virtual Range *range(const string &q, size_t n) = 0;
  virtual void each(const string &q, size_t n, const Out &out) = 0;
  virtual Trans *copy() { return nullptr; }
  virtual bool assign(Trans &) { return false; } // whether it is of the same kind
  int alg = 0, d = 0;
  char kind = 'c';
};
template <ll::Algorithm A, class R> struct TransT : Trans {
  ll::Transducer<A, R> t;
  explicit TransT(ll::DawgNode *root) : t(root) {}
#ifndef NO_COPIES
  Trans *copy() override { return new TransT(*this); }
  bool assign(Trans &other) override {
    auto *o = dynamic_cast<TransT *>(&other);
    if (o != nullptr) *this = *o;
    return o != nullptr;
  }
#endif
  // 2 is the default maximum distance
  Range *range(const string &q, size_t n) override { return new RangeT<R>(n == 2 ? t(q) : t(q, n)); }
  void each(const string &q, size_t n, const Out &out) override {
    for (const R &r : n == 2 && q.size() % 2 == 1 ? t(q) : t(q, n)) {
      if constexpr (std::is_same_v<R, string>) {
        if (!out(r, 0)) break;
      } else {
        if (!out(r.first, r.second)) break;
      }
    }
  }
};

static Trans *make_trans(int alg, char kind, ll::DawgNode *root) {
  using A = ll::Algorithm;
  if (kind == 'c') {
    if (alg == 0) return new TransT<A::STANDARD, ll::Candidate>(root);
    if (alg == 1) return new TransT<A::TRANSPOSITION, ll::Candidate>(root);
    return new TransT<A::MERGE_AND_SPLIT, ll::Candidate>(root);
  }
  if (alg == 0) return new TransT<A::STANDARD, string>(root);
  if (alg == 1) return new TransT<A::TRANSPOSITION, string>(root);
  return new TransT<A::MERGE_AND_SPLIT, string>(root);
}

// A stream buffer that takes `room` bytes and then fails.
struct FullBuf : std::streambuf {
  size_t room;
  string got;
  explicit FullBuf(size_t r) : room(r) {}
  int overflow(int c) override {
    if (c == traits_type::eof()) return 0;
    if (got.size() >= room) return traits_type::eof();
    got.push_back((char)c);
    return c;
  }
  std::streamsize xsputn(const char *s, std::streamsize n) override {
    std::streamsize k = std::min<std::streamsize>(n, (std::streamsize)(room - got.size()));
    got.append(s, (size_t)k);
    return k;
  }
};

// ------------------------------------------------------------------ filter

// The edit distances again, only to decide which sessions TLC should look at.
static size_t oracle_distance(int alg, const string &a, const string &b) {
  const string &q = a.size() <= b.size() ? a : b, &w = a.size() <= b.size() ? b : a;
  size_t m = q.size();
  static thread_local vector<unsigned> pp, p, c;
  pp.assign(m + 1, 0);
  p.resize(m + 1);
  c.resize(m + 1);
  for (size_t j = 0; j <= m; ++j) p[j] = (unsigned)j;
  for (size_t i = 1; i <= w.size(); ++i) {
    c[0] = (unsigned)i;
    for (size_t j = 1; j <= m; ++j) {
      unsigned x = std::min(std::min(c[j - 1], p[j]) + 1, p[j - 1] + (q[j - 1] != w[i - 1]));
      if (alg == 1 && i > 1 && j > 1 && q[j - 1] == w[i - 2] && q[j - 2] == w[i - 1]) x = std::min(x, pp[j - 2] + 1);
      if (alg == 2 && j > 1) x = std::min(x, p[j - 2] + 1);
      if (alg == 2 && i > 1) x = std::min(x, pp[j - 1] + 1);
      c[j] = x;
    }
    pp.swap(p);
    p.swap(c);
  }
  return p[m];
}

// ------------------------------------------------------------------ session

// Dictionary nodes, each on a page of its own, so that one can tell which of
// them are looked at.  Nothing in it is ever freed but the pages.
struct Arena {
  static constexpr size_t PAGE = 4096;
  char *base = nullptr;
  size_t size = 0;
  vector<string> at;    // the string that leads to each node
  vector<int> seen;
  int step = 0;         // seen counts from 1: the step at which it was seen first
  static inline Arena *watched = nullptr;
  ~Arena() { if (base != nullptr) munmap(base, size * PAGE); }
  ll::SortedDawg *make(const vector<string> &terms) {
    std::map<string, std::pair<size_t, bool>> node;
    for (auto &t : terms)
      for (size_t k = 0; k <= t.size(); ++k) node.try_emplace(t.substr(0, k), 0, false);
    node.try_emplace("", 0, false);
    for (auto &t : terms) node[t].second = true;
    size = node.size();
    void *m = mmap(nullptr, size * PAGE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) return nullptr;
    base = (char *)m;
    for (auto &[w, x] : node) {
      x.first = at.size();
      new (base + x.first * PAGE) ll::DawgNode(x.second);
      at.push_back(w);
      if (!w.empty()) of(node[w.substr(0, w.size() - 1)].first)->add_edge(w.back(), of(x.first));
    }
    return new ll::SortedDawg(of(0), terms.size());
  }
  ll::DawgNode *of(size_t k) { return (ll::DawgNode *)(base + k * PAGE); }
  static void fault(int, siginfo_t *i, void *) {
    char *a = (char *)i->si_addr;
    if (watched == nullptr || a < watched->base || a >= watched->base + watched->size * PAGE) {
      signal(SIGSEGV, SIG_DFL);
      return;
    }
    size_t k = (size_t)(a - watched->base) / PAGE;
    watched->seen[k] = watched->step + 1;
    mprotect(watched->base + k * PAGE, PAGE, PROT_READ | PROT_WRITE);
  }
  // Runs f and tells what it looked at.
  template <class F> void watch(F f) {
    seen.assign(size, 0);
    step = 0;
    struct sigaction now{}, old{};
    now.sa_sigaction = fault;
    now.sa_flags = SA_SIGINFO;
    sigaction(SIGSEGV, &now, &old);
    watched = this;
    mprotect(base, size * PAGE, PROT_NONE);
    f();
    mprotect(base, size * PAGE, PROT_READ | PROT_WRITE);
    watched = nullptr;
    sigaction(SIGSEGV, &old, nullptr);
  }
};

struct Dict {
  ll::Dawg *dawg = nullptr;
  std::shared_ptr<Arena> arena;
  ll::DawgNode *node = nullptr; // a part of another dictionary: what lies below this node
  int of = -1;                  // the other dictionary
  vector<string> terms; // what it should hold, sorted, without duplicates
  bool open = false;
  bool loose = false; // may have nodes that lead to no term
  bool raw = false; // loaded from a message that need not be minimal
  std::unordered_map<string, int> index;
  bool indexed = false;
};

struct Shadow { // what an iteration has shown so far
  std::map<string, size_t> todo;
  std::set<string> shown;
  string current;
  bool has_current = false;
  size_t pos = 0;
};

using Item = std::pair<string, size_t>;

struct Recorder {
  string dir;
  string out; // events
  bool first = true;
  bool suspect = false;
  bool screening = false; // compute the filter
  bool logging = true;

  void ev(const string &body) {
    if (!logging) return;
    if (!first) out += ",";
    first = false;
    out += "{" + body + "}";
  }
  void expect(bool b) { if (!b) suspect = true; }
  void threw(const std::exception &e) {
    suspect = true;
    string w = e.what();
    std::erase_if(w, [](char x) { return x < 32 || x > 126 || x == '"' || x == '\\'; });
    ev("\"op\":\"Throw\",\"what\":\"" + w + "\"");
  }
  void forget() {
    string().swap(out);
    first = true;
    suspect = false;
  }
};

struct Session : Recorder {
  std::map<int, Dict> dicts;
  std::map<int, std::unique_ptr<Trans>> trans;
  std::map<int, std::unique_ptr<Range>> ranges;
  std::map<int, std::unique_ptr<Iter>> iters;
  std::map<int, Shadow> shadows;
  std::map<int, DistancePtr> dists[3];
  Session *parent = nullptr; // the session whose dictionaries and distance functions this thread uses
  std::map<int, string> files;              // path of each file
  std::map<int, vector<string>> file_terms; // what each file should hold
  std::map<int, bool> file_ok;
  std::map<int, bool> file_raw;

  void clear() {
    iters.clear();
    shadows.clear();
    ranges.clear();
    trans.clear();
    for (auto &[k, d] : dicts)
      if (parent == nullptr && d.dawg != nullptr && d.dawg->root() != nullptr && !d.arena) delete d.dawg;
    dicts.clear();
    for (auto &m : dists) m.clear();
    for (auto &[k, p] : files) {
      std::error_code ec;
      fs::remove(p, ec);
    }
    files.clear();
    file_terms.clear();
    file_ok.clear();
    file_raw.clear();
    forget();
  }

  string path(int f) {
    auto it = files.find(f);
    if (it == files.end()) it = files.emplace(f, dir + "/f" + std::to_string(f) + ".pb").first;
    return it->second;
  }
  int idx(int d, const string &t) {
    Dict &D = dicts[d];
    if (!D.indexed) {
      D.index.clear();
      for (size_t k = 0; k < D.terms.size(); ++k) D.index.emplace(D.terms[k], (int)k + 1);
      D.indexed = true;
    }
    auto it = D.index.find(t);
    return it == D.index.end() ? 0 : it->second;
  }
  void set_terms(int d, vector<string> seq) {
    std::sort(seq.begin(), seq.end());
    seq.erase(std::unique(seq.begin(), seq.end()), seq.end());
    dicts[d].terms = std::move(seq);
    dicts[d].indexed = false;
  }
  // Everything that refers to a dictionary goes before it does.
  void drop(int d) {
    auto it = dicts.find(d);
    if (it == dicts.end()) return;
    for (;;) {
      auto part = std::find_if(dicts.begin(), dicts.end(), [&](auto &x) { return x.second.of == d; });
      if (part == dicts.end()) break;
      drop(part->first);
    }
    std::erase_if(iters, [&](auto &x) { return x.second->d == d; });
    std::erase_if(ranges, [&](auto &x) { return x.second->d == d; });
    std::erase_if(trans, [&](auto &x) { return x.second->d == d; });
    if (it->second.dawg != nullptr && it->second.dawg->root() != nullptr && !it->second.arena) delete it->second.dawg;
    dicts.erase(it);
  }
  bool usable(int d) {
    auto it = dicts.find(d);
    return it != dicts.end() && it->second.dawg != nullptr && it->second.dawg->root() != nullptr && !it->second.open;
  }

  ll::DawgNode *root_of(int d) {
    Dict &D = dicts[d];
    return D.dawg != nullptr ? D.dawg->root() : D.node;
  }
  bool walkable(int d) { return usable(d) || (dicts.count(d) && dicts[d].node != nullptr); }

  std::map<string, size_t> answer(int alg, int d, const string &q, size_t n) {
    std::map<string, size_t> a;
    for (const string &t : dicts[d].terms) {
      size_t diff = t.size() < q.size() ? q.size() - t.size() : t.size() - q.size();
      if (diff > n) continue;
      size_t x = oracle_distance(alg, q, t);
      if (x <= n) a.emplace(t, x);
    }
    return a;
  }

  // ---- dictionaries
  void build(int d, char src, vector<string> seq) {
    ll::Dawg *dawg = nullptr;
    if (src == 'l') {
      std::list<string> l(seq.begin(), seq.end());
      dawg = ll::sorted_dawg(l.begin(), l.end());
    } else if (src == 's') {
      std::set<string> s(seq.begin(), seq.end());
      seq.assign(s.begin(), s.end());
      dawg = ll::sorted_dawg(s.begin(), s.end());
    } else {
      vector<string> v(seq);
      dawg = ll::sorted_dawg(v.begin(), v.end());
    }
    expect((dawg != nullptr) == std::is_sorted(seq.begin(), seq.end()));
    if (logging) {
      string b = "\"op\":\"Build\",\"d\":" + std::to_string(d) + ",\"ok\":" + jb(dawg != nullptr) + ",\"seq\":[";
      for (size_t k = 0; k < seq.size(); ++k) {
        if (k) b += ",";
        b += jterm(seq[k]);
      }
      ev(b + "]");
    }
    if (dawg != nullptr) {
      drop(d);
      dicts[d].dawg = dawg;
      set_terms(d, seq);
    }
  }
  void open(int d) {
    drop(d);
    auto *s = new ll::SortedDawg();
    s->init();
    dicts[d].dawg = s;
    dicts[d].open = true;
    ev("\"op\":\"Open\",\"d\":" + std::to_string(d));
  }
  void add(int d, const string &t) {
    Dict &D = dicts[d];
    bool ok = D.dawg->add(t);
    expect(ok == (D.open && (D.terms.empty() || t >= D.terms.back())));
    ev("\"op\":\"Add\",\"d\":" + std::to_string(d) + ",\"t\":" + jterm(t) + ",\"ok\":" + jb(ok));
    if (ok && D.open && (D.terms.empty() || t > D.terms.back())) {
      D.terms.push_back(t);
      D.indexed = false;
    }
  }
  void finish(int d) {
    auto *s = dynamic_cast<ll::SortedDawg *>(dicts[d].dawg);
    s->finish();
    s->clean_up();
    dicts[d].open = false;
    ev("\"op\":\"Finish\",\"d\":" + std::to_string(d));
  }
  void contains(int d, const vector<string> &probes) {
    string b;
    for (auto &t : probes) {
      bool in = dicts[d].dawg->contains(t);
      expect(in == (idx(d, t) != 0));
      if (logging) b += (b.empty() ? "[" : ",[") + jterm(t) + "," + jb(in) + "]";
    }
    ev("\"op\":\"Contains\",\"d\":" + std::to_string(d) + ",\"probes\":[" + b + "]");
  }
  void size(int d) {
    size_t n = dicts[d].dawg->size();
    expect(n == dicts[d].terms.size());
    ev("\"op\":\"Size\",\"d\":" + std::to_string(d) + ",\"n\":" + std::to_string(clip(n)));
  }
  void remove(int d, const string &t) {
    bool ok = dicts[d].dawg->remove(t);
    expect(!ok);
    ev("\"op\":\"Remove\",\"d\":" + std::to_string(d) + ",\"t\":" + jterm(t) + ",\"ok\":" + jb(ok));
  }
  void equal(int a, int b) {
    const ll::Dawg &x = *dicts[a].dawg, &y = *dicts[b].dawg;
    bool eq = x == y, ne = x != y;
    if (eq == ne) eq = !(dicts[a].terms == dicts[b].terms); // == and != disagree: not a legal result
    bool heq = std::hash<ll::Dawg>()(x) == std::hash<ll::Dawg>()(y);
    expect(eq == (dicts[a].terms == dicts[b].terms));
    expect(!eq || heq);
    ev("\"op\":\"Equal\",\"d\":" + std::to_string(a) + ",\"d2\":" + std::to_string(b) + ",\"eq\":" + jb(eq) + ",\"heq\":" + jb(heq));
  }

  void graph(int d) {
    ll::DawgNode *root = root_of(d);
    // reverse post-order, so that edges lead to higher numbers
    vector<ll::DawgNode *> order;
    std::unordered_map<ll::DawgNode *, int> state;
    bool cyclic = root == nullptr;
    struct Fr { ll::DawgNode *n; vector<ll::DawgNode *> kids; size_t i; };
    vector<Fr> st;
    auto enter = [&](ll::DawgNode *n) {
      state[n] = 1;
      Fr f{n, {}, 0};
      n->for_each_edge([&](char, ll::DawgNode *t) { f.kids.push_back(t); });
      st.push_back(std::move(f));
    };
    if (!cyclic) enter(root);
    while (!st.empty() && !cyclic && state.size() < 2000000) {
      Fr &f = st.back();
      if (f.i < f.kids.size()) {
        ll::DawgNode *t = f.kids[f.i++];
        if (t == nullptr) { cyclic = true; break; }
        auto it = state.find(t);
        if (it == state.end()) enter(t);
        else if (it->second == 1) cyclic = true;
      } else {
        state[f.n] = 2;
        order.push_back(f.n);
        st.pop_back();
      }
    }
    if (cyclic) {
      suspect = true;
      ev("\"op\":\"Cycle\",\"d\":" + std::to_string(d));
      return;
    }
    std::reverse(order.begin(), order.end());
    std::unordered_map<ll::DawgNode *, int> num;
    for (size_t k = 0; k < order.size(); ++k) num[order[k]] = (int)k + 1;
    string nodes;
    vector<vector<std::pair<unsigned char, int>>> out_edges(order.size() + 1);
    for (auto *n : order) {
      int me = num[n];
      string edges;
      n->for_each_edge([&](char c, ll::DawgNode *t) {
        out_edges[me].emplace_back((unsigned char)c, num[t]);
        if (logging)
          edges += (edges.empty() ? "[" : ",[") + std::to_string((unsigned char)c) + "," + std::to_string(num[t]) + "]";
        // what the label leads to must be what following it gives
        if (n->transition(c) != t) {
          suspect = true;
          edges += ",[0,0]";
        }
      });
      if (logging) nodes += string(nodes.empty() ? "[" : ",[") + jb(n->is_final()) + ",[" + edges + "]]";
    }
    if (screening) {
      std::map<std::pair<bool, vector<std::pair<unsigned char, int>>>, int> classes;
      vector<int> cls(order.size() + 1, 0);
      vector<size_t> words(order.size() + 1, 0);
      for (size_t k = order.size(); k >= 1; --k) {
        auto &es = out_edges[k];
        bool f = order[k - 1]->is_final();
        words[k] = f ? 1 : 0;
        auto sig = es;
        for (auto &e : sig) {
          words[k] += words[e.second];
          e.second = cls[e.second];
        }
        std::sort(sig.begin(), sig.end());
        cls[k] = classes.emplace(std::make_pair(f, sig), (int)classes.size()).first->second;
        if (k > 1 && words[k] == 0 && !dicts[d].loose) suspect = true;
      }
      expect(dicts[d].raw || classes.size() == order.size());
      expect(words[1] == dicts[d].terms.size());
      for (auto &t : dicts[d].terms) {
        ll::DawgNode *n = root;
        for (char c : t) if (n) n = n->transition(c);
        expect(n && n->is_final());
      }
    }
    ev(string(dicts[d].raw ? "\"op\":\"AnyGraph\"" : "\"op\":\"Graph\"") + ",\"d\":" + std::to_string(d) + ",\"nodes\":[" + nodes + "]");
  }

  void enumerate(int d) {
    string r;
    size_t cap = dicts[d].terms.size() * 2 + 64, count = 0;
    std::set<string> seen;
    auto see = [&](const string &t) {
      int i = idx(d, t);
      if (screening) expect(i != 0 && seen.insert(t).second);
      if (logging) r += (count ? "," : "") + std::to_string(i);
      return ++count < cap;
    };
    if (dicts[d].dawg != nullptr) {
      for (string t : *dicts[d].dawg) if (!see(t)) break;
    } else {
      ll::DawgIterator end(dicts[d].terms.size());
      for (ll::DawgIterator x(dicts[d].node); x != end; ++x) if (!see(*x)) break;
    }
    expect(count == dicts[d].terms.size());
    ev("\"op\":\"Enum\",\"d\":" + std::to_string(d) + ",\"res\":[" + r + "]");
  }
  void probe(int d) { // everything cheap that can be observed of a dictionary
    size(d);
    enumerate(d);
    graph(d);
  }
  void dropev(int d) {
    drop(d);
    ev("\"op\":\"Drop\",\"d\":" + std::to_string(d));
  }

  // ---- searches
  string results(Trans &t, int d, char kind, const string &q, size_t n, const std::map<string, size_t> *want) {
    string r;
    size_t cap = dicts[d].terms.size() * 2 + 64, count = 0, good = 0, limit = 0;
    if (want) for (auto &[w, x] : *want) limit += x <= n;
    std::set<string> seen;
    t.each(q, n, [&](const string &term, size_t dist) {
      if (logging) {
        if (count) r += ",";
        int i = idx(d, term);
        r += kind == 'c' ? "[" + std::to_string(i) + "," + std::to_string(clip(dist)) + "]" : std::to_string(i);
      }
      if (want) {
        auto it = want->find(term);
        if (it != want->end() && it->second <= n && (kind != 'c' || it->second == dist) && seen.insert(term).second) ++good;
      }
      return ++count < cap;
    });
    if (want) expect(good == limit && count == limit);
    return "[" + r + "]";
  }

  void search_event(int alg, int d, const string &q, size_t top, const string &runs) {
    ev("\"op\":\"Search\",\"alg\":\"" + string(ALG[alg]) + "\",\"d\":" + std::to_string(d) + ",\"q\":" + jterm(q) +
       ",\"nmax\":" + std::to_string(clip(top)) + ",\"runs\":[" + runs + "]");
  }
  void search(int alg, int d, const string &q, const string &kinds, const vector<size_t> &ns) {
    string b;
    size_t top = *std::max_element(ns.begin(), ns.end());
    std::map<string, size_t> want;
    if (screening) want = answer(alg, d, q, top);
    for (char kind : kinds) {
      std::unique_ptr<Trans> t(make_trans(alg, kind, root_of(d)));
      for (size_t n : ns) {
        string r = results(*t, d, kind, q, n, screening ? &want : nullptr);
        if (!b.empty()) b += ",";
        b += "{\"n\":" + std::to_string(clip(n)) + ",\"kind\":\"" + kind + "\",\"res\":" + r + "}";
      }
    }
    search_event(alg, d, q, top, b);
  }
  void new_trans(int id, int alg, char kind, int d) {
    std::erase_if(iters, [&](auto &x) { return x.second->tr == id; });
    std::erase_if(ranges, [&](auto &x) { return x.second->tr == id; });
    auto *t = make_trans(alg, kind, root_of(d));
    t->alg = alg;
    t->d = d;
    t->kind = kind;
    trans[id].reset(t);
  }
  // This session's, or one it shares with other threads.
  Trans *find_trans(int id) {
    auto x = trans.find(id);
    return x != trans.end() ? x->second.get() : parent != nullptr ? parent->find_trans(id) : nullptr;
  }
  Range *find_range(int r) {
    auto x = ranges.find(r);
    return x != ranges.end() ? x->second.get() : parent != nullptr ? parent->find_range(r) : nullptr;
  }
  void copy_trans(int to, int from) {
    if (to == from) return;
    std::erase_if(iters, [&](auto &x) { return x.second->tr == to; });
    std::erase_if(ranges, [&](auto &x) { return x.second->tr == to; });
    auto target = trans.find(to);
    if (target == trans.end() || !target->second->assign(*trans[from])) trans[to].reset(trans[from]->copy());
  }
  void copy_range(int to, int from) {
    if (to != from) ranges[to].reset(ranges[from]->copy());
  }
  void drop_trans(int id) {
    std::erase_if(iters, [&](auto &x) { return x.second->tr == id; });
    std::erase_if(ranges, [&](auto &x) { return x.second->tr == id; });
    trans.erase(id);
  }
  void trans_search(int id, const string &q, const vector<size_t> &ns) {
    Trans &t = *find_trans(id);
    string b;
    size_t top = *std::max_element(ns.begin(), ns.end());
    std::map<string, size_t> want;
    if (screening) want = answer(t.alg, t.d, q, top);
    for (size_t n : ns) {
      string r = results(t, t.d, t.kind, q, n, screening ? &want : nullptr);
      if (!b.empty()) b += ",";
      b += "{\"n\":" + std::to_string(clip(n)) + ",\"kind\":\"" + t.kind + "\",\"res\":" + r + "}";
    }
    search_event(t.alg, t.d, q, top, b);
  }
  void new_range(int r, int tr, const string &q, size_t n) {
    Trans &t = *find_trans(tr);
    std::unique_ptr<Range> x(t.range(q, n));
    x->alg = t.alg;
    x->d = t.d;
    x->tr = tr;
    x->q = q;
    x->n = n;
    ranges[r] = std::move(x);
  }
  void begin(int it, int r) {
    Range &x = *find_range(r);
    std::unique_ptr<Iter> i(x.begin());
    i->d = x.d;
    i->tr = x.tr;
    iters[it] = std::move(i);
    shadows[it] = Shadow();
    if (screening) shadows[it].todo = answer(x.alg, x.d, x.q, x.n);
    ev("\"op\":\"SearchBegin\",\"it\":" + std::to_string(it) + ",\"alg\":\"" + ALG[x.alg] + "\",\"d\":" +
       std::to_string(x.d) + ",\"q\":" + jterm(x.q) + ",\"n\":" + std::to_string(clip(x.n)));
  }
  void enum_begin(int it, int d) {
    iters[it].reset(dicts[d].dawg != nullptr ? new EIter(dicts[d].dawg) : new EIter(dicts[d].node, dicts[d].terms.size()));
    iters[it]->d = d;
    shadows[it] = Shadow();
    if (screening) for (auto &t : dicts[d].terms) shadows[it].todo.emplace(t, 0);
    ev("\"op\":\"EnumBegin\",\"it\":" + std::to_string(it) + ",\"d\":" + std::to_string(d));
  }
  bool iter_end(int it) {
    bool b = iters[it]->at_end();
    Shadow &s = shadows[it];
    if (screening) expect(b == (s.pos >= s.todo.size()));
    ev("\"op\":\"IterEnd\",\"it\":" + std::to_string(it) + ",\"b\":" + jb(b));
    return b;
  }
  // Reads the current item unless the iteration has ended.
  void iter_read(int it) {
    Iter &i = *iters[it];
    if (i.at_end()) return;
    string t = i.term();
    size_t x = i.dist();
    Shadow &s = shadows[it];
    if (screening) {
      if (s.has_current) expect(s.current == t);
      else {
        auto f = s.todo.find(t);
        expect(f != s.todo.end() && (!i.has_dist || f->second == x) && s.shown.insert(t).second);
        s.current = t;
        s.has_current = true;
      }
    }
    int k = idx(i.d, t);
    if (i.has_dist || i.tr < 0)
      ev("\"op\":\"IterRead\",\"it\":" + std::to_string(it) + ",\"item\":[" + std::to_string(k) + "," + std::to_string(clip(x)) + "]");
    else
      ev("\"op\":\"IterReadTerm\",\"it\":" + std::to_string(it) + ",\"item\":" + std::to_string(k));
  }
  void iter_next(int it) {
    Iter &i = *iters[it];
    if (i.tr < 0 && i.at_end()) return; // a dictionary's iterator must not pass its end
    i.next();
    Shadow &s = shadows[it];
    if (s.pos < s.todo.size()) ++s.pos;
    s.has_current = false;
    ev("\"op\":\"IterNext\",\"it\":" + std::to_string(it));
  }
  void iter_drop(int it) {
    iters.erase(it);
    shadows.erase(it);
    ev("\"op\":\"IterDrop\",\"it\":" + std::to_string(it));
  }
  // Copies an iterator, or moves it; one of the same kind is assigned to.
  void iter_copy(int to, int from, bool move) {
    if (to == from) return;
    auto target = iters.find(to);
    if (move) iters[to].reset(iters[from]->move());
    else if (target == iters.end() || !target->second->assign(*iters[from])) iters[to].reset(iters[from]->copy());
    iters[to]->d = iters[from]->d;
    iters[to]->tr = iters[from]->tr;
    shadows[to] = shadows[from];
    ev("\"op\":\"IterCopy\",\"it\":" + std::to_string(from) + ",\"to\":" + std::to_string(to));
    if (move) iter_drop(from);
  }
  // Reads on to the end, with a bound.
  void iter_drain(int it) {
    size_t cap = dicts[iters[it]->d].terms.size() * 2 + 64;
    for (size_t k = 0; k < cap && !iter_end(it); ++k) {
      iter_read(it);
      iter_next(it);
    }
  }

  // ---- distances
  lld::Distance &dist_object(int alg, int o) {
    if (parent != nullptr) return parent->dist_object(alg, o);
    auto &m = dists[alg];
    auto it = m.find(o);
    if (it == m.end()) {
      lld::Distance *x = alg == 0 ? (lld::Distance *)new lld::StandardDistance()
                       : alg == 1 ? (lld::Distance *)new lld::TranspositionDistance()
                                  : (lld::Distance *)new lld::MergeAndSplitDistance();
      it = m.emplace(o, DistancePtr(x)).first;
    }
    return *it->second;
  }
  void distance(int alg, int o, const vector<string> &vw) {
    lld::Distance &f = dist_object(alg, o);
    string b;
    for (size_t k = 0; k + 1 < vw.size(); k += 2) {
      size_t r = f(vw[k], vw[k + 1]);
      if (screening) expect(r == oracle_distance(alg, vw[k], vw[k + 1]));
      if (logging) b += (b.empty() ? "[" : ",[") + jterm(vw[k]) + "," + jterm(vw[k + 1]) + "," + std::to_string(clip(r)) + "]";
    }
    ev("\"op\":\"Dist\",\"alg\":\"" + string(ALG[alg]) + "\",\"pairs\":[" + b + "]");
  }
  // The axioms, on the values the function gives.
  void axioms(int alg, int o, const vector<string> &uvw) {
    lld::Distance &f = dist_object(alg, o);
    string b;
    for (size_t k = 0; k + 3 < uvw.size(); k += 4) {
      const string &u = uvw[k], &v = uvw[k + 1], &w = uvw[k + 2], &x = uvw[k + 3];
      size_t r[8] = {f(u, v), f(v, u), f(v, w), f(u, w), f(u, u), f(x + u, x + v), f(u + x, v + x), f(x + u + w, x + v + w)};
      bool ok = (r[0] == 0) == (u == v) && r[0] == r[1] && r[4] == 0 && r[3] <= r[0] + r[2] && r[5] == r[0] && r[6] == r[0];
      if (!ok) suspect = true;
      if (logging) {
        b += (b.empty() ? "[" : ",[") + jterm(u) + "," + jterm(v) + "," + jterm(w) + "," + jterm(x) + ",[";
        for (int m = 0; m < 8; ++m) b += (m ? "," : "") + std::to_string(clip(r[m]));
        b += "]]";
      }
    }
    ev("\"op\":\"Axioms\",\"alg\":\"" + string(ALG[alg]) + "\",\"cases\":[" + b + "]");
  }

  // ---- files
  size_t message_length(int d) {
    std::ostringstream o;
    ll::serialize_protobuf(dicts[d].dawg, o);
    return o.str().size();
  }
  // how: p fs::path, s std::string, c const char *, o std::ostream
  void ser(int d, int f, char how, long limit, const string &target) {
    ll::Dawg *dawg = dicts[d].dawg;
    string p = target.empty() ? path(f) : target;
    bool all = true, ok = false;
    if (how == 'o') {
      size_t len = limit < 0 ? 0 : message_length(d);
      if (limit < 0) {
        std::ostringstream o;
        ok = ll::serialize_protobuf(dawg, o);
        std::ofstream(p, std::ios::binary | std::ios::trunc) << o.str();
      } else {
        FullBuf buf((size_t)limit);
        std::ostream o(&buf);
        ok = ll::serialize_protobuf(dawg, o);
        all = (size_t)limit >= len;
        std::ofstream(p, std::ios::binary | std::ios::trunc) << buf.got;
      }
    } else {
      struct rlimit old{};
      if (limit >= 0) {
        all = (size_t)limit >= message_length(d);
        getrlimit(RLIMIT_FSIZE, &old);
        struct rlimit now = old;
        now.rlim_cur = (rlim_t)limit;
        setrlimit(RLIMIT_FSIZE, &now);
      }
      if (how == 'p') ok = ll::serialize_protobuf(dawg, fs::path(p));
      else if (how == 's') ok = ll::serialize_protobuf(dawg, p);
      else ok = ll::serialize_protobuf(dawg, p.c_str());
      if (limit >= 0) setrlimit(RLIMIT_FSIZE, &old);
      if (!target.empty()) all = false;
    }
    expect(ok == all);
    file_terms[f] = dicts[d].terms;
    file_raw[f] = dicts[d].raw;
    file_ok[f] = all;
    ev("\"op\":\"Ser\",\"d\":" + std::to_string(d) + ",\"f\":" + std::to_string(f) + ",\"all\":" + jb(all) + ",\"ok\":" + jb(ok));
  }
  ll::Dawg *load(const string &p, char how) {
    if (how == 'o') {
      if (!fs::exists(p)) { std::ifstream bad(p); return ll::deserialize_protobuf(bad); }
      std::ifstream in(p, std::ios::binary);
      std::stringstream ss;
      ss << in.rdbuf();
      std::istringstream is(ss.str());
      return ll::deserialize_protobuf(is);
    }
    if (how == 'p') return ll::deserialize_protobuf(fs::path(p));
    if (how == 's') return ll::deserialize_protobuf(p);
    return ll::deserialize_protobuf(p.c_str());
  }
  bool des(int f, int d, char how) {
    ll::Dawg *dawg = load(path(f), how);
    expect((dawg != nullptr) == file_ok[f]);
    ev("\"op\":\"Des\",\"f\":" + std::to_string(f) + ",\"d\":" + std::to_string(d) + ",\"ok\":" + jb(dawg != nullptr));
    if (dawg == nullptr) return false;
    drop(d);
    dicts[d].dawg = dawg;
    dicts[d].terms = file_terms[f];
    dicts[d].raw = file_raw[f];
    dicts[d].indexed = false;
    return dawg->root() != nullptr;
  }
  void remove_file(int f) {
    std::error_code ec;
    fs::remove(path(f), ec);
    file_ok[f] = false;
    ev("\"op\":\"RemoveFile\",\"f\":" + std::to_string(f));
  }
  void copy_file(int f, int g) {
    std::error_code ec;
    fs::copy_file(path(f), path(g), fs::copy_options::overwrite_existing, ec);
    file_ok[g] = file_ok[f];
    file_terms[g] = file_terms[f];
    file_raw[g] = file_raw[f];
    ev("\"op\":\"CopyFile\",\"f\":" + std::to_string(f) + ",\"g\":" + std::to_string(g));
  }
  static string slurp(const string &p) {
    std::ifstream in(p, std::ios::binary);
    std::stringstream ss;
    ss << in.rdbuf();
    return ss.str();
  }
  // Prefixes of the serialized dictionary.
  void tears(int d, char how, long step, long from, long to) {
    ser(d, 90, 'c', -1, "");
    string full = slurp(path(90));
    if (to < 0 || to > (long)full.size()) to = (long)full.size();
    for (long k = from; k <= to; k += step) {
      copy_file(90, 91);
      std::ofstream(path(91), std::ios::binary | std::ios::trunc) << full.substr(0, (size_t)k);
      bool lossless = k == (long)full.size();
      if (!lossless) file_ok[91] = false;
      ev(string("\"op\":\"Tear\",\"f\":91,\"lossless\":") + jb(lossless));
      if (des(91, 99, how)) {
        probe(99);
        dropev(99);
      }
    }
  }
  // The bytes a dictionary is written as, read independently of the library.
  void message_of(int d) {
    std::ostringstream o;
    bool ok = ll::serialize_protobuf(dicts[d].dawg, o);
    msg::Dictionary m;
    if (!ok || !m.parse(o.str())) {
      suspect = true;
      ev("\"op\":\"NoMessage\",\"d\":" + std::to_string(d));
      return;
    }
    string nodes = m.nodes();
    if (screening) {
      auto lang = m.language(dicts[d].terms.size() + 5);
      expect(lang == dicts[d].terms && m.size == lang.size());
    }
    ev("\"op\":\"Message\",\"d\":" + std::to_string(d) + ",\"nodes\":[" + nodes + "],\"size\":" + std::to_string(clip(m.size)));
  }
  static msg::Dictionary read_nodes(const vector<string> &nodes) {
    msg::Dictionary m;
    for (size_t k = 0; k < nodes.size(); ++k) { // F,61>2,62>3
      m.ids.push_back(k + 1);
      if (nodes[k][0] == '1') m.finals.push_back(k + 1);
      for (size_t p = 1; p + 3 < nodes[k].size();) {
        m.edges.push_back({k + 1, (uint64_t)(unsigned char)unhex(nodes[k].substr(p + 1, 2))[0], strtoull(nodes[k].c_str() + p + 4, nullptr, 10)});
        p = nodes[k].find(',', p + 1);
        if (p == string::npos) break;
      }
    }
    m.root = 1;
    return m;
  }
  void put_message(int f, unsigned variant, const vector<string> &nodes) {
    msg::Dictionary m = read_nodes(nodes);
    file_terms[f] = m.language(100000);
    m.size = file_terms[f].size();
    file_ok[f] = true;
    file_raw[f] = true;
    ev("\"op\":\"PutMessage\",\"f\":" + std::to_string(f) + ",\"nodes\":[" + m.nodes() + "]");
    std::ofstream(path(f), std::ios::binary | std::ios::trunc) << m.bytes(variant);
  }
  // What lies below the node a string leads to.
  void view(int d2, int d, const string &t) {
    ll::DawgNode *n = root_of(d);
    for (char c : t) if (n != nullptr) n = n->transition(c);
    vector<string> below;
    for (auto &w : dicts[d].terms)
      if (w.size() >= t.size() && w.compare(0, t.size(), t) == 0) below.push_back(w.substr(t.size()));
    expect(n != nullptr ? t.empty() || !below.empty() || dicts[d].loose : below.empty() && !t.empty());
    ev("\"op\":\"Below\",\"d\":" + std::to_string(d) + ",\"d2\":" + std::to_string(d2) + ",\"t\":" + jterm(t) + ",\"ok\":" + jb(n != nullptr));
    if (n == nullptr) return;
    bool raw = dicts[d].raw, loose = dicts[d].loose;
    int of = d;
    drop(d2);
    Dict &D = dicts[d2];
    D.node = n;
    D.of = of;
    D.raw = raw;
    D.loose = loose;
    set_terms(d2, below);
  }
  // A dictionary of nodes made one by one.
  void hand(int d, unsigned how, const vector<string> &nodes) {
    msg::Dictionary m = read_nodes(nodes);
    drop(d);
    vector<ll::DawgNode *> made(nodes.size() + 1, nullptr);
    for (size_t k = nodes.size(); k >= 1; --k) {
      bool final = std::count(m.finals.begin(), m.finals.end(), k) != 0;
      vector<std::pair<char, ll::DawgNode *>> edges;
      for (auto &e : m.edges) if (e.source == k) edges.emplace_back((char)e.label, made[e.target]);
      if (how & 1) std::reverse(edges.begin(), edges.end());
      if (how & 2) {
        std::map<char, ll::DawgNode *> map(edges.begin(), edges.end());
        made[k] = new ll::DawgNode(map, final);
      } else {
        made[k] = how & 4 ? new ll::DawgNode() : new ll::DawgNode(final);
        for (auto &[c, t] : edges) made[k]->add_edge(c, t);
        if (how & 4) made[k]->is_final(final);
      }
    }
    vector<string> terms = m.language(100000);
    dicts[d].dawg = new ll::SortedDawg(made[1], terms.size());
    dicts[d].raw = dicts[d].loose = true;
    set_terms(d, terms);
    ev("\"op\":\"HandMade\",\"d\":" + std::to_string(d) + ",\"nodes\":[" + m.nodes() + "]");
  }
  // A dictionary in an arena.
  void paged(int d, const vector<string> &seq) {
    drop(d);
    set_terms(d, seq);
    auto a = std::make_shared<Arena>();
    dicts[d].dawg = a->make(dicts[d].terms);
    dicts[d].arena = a;
    dicts[d].raw = true;
    ev("\"op\":\"Build\",\"d\":" + std::to_string(d) + ",\"seq\":" + "[" + [&] { string b; for (auto &t : dicts[d].terms) b += (b.empty() ? "" : ",") + jterm(t); return b; }() + "],\"ok\":true");
  }
  string jseen(const Arena &a) {
    string s;
    for (size_t k = 0; k < a.size; ++k) if (a.seen[k]) s += (s.empty() ? "" : ",") + jterm(a.at[k]);
    return "[" + s + "]";
  }
  void explore(int alg, int d, const string &q, const vector<size_t> &ns) {
    Arena &a = *dicts[d].arena;
    for (size_t n : ns) {
      std::map<string, size_t> want;
      if (screening) want = answer(alg, d, q, n);
      string r;
      a.watch([&] {
        std::unique_ptr<Trans> t(make_trans(alg, 'c', root_of(d)));
        r = results(*t, d, 'c', q, n, screening ? &want : nullptr);
      });
      if (screening) {
        for (size_t k = 1; k < a.size && !suspect; ++k) {
          if (!a.seen[k]) continue;
          string p = a.at[k].substr(0, a.at[k].size() - 1);
          bool viable = false;
          for (size_t j = 0; j <= q.size() && !viable; ++j) viable = oracle_distance(alg, p, q.substr(0, j)) <= n;
          expect(viable);
        }
      }
      ev("\"op\":\"Explore\",\"alg\":\"" + string(ALG[alg]) + "\",\"d\":" + std::to_string(d) + ",\"q\":" + jterm(q) + ",\"n\":" + std::to_string(clip(n)) +
         ",\"res\":" + r + ",\"seen\":" + jseen(a));
    }
  }
  // alg 3: enumerate
  void on_demand(int alg, int d, const string &q, size_t n) {
    Arena &a = *dicts[d].arena;
    size_t cap = dicts[d].terms.size() * 2 + 64;
    vector<string> items;
    a.watch([&] {
      if (alg == 3) {
        for (string t : *dicts[d].dawg) {
          items.push_back(t);
          a.step = (int)items.size();
          if (items.size() >= cap) break;
        }
        return;
      }
      std::unique_ptr<Trans> t(make_trans(alg, 's', root_of(d)));
      t->each(q, n, [&](const string &w, size_t) {
        items.push_back(w);
        a.step = (int)items.size();
        return items.size() < cap;
      });
    });
    string s, r;
    std::map<string, size_t> shown; // in which step
    for (size_t k = 0; k < items.size(); ++k) {
      r += (k ? "," : "") + std::to_string(idx(d, items[k]));
      shown.emplace(items[k], k + 1);
    }
    if (screening) {
      for (size_t k = 0; k < a.size; ++k) {
        if (a.seen[k] == 0) continue;
        for (size_t len = 0; len < a.at[k].size(); ++len) {
          auto it = shown.find(a.at[k].substr(0, len));
          expect(it == shown.end() || it->second <= (size_t)a.seen[k]);
        }
      }
      expect(items.size() == (alg == 3 ? dicts[d].terms.size() : answer(alg, d, q, n).size()));
    }
    for (size_t k = 0; k < a.size; ++k) if (a.seen[k]) s += (s.empty() ? "[" : ",[") + jterm(a.at[k]) + "," + std::to_string(a.seen[k] - 1) + "]";
    ev((alg == 3 ? "\"op\":\"EnumOnDemand\",\"d\":" + std::to_string(d) :
        "\"op\":\"SearchOnDemand\",\"alg\":\"" + string(ALG[alg]) + "\",\"d\":" + std::to_string(d) + ",\"q\":" + jterm(q) + ",\"n\":" + std::to_string(clip(n))) +
       ",\"items\":[" + r + "],\"seen\":[" + s + "]");
  }
  void lookup(int d, const string &t) {
    Arena &a = *dicts[d].arena;
    bool b = false;
    a.watch([&] { b = dicts[d].dawg->contains(t); });
    expect(b == (idx(d, t) != 0));
    for (size_t k = 0; k < a.size; ++k) expect(!a.seen[k] || t.compare(0, a.at[k].size(), a.at[k]) == 0);
    ev("\"op\":\"Lookup\",\"d\":" + std::to_string(d) + ",\"t\":" + jterm(t) + ",\"b\":" + jb(b) + ",\"seen\":" + jseen(a));
  }
  // Messages with references to nodes that are not there, or without parts.
  void mangle(int d, int kind, int which) {
    ll::proto::Dictionary *m = ll::to_protobuf(dicts[d].dawg);
    bool lossless = true;
    uint64_t nobody = 1; // an id that no node has
    for (auto id : m->node_id()) nobody = std::max(nobody, (uint64_t)id);
    nobody = nobody == UINT64_MAX ? 1 : nobody + 1;
    while (std::count(m->node_id().begin(), m->node_id().end(), nobody)) ++nobody;
    if (kind == 0) { m->clear_root_id(); lossless = false; }
    else if (kind == 1) { m->clear_node_id(); lossless = false; }
    else if (kind == 2 && m->node_id_size() > 0) {
      vector<uint64_t> ids(m->node_id().begin(), m->node_id().end());
      ids.erase(ids.begin() + which % (int)ids.size());
      m->clear_node_id();
      for (auto id : ids) m->add_node_id(id);
      lossless = false;
    } else if (kind == 3) { m->set_root_id(nobody); lossless = false; }
    else if (kind == 4 && m->edge_size() > 0) { m->mutable_edge(which % m->edge_size())->set_target_id(nobody); lossless = false; }
    else if (kind == 5 && m->edge_size() > 0) { m->mutable_edge(which % m->edge_size())->set_source_id(nobody); lossless = false; }
    else if (kind == 6 && m->size() != 0) { m->clear_size(); lossless = false; }
    else if (kind == 7 && m->final_node_id_size() > 0) { m->clear_final_node_id(); lossless = false; }
    string s = m->SerializeAsString();
    delete m;
    file_terms[91] = dicts[d].terms;
    file_raw[91] = dicts[d].raw;
    file_ok[91] = lossless;
    ev("\"op\":\"Ser\",\"d\":" + std::to_string(d) + ",\"f\":91,\"all\":true,\"ok\":true");
    ev(string("\"op\":\"Tear\",\"f\":91,\"lossless\":") + jb(lossless));
    std::ofstream(path(91), std::ios::binary | std::ios::trunc) << s;
    if (des(91, 99, "cpso"[which % 4])) {
      probe(99);
      dropev(99);
    }
  }

  // ---- one command
  void exec(const string &line) {
    std::istringstream is(line);
    string op;
    is >> op;
    auto I = [&]() { int x = 0; is >> x; return x; };
    auto L = [&]() { long x = -1; is >> x; return x; };
    auto C = [&]() { string x; is >> x; return x.empty() ? ' ' : x[0]; };
    auto W = [&]() { string x; is >> x; return x; };
    auto T = [&]() { string x; is >> x; return unhex(x); };
    auto N = [&]() { string x; is >> x; return (size_t)strtoull(x.c_str(), nullptr, 10); };
    auto NS = [&]() {
      vector<size_t> r;
      string x;
      is >> x;
      std::stringstream ss(x);
      string p;
      while (std::getline(ss, p, ',')) r.push_back((size_t)strtoull(p.c_str(), nullptr, 10));
      return r;
    };
    auto TS = [&]() {
      vector<string> r;
      string x;
      while (is >> x) r.push_back(unhex(x));
      return r;
    };
    auto live_iter = [&](int it) { return iters.count(it) != 0; };
    if (op == "build") { int d = I(); char s = C(); build(d, s, TS()); }
    else if (op == "open") open(I());
    else if (op == "add") { int d = I(); if (dicts.count(d)) add(d, T()); }
    else if (op == "finish") { int d = I(); if (dicts.count(d) && dicts[d].open) finish(d); }
    else if (op == "drop") { int d = I(); if (dicts.count(d)) dropev(d); }
    else if (op == "con") { int d = I(); if (usable(d)) contains(d, TS()); }
    else if (op == "size") { int d = I(); if (usable(d)) size(d); }
    else if (op == "remove") { int d = I(); if (usable(d)) remove(d, T()); }
    else if (op == "enum") { int d = I(); if (walkable(d)) enumerate(d); }
    else if (op == "view") { int d2 = I(), d = I(); string t = T(); if (walkable(d) && d2 != d) view(d2, d, t); }
    else if (op == "hand") { int d = I(); unsigned h = (unsigned)L(); vector<string> n; for (string w = W(); !w.empty(); w = W()) n.push_back(w); hand(d, h, n); }
    else if (op == "paged") { int d = I(); paged(d, TS()); }
    else if (op == "explore") { int a = I(), d = I(); string q = T(); if (dicts.count(d) && dicts[d].arena) explore(a, d, q, NS()); }
    else if (op == "lazy") { int a = I(), d = I(); string q = T(); if (dicts.count(d) && dicts[d].arena) for (size_t n : NS()) on_demand(a, d, q, n); }
    else if (op == "look") { int d = I(); if (dicts.count(d) && dicts[d].arena) for (auto &t : TS()) lookup(d, t); }
    else if (op == "probe") { int d = I(); if (usable(d)) probe(d); }
    else if (op == "msgof") { int d = I(); if (usable(d)) message_of(d); }
    else if (op == "msg") { int f = I(); unsigned v = (unsigned)L(); vector<string> n; for (string w = W(); !w.empty(); w = W()) n.push_back(w); put_message(f, v, n); }
    else if (op == "graph") { int d = I(); if (walkable(d)) graph(d); }
    else if (op == "eq") { int a = I(), b = I(); if (usable(a) && usable(b)) equal(a, b); }
    else if (op == "search") { int a = I(), d = I(); string k = W(); string q = T(); if (walkable(d)) search(a, d, q, k, NS()); }
    else if (op == "tr") { int id = I(), a = I(); char k = C(); int d = I(); if (walkable(d)) new_trans(id, a, k, d); }
    else if (op == "trd") drop_trans(I());
    else if (op == "ts") { int id = I(); string q = T(); if (find_trans(id)) trans_search(id, q, NS()); }
    else if (op == "rg") { int r = I(), id = I(); string q = T(); size_t n = N(); if (find_trans(id)) new_range(r, id, q, n); }
    else if (op == "rb") { int it = I(), r = I(); if (find_range(r)) begin(it, r); }
    else if (op == "eb") { int it = I(), d = I(); if (walkable(d)) enum_begin(it, d); }
#ifndef NO_COPIES
    else if (op == "ic" || op == "iv") { int to = I(), from = I(); if (live_iter(from)) iter_copy(to, from, op == "iv"); }
    else if (op == "tc") { int to = I(), from = I(); if (trans.count(from)) copy_trans(to, from); }
    else if (op == "rc") { int to = I(), from = I(); if (ranges.count(from)) copy_range(to, from); }
#endif
    else if (op == "ie") { int it = I(); if (live_iter(it)) iter_end(it); }
    else if (op == "ir") { int it = I(); if (live_iter(it)) iter_read(it); }
    else if (op == "in") { int it = I(); if (live_iter(it)) iter_next(it); }
    else if (op == "id") { int it = I(); if (live_iter(it)) iter_drop(it); }
    else if (op == "iz") { int it = I(); if (live_iter(it)) iter_drain(it); }
    else if (op == "dist") { int a = I(), o = I(); distance(a, o, TS()); }
    else if (op == "distdrop") { int a = I(), o = I(); dists[a].erase(o); }
    else if (op == "axioms") { int a = I(), o = I(); axioms(a, o, TS()); }
    else if (op == "ser") { int d = I(), f = I(); char h = C(); long lim = L(); string t = W(); if (usable(d)) ser(d, f, h, lim, t); }
    else if (op == "des") { int f = I(), d = I(); des(f, d, C()); }
    else if (op == "tears") { int d = I(); char h = C(); long s = L(), a = L(), b = L(); if (usable(d)) tears(d, h, s, a, b); }
    else if (op == "faults") { // every limit from..to in steps: report, and reload
      int d = I(); char h = C(); long s = L(), a = L(), b = L();
      if (usable(d)) {
        long len = (long)message_length(d);
        if (b < 0) b = len + 2;
        for (long k = a; k <= b; k += s) {
          ser(d, 91, h, k, "");
          if (des(91, 99, 'c')) { size(99); equal(d, 99); dropev(99); }
        }
      }
    }
    else if (op == "mangle") { int d = I(), k = I(), w = I(); if (usable(d)) mangle(d, k, w); }
    else if (op == "rmf") remove_file(I());
    else if (op == "cpf") { int f = I(), g = I(); copy_file(f, g); }
    else { fprintf(stderr, "unknown command %s\n", op.c_str()); exit(3); }
  }

  void run(const vector<string> &cmds) {
    for (const string &c : cmds) {
      try {
        exec(c);
      } catch (const std::exception &e) {
        threw(e);
        return;
      }
    }
  }
};
