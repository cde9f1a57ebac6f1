// The state container under sequences of its operations, judged by
// PosListTrace.tla.
#include "gen.hpp"
#include "main.hpp"

#include "liblevenshtein/transducer/comparator.h"
#include "liblevenshtein/transducer/merge.h"
#include "liblevenshtein/transducer/position.h"
#include "liblevenshtein/transducer/state.h"
#include "liblevenshtein/transducer/state_iterator.h"

using ll::Algorithm;
using ll::Position;
using ll::State;
using ll::StateIterator;

struct Triple {
  long i, e, s;
  bool operator==(const Triple &o) const { return i == o.i && e == o.e && s == o.s; }
};

static string jpos(const Triple &t) { return "[" + std::to_string(t.i) + "," + std::to_string(t.e) + "," + std::to_string(t.s) + "]"; }

struct PosSession : Recorder {
  struct It {
    int s, k; // k: index in the list, counted from 1
    bool live, moved;
    int outer; // -1: none
    std::unique_ptr<StateIterator> it;
  };
  std::map<int, std::unique_ptr<State>> states;
  std::map<int, vector<Triple>> want;
  std::map<int, It> its;

  void clear() {
    its.clear();
    states.clear();
    want.clear();
    forget();
  }
  static Triple triple(const string &x) {
    Triple t{};
    sscanf(x.c_str(), "%ld.%ld.%ld", &t.i, &t.e, &t.s);
    return t;
  }
  static Position *make(const Triple &t) { return new Position((size_t)t.i, (size_t)t.e, t.s != 0); }
  static Triple read(Position *p) { return {(long)p->term_index(), (long)p->num_errors(), p->is_special() ? 1L : 0L}; }

  // What the container holds, read in both ways it offers.
  vector<Triple> contents(int s) {
    vector<Triple> a, b;
    State &st = *states[s];
    size_t cap = want[s].size() * 2 + 100;
    for (Position *p = st.head(); p != nullptr && a.size() < cap; p = p->next()) a.push_back(read(p));
    size_t k = 0;
    for (Position *p : st) {
      b.push_back(read(p));
      if (++k >= cap) break;
    }
    if (!(a == b)) {
      suspect = true;
      ev("\"op\":\"TwoLists\"");
    }
    return a;
  }
  void done(const string &body, int s) {
    vector<Triple> l = contents(s);
    if (!(l == want[s])) suspect = true;
    string j;
    if (logging) {
      for (auto &t : l) j += (j.empty() ? "" : ",") + jpos(t);
      ev(body + ",\"s\":" + std::to_string(s) + ",\"list\":[" + j + "]");
    }
  }
  void invalidate(int s) { std::erase_if(its, [&](auto &x) { return x.second.s == s; }); }

  static bool less(int alg, const Triple &a, const Triple &b) {
    if (a.i != b.i) return a.i < b.i;
    if (a.e != b.e) return a.e < b.e;
    return alg != 0 && a.s < b.s;
  }

  void exec(const string &line) {
    std::istringstream is(line);
    string op, x;
    is >> op;
    auto I = [&]() { int v = 0; is >> v; return v; };
    auto P = [&]() { string v; is >> v; return triple(v); };
    auto PS = [&]() {
      vector<Triple> r;
      string v;
      while (is >> v) r.push_back(triple(v));
      return r;
    };
    string q = "\"op\":\"" + op + "\"";
    if (op == "new") {
      int s = I();
      char how = ' ';
      is >> how;
      vector<Triple> ps = PS();
      invalidate(s);
      vector<Position *> v;
      for (auto &t : ps) v.push_back(make(t));
      if (how == 'i' && v.size() <= 3) {
        if (v.empty()) states[s].reset(new State());
        else if (v.size() == 1) states[s].reset(new State({v[0]}));
        else if (v.size() == 2) states[s].reset(new State({v[0], v[1]}));
        else states[s].reset(new State({v[0], v[1], v[2]}));
      } else states[s].reset(new State(v));
      want[s] = ps;
      string j;
      for (auto &t : ps) j += (j.empty() ? "" : ",") + jpos(t);
      done(q + ",\"ps\":[" + j + "]", s);
      return;
    }
    if (op.substr(0, 2) == "it") {
      int n = I();
      if (op == "itnew") { // state, start (1: its begin), outer iterator
        int s = I(), outer = I();
        if (!states.count(s)) return;
        It it{s, 1, true, true, outer, nullptr};
        if (outer >= 0) {
          auto o = its.find(outer);
          if (o == its.end() || o->second.s != s || !o->second.live || o->second.outer >= 0) return;
          it.k = o->second.k;
          it.moved = false;
          it.it.reset(new StateIterator(states[s].get(), **o->second.it, o->second.it.get()));
        } else {
          std::erase_if(its, [&](auto &y) { return y.second.s == s; });
          it.it.reset(new StateIterator(states[s]->begin()));
          it.live = !want[s].empty();
        }
        its.erase(n);
        its.emplace(n, std::move(it));
        ev(q + ",\"it\":" + std::to_string(n) + ",\"s\":" + std::to_string(s) + ",\"outer\":" + std::to_string(outer));
        look(n);
        return;
      }
      auto f = its.find(n);
      if (f == its.end()) return;
      It &it = f->second;
      vector<Triple> &w = want[it.s];
      bool inner_exists = false;
      for (auto &y : its) inner_exists |= y.second.outer == n;
      string id = q + ",\"it\":" + std::to_string(n);
      if (op == "itnext") {
        if (inner_exists) std::erase_if(its, [&](auto &y) { return y.second.outer == n; });
        ++*it.it;
        if (it.live) ++it.k;
        it.live = it.k <= (int)w.size();
        it.moved = true;
        ev(id);
        look(n);
      } else if (op == "itremove") {
        if (!it.moved || !it.live || inner_exists) return;
        it.it->remove();
        w.erase(w.begin() + it.k - 1);
        it.live = false;
        done(id, it.s);
      } else if (op == "itinsert") {
        if (!it.moved || !it.live || inner_exists) return;
        Triple t = P();
        it.it->insert(make(t));
        w.insert(w.begin() + it.k, t);
        done(id + ",\"p\":" + jpos(t), it.s);
      }
      return;
    }
    int s = I();
    if (!states.count(s)) return;
    State &st = *states[s];
    vector<Triple> &w = want[s];
    auto at = [&](int k) {
      Position *p = st.head();
      for (int m = 1; m < k && p != nullptr; ++m) p = p->next();
      return p;
    };
    invalidate(s);
    if (op == "add") {
      Triple t = P();
      st.add(make(t));
      w.push_back(t);
      done(q + ",\"p\":" + jpos(t), s);
    } else if (op == "front") {
      Triple t = P();
      st.head(make(t));
      w.insert(w.begin(), t);
      done(q + ",\"p\":" + jpos(t), s);
    } else if (op == "after" || op == "afterf") {
      int k = I();
      Triple t = P();
      if (k > (int)w.size()) k = (int)w.size();
      if (op == "after") st.insert_after(k == 0 ? nullptr : at(k), make(t));
      else ll::insert_after(&st, k == 0 ? nullptr : at(k), make(t));
      w.insert(k == 0 ? (op == "after" ? w.end() : w.begin()) : w.begin() + k, t);
      done(q + ",\"k\":" + std::to_string(k) + ",\"p\":" + jpos(t), s);
    } else if (op == "remove") {
      int k = I();
      if (w.empty()) return;
      k = 1 + (k - 1) % (int)w.size();
      st.remove(k == 1 ? nullptr : at(k - 1), at(k));
      w.erase(w.begin() + k - 1);
      done(q + ",\"k\":" + std::to_string(k), s);
    } else if (op == "sort") {
      int alg = I();
      if (alg == 0) st.sort(ll::compare<Algorithm::STANDARD>);
      else if (alg == 1) st.sort(ll::compare<Algorithm::TRANSPOSITION>);
      else st.sort(ll::compare<Algorithm::MERGE_AND_SPLIT>);
      vector<Triple> l = contents(s);
      bool ok = l.size() == w.size() && std::is_permutation(l.begin(), l.end(), w.begin());
      for (size_t k = 0; k + 1 < l.size(); ++k) ok = ok && !less(alg, l[k + 1], l[k]);
      expect(ok);
      w = l;
      done(q + ",\"alg\":\"" + ALG[alg] + "\"", s);
    } else if (op == "merge") {
      int alg = I();
      vector<Triple> ps = PS();
      vector<Position *> v;
      string j;
      for (auto &t : ps) {
        v.push_back(make(t));
        j += (j.empty() ? "" : ",") + jpos(t);
      }
      if (alg == 0) ll::merge<Algorithm::STANDARD>(&st, v);
      else if (alg == 1) ll::merge<Algorithm::TRANSPOSITION>(&st, v);
      else ll::merge<Algorithm::MERGE_AND_SPLIT>(&st, v);
      vector<Triple> l = contents(s), u = w;
      for (auto &t : ps) if (std::find(u.begin(), u.end(), t) == u.end()) u.push_back(t);
      expect(l.size() == u.size() && std::is_permutation(l.begin(), l.end(), u.begin()));
      w = l;
      done(q + ",\"alg\":\"" + ALG[alg] + "\",\"ps\":[" + j + "]", s);
    } else if (op == "list") {
      done(q, s);
    } else {
      fprintf(stderr, "unknown command %s\n", op.c_str());
      exit(3);
    }
  }
  // Where an iterator is.
  void look(int n) {
    It &it = its.at(n);
    StateIterator end = states[it.s]->end();
    bool at_end = *it.it == end;
    Position *p = at_end ? nullptr : **it.it;
    expect(at_end == !it.live);
    if (p != nullptr && it.live) expect(read(p) == want[it.s][(size_t)it.k - 1]);
    ev("\"op\":\"look\",\"it\":" + std::to_string(n) + ",\"end\":" + jb(at_end) + ",\"p\":" + (p == nullptr ? string("[]") : jpos(read(p))));
  }
  void run(const vector<string> &cmds) {
    for (const string &c : cmds) {
      try {
        exec(c);
      } catch (const std::exception &e) {
        threw(e);
        return;
      }
    }
  }
};

struct PosGen : Gen {
  using Gen::Gen;
  size_t span = 4;
  bool specials = true;
  string pos() { return std::to_string(below(span)) + "." + std::to_string(below(span)) + "." + (specials && chance(35) ? "1" : "0"); }
  string many(size_t n) {
    string s;
    for (size_t k = 0; k < n; ++k) s += " " + pos();
    return s;
  }
  vector<string> session(const string &profile) {
    vector<string> c;
    span = chance(60) ? between(2, 5) : between(6, 40);
    if (profile == "merge") {
      int alg = (int)below(3);
      specials = alg != 0;
      c.push_back("new 1 v");
      int n = (int)between(1, 12);
      for (int k = 0; k < n; ++k) {
        c.push_back("merge 1 " + std::to_string(alg) + many(below(chance(80) ? 5 : 20)));
        if (chance(8)) c.push_back("new 1 v");
      }
      if (chance(50)) c.push_back("sort 1 " + std::to_string(alg));
      return c;
    }
    specials = chance(80);
    size_t len = below(chance(70) ? 6 : chance(70) ? 20 : 150);
    c.push_back(string("new 1 ") + (chance(50) ? "i" : "v") + many(len));
    int n = (int)between(1, 25);
    for (int k = 0; k < n; ++k) {
      switch (below(10)) {
      case 0: c.push_back("add 1 " + pos()); break;
      case 1: c.push_back("front 1 " + pos()); break;
      case 2: c.push_back("after 1 " + std::to_string(below(len + 3)) + " " + pos()); break;
      case 3: c.push_back("afterf 1 " + std::to_string(below(len + 3)) + " " + pos()); break;
      case 4: c.push_back("remove 1 " + std::to_string(1 + below(len + 3))); break;
      case 5: c.push_back("sort 1 " + std::to_string(below(3))); break;
      case 6: case 7: { // one iterator
        c.push_back("itnew 0 1 -1");
        size_t steps = between(1, 10);
        for (size_t m = 0; m < steps; ++m) {
          int z = (int)below(10);
          c.push_back(z < 5 ? "itnext 0" : z < 8 ? "itremove 0" : "itinsert 0 " + pos());
        }
        break;
      }
      case 8: { // an iterator within an iterator
        c.push_back("itnew 0 1 -1");
        size_t outer = between(1, 6);
        for (size_t a = 0; a < outer; ++a) {
          c.push_back("itnew 1 1 0");
          size_t inner = between(1, 8);
          for (size_t b = 0; b < inner; ++b) {
            int z = (int)below(10);
            c.push_back(z < 5 ? "itnext 1" : z < 9 ? "itremove 1" : "itinsert 1 " + pos());
          }
          c.push_back("itnext 0");
        }
        break;
      }
      case 9: c.push_back("list 1"); break;
      }
    }
    return c;
  }
};

int main(int argc, char **argv) { return driver<PosSession, PosGen>(argc, argv); }
