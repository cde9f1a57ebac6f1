// Subsumption of automaton positions, judged by SubsumeTrace.tla.
#include "gen.hpp"
#include "main.hpp"

#include "liblevenshtein/transducer/position.h"
#include "liblevenshtein/transducer/state.h"
#include "liblevenshtein/transducer/state_iterator.h"
#include "liblevenshtein/transducer/subsumes.h"
#include "liblevenshtein/transducer/unsubsume.h"

using ll::Algorithm;
using ll::Position;

struct P3 {
  size_t i, e;
  bool s;
};
static string jp(const P3 &p) { return "[" + std::to_string(p.i) + "," + std::to_string(p.e) + "," + (p.s ? "1" : "0") + "]"; }
static string txt(const P3 &p) { return std::to_string(p.i) + "." + std::to_string(p.e) + "." + (p.s ? "1" : "0"); }
static P3 parse(const string &x) {
  unsigned long i = 0, e = 0;
  int s = 0;
  sscanf(x.c_str(), "%lu.%lu.%d", &i, &e, &s);
  return {i, e, s != 0};
}
// Positions that a state can hold for a query of this length.
static vector<P3> valid(int alg, size_t len, size_t n) {
  vector<P3> r;
  for (size_t i = 0; i <= len; ++i)
    for (size_t e = 0; e <= n; ++e) {
      r.push_back({i, e, false});
      if (alg != 0 && e > 0 && i + (alg == 1 ? 2 : 1) <= len) r.push_back({i, e, true});
    }
  return r;
}

static bool declares(int alg, const P3 &a, const P3 &b, size_t n) {
  Position x(a.i, a.e, a.s), y(b.i, b.e, b.s);
  if (alg == 0) return ll::subsumes<Algorithm::STANDARD>(&x, &y, n);
  if (alg == 1) return ll::subsumes<Algorithm::TRANSPOSITION>(&x, &y, n);
  return ll::subsumes<Algorithm::MERGE_AND_SPLIT>(&x, &y, n);
}

// Only for the filter.
static bool accepts(int alg, const string &q, size_t n, const P3 &p, const string &v) {
  if (p.e > n) return false;
  if (!p.s) return p.i <= q.size() && oracle_distance(alg, q.substr(p.i), v) <= n - p.e;
  if (v.empty()) return false;
  if (alg == 1) return p.i + 2 <= q.size() && v[0] == q[p.i] && oracle_distance(alg, q.substr(p.i + 2), v.substr(1)) <= n - p.e;
  return p.i + 1 <= q.size() && oracle_distance(alg, q.substr(p.i + 1), v.substr(1)) <= n - p.e;
}

struct SubSession : Recorder {
  void clear() { forget(); }

  static vector<P3> unsubsume(int alg, size_t n, const vector<P3> &ps) {
    vector<Position *> v;
    for (auto &p : ps) v.push_back(new Position(p.i, p.e, p.s));
    ll::State st(v);
    ll::SubsumesFn f;
    if (alg == 0) f = ll::subsumes<Algorithm::STANDARD>;
    else if (alg == 1) f = ll::subsumes<Algorithm::TRANSPOSITION>;
    else f = ll::subsumes<Algorithm::MERGE_AND_SPLIT>;
    ll::UnsubsumeFn un(f);
    un(&st, n);
    vector<P3> r;
    for (Position *p : st) {
      r.push_back({p->term_index(), p->num_errors(), p->is_special()});
      if (r.size() > ps.size()) break;
    }
    return r;
  }
  static string list(const vector<P3> &ps) {
    string s;
    for (auto &p : ps) s += (s.empty() ? "" : ",") + jp(p);
    return "[" + s + "]";
  }
  static string words(const vector<string> &ws) {
    string s;
    for (auto &w : ws) s += (s.empty() ? "" : ",") + jterm(w);
    return "[" + s + "]";
  }
  bool kept(const vector<P3> &before, const vector<P3> &after) {
    size_t k = 0;
    for (auto &p : before) if (k < after.size() && after[k].i == p.i && after[k].e == p.e && after[k].s == p.s) ++k;
    return k == after.size();
  }

  void exec(const string &line) {
    std::istringstream is(line);
    string op;
    is >> op;
    int alg = 0;
    unsigned long n = 0;
    is >> alg >> n;
    string head = "\"op\":\"" + op + "\",\"alg\":\"" + ALG[alg] + "\",\"n\":" + std::to_string(clip(n));
    if (op == "rel") { // everything it declares
      unsigned long len = 0;
      is >> len;
      string j;
      for (auto &a : valid(alg, len, n))
        for (auto &b : valid(alg, len, n))
          if (declares(alg, a, b, n)) j += (j.empty() ? "[" : ",[") + jp(a) + "," + jp(b) + "]";
      ev(head + ",\"len\":" + std::to_string(len) + ",\"rel\":[" + j + "]");
    } else if (op == "uns") { // what is left of a state, for all queries of a length
      unsigned long len = 0;
      string x;
      vector<P3> ps;
      is >> len;
      while (is >> x) ps.push_back(parse(x));
      vector<P3> l = unsubsume(alg, n, ps);
      expect(kept(ps, l));
      ev(head + ",\"len\":" + std::to_string(len) + ",\"before\":" + list(ps) + ",\"after\":" + list(l));
    } else if (op == "at" || op == "unsat") { // for one query and some words
      string x;
      is >> x;
      string q = unhex(x);
      vector<P3> ps;
      vector<string> ws;
      bool second = false;
      while (is >> x) {
        if (x == "|") second = true;
        else if (second) ws.push_back(unhex(x));
        else ps.push_back(parse(x));
      }
      if (op == "at") {
        bool d = declares(alg, ps[0], ps[1], n);
        if (screening && d) for (auto &w : ws) expect(!accepts(alg, q, n, ps[1], w) || accepts(alg, q, n, ps[0], w));
        ev(head + ",\"q\":" + jterm(q) + ",\"pair\":[" + jp(ps[0]) + "," + jp(ps[1]) + "],\"yes\":" + jb(d) + ",\"words\":" + words(ws));
      } else {
        vector<P3> l = unsubsume(alg, n, ps);
        expect(kept(ps, l));
        if (screening)
          for (auto &w : ws) {
            bool a = false, b = false;
            for (auto &p : ps) a = a || accepts(alg, q, n, p, w);
            for (auto &p : l) b = b || accepts(alg, q, n, p, w);
            expect(a == b);
          }
        ev(head + ",\"q\":" + jterm(q) + ",\"before\":" + list(ps) + ",\"after\":" + list(l) + ",\"words\":" + words(ws));
      }
    } else {
      fprintf(stderr, "unknown command %s\n", op.c_str());
      exit(3);
    }
  }
  void run(const vector<string> &cmds) {
    for (const string &c : cmds) {
      try {
        exec(c);
      } catch (const std::exception &e) {
        threw(e);
        return;
      }
    }
  }
};

struct SubGen : Gen {
  using Gen::Gen;
  P3 position(int alg, size_t len, size_t n) {
    for (;;) {
      P3 p{below(len + 1), below(n + 1), alg != 0 && chance(40)};
      if (!p.s || (p.e > 0 && p.i + (alg == 1 ? 2 : 1) <= len)) return p;
    }
  }
  // A word near what may follow.
  string follow(int alg, const string &a, const string &q, size_t n, const P3 &p) {
    string w;
    if (p.s) {
      w = string(1, alg == 1 ? q[p.i] : ch(a)) + edits(a, q.substr(p.i + (alg == 1 ? 2 : 1)), n - p.e);
    } else w = edits(a, q.substr(p.i), n - p.e);
    return w;
  }
  vector<string> session(const string &profile) {
    vector<string> c;
    int alg = (int)below(3);
    string a = chance(60) ? "ab" : chance(60) ? "abc" : "abcdefgh";
    size_t len = chance(80) ? below(9) : below(25), n = chance(80) ? below(5) : below(10);
    for (int k = 0; k < 30; ++k) {
      string q = word(a, len);
      vector<P3> ps;
      size_t many = profile == "at" ? 2 : between(1, chance(80) ? 6 : 25);
      P3 base = position(alg, len, n);
      while (ps.size() < many) {
        P3 p = position(alg, len, n);
        if (chance(60)) p.i = std::min(p.i, base.i + 2);
        if (p.s && !(p.e > 0 && p.i + (alg == 1 ? 2 : 1) <= len)) p.s = false;
        ps.push_back(p);
      }
      if (profile == "at" && !declares(alg, ps[0], ps[1], n) && chance(90)) continue;
      string s = profile + " " + std::to_string(alg) + " " + std::to_string(n) + " " + hex(q);
      for (auto &p : ps) s += " " + txt(p);
      s += " |";
      for (int m = 0; m < 12; ++m) {
        const P3 &p = profile == "at" ? ps[1] : ps[below(ps.size())];
        s += " " + hex(follow(alg, a, q, n, p));
      }
      c.push_back(s);
    }
    return c;
  }
};

int main(int argc, char **argv) { return driver<SubSession, SubGen>(argc, argv); }
