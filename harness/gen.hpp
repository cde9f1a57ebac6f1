// Random sessions.  Everything is derived from the session's own seed.
#pragma once
#include "core.hpp"

static string hex(const string &s) {
  if (s.empty()) return "-";
  static const char *d = "0123456789abcdef";
  string o;
  for (unsigned char c : s) {
    o.push_back(d[c >> 4]);
    o.push_back(d[c & 15]);
  }
  return o;
}

struct Gen {
  std::mt19937_64 r;
  explicit Gen(uint64_t seed) : r(seed * 0x9E3779B97F4A7C15ULL + 0x1234567) { r.discard(4); }
  size_t below(size_t n) { return n == 0 ? 0 : (size_t)(r() % n); }
  size_t between(size_t a, size_t b) { return a + below(b - a + 1); }
  bool chance(int percent) { return (int)below(100) < percent; }
  template <class T> const T &pick(const vector<T> &v) { return v[below(v.size())]; }

  bool bytes = false; // unusual characters only
  string alphabet() {
    switch (bytes ? 6 + below(7) : below(12)) {
    case 0: case 1: return "ab";
    case 2: case 3: return "abc";
    case 4: return "abcd";
    case 5: return "abcdefghijklmnopqrstuvwxyz";
    case 6: return string("\0\xff", 2);
    case 7: return string("\x7f\x80", 2);
    case 8: return string("a\0b", 3);
    case 9: return string("\n\r\t ", 4);
    case 10: {
      string a;
      for (int c = 0; c < 256; ++c) a.push_back((char)c);
      return a;
    }
    default: {
      string a;
      while (a.size() < 3) {
        char c = (char)below(256);
        if (a.find(c) == string::npos) a.push_back(c);
      }
      return a;
    }
    }
  }
  char ch(const string &a) { return a[below(a.size())]; }
  string word(const string &a, size_t len) {
    string w;
    for (size_t k = 0; k < len; ++k) w.push_back(ch(a));
    return w;
  }
  // One elementary operation of any of the algorithms.
  string edit(const string &a, string w) {
    size_t n = w.size();
    switch (below(7)) {
    case 0: w.insert(w.begin() + (long)between(0, n), ch(a)); break;
    case 1: if (n) w.erase(w.begin() + (long)below(n)); break;
    case 2: case 3: if (n) w[below(n)] = ch(a); break;
    case 4: if (n > 1) { size_t k = below(n - 1); std::swap(w[k], w[k + 1]); } break;
    case 5: if (n > 1) { size_t k = below(n - 1); w.erase(w.begin() + (long)k); w[k] = ch(a); } break;
    case 6: if (n) { size_t k = below(n); w[k] = ch(a); w.insert(w.begin() + (long)k, ch(a)); } break;
    }
    return w;
  }
  string edits(const string &a, string w, size_t k) {
    for (size_t i = 0; i < k; ++i) w = edit(a, w);
    return w;
  }

  size_t special_length() {
    static const vector<size_t> L = {7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300};
    return pick(L);
  }

  // Terms in no particular order.
  vector<string> raw_terms(const string &a, size_t maxlen, size_t count) {
    vector<string> v;
    switch (below(8)) {
    case 0: case 1: // independent words
      for (size_t k = 0; k < count; ++k) v.push_back(word(a, between(0, maxlen)));
      break;
    case 2: case 3: { // neighbours of a few words
      vector<string> base;
      for (size_t k = 0; k < 1 + count / 8; ++k) base.push_back(word(a, between(maxlen / 2, maxlen)));
      for (size_t k = 0; k < count; ++k) v.push_back(edits(a, pick(base), below(6)));
      break;
    }
    case 4: { // prefixes and extensions
      string w = word(a, maxlen);
      for (size_t k = 0; k <= w.size(); ++k) if (chance(70)) v.push_back(w.substr(0, k));
      while (v.size() < count) v.push_back(w.substr(0, below(w.size() + 1)) + word(a, below(3)));
      break;
    }
    case 5: { // stems times suffixes
      vector<string> stem, suf;
      for (int k = 0; k < 6; ++k) {
        stem.push_back(word(a, between(0, maxlen / 2 + 1)));
        suf.push_back(word(a, between(0, maxlen / 2 + 1)));
      }
      for (size_t k = 0; k < count; ++k) v.push_back(pick(stem) + pick(suf));
      break;
    }
    case 6: { // all short words, some missing
      string b = a.substr(0, 3);
      vector<string> layer = {""};
      for (int l = 0; l < 4; ++l) {
        vector<string> next;
        for (auto &w : layer) {
          if (chance(75)) v.push_back(w);
          for (char c : b) next.push_back(w + c);
        }
        layer = next;
      }
      break;
    }
    case 7: { // runs
      for (size_t k = 0; k < count; ++k) {
        string w;
        while (w.size() < maxlen && chance(80)) w += string(between(1, 4), ch(a));
        v.push_back(w);
      }
      break;
    }
    }
    if (chance(40)) v.push_back("");
    return v;
  }
  vector<string> sorted_terms(const string &a, size_t maxlen, size_t count) {
    vector<string> v = raw_terms(a, maxlen, count);
    std::sort(v.begin(), v.end());
    if (chance(70)) v.erase(std::unique(v.begin(), v.end()), v.end());
    return v;
  }
  string query(const string &a, const vector<string> &terms, size_t maxlen) {
    if (!terms.empty() && chance(85)) return edits(a, pick(terms), below(chance(80) ? 4 : 12));
    if (chance(10)) return "";
    return word(a, between(0, maxlen + 2));
  }
  // States grow with the maximum distance: a limit that this dictionary and
  // query can afford.
  size_t budget_chars = 1;
  void budget(const vector<string> &t) {
    budget_chars = 1;
    for (auto &w : t) budget_chars += w.size();
  }
  size_t distance_limit(const string &q) {
    for (int k = 0; k < 20; ++k) {
      size_t n = any_limit(q);
      double len = (double)q.size() + 1, wide = std::min(len, 2.0 * (double)n + 1), deep = std::min((double)n, len + 40) + 1;
      double p = wide * deep / 2;
      if (p * p * (double)budget_chars <= 4e7) return n;
    }
    return below(3);
  }
  size_t any_limit(const string &q) {
    if (chance(70)) return below(5);
    if (chance(60)) return below(14);
    static const vector<size_t> H = {16, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 1000, 65535, 65536,
                                     (size_t)INT_MAX, (size_t)INT_MAX + 1, (size_t)UINT_MAX, (size_t)UINT_MAX + 1,
                                     SIZE_MAX / 2 - 1, SIZE_MAX / 2, SIZE_MAX / 2 + 1, SIZE_MAX - 2, SIZE_MAX - 1, SIZE_MAX};
    if (chance(60)) return pick(H);
    return q.size() + below(3);
  }
  static string join(const vector<string> &v) {
    string s;
    for (auto &t : v) s += " " + hex(t);
    return s;
  }
  string limits(const string &q, int count) {
    string s;
    for (int k = 0; k < count; ++k) s += (k ? "," : "") + std::to_string(distance_limit(q));
    return s;
  }

  struct Shape { string a; size_t maxlen, count; };
  Shape shape() {
    Shape s;
    s.a = alphabet();
    size_t z = below(100);
    if (z < 55) { s.maxlen = between(1, 8); s.count = between(0, 40); }
    else if (z < 80) { s.maxlen = between(6, 20); s.count = between(1, 30); }
    else if (z < 92) { s.maxlen = between(20, 70); s.count = between(1, 12); }
    else if (z < 97) { s.maxlen = special_length(); s.count = between(1, 5); }
    else { s.maxlen = between(2, 6); s.count = between(60, 400); }
    return s;
  }

  // ---- sessions
  // alg < 0: any algorithm
  vector<string> search(int alg) {
    vector<string> c;
    Shape s = shape();
    vector<string> t = sorted_terms(s.a, s.maxlen, s.count);
    budget(t);
    string src(1, "vls"[below(3)]);
    c.push_back("build 1 " + src + join(t));
    int queries = s.maxlen > 60 ? 2 : 4;
    for (int k = 0; k < queries; ++k) {
      string q = query(s.a, t, s.maxlen);
      int al = alg < 0 ? (int)below(3) : alg;
      c.push_back("search " + std::to_string(al) + " 1 " + (chance(40) ? "cs" : chance(50) ? "c" : "s") + " " + hex(q) + " " + limits(q, chance(50) ? 1 : 3));
    }
    return c;
  }
  // Interleaved, repeated and abandoned iterations.
  vector<string> iterate(int copies = 1) {
    vector<string> c;
    Shape s = shape();
    if (s.maxlen > 30) s.maxlen = 12;
    if (s.count > 60) s.count = 60;
    int nd = (int)between(1, 2);
    vector<vector<string>> t;
    for (int d = 0; d < nd; ++d) {
      t.push_back(sorted_terms(s.a, s.maxlen, s.count));
      c.push_back("build " + std::to_string(d) + " v" + join(t.back()));
      budget(t.back());
    }
    int nt = (int)between(1, 3);
    vector<int> td;
    for (int k = 0; k < nt; ++k) {
      int d = (int)below((size_t)nd);
      td.push_back(d);
      c.push_back("tr " + std::to_string(k) + " " + std::to_string(below(3)) + " " + (chance(60) ? "c " : "s ") + std::to_string(d));
    }
    int steps = (int)between(10, 70);
    for (int k = 0; k < steps; ++k) {
      string it = std::to_string(below(5)), rg = std::to_string(below(3));
      switch (below((size_t)(16 + copies))) {
      case 0: case 1: {
        int tr = (int)below((size_t)nt);
        string q = query(s.a, t[(size_t)td[(size_t)tr]], s.maxlen);
        c.push_back("rg " + rg + " " + std::to_string(tr) + " " + hex(q) + " " + std::to_string(distance_limit(q)));
        break;
      }
      case 2: case 3: c.push_back("rb " + it + " " + rg); break;
      case 4: c.push_back("eb " + it + " " + std::to_string(below((size_t)nd))); break;
      case 5: case 6: c.push_back("ie " + it); break;
      case 7: case 8: case 9: c.push_back("ir " + it); break;
      case 10: case 11: case 12: c.push_back("in " + it); break;
      case 13: c.push_back("iz " + it); break;
      case 14: c.push_back("id " + it); break;
      case 15: {
        int tr = (int)below((size_t)nt);
        string q = query(s.a, t[(size_t)td[(size_t)tr]], s.maxlen);
        c.push_back("ts " + std::to_string(tr) + " " + hex(q) + " " + limits(q, 1));
        break;
      }
      default:
        if (chance(70)) c.push_back((chance(75) ? "ic " : "iv ") + it + " " + std::to_string(below(5)));
        else if (chance(60)) c.push_back("rc " + rg + " " + std::to_string(below(3)));
        else {
          int to = (int)below((size_t)nt), from = (int)below((size_t)nt);
          if (to != from) td[(size_t)to] = td[(size_t)from];
          c.push_back("tc " + std::to_string(to) + " " + std::to_string(from));
        }
        break;
      }
    }
    for (int it = 0; it < 5; ++it) {
      c.push_back("iz " + std::to_string(it));
      c.push_back("in " + std::to_string(it));
      c.push_back("ie " + std::to_string(it));
      c.push_back("in " + std::to_string(it));
      c.push_back("ie " + std::to_string(it));
    }
    return c;
  }
  vector<string> probes(const string &a, const vector<string> &t, int count) {
    vector<string> p;
    for (int k = 0; k < count; ++k) {
      if (t.empty() || chance(10)) { p.push_back(word(a, below(5))); continue; }
      string w = pick(t);
      switch (below(8)) {
      case 0: break;
      case 1: if (!w.empty()) w = w.substr(0, below(w.size())); break;
      case 2: w += ch(a); break;
      case 3: { const string &x = pick(t); w = w.substr(0, below(w.size() + 1)) + x.substr(below(x.size() + 1)); break; }
      case 4: w = edit(a, w); break;
      case 5: w += string(1, '\0'); break;
      case 6: if (!w.empty()) w = w.substr(1); break;
      case 7: if (!w.empty()) w[below(w.size())] = (char)(w[below(w.size())] ^ (char)(1 << below(8))); break;
      }
      p.push_back(w);
    }
    return p;
  }
  // Building, also from unsorted sequences and step by step; everything observable.
  vector<string> dictionary() {
    vector<string> c;
    Shape s = shape();
    vector<string> t = sorted_terms(s.a, s.maxlen, s.count);
    vector<string> set = t;
    set.erase(std::unique(set.begin(), set.end()), set.end());
    if (chance(50)) {
      c.push_back(string("build 1 ") + "vls"[below(3)] + join(t));
    } else {
      c.push_back("open 1");
      for (auto &w : t) {
        c.push_back("add 1 " + hex(w));
        if (chance(10)) c.push_back("add 1 " + hex(pick(t)));
        if (chance(5)) c.push_back("add 1 -");
      }
      // what was refused or accepted on the way decides what it holds
      c.push_back("finish 1");
    }
    c.push_back("probe 1");
    c.push_back("con 1" + join(probes(s.a, t, 20)));
    if (chance(50)) {
      c.push_back("add 1 " + hex(t.empty() || chance(50) ? word(s.a, below(4)) : t.back() + (chance(50) ? "" : string(1, ch(s.a)))));
      c.push_back("remove 1 " + hex(t.empty() ? "" : pick(t)));
      c.push_back("probe 1");
    }
    // a second one that is equal, almost equal, or unsorted
    vector<string> u = set;
    switch (below(6)) {
    case 0: break;
    case 1: if (!u.empty()) u.erase(u.begin() + (long)below(u.size())); break;
    case 2: u.push_back(query(s.a, t, s.maxlen)); std::sort(u.begin(), u.end()); break;
    case 3: if (!u.empty()) { u[below(u.size())] = edit(s.a, pick(u)); std::sort(u.begin(), u.end()); } break;
    case 4: if (u.size() > 1) { size_t k = below(u.size() - 1); std::swap(u[k], u[k + 1]); } break;
    case 5: u.insert(u.begin() + (long)below(u.size() + 1), u.empty() ? word(s.a, 2) : pick(u)); break;
    }
    c.push_back("build 2 v" + join(u));
    c.push_back("eq 1 2");
    c.push_back("eq 2 1");
    c.push_back("eq 1 1");
    c.push_back("probe 2");
    if (chance(30)) {
      c.push_back("ser 1 5 " + string(1, "cpso"[below(4)]) + " -1");
      c.push_back("des 5 3 " + string(1, "cpso"[below(4)]));
      c.push_back("eq 1 3");
      c.push_back("eq 3 2");
      c.push_back("probe 3");
      c.push_back("add 3 " + hex(t.empty() ? "zz" : t.back()));
      c.push_back("add 3 ffffff");
      c.push_back("size 3");
      c.push_back("con 3" + join(probes(s.a, t, 8)));
    }
    return c;
  }
  // Two dictionaries that differ in few places, deep down.
  vector<string> twins() {
    vector<string> c;
    Shape s = shape();
    if (s.count > 100) s.count = 100;
    vector<string> t = sorted_terms(s.a, s.maxlen, s.count);
    t.erase(std::unique(t.begin(), t.end()), t.end());
    vector<string> u = t;
    if (!u.empty()) {
      switch (below(5)) {
      case 0: break;
      case 1: { string &w = u[below(u.size())]; w = edits(s.a, w, 1); break; }
      case 2: { string &w = u[below(u.size())]; if (!w.empty()) w.back() = ch(s.a); break; }
      case 3: { // one node's finality: swap a term for its prefix
        string &w = u[below(u.size())]; if (!w.empty()) w.pop_back(); break; }
      case 4: { for (auto &w : u) if (!w.empty()) w[0] = (char)(w[0] ^ 1); break; }
      }
      std::sort(u.begin(), u.end());
      u.erase(std::unique(u.begin(), u.end()), u.end());
    }
    c.push_back("build 1 v" + join(t));
    c.push_back("build 2 l" + join(u));
    c.push_back("eq 1 2");
    c.push_back("eq 2 1");
    c.push_back("ser 2 5 s -1");
    c.push_back("des 5 3 p");
    c.push_back("eq 2 3");
    c.push_back("eq 1 3");
    c.push_back("eq 3 1");
    c.push_back("ser 3 5 o -1");
    c.push_back("des 5 4 o");
    c.push_back("eq 4 2");
    c.push_back("eq 1 4");
    c.push_back("eq 4 4");
    return c;
  }
  vector<string> roundtrip() {
    vector<string> c;
    Shape s = shape();
    vector<string> t = sorted_terms(s.a, s.maxlen, s.count), u = sorted_terms(s.a, s.maxlen, below(s.count + 1));
    budget(t);
    c.push_back("build 1 v" + join(t));
    c.push_back("build 2 v" + join(u));
    int from = 1;
    int rounds = (int)between(1, 4);
    if (chance(40)) c.push_back("ser 2 1 " + string(1, "cpso"[below(4)]) + " -1"); // something to overwrite
    for (int k = 0; k < rounds; ++k) {
      c.push_back("ser " + std::to_string(from) + " 1 " + string(1, "cpso"[below(4)]) + " -1");
      int to = 10 + k;
      c.push_back("des 1 " + std::to_string(to) + " " + string(1, "cpso"[below(4)]));
      c.push_back("probe " + std::to_string(to));
      c.push_back("eq 1 " + std::to_string(to));
      c.push_back("con " + std::to_string(to) + join(probes(s.a, t, 8)));
      string q = query(s.a, t, s.maxlen);
      c.push_back("search " + std::to_string(below(3)) + " " + std::to_string(to) + " c " + hex(q) + " " + limits(q, 1));
      if (chance(30)) c.push_back("probe " + std::to_string(from)); // serializing changes nothing
      from = chance(70) ? to : 1;
    }
    c.push_back("probe 1");
    return c;
  }
  // Nodes of a graph that accepts the terms; more or less of it is shared.
  // With dead, words that are not terms lead to nowhere.
  string some_graph(const vector<string> &t, const vector<string> &dead = {}) {
    struct N { bool fin = false; std::map<unsigned char, int> out; };
    vector<N> n(1);
    auto insert = [&](const string &w) {
      int at = 0;
      for (unsigned char c : w) {
        auto it = n[(size_t)at].out.find(c);
        if (it == n[(size_t)at].out.end()) {
          n.emplace_back();
          it = n[(size_t)at].out.emplace(c, (int)n.size() - 1).first;
        }
        at = it->second;
      }
      return (size_t)at;
    };
    for (auto &w : t) n[insert(w)].fin = true;
    for (auto &w : dead) insert(w);
    int share = (int)(below(3) * 50);
    std::map<std::pair<bool, std::map<unsigned char, int>>, vector<int>> same;
    vector<int> as(n.size());
    for (size_t k = n.size(); k-- > 0;) { // children have higher numbers
      for (auto &[c, x] : n[k].out) x = as[(size_t)x];
      auto &v = same[{n[k].fin, n[k].out}];
      as[k] = k > 0 && !v.empty() && chance(share) ? v[below(v.size())] : (int)k;
      if (as[k] == (int)k && k > 0) v.push_back((int)k);
    }
    // numbered from the root on; edges lead to higher numbers
    vector<int> order, seen(n.size(), 0);
    std::function<void(int)> visit = [&](int k) {
      seen[(size_t)k] = 1;
      for (auto &[c, x] : n[(size_t)k].out) if (!seen[(size_t)x]) visit(x);
      order.push_back(k);
    };
    visit(0);
    std::reverse(order.begin(), order.end());
    vector<int> num(n.size(), 0);
    for (size_t k = 0; k < order.size(); ++k) num[(size_t)order[k]] = (int)k + 1;
    string s;
    for (int k : order) {
      s += n[(size_t)k].fin ? " 1" : " 0";
      for (auto &[c, x] : n[(size_t)k].out) s += "," + hex(string(1, (char)c)) + ">" + std::to_string(num[(size_t)x]);
    }
    return s;
  }
  vector<string> message() {
    vector<string> c;
    Shape s = shape();
    if (s.maxlen > 40) s.maxlen = 40;
    vector<string> t = sorted_terms(s.a, s.maxlen, s.count);
    if (chance(5)) t.clear();
    budget(t);
    c.push_back("build 1 v" + join(t));
    c.push_back("msgof 1");
    for (int k = 2; k < 4; ++k) {
      string d = std::to_string(k);
      c.push_back("msg " + d + " " + std::to_string(below(65536)) + some_graph(t));
      c.push_back("des " + d + " " + d + " " + string(1, "cpso"[below(4)]));
      c.push_back("probe " + d);
      c.push_back("con " + d + join(probes(s.a, t, 6)));
      string q = query(s.a, t, s.maxlen);
      c.push_back("search " + std::to_string(below(3)) + " " + d + " " + (chance(50) ? "c " : "s ") + hex(q) + " " + limits(q, 1));
      c.push_back("eq 1 " + d);
      if (chance(50)) {
        c.push_back("ser " + d + " 1 " + string(1, "cpso"[below(4)]) + " -1");
        c.push_back("msgof " + d);
        c.push_back("des 1 9 c");
        c.push_back("probe 9");
        c.push_back("msgof 9");
      }
    }
    return c;
  }
  // Graphs made by hand, and parts of dictionaries.
  vector<string> parts() {
    vector<string> c;
    Shape s = shape();
    if (s.maxlen > 40) s.maxlen = 40;
    vector<string> t = sorted_terms(s.a, s.maxlen, s.count);
    budget(t);
    vector<string> dead;
    if (chance(40)) for (int k = 0; k < 6; ++k) dead.push_back((t.empty() ? "" : pick(t).substr(0, below(4))) + word(s.a, between(1, 4)));
    c.push_back(chance(50) ? string("build 1 ") + "vls"[below(3)] + join(t) : "hand 1 " + std::to_string(below(8)) + some_graph(t, dead));
    if (chance(30)) c.push_back("probe 1");
    auto walk = [&](const string &d, const vector<string> &u) {
      c.push_back("enum " + d);
      for (int k = 0; k < 2; ++k) {
        string q = query(s.a, u, s.maxlen);
        c.push_back("search " + std::to_string(below(3)) + " " + d + " " + (chance(50) ? "c " : "s ") + hex(q) + " " + limits(q, chance(50) ? 1 : 2));
      }
      if (chance(30)) c.push_back("graph " + d);
    };
    walk("1", t);
    vector<vector<string>> below_ = {{}, t};
    for (int d = 2; d < 7; ++d) {
      size_t from = between(1, below_.size() - 1);
      const vector<string> &u = below_[from];
      string w = u.empty() ? word(s.a, below(2)) : pick(u);
      w.resize(below(std::min(w.size(), (size_t)(chance(70) ? 3 : 40)) + 1));
      if (chance(10)) w = edit(s.a, w);
      c.push_back("view " + std::to_string(d) + " " + std::to_string(from) + " " + hex(w));
      vector<string> v;
      for (auto &x : u) if (x.compare(0, w.size(), w) == 0) v.push_back(x.substr(w.size()));
      if (v.empty() && !w.empty()) { below_.push_back({}); continue; }
      below_.push_back(v);
      walk(std::to_string(d), v);
    }
    if (chance(50)) { // one iterates while another searches
      c.push_back("eb 1 2");
      c.push_back("tr 1 " + std::to_string(below(3)) + " c 3");
      for (int k = 0; k < 6; ++k) {
        c.push_back("ir 1");
        c.push_back("ts 1 " + hex(query(s.a, t, s.maxlen)) + " " + std::to_string(below(3)));
        c.push_back("in 1");
        c.push_back("ie 1");
      }
      c.push_back("iz 1");
    }
    if (chance(30)) c.push_back("probe 1");
    return c;
  }
  // What searches and look-ups look at.
  vector<string> pages() {
    vector<string> c;
    Shape s = shape();
    if (s.maxlen > 30) s.maxlen = 30;
    if (s.count > 120) s.count = 120;
    vector<string> t = raw_terms(s.a, s.maxlen, s.count);
    budget(t);
    c.push_back("paged 1" + join(t));
    for (int k = 0; k < 5; ++k) {
      string q = query(s.a, t, s.maxlen);
      c.push_back("explore " + std::to_string(below(3)) + " 1 " + hex(q) + " " + (chance(80) ? std::to_string(below(4)) : limits(q, 1)));
    }
    c.push_back("look 1" + join(probes(s.a, t, 12)));
    for (int k = 0; k < 3; ++k) {
      string q = query(s.a, t, s.maxlen);
      c.push_back("lazy " + std::to_string(below(3)) + " 1 " + hex(q) + " " + std::to_string(below(4)));
    }
    c.push_back("lazy 3 1 - 0");
    return c;
  }
  vector<string> incomplete() {
    vector<string> c;
    Shape s = shape();
    if (s.maxlen > 12) s.maxlen = 12;
    if (s.count > 12) s.count = 12;
    vector<string> t = sorted_terms(s.a, s.maxlen, s.count);
    if (chance(10)) t.clear();
    c.push_back("build 1 v" + join(t));
    if (chance(60)) c.push_back("tears 1 " + string(1, "cpso"[below(4)]) + " " + std::to_string(chance(60) ? 1 : between(2, 9)) + " 0 -1");
    for (int k = 0; k < 8; ++k)
      if (chance(50)) c.push_back("mangle 1 " + std::to_string(k) + " " + std::to_string(below(64)));
    c.push_back("rmf 7");
    c.push_back("des 7 3 " + string(1, "cpso"[below(4)]));
    c.push_back("probe 1");
    return c;
  }
  vector<string> faults() {
    vector<string> c;
    Shape s = shape();
    if (s.maxlen > 12) s.maxlen = 12;
    if (s.count > 12) s.count = 12;
    vector<string> t = sorted_terms(s.a, s.maxlen, s.count);
    c.push_back("build 1 v" + join(t));
    c.push_back("faults 1 " + string(1, "cpso"[below(4)]) + " " + std::to_string(chance(50) ? 1 : between(2, 9)) + " 0 -1");
    c.push_back("ser 1 2 " + string(1, "cps"[below(3)]) + " -1 /nonexistent/dir/file");
    c.push_back("des 2 3 c");
    c.push_back("ser 1 2 " + string(1, "cps"[below(3)]) + " -1 /");
    c.push_back("des 2 3 c");
    c.push_back("ser 1 2 " + string(1, "cps"[below(3)]) + " -1 /dev/full");
    c.push_back("des 2 3 c");
    c.push_back("ser 1 2 " + string(1, "cpso"[below(4)]) + " -1");
    c.push_back("des 2 3 " + string(1, "cpso"[below(4)]));
    c.push_back("eq 1 3");
    c.push_back("probe 3");
    return c;
  }
  // A long history of one distance function object.
  vector<string> distances(int alg) {
    vector<string> c;
    bool mix = alg < 0 && chance(40);
    if (alg < 0) alg = (int)below(3);
    string a = alphabet();
    size_t maxlen = chance(80) ? between(1, 9) : chance(80) ? between(8, 24) : between(30, 60);
    vector<string> pool = {""};
    int size = (int)between(3, 12);
    for (int k = 0; k < size; ++k) {
      pool.push_back(pool.size() > 1 && chance(50) ? edits(a, pick(pool), between(1, 3)) : word(a, between(0, maxlen)));
      const string p = pick(pool);
      if (chance(30)) pool.push_back(p.substr(below(p.size() + 1)));
      if (chance(20)) pool.push_back(p + pick(pool).substr(0, 6));
    }
    int calls = mix ? (int)between(2, 6) : (int)between(1, 3), o = (int)below(2);
    for (int k = 0; k < calls; ++k) {
      string cmd = "dist " + std::to_string(alg) + " " + std::to_string(o);
      int pairs = (int)between(1, maxlen > 24 ? 4 : 25);
      for (int m = 0; m < pairs; ++m) {
        string v = pick(pool), w = pick(pool);
        if (v.size() > 70) v.resize(70);
        if (w.size() > 70) w.resize(70);
        cmd += " " + hex(v) + " " + hex(w);
        if (chance(30)) cmd += " " + hex(w) + " " + hex(v);
        if (chance(10) && !v.empty()) { // the same characters, cut elsewhere
          string all = v + w;
          size_t cut = below(all.size() + 1);
          cmd += " " + hex(all.substr(0, cut)) + " " + hex(all.substr(cut));
        }
      }
      c.push_back(cmd);
      if (chance(20)) o ^= 1;
      if (mix) alg = (int)below(3);
    }
    return c;
  }
  vector<string> axioms(int alg) {
    vector<string> c;
    if (alg < 0) alg = (int)below(3);
    string a = alphabet();
    size_t maxlen = chance(85) ? between(1, 6) : between(5, 14);
    string cmd = "axioms " + std::to_string(alg) + " 0";
    for (int k = 0; k < 12; ++k) {
      string u = word(a, between(0, maxlen));
      string v = chance(70) ? edits(a, u, below(4)) : word(a, between(0, maxlen));
      string w = chance(70) ? edits(a, v, below(4)) : word(a, between(0, maxlen));
      string x = chance(70) ? word(a, below(4)) : pick(vector<string>{u, v, w});
      cmd += " " + hex(u) + " " + hex(v) + " " + hex(w) + " " + hex(x);
    }
    c.push_back(cmd);
    return c;
  }
  // A bit of everything, for the lifecycle of memory.
  vector<string> lifecycle() {
    vector<string> c;
    auto append = [&](const vector<string> &x, size_t upto) { c.insert(c.end(), x.begin(), x.begin() + (long)std::min(upto, x.size())); };
    switch (below(9)) {
    case 8: append(parts(), 99); break;
    case 0: append(search(-1), 99); break;
    case 1: case 2: { auto x = iterate(); append(x, below(x.size() + 1)); break; } // abandoned anywhere
    case 3: append(dictionary(), 999); break;
    case 4: append(roundtrip(), 99); break;
    case 5: append(distances(-1), 99); break;
    case 6: append(incomplete(), 99); break;
    case 7: append(faults(), 99); break;
    }
    if (chance(30)) append(iterate(), 40);
    return c;
  }

  vector<string> session(const string &name) {
    bytes = name.substr(0, 2) == "b:";
    string profile = bytes ? name.substr(2) : name;
    if (profile == "search0") return search(0);
    if (profile == "search1") return search(1);
    if (profile == "search2") return search(2);
    if (profile == "search") return search(-1);
    if (profile == "iterate") return iterate();
    if (profile == "copies") return iterate(6);
    if (profile == "pages") return pages();
    if (profile == "parts") return parts();
    if (profile == "dictionary") return dictionary();
    if (profile == "twins") return twins();
    if (profile == "roundtrip") return roundtrip();
    if (profile == "message") return message();
    if (profile == "incomplete") return incomplete();
    if (profile == "faults") return faults();
    if (profile == "distances") return distances(-1);
    if (profile == "axioms") return axioms(-1);
    if (profile == "lifecycle") return lifecycle();
    fprintf(stderr, "unknown profile %s\n", profile.c_str());
    exit(3);
  }
};
