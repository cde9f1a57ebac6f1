// The message format of proto/liblevenshtein.proto on the level of bytes:
//   1 node_id (uint64, repeated)  2 final_node_id (uint64, repeated)
//   3 edge {1 source_id  2 label  3 target_id} (repeated)  4 root_id  5 size
// written and read without the library or generated code.
#pragma once
#include <algorithm>
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace msg {

using std::string;
using std::vector;

struct Edge {
  uint64_t source = 0, label = 0, target = 0;
};

struct Reader {
  const string &s;
  size_t p, end;
  bool ok = true;
  bool more() const { return ok && p < end; }
  uint64_t varint() {
    uint64_t v = 0;
    for (int k = 0; k < 70; k += 7) {
      if (p >= end) { ok = false; return 0; }
      auto b = (unsigned char)s[p++];
      if (k < 64) v |= (uint64_t)(b & 127) << k;
      if (b < 128) return v;
    }
    ok = false;
    return 0;
  }
  Reader part() {
    uint64_t n = varint();
    if (!ok || n > end - p) { ok = false; n = 0; }
    Reader r{s, p, p + n};
    p += n;
    return r;
  }
  void skip(int type) {
    if (type == 0) varint();
    else if (type == 1 || type == 5) {
      p += type == 1 ? 8 : 4;
      if (p > end) ok = false;
    } else if (type == 2) part();
    else ok = false;
  }
};

struct Dictionary {
  vector<uint64_t> ids, finals;
  vector<Edge> edges;
  uint64_t root = 0, size = 0;

  bool parse(const string &s) {
    Reader r{s, 0, s.size()};
    while (r.more()) {
      uint64_t tag = r.varint();
      int field = (int)std::min<uint64_t>(tag >> 3, 1000000), type = (int)(tag & 7);
      if (field == 0) return false;
      if ((field == 1 || field == 2) && (type == 0 || type == 2)) {
        auto &v = field == 1 ? ids : finals;
        if (type == 0) v.push_back(r.varint());
        else {
          Reader q = r.part();
          while (q.more()) v.push_back(q.varint());
          if (!q.ok) return false;
        }
      } else if (field == 3 && type == 2) {
        Reader q = r.part();
        Edge e;
        while (q.more()) {
          uint64_t t = q.varint();
          if (t == (1 << 3)) e.source = q.varint();
          else if (t == (2 << 3)) e.label = q.varint();
          else if (t == (3 << 3)) e.target = q.varint();
          else q.skip((int)(t & 7));
        }
        if (!q.ok) return false;
        edges.push_back(e);
      } else if (field == 4 && type == 0) root = r.varint();
      else if (field == 5 && type == 0) size = r.varint();
      else r.skip(type);
    }
    return r.ok;
  }

  // A label is a char, maybe sign-extended; 0 to 255, or -1.
  static int label(uint64_t x) {
    x &= 0xFFFFFFFFu; // the field is a uint32
    return x < 256 ? (int)x : x >= 0xFFFFFF80u ? (int)(x & 255) : -1;
  }

  // Numbers of the ids: the root is 1, edges lead to higher numbers if there
  // is no cycle; ids that are not declared or not reached come last.
  std::map<uint64_t, int> numbers() const {
    std::map<uint64_t, vector<uint64_t>> out;
    for (auto &e : edges) out[e.source].push_back(e.target);
    vector<uint64_t> order;
    std::map<uint64_t, int> state;
    struct Fr { uint64_t id; size_t k; };
    vector<Fr> st;
    auto enter = [&](uint64_t id) { state[id] = 1; st.push_back({id, 0}); };
    enter(root);
    while (!st.empty()) {
      Fr &f = st.back();
      auto &t = out[f.id];
      if (f.k < t.size()) {
        uint64_t x = t[f.k++];
        if (!state.count(x)) enter(x);
      } else {
        order.push_back(f.id);
        st.pop_back();
      }
    }
    std::reverse(order.begin(), order.end());
    for (auto id : ids) if (state.emplace(id, 1).second) order.push_back(id);
    for (auto id : finals) if (state.emplace(id, 1).second) order.push_back(id);
    for (auto &e : edges) if (state.emplace(e.source, 1).second) order.push_back(e.source);
    std::map<uint64_t, int> num;
    for (size_t k = 0; k < order.size(); ++k) num[order[k]] = (int)k + 1;
    return num;
  }

  // [[final,[[label,target],...]],...]; 0 stands for an id that is not declared.
  string nodes() const {
    auto num = numbers();
    std::set<uint64_t> declared(ids.begin(), ids.end()), fin(finals.begin(), finals.end());
    vector<uint64_t> order(num.size());
    for (auto &[id, k] : num) order[(size_t)k - 1] = id;
    std::map<uint64_t, string> es;
    for (auto &e : edges) {
      string &x = es[e.source];
      bool known = declared.count(e.target) && declared.count(e.source);
      x += (x.empty() ? "[" : ",[") + std::to_string(label(e.label)) + "," + std::to_string(known ? num[e.target] : 0) + "]";
    }
    string r;
    for (auto id : order) {
      if (!declared.count(id)) es[id] += es[id].empty() ? "[0,0]" : ",[0,0]";
      r += (r.empty() ? "[" : ",[") + string(fin.count(id) ? "true" : "false") + ",[" + es[id] + "]]";
    }
    return r;
  }

  // The terms, sorted (no more than most of them).
  vector<string> language(size_t most) const {
    std::map<uint64_t, vector<std::pair<int, uint64_t>>> out;
    for (auto &e : edges) out[e.source].emplace_back(label(e.label), e.target);
    std::set<uint64_t> fin(finals.begin(), finals.end());
    vector<string> r;
    size_t budget = 50 * most + 1000000;
    std::function<void(uint64_t, string &)> go = [&](uint64_t id, string &w) {
      if (r.size() > most || budget == 0 || w.size() > 100000) return;
      --budget;
      if (fin.count(id)) r.push_back(w);
      for (auto &[c, t] : out[id]) {
        w.push_back((char)c);
        go(t, w);
        w.pop_back();
      }
    };
    string w;
    go(root, w);
    std::sort(r.begin(), r.end());
    return r;
  }

  static void varint(string &s, uint64_t v) {
    while (v >= 128) {
      s.push_back((char)(v | 128));
      v >>= 7;
    }
    s.push_back((char)v);
  }

  // One of the many ways to write the message.
  string bytes(unsigned v) const {
    uint64_t x = v * 2654435761u + 12345;
    auto rnd = [&](size_t n) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; return (size_t)((x >> 33) % n); };
    auto id = [&](uint64_t i) -> uint64_t {
      switch (v & 7) {
      case 0: return i;
      case 1: return i - 1;                     // the root is 0
      case 2: return UINT64_MAX - i + 1;
      case 3: return i * 0x100000000ULL;        // equal in their low halves
      case 4: return (i << 3) + 0x7ffe0000ULL;
      case 5: return 0x5500000000ULL + (i * 0x9E3779B1ULL % 65521) * 65536 + i;
      case 6: return ids.size() - i;            // another node is 0
      default: return i * 0x8000000000000001ULL;
      }
    };
    auto shuffle = [&](auto &a, unsigned how) {
      if (how == 1) std::reverse(a.begin(), a.end());
      if (how == 2) for (size_t k = a.size(); k > 1; --k) std::swap(a[k - 1], a[rnd(k)]);
    };
    vector<uint64_t> n = ids, f = finals;
    vector<Edge> e = edges;
    unsigned how = (v >> 3) & 3;
    shuffle(n, how);
    shuffle(f, how);
    shuffle(e, how);
    string part[5];
    auto list = [&](string &s, int field, const vector<uint64_t> &a) {
      if ((v >> 8) & 1) { // not packed
        for (auto i : a) varint(s, (uint64_t)field << 3), varint(s, id(i));
        return;
      }
      for (size_t k = 0; k < a.size();) { // packed, maybe in several pieces
        size_t m = (v >> 9) & 1 ? std::min(a.size() - k, 1 + rnd(3)) : a.size();
        string q;
        for (size_t j = 0; j < m; ++j) varint(q, id(a[k + j]));
        varint(s, (uint64_t)field << 3 | 2);
        varint(s, q.size());
        s += q;
        k += m;
      }
    };
    list(part[0], 1, n);
    list(part[1], 2, f);
    for (auto &g : e) {
      string q, fs[3];
      varint(fs[0], 1 << 3), varint(fs[0], id(g.source));
      uint64_t lab = g.label;
      if (((v >> 10) & 1) && lab >= 128) lab |= 0xFFFFFF00u; // as a signed char
      if (lab != 0 || ((v >> 11) & 1)) varint(fs[1], 2 << 3), varint(fs[1], lab);
      varint(fs[2], 3 << 3), varint(fs[2], id(g.target));
      if ((v >> 12) & 1) q = fs[2] + fs[1] + fs[0];
      else q = fs[0] + fs[1] + fs[2];
      varint(part[2], 3 << 3 | 2);
      varint(part[2], q.size());
      part[2] += q;
    }
    if (id(root) != 0 || ((v >> 11) & 1)) varint(part[3], 4 << 3), varint(part[3], id(root));
    if (size != 0 || ((v >> 11) & 1)) varint(part[4], 5 << 3), varint(part[4], size);
    int order[5] = {0, 1, 2, 3, 4};
    if (((v >> 13) & 3) == 1) std::reverse(order, order + 5);
    if (((v >> 13) & 3) == 2) for (int k = 4; k > 0; --k) std::swap(order[k], order[rnd((size_t)k + 1)]);
    string s;
    for (int k : order) {
      if ((v >> 15) & 1) { // a field of a later version
        varint(s, 15 << 3 | 2);
        varint(s, 3);
        s += "\x08\x96\x01";
        varint(s, 1000 << 3), varint(s, 7);
      }
      s += part[k];
    }
    return s;
  }
};

} // namespace msg
