// Dictionary nodes under sequences of operations, judged by NodesTrace.tla.
// Edges lead from lower to higher numbers.
#include "gen.hpp"
#include "main.hpp"

#include "liblevenshtein/collection/dawg_node.h"

using ll::DawgNode;

struct NodeSession : Recorder {
  struct N {
    std::unique_ptr<DawgNode> node;
    bool final = false;
    std::map<unsigned char, int> edges;
  };
  std::map<int, N> nodes;

  void clear() {
    nodes.clear();
    forget();
  }
  int refs(int id) {
    int r = 0;
    for (auto &[k, n] : nodes)
      for (auto &[l, t] : n.edges) r += t == id;
    return r;
  }
  std::map<int, int> classes() { // structural equality, only for the filter
    std::map<int, int> rep;
    std::map<std::pair<bool, std::map<unsigned char, int>>, int> sig;
    for (auto it = nodes.rbegin(); it != nodes.rend(); ++it) {
      std::map<unsigned char, int> e;
      for (auto &[l, t] : it->second.edges) e[l] = rep[t];
      rep[it->first] = sig.emplace(std::make_pair(it->second.final, e), it->first).first->second;
    }
    return rep;
  }
  int number(DawgNode *p) {
    if (p == nullptr) return 0;
    for (auto &[k, n] : nodes) if (n.node.get() == p) return k;
    return -1;
  }
  void look(int id) {
    N &n = nodes[id];
    string e, t;
    std::map<unsigned char, int> seen;
    n.node->for_each_edge([&](char c, DawgNode *to) {
      int k = number(to);
      if (!seen.emplace((unsigned char)c, k).second) suspect = true;
      e += (e.empty() ? "[" : ",[") + std::to_string((unsigned char)c) + "," + std::to_string(k) + "]";
    });
    expect(seen == n.edges && n.node->is_final() == n.final);
    std::set<unsigned char> probes = {0, 1, 97, 98, 127, 128, 255};
    for (auto &[l, x] : n.edges) { probes.insert(l); probes.insert((unsigned char)(l + 1)); probes.insert((unsigned char)(l ^ 128)); }
    for (unsigned char l : probes) {
      int k = number(n.node->transition((char)l));
      auto f = n.edges.find(l);
      expect(k == (f == n.edges.end() ? 0 : f->second));
      t += (t.empty() ? "[" : ",[") + std::to_string(l) + "," + std::to_string(k) + "]";
    }
    ev("\"op\":\"look\",\"id\":" + std::to_string(id) + ",\"final\":" + jb(n.node->is_final()) + ",\"edges\":[" + e + "],\"probes\":[" + t + "]");
  }
  void exec(const string &line) {
    std::istringstream is(line);
    string op;
    is >> op;
    int id = 0;
    is >> id;
    auto I = [&]() { int v = 0; is >> v; return v; };
    string j = "\"op\":\"" + op + "\",\"id\":" + std::to_string(id);
    if (op == "node") { // final, then edges it is made with
      if (nodes.count(id)) return;
      bool final = I() != 0;
      std::map<char, DawgNode *> m;
      N n;
      n.final = final;
      int l, t;
      string e;
      while (is >> l >> t) {
        if (t <= id || !nodes.count(t) || n.edges.count((unsigned char)l)) continue;
        m[(char)l] = nodes[t].node.get();
        n.edges[(unsigned char)l] = t;
        e += (e.empty() ? "[" : ",[") + std::to_string(l) + "," + std::to_string(t) + "]";
      }
      n.node.reset(m.empty() ? new DawgNode(final) : new DawgNode(m, final));
      nodes[id] = std::move(n);
      ev(j + ",\"final\":" + jb(final) + ",\"edges\":[" + e + "]");
      look(id);
      return;
    }
    if (!nodes.count(id)) return;
    N &n = nodes[id];
    if (op == "final") {
      bool f = I() != 0;
      n.node->is_final(f);
      n.final = f;
      ev(j + ",\"final\":" + jb(f));
      look(id);
    } else if (op == "edge") {
      int l = I(), t = I();
      if (t <= id || !nodes.count(t)) return;
      auto old = n.edges.find((unsigned char)l);
      int gone = 0;
      if (old != n.edges.end() && old->second != t) { // the node takes the old target with it
        gone = old->second;
        if (refs(gone) != 1) return;
        nodes[gone].node.release();
        nodes.erase(gone);
      }
      DawgNode *r = n.node->add_edge((char)l, nodes[t].node.get());
      expect(r == n.node.get());
      n.edges[(unsigned char)l] = t;
      ev(j + ",\"label\":" + std::to_string(l) + ",\"target\":" + std::to_string(t) + ",\"gone\":" + std::to_string(gone) + ",\"self\":" + jb(r == n.node.get()));
      look(id);
    } else if (op == "eq") {
      int o = I();
      if (!nodes.count(o)) return;
      const DawgNode &a = *n.node, &b = *nodes[o].node;
      bool eq = a == b, ne = a != b;
      auto rep = classes();
      bool same = rep[id] == rep[o];
      if (eq == ne) eq = !same;
      bool heq = std::hash<DawgNode>()(a) == std::hash<DawgNode>()(b);
      expect(eq == same && (!eq || heq));
      ev(j + ",\"other\":" + std::to_string(o) + ",\"eq\":" + jb(eq) + ",\"heq\":" + jb(heq));
    } else if (op == "look") {
      look(id);
    } else {
      fprintf(stderr, "unknown command %s\n", op.c_str());
      exit(3);
    }
  }
  void run(const vector<string> &cmds) {
    for (const string &c : cmds) {
      try {
        exec(c);
      } catch (const std::exception &e) {
        threw(e);
        return;
      }
    }
  }
};

struct NodeGen : Gen {
  using Gen::Gen;
  string num(size_t k) { return std::to_string(k); }
  vector<string> session(const string &profile) {
    vector<string> c;
    string a = alphabet();
    auto label = [&]() { return num((unsigned char)ch(a)); };
    if (profile == "deep") { // two long chains with side branches that differ in one place at most
      size_t len = between(2, chance(80) ? 40 : 150);
      vector<vector<string>> two(2);
      size_t where = below(len + 1), what = below(4);
      vector<string> labels, finals;
      for (size_t k = 0; k < len; ++k) { labels.push_back(label()); finals.push_back(num(below(2))); }
      for (int w = 0; w < 2; ++w) {
        // nodes from the end; numbers decrease towards the root
        size_t base = w == 0 ? 1000 : 2000;
        c.push_back("node " + num(base) + " 1");
        for (size_t k = 0; k < len; ++k) {
          string l = labels[k], f = finals[k];
          string extra;
          if (w == 1 && k == where) {
            if (what == 0) f = f == "1" ? "0" : "1";
            if (what == 1) l = label();
            if (what == 2) extra = " " + label() + " " + num(base);
          }
          if (chance(10)) extra = " " + labels[(k + 1) % len] + " " + num(base);
          c.push_back("node " + num(base - 1 - k) + " " + f + " " + l + " " + num(base - k) + extra);
        }
      }
      c.push_back("eq " + num(1000 - len) + " " + num(2000 - len));
      c.push_back("eq " + num(2000 - len) + " " + num(1000 - len));
      for (int k = 0; k < 4; ++k) c.push_back("eq " + num(1000 - below(len + 1)) + " " + num(2000 - below(len + 1)));
      return c;
    }
    size_t top = between(2, 14);
    for (size_t k = top; k >= 1; --k) c.push_back("node " + num(k) + " " + num(below(2)) + (chance(50) ? " " + label() + " " + num(k + 1 + below(4)) : "") + (chance(40) ? " " + label() + " " + num(k + 1 + below(4)) : ""));
    int n = (int)between(3, 40);
    for (int k = 0; k < n; ++k) {
      size_t i = between(1, top), o = between(1, top);
      switch (below(6)) {
      case 0: case 1: case 2: c.push_back("edge " + num(i) + " " + label() + " " + num(i + 1 + below(top))); break;
      case 3: c.push_back("final " + num(i) + " " + num(below(2))); break;
      case 4: c.push_back("eq " + num(i) + " " + num(o)); break;
      case 5: c.push_back("look " + num(i)); break;
      }
    }
    for (size_t i = 1; i <= top; ++i)
      for (size_t o = i; o <= top; ++o) c.push_back("eq " + num(i) + " " + num(o));
    return c;
  }
};

int main(int argc, char **argv) { return driver<NodeSession, NodeGen>(argc, argv); }
