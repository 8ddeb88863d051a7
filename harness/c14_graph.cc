// C14: spanning trees and forests against an independent union-find oracle.
#include "vf.h"
#include <albatross/Core>
#include <albatross/Graph>

using namespace albatross;

namespace {

struct Key {
  int a;
  std::string b;
  bool operator<(const Key &o) const {
    return a != o.a ? a < o.a : b < o.b;
  }
  bool operator==(const Key &o) const { return a == o.a && b == o.b; }
};
std::ostream &operator<<(std::ostream &os, const Key &k) {
  return os << k.a << ":" << k.b;
}

template <typename V> V vertex(long i);
template <> int vertex<int>(long i) { return static_cast<int>(i * 3 - 7); }
template <> std::string vertex<std::string>(long i) {
  return "v" + std::to_string(i);
}
template <> Key vertex<Key>(long i) {
  return Key{static_cast<int>(i % 3), "k" + std::to_string(i)};
}

struct Raw {
  std::size_t n; // vertices
  std::vector<long> a, b;
  std::vector<double> w;
};

struct Uf {
  std::vector<long> p;
  explicit Uf(std::size_t n) : p(n) {
    for (std::size_t i = 0; i < n; ++i)
      p[i] = static_cast<long>(i);
  }
  long find(long x) {
    while (p[static_cast<std::size_t>(x)] != x)
      x = p[static_cast<std::size_t>(x)];
    return x;
  }
  bool join(long a, long b) {
    a = find(a);
    b = find(b);
    if (a == b)
      return false;
    p[static_cast<std::size_t>(a)] = b;
    return true;
  }
};

Raw make(vf::Case &c, bool connected) {
  Raw g;
  g.n = c.rng.size(connected ? 2 : 1, 14);
  const long n = static_cast<long>(g.n);
  const int weights = static_cast<int>(c.rng.integer(0, 5));
  const double base = c.rng.log_uniform(1e-8, 1e8) * (c.rng.coin() ? 1. : -1.);
  auto weight = [&]() -> double {
    switch (weights) {
    case 0: // many ties
      return static_cast<double>(c.rng.integer(-2, 2));
    case 1:
      return 0.25 * static_cast<double>(c.rng.integer(-1000, 1000));
    case 2: // all the same
      return 1.5;
    case 3: // as close to each other as numbers can be
      return base * (1. + std::ldexp(static_cast<double>(c.rng.integer(-9, 9)),
                                     -52));
    case 4: // close
      return base * (1. + 1e-9 * c.rng.normal());
    default: // very different magnitudes, exactly representable sums
      return std::ldexp(static_cast<double>(c.rng.integer(-7, 7)),
                        static_cast<int>(c.rng.integer(-10, 20)));
    }
  };
  auto push = [&](long a, long b) {
    if (c.rng.coin())
      std::swap(a, b);
    g.a.push_back(a);
    g.b.push_back(b);
    g.w.push_back(weight());
  };
  if (connected) {
    for (long i = 1; i < n; ++i)
      push(i, c.rng.integer(0, i - 1));
  }
  const std::size_t extra = c.rng.size(connected ? 0 : 1, 2 * g.n);
  for (std::size_t i = 0; i < extra; ++i) {
    const long a = c.rng.integer(0, n - 1);
    long b = c.rng.integer(0, n - 1);
    const int kind = static_cast<int>(c.rng.integer(0, 9));
    if (kind == 0)
      b = a; // self loop
    if (kind == 1 && !g.a.empty()) { // parallel edge
      const std::size_t k = c.rng.size(0, g.a.size() - 1);
      push(g.a[k], g.b[k]);
      continue;
    }
    push(a, b);
  }
  // random order of the edges
  const auto perm = c.rng.choose(g.a.size(), g.a.size());
  Raw s = g;
  for (std::size_t i = 0; i < perm.size(); ++i) {
    s.a[i] = g.a[perm[i]];
    s.b[i] = g.b[perm[i]];
    s.w[i] = g.w[perm[i]];
  }
  c.desc << "n=" << s.n << " kind=" << weights << " edges=";
  for (std::size_t i = 0; i < s.a.size(); ++i)
    c.desc << s.a[i] << "-" << s.b[i] << "(" << s.w[i] << ") ";
  return s;
}

// Weights of an optimal forest in the order chosen (sign +1: minimum).
std::vector<double> oracle(const Raw &g, double sign, Uf *uf) {
  std::vector<std::size_t> order(g.a.size());
  for (std::size_t i = 0; i < order.size(); ++i)
    order[i] = i;
  std::stable_sort(order.begin(), order.end(), [&](std::size_t i, std::size_t j) {
    return sign * g.w[i] < sign * g.w[j];
  });
  std::vector<double> out;
  for (auto i : order) {
    if (uf->join(g.a[i], g.b[i]))
      out.push_back(g.w[i]);
  }
  return out;
}

template <typename V>
void run(vf::Case &c, const Raw &g, bool connected) {
  std::vector<Edge<V>> edges;
  std::map<V, long> index;
  for (std::size_t i = 0; i < g.a.size(); ++i) {
    edges.emplace_back(vertex<V>(g.a[i]), vertex<V>(g.b[i]), g.w[i], 1000 + i);
    index[vertex<V>(g.a[i])] = g.a[i];
    index[vertex<V>(g.b[i])] = g.b[i];
  }
  Graph<V> graph = create_graph(edges);
  std::set<V> vs;
  for (const auto &p : index)
    vs.insert(p.first);
  VF_CHECK("create_graph", graph.vertices == vs && graph.edges == edges, "");
  VF_CHECK("compute_vertices", compute_vertices(edges) == vs, "");

  // Build the same graph one edge at a time.
  Graph<V> incremental;
  for (const auto &e : edges)
    add_edge(e, &incremental);
  VF_CHECK("add_edge",
           incremental.vertices == vs && incremental.edges.size() == edges.size(),
           "");
  for (const auto &v : vs)
    VF_CHECK("contains_vertex", contains_vertex(incremental, v), "");
  VF_CHECK("contains_absent",
           !contains_vertex(incremental, vertex<V>(1000)), "");

  // Adjacency: every edge is listed at both ends, leading away from that end.
  const auto adjacency = adjacency_map(graph);
  std::size_t listed = 0;
  std::map<std::size_t, int> seen;
  for (const auto &p : adjacency) {
    for (const auto &e : p.second) {
      ++listed;
      ++seen[e.id];
      const std::size_t i = e.id - 1000;
      VF_REQUIRE("adjacency_id", i < g.a.size(), e.id);
      VF_CHECK("adjacency_from", e.a == p.first, e);
      const V ga = vertex<V>(g.a[i]), gb = vertex<V>(g.b[i]);
      VF_CHECK("adjacency_edge",
               ((e.a == ga && e.b == gb) || (e.a == gb && e.b == ga)) &&
                   e.cost == g.w[i],
               e);
    }
  }
  VF_CHECK("adjacency_count", listed == 2 * edges.size(), listed);
  for (std::size_t i = 0; i < edges.size(); ++i)
    VF_CHECK("adjacency_both_ends", seen[1000 + i] == 2, i);
  VF_CHECK("adjacency_vertices", adjacency.size() == vs.size(), "");

  // If asked, add vertices without any edge.
  const bool isolated = !connected && c.rng.coin(0.3);
  if (isolated)
    graph.vertices.insert(vertex<V>(500));

  Uf all(g.n);
  for (std::size_t i = 0; i < g.a.size(); ++i)
    all.join(g.a[i], g.b[i]);

  auto check = [&](const std::string &what, const Graph<V> &out, double sign,
                   bool forest) {
    Uf mine(g.n);
    std::vector<double> w;
    std::set<std::size_t> ids;
    std::set<V> ends;
    for (const auto &e : out.edges) {
      const std::size_t i = e.id - 1000;
      VF_REQUIRE(what + "/edge_id", i < g.a.size(), e.id);
      VF_CHECK(what + "/edge_twice", ids.insert(i).second, e);
      const V ga = vertex<V>(g.a[i]), gb = vertex<V>(g.b[i]);
      VF_CHECK(what + "/edge_of_graph",
               ((e.a == ga && e.b == gb) || (e.a == gb && e.b == ga)) &&
                   e.cost == g.w[i],
               e << " is not edge " << i);
      VF_CHECK(what + "/acyclic", mine.join(g.a[i], g.b[i]), e);
      w.push_back(e.cost);
      ends.insert(e.a);
      ends.insert(e.b);
    }
    Uf best(g.n);
    std::vector<double> expected = oracle(g, sign, &best);
    if (!forest && !connected) {
      // One tree: it spans the part of the graph it is in.
      if (!out.edges.empty()) {
        const long root = all.find(index.at(out.edges[0].a));
        Raw part = g;
        part.a.clear();
        part.b.clear();
        part.w.clear();
        for (std::size_t i = 0; i < g.a.size(); ++i) {
          if (all.find(g.a[i]) == root) {
            part.a.push_back(g.a[i]);
            part.b.push_back(g.b[i]);
            part.w.push_back(g.w[i]);
          }
        }
        Uf pb(g.n);
        expected = oracle(part, sign, &pb);
        for (const auto &v : ends)
          VF_CHECK(what + "/one_part", all.find(index.at(v)) == root, v);
      } else {
        // The best edge must have been a loop on a vertex by itself.
        bool possible = false;
        double extreme = sign * g.w[0];
        for (std::size_t i = 0; i < g.a.size(); ++i)
          extreme = std::min(extreme, sign * g.w[i]);
        for (std::size_t i = 0; i < g.a.size(); ++i) {
          if (sign * g.w[i] == extreme && g.a[i] == g.b[i]) {
            bool alone = true;
            for (std::size_t j = 0; j < g.a.size(); ++j)
              alone = alone && (g.a[j] == g.b[j] ||
                                (g.a[j] != g.a[i] && g.b[j] != g.a[i]));
            possible = possible || alone;
          }
        }
        VF_CHECK(what + "/empty", possible, "no edges were chosen");
        expected.clear();
      }
    }
    VF_CHECK(what + "/edge_count", w.size() == expected.size(),
             w.size() << " edges, expected " << expected.size());
    std::sort(w.begin(), w.end());
    std::sort(expected.begin(), expected.end());
    double total = 0., expected_total = 0.;
    for (double x : w)
      total += x;
    for (double x : expected)
      expected_total += x;
    VF_CHECK(what + "/total_weight", total == expected_total,
             total << " expected " << expected_total);
    // Every optimal tree has the same weights.
    VF_CHECK(what + "/weights", w == expected, "");
    for (const auto &v : ends)
      VF_CHECK(what + "/vertices", contains_vertex(out, v), v);
    for (const auto &v : out.vertices)
      VF_CHECK(what + "/vertex_of_graph", index.count(v) == 1, v);
    if (forest || connected) {
      for (std::size_t i = 0; i < g.a.size(); ++i)
        VF_CHECK(what + "/connects",
                 mine.find(g.a[i]) == mine.find(g.b[i]), i);
    }
    if (connected)
      VF_CHECK(what + "/spans", out.vertices == vs, out.vertices.size());
    std::ostringstream os;
    os << out;
    const std::string s = os.str();
    VF_CHECK(what + "/printed",
             static_cast<std::size_t>(std::count(s.begin(), s.end(), '\n')) ==
                 out.edges.size(),
             s);
  };

  const Graph<V> before = graph;
  check("minimum_spanning_tree", minimum_spanning_tree(graph), 1., false);
  check("maximum_spanning_tree", maximum_spanning_tree(graph), -1., false);
  check("minimum_spanning_forest", minimum_spanning_forest(graph), 1., true);
  check("maximum_spanning_forest", maximum_spanning_forest(graph), -1., true);
  VF_CHECK("input_untouched",
           graph.edges == before.edges && graph.vertices == before.vertices, "");
  if (g.a.size() > g.n)
    c.count("graphs_with_cycles");
  if (!connected)
    c.count("possibly_disconnected_graphs");
  c.reached();
}

template <typename V> void dispatch(vf::Case &c, bool connected) {
  const Raw g = make(c, connected);
  run<V>(c, g, connected);
}

VF_SECTION("connected", 1200, 20000) {
  switch (c.index % 3) {
  case 0:
    return dispatch<int>(c, true);
  case 1:
    return dispatch<std::string>(c, true);
  default:
    return dispatch<Key>(c, true);
  }
}

VF_SECTION("disconnected", 1200, 20000) {
  switch (c.index % 3) {
  case 0:
    return dispatch<int>(c, false);
  case 1:
    return dispatch<std::string>(c, false);
  default:
    return dispatch<Key>(c, false);
  }
}

VF_SECTION("empty", 1, 1) {
  Graph<int> g;
  VF_CHECK("empty", minimum_spanning_tree(g).edges.empty(), "");
  VF_CHECK("empty", maximum_spanning_tree(g).edges.empty(), "");
  VF_CHECK("empty", minimum_spanning_forest(g).edges.empty(), "");
  VF_CHECK("empty", maximum_spanning_forest(g).edges.empty(), "");
  c.desc << "empty graph";
  c.reached();
}

// Larger graphs with real valued (distinct) weights: the optimum is unique.
VF_SECTION("large_unique", 40, 400) {
  Raw g;
  g.n = c.rng.extent(20, 80, 700, 0.15);
  for (long i = 1; i < static_cast<long>(g.n); ++i) {
    g.a.push_back(i);
    g.b.push_back(c.rng.integer(0, i - 1));
    g.w.push_back(c.rng.uniform(-100., 100.));
  }
  const std::size_t extra = c.rng.size(0, 6 * g.n);
  for (std::size_t i = 0; i < extra; ++i) {
    g.a.push_back(c.rng.integer(0, static_cast<long>(g.n) - 1));
    g.b.push_back(c.rng.integer(0, static_cast<long>(g.n) - 1));
    g.w.push_back(c.rng.uniform(-100., 100.));
  }
  c.desc << "n=" << g.n << " edges=" << g.a.size() << " w0=" << g.w[0];
  run<int>(c, g, true);
}

} // namespace
