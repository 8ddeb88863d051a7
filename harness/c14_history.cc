// C14: trees do not depend on the graphs seen before.
#include <albatross/GP>
#include <albatross/Graph>

#include "history.h"

namespace {
using namespace albatross;

VF_SECTION("history", 150, 5000) {
  const int n = static_cast<int>(c.rng.integer(2, 9));
  std::vector<std::pair<int, int>> ends;
  for (int i = 0; i < n; ++i)
    for (int j = i + 1; j < n; ++j)
      if (j == i + 1 || c.rng.coin(0.4))
        ends.emplace_back(i, j);
  std::vector<double> v;
  for (std::size_t i = 0; i < ends.size(); ++i)
    v.push_back(c.rng.log_uniform(0.1, 10.));
  c.desc << "n=" << n << " edges=" << ends.size() << " v0=" << v[0];
  vfhist::walk_numbers(c, v, [ends](const std::vector<double> &u) {
    vfhist::Values o;
    Graph<int> graph;
    for (std::size_t i = 0; i < ends.size(); ++i)
      add_edge(Edge<int>(ends[i].first, ends[i].second, u[i], i), &graph);
    const auto all = [&](const Graph<int> &g) {
      double total = 0.;
      std::vector<double> costs;
      for (const auto &e : g.edges) {
        total += e.cost;
        costs.push_back(e.cost);
      }
      std::sort(costs.begin(), costs.end());
      vfhist::put(&o, total);
      vfhist::put(&o, static_cast<double>(g.edges.size()));
      vfhist::put(&o, static_cast<double>(g.vertices.size()));
      for (double x : costs)
        vfhist::put(&o, x);
    };
    all(minimum_spanning_tree(graph));
    all(maximum_spanning_tree(graph));
    all(minimum_spanning_forest(graph));
    all(maximum_spanning_forest(graph));
    return o;
  });
}
} // namespace
