// C06: covariance matrices of any size hold, entry by entry, what the function
// gives for that pair, and mean vectors likewise: at and around the sizes where
// code which works in blocks changes its ways.
#include <albatross/GP>

#include "vf.h"

namespace vfuser_blocks {
using namespace albatross;

struct Spot {
  double x = 0.;
  bool operator==(const Spot &o) const { return x == o.x; }
};
class Lag : public CovarianceFunction<Lag> {
public:
  ALBATROSS_DECLARE_PARAMS(lag_length);
  Lag() { lag_length = {3., PositivePrior()}; }
  std::string name() const { return "lag"; }
  double _call_impl(const Spot &a, const Spot &b) const {
    return std::exp(-std::fabs(a.x - b.x) / lag_length.value);
  }
};
class Own : public CovarianceFunction<Own> {
public:
  ALBATROSS_DECLARE_PARAMS(own_level);
  Own() { own_level = {0.5, PositivePrior()}; }
  std::string name() const { return "own"; }
  double _call_impl(const Spot &a, const Spot &b) const {
    return a.x == b.x ? own_level.value : 0.;
  }
};
class Slope : public MeanFunction<Slope> {
public:
  ALBATROSS_DECLARE_PARAMS(slope_rate);
  Slope() { slope_rate = {0.25, UninformativePrior()}; }
  std::string name() const { return "slope"; }
  double _call_impl(const Spot &a) const { return slope_rate.value * a.x; }
};
} // namespace vfuser_blocks

namespace {
using namespace vfuser_blocks;

std::size_t some_size(vf::Rng &g) {
  if (g.coin(0.6)) {
    const std::size_t unit = std::size_t(1) << g.size(3, 8);
    const std::size_t n = unit * g.size(1, std::max<std::size_t>(1, 384 / unit));
    return g.coin(0.6) ? n : n + g.size(0, 2) - 1;
  }
  return g.size(1, 384);
}

VF_SECTION("sizes", 25, 600) {
  vf::Rng &g = c.rng;
  const std::size_t n = some_size(g), m = some_size(g);
  c.desc << "n=" << n << " m=" << m;
  c.reached();
  c.count("block_sizes");
  if (n % 16 == 0)
    c.count("multiples");
  std::vector<Spot> x, y;
  for (std::size_t i = 0; i < n; ++i)
    x.push_back({std::round(g.uniform(-50., 50.) * 64.) / 64.});
  for (std::size_t i = 0; i < m; ++i)
    y.push_back(g.coin(0.2) ? g.pick(x) : Spot{std::round(g.uniform(-50., 50.) * 64.) / 64.});
  const Lag lag;
  const Own own;
  const auto sum = lag + measurement_only(own);
  const auto product = lag * lag;
  const auto pool = make_shared_thread_pool(g.size(2, 4));
  const bool threads = g.coin();
  ThreadPool *p = threads ? pool.get() : nullptr;
  const auto mx = as_measurements(x);
  const auto my = as_measurements(y);
  const Eigen::MatrixXd a = threads ? lag(x, p) : lag(x);
  const Eigen::MatrixXd b = threads ? sum(mx, p) : sum(mx);
  const Eigen::MatrixXd d = threads ? lag(x, y, p) : lag(x, y);
  const Eigen::MatrixXd e = threads ? sum(mx, my, p) : sum(mx, my);
  const Eigen::MatrixXd f = threads ? product(x, p) : product(x);
  const Slope slope;
  const Eigen::VectorXd mean = slope(x);
  const auto expected = [](const Spot &u, const Spot &v) {
    return std::exp(-std::fabs(u.x - v.x) / 3.);
  };
  const Eigen::Index N = static_cast<Eigen::Index>(n), M = static_cast<Eigen::Index>(m);
  VF_REQUIRE("size", a.rows() == N && a.cols() == N && b.rows() == N && b.cols() == N &&
                         f.rows() == N && f.cols() == N && d.rows() == N && d.cols() == M &&
                         e.rows() == N && e.cols() == M && mean.size() == N,
             "");
  const Eigen::VectorXd diagonal = sum.diagonal(mx);
  VF_REQUIRE("diagonal_size", diagonal.size() == N, diagonal.size());
  for (Eigen::Index i = 0; i < N; ++i) {
    const Spot &u = x[static_cast<std::size_t>(i)];
    VF_CLOSE("mean", mean[i], 0.25 * u.x, 1e-13, 1e-15);
    VF_CLOSE("diagonal", diagonal[i], 1.5, 1e-13, 0.);
    for (Eigen::Index j = 0; j < N; ++j) {
      const Spot &v = x[static_cast<std::size_t>(j)];
      const double k = expected(u, v);
      VF_CLOSE("entry", a(i, j), k, 1e-13, 1e-300);
      VF_CLOSE("sum_entry", b(i, j), k + (u.x == v.x ? 0.5 : 0.), 1e-13, 1e-300);
      VF_CLOSE("product_entry", f(i, j), k * k, 1e-13, 1e-300);
    }
    for (Eigen::Index j = 0; j < M; ++j) {
      const Spot &v = y[static_cast<std::size_t>(j)];
      const double k = expected(u, v);
      VF_CLOSE("cross_entry", d(i, j), k, 1e-13, 1e-300);
      VF_CLOSE("cross_sum_entry", e(i, j), k + (u.x == v.x ? 0.5 : 0.), 1e-13, 1e-300);
    }
  }
}
} // namespace
