// C15: statistics do not depend on those before.
#include <albatross/GP>
#include <albatross/Stats>

#include "history.h"

namespace {
using namespace albatross;

VF_SECTION("history", 200, 6000) {
  const std::size_t n = c.rng.size(1, 6);
  std::vector<double> v;
  for (std::size_t i = 0; i < n * n + n + 3; ++i)
    v.push_back(c.rng.log_uniform(0.05, 2.));
  c.desc << "n=" << n << " v0=" << v[0];
  vfhist::walk_numbers(c, v, [n](const std::vector<double> &u) {
    vfhist::Values o;
    const Eigen::Index N = static_cast<Eigen::Index>(n);
    const Eigen::MatrixXd root = Eigen::Map<const Eigen::MatrixXd>(u.data(), N, N);
    const Eigen::VectorXd d = Eigen::Map<const Eigen::VectorXd>(u.data() + n * n, N);
    const double *rest = u.data() + n * n + n;
    Eigen::MatrixXd cov = root * root.transpose();
    cov.diagonal().array() += 0.5;
    vfhist::put(&o, chi_squared_cdf(d, cov));
    vfhist::put(&o, chi_squared_cdf(rest[0], 1. + rest[1]));
    vfhist::put(&o, chi_squared_cdf(rest[0], 3));
    vfhist::put(&o, incomplete_gamma(rest[0], rest[1]));
    std::vector<double> s;
    for (double x : u)
      s.push_back(x - std::floor(x));
    vfhist::put(&o, uniform_ks_test(s));
    return o;
  });
}
} // namespace
