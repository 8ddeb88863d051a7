// C06: covariance and mean functions do not depend on what was evaluated before.
#include <albatross/GP>

#include "history.h"

namespace {
using namespace albatross;

VF_SECTION("history", 120, 4000) {
  std::vector<double> v;
  for (int i = 0; i < 8; ++i)
    v.push_back(c.rng.log_uniform(0.5, 3.));
  const std::size_t n = c.rng.size(1, 5);
  for (std::size_t i = 0; i < 2 * n; ++i)
    v.push_back(c.rng.uniform(0.5, 6.));
  c.desc << "n=" << n << " v0=" << v[0] << " v8=" << v[8];
  // objects which live on and are given new parameters
  typedef EuclideanDistance D;
  const auto se = std::make_shared<SquaredExponential<D>>(1., 1.);
  const auto ex = std::make_shared<Exponential<D>>(1., 1.);
  const auto kept = std::make_shared<std::decay_t<decltype(*se + *ex)>>(*se + *ex);
  vfhist::walk_numbers(c, v, [n, se, kept](const std::vector<double> &u) {
    vfhist::Values o;
    const std::vector<double> x(u.begin() + 8, u.begin() + 8 + static_cast<long>(n)),
        y(u.begin() + 8 + static_cast<long>(n), u.end());
    const auto all = [&](const auto &k) {
      vfhist::put(&o, k(x));
      vfhist::put(&o, k(x, y));
      vfhist::put(&o, k(as_measurements(y)));
      vfhist::put(&o, k.diagonal(y));
    };
    SquaredExponential<D> a(u[0], u[1]);
    Exponential<D> b(u[2], u[3]);
    Matern32<D> m3(u[4], u[5]);
    Matern52<D> m5(u[6], u[7]);
    all(a);
    all(b);
    all(m3);
    all(m5);
    all(Polynomial<2>(u[1]));
    all(a * m3 + b + measurement_only(IndependentNoise<double>(u[5])));
    all(a + m5 * (Constant(u[0]) + Nugget()));
    se->set_param_value("squared_exponential_length_scale", u[0]);
    se->set_param_value("sigma_squared_exponential", u[1]);
    all(*se);
    kept->set_param_value("squared_exponential_length_scale", u[0]);
    kept->set_param_value("sigma_squared_exponential", u[1]);
    kept->set_param_value("exponential_length_scale", u[2]);
    kept->set_param_value("sigma_exponential", u[3]);
    all(*kept);
    vfhist::put(&o, derive_squared_exponential_length_scale(u[8], u[1], u[3]));
    LinearMean mean;
    mean.set_param_value("slope", u[0]);
    mean.set_param_value("offset", u[1]);
    vfhist::put(&o, mean(x));
    vfhist::put(&o, ZeroMean()(y));
    const LinearCombination<double> p({x[0], y[0]}, Eigen::Vector2d(u[0], -u[1])),
        q({y[0], x[0]}, Eigen::Vector2d(u[2], u[3]));
    const std::vector<LinearCombination<double>> both{p, q};
    vfhist::put(&o, (a + b)(both));
    vfhist::put(&o, mean(both));
    return o;
  });
}
} // namespace
