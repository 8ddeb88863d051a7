// C20: the models do not depend on earlier fits, and conditioning not on units.
#include <albatross/GP>
#include <albatross/LeastSquares>
#include <albatross/NullModel>

#include "history.h"

namespace vfuser_c20_history {
using namespace albatross;
class Rows : public LeastSquares<Rows> {
public:
  std::string get_name() const { return "rows"; }
};
} // namespace vfuser_c20_history

namespace {
using namespace albatross;

VF_SECTION("history", 120, 4000) {
  const std::size_t p = c.rng.size(1, 3), n = c.rng.size(p + 1, p + 4);
  std::vector<double> v;
  for (std::size_t i = 0; i < n * p + n + n * n; ++i)
    v.push_back(c.rng.normal());
  c.desc << "n=" << n << " p=" << p << " v0=" << v[0];
  vfhist::walk_numbers(c, v, [n, p](const std::vector<double> &u) {
    vfhist::Values o;
    const Eigen::Index N = static_cast<Eigen::Index>(n), P = static_cast<Eigen::Index>(p);
    std::vector<Eigen::VectorXd> rows;
    std::vector<double> x;
    for (std::size_t i = 0; i < n; ++i) {
      Eigen::VectorXd r = Eigen::Map<const Eigen::VectorXd>(u.data() + i * p, P);
      r[static_cast<Eigen::Index>(i % p)] += 3.;
      rows.push_back(r);
      x.push_back(u[i * p] + 2. * static_cast<double>(i));
    }
    const Eigen::VectorXd y = Eigen::Map<const Eigen::VectorXd>(u.data() + n * p, N);
    vfhist::put(&o, vfuser_c20_history::Rows().fit(rows, MarginalDistribution(y)).predict(rows).mean());
    vfhist::put(&o, LinearRegression().fit(x, MarginalDistribution(y)).predict(x).mean());
    vfhist::put(&o, NullModel().fit(x, MarginalDistribution(y)).predict(x).joint());
    const Eigen::MatrixXd root = Eigen::Map<const Eigen::MatrixXd>(u.data() + n * p + n, N, N);
    Eigen::MatrixXd cov = root * root.transpose();
    cov.diagonal().array() += 0.5;
    const JointDistribution prior(0.5 * y, cov);
    const MarginalDistribution truth(y, Eigen::VectorXd(cov.diagonal() * 0.3));
    const ConditionalGaussian model(prior, truth);
    const std::vector<std::size_t> seen{0}, other{0, n - 1};
    vfhist::put(&o, model.fit(seen).predict(other).joint());
    vfhist::put(&o, model.fit(other).predict(other).marginal());
    return o;
  });
}

VF_SECTION("mixed_units", 200, 8000) {
  vf::Rng &g = c.rng;
  const Eigen::Index n = g.wide(2, 9, 60);
  Eigen::MatrixXd cov(n, n);
  Eigen::VectorXd mean(n), y(n), var(n), d(n);
  for (Eigen::Index i = 0; i < cov.size(); ++i)
    cov.data()[i] = g.normal();
  cov = Eigen::MatrixXd(cov * cov.transpose());
  cov.diagonal().array() += 0.5;
  for (Eigen::Index i = 0; i < n; ++i) {
    mean[i] = g.normal();
    y[i] = g.normal();
    var[i] = g.log_uniform(0.01, 1.);
    d[i] = std::ldexp(1., static_cast<int>(g.integer(-20, 20)));
  }
  std::vector<std::size_t> all;
  for (Eigen::Index i = 0; i < n; ++i)
    all.push_back(static_cast<std::size_t>(i));
  const auto seen = g.choose(all.size(), g.size(1, all.size() - 1));
  c.desc << "n=" << n << " seen=" << seen.size() << " d0=" << d[0] << " y0=" << y[0];
  c.reached();
  c.count("mixed_units");
  const auto predict = [&](const Eigen::VectorXd &s) {
    const Eigen::MatrixXd k = s.asDiagonal() * cov * s.asDiagonal();
    const ConditionalGaussian model(
        JointDistribution(s.cwiseProduct(mean), k),
        MarginalDistribution(s.cwiseProduct(y), Eigen::VectorXd(s.cwiseProduct(s).cwiseProduct(var))));
    return model.fit(seen).predict(all).joint();
  };
  const JointDistribution a = predict(Eigen::VectorXd::Ones(n)), b = predict(d);
  VF_REQUIRE("size", a.mean.size() == n && b.mean.size() == n, b.mean.size());
  for (Eigen::Index i = 0; i < n; ++i) {
    VF_CLOSE("mean", b.mean[i] / d[i], a.mean[i], 1e-8, 1e-8);
    for (Eigen::Index j = 0; j < n; ++j)
      VF_CLOSE("covariance", b.covariance(i, j) / d[i] / d[j], a.covariance(i, j), 1e-8, 1e-8);
  }
}
} // namespace
