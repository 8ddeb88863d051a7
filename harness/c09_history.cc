// C09: operations on distributions do not depend on those before, nor on the
// units of the entries.
#include <albatross/Distribution>
#include <albatross/GP>

#include "history.h"

namespace {
using namespace albatross;

VF_SECTION("history", 150, 5000) {
  const std::size_t n = c.rng.size(2, 6), m = c.rng.size(1, 4);
  std::vector<double> v;
  for (std::size_t i = 0; i < n + n * n + m * n; ++i)
    v.push_back(c.rng.normal());
  c.desc << "n=" << n << " m=" << m << " v0=" << v[0];
  vfhist::walk_numbers(c, v, [n, m](const std::vector<double> &u) {
    vfhist::Values o;
    const Eigen::Index N = static_cast<Eigen::Index>(n), M = static_cast<Eigen::Index>(m);
    const Eigen::VectorXd mean = Eigen::Map<const Eigen::VectorXd>(u.data(), N);
    const Eigen::MatrixXd root = Eigen::Map<const Eigen::MatrixXd>(u.data() + n, N, N);
    const Eigen::MatrixXd a = Eigen::Map<const Eigen::MatrixXd>(u.data() + n + n * n, M, N);
    Eigen::MatrixXd cov = root * root.transpose();
    cov.diagonal().array() += 1.;
    const JointDistribution j(mean, cov);
    const MarginalDistribution g(mean, Eigen::VectorXd(cov.diagonal()));
    vfhist::put(&o, j.marginal());
    vfhist::put(&o, (a * j).joint());
    vfhist::put(&o, (a * j).marginal());
    vfhist::put(&o, (a * g).joint());
    vfhist::put(&o, (a * g).marginal());
    vfhist::put(&o, j + JointDistribution(2. * mean, 0.5 * cov));
    vfhist::put(&o, g + g);
    vfhist::put(&o, j * 1.5);
    vfhist::put(&o, g * 2.);
    const std::vector<std::size_t> some{n - 1, 0};
    vfhist::put(&o, j.subset(some));
    vfhist::put(&o, g.subset(some));
    return o;
  });
}

VF_SECTION("mixed_units", 250, 9000) {
  vf::Rng &g = c.rng;
  const Eigen::Index n = g.wide(1, 9, 70), m = g.wide(1, 7, 70);
  Eigen::VectorXd mean(n), d(n), e(m);
  Eigen::MatrixXd cov(n, n), a(m, n);
  for (Eigen::Index i = 0; i < n; ++i) {
    mean[i] = g.normal();
    d[i] = std::ldexp(1., static_cast<int>(g.integer(-25, 25)));
  }
  for (Eigen::Index i = 0; i < m; ++i)
    e[i] = std::ldexp(1., static_cast<int>(g.integer(-25, 25)));
  for (Eigen::Index i = 0; i < cov.size(); ++i)
    cov.data()[i] = g.normal();
  for (Eigen::Index i = 0; i < a.size(); ++i)
    a.data()[i] = g.coin(0.2) ? 0. : g.normal();
  cov = Eigen::MatrixXd(cov * cov.transpose());
  cov.diagonal().array() += 1.;
  c.desc << "n=" << n << " m=" << m << " d0=" << d[0] << " mean=" << mean[0];
  c.reached();
  c.count("mixed_units");
  const Eigen::MatrixXd big = d.asDiagonal() * cov * d.asDiagonal();
  const Eigen::MatrixXd b = e.asDiagonal() * a * d.cwiseInverse().asDiagonal();
  const JointDistribution j(mean, cov), k(d.cwiseProduct(mean), big);
  const MarginalDistribution p(mean, Eigen::VectorXd(cov.diagonal())),
      q(d.cwiseProduct(mean), Eigen::VectorXd(big.diagonal()));
  const auto same = [&](const char *key, const Eigen::MatrixXd &got, const Eigen::MatrixXd &expected,
                        bool square) {
    VF_REQUIRE(key, got.rows() == expected.rows() && got.cols() == expected.cols(), got.rows());
    const double most = expected.cwiseAbs().maxCoeff();
    for (Eigen::Index i = 0; i < got.rows(); ++i)
      for (Eigen::Index l = 0; l < got.cols(); ++l)
        VF_CLOSE(key, got(i, l) / e[i] / (square ? e[l] : 1.), expected(i, l), 1e-10, 1e-11 * most);
  };
  same("mean", (b * k).joint().mean, (a * j).joint().mean, false);
  same("covariance", (b * k).joint().covariance, (a * j).joint().covariance, true);
  same("marginal_mean", (b * k).marginal().mean, (a * j).marginal().mean, false);
  same("variance", Eigen::MatrixXd((b * k).marginal().covariance),
       Eigen::MatrixXd((a * j).marginal().covariance), true);
  same("from_marginal", (b * q).joint().covariance, (a * p).joint().covariance, true);
  same("variance_from_marginal", Eigen::MatrixXd((b * q).marginal().covariance),
       Eigen::MatrixXd((a * p).marginal().covariance), true);
}
} // namespace
