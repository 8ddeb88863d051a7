// C16: scores do not depend on those before.
#include <albatross/GP>
#include <albatross/Evaluation>
#include <albatross/Stats>

#include "history.h"

namespace {
using namespace albatross;

VF_SECTION("history", 120, 4000) {
  const std::size_t n = c.rng.size(2, 5);
  std::vector<double> v;
  for (std::size_t i = 0; i < n * n + 4 * n; ++i)
    v.push_back(c.rng.log_uniform(0.05, 2.));
  const std::uint64_t seed = static_cast<std::uint64_t>(c.rng.integer(1, 1000));
  c.desc << "n=" << n << " v0=" << v[0];
  vfhist::walk_numbers(c, v, [n, seed](const std::vector<double> &u) {
    vfhist::Values o;
    const Eigen::Index N = static_cast<Eigen::Index>(n);
    const Eigen::MatrixXd root = Eigen::Map<const Eigen::MatrixXd>(u.data(), N, N);
    const auto part = [&](std::size_t k) {
      return Eigen::VectorXd(Eigen::Map<const Eigen::VectorXd>(u.data() + n * n + k * n, N));
    };
    const Eigen::VectorXd mean = part(0), truth = part(1), noise = part(2), weights = part(3);
    Eigen::MatrixXd cov = root * root.transpose();
    cov.diagonal().array() += 0.5;
    const JointDistribution p(mean, cov);
    const MarginalDistribution t(truth, noise), m(mean, Eigen::VectorXd(cov.diagonal()));
    const Eigen::MatrixXd w = weights * weights.transpose();
    vfhist::put(&o, score::crps_normal(u[0], u[1], u[2]));
    vfhist::put(&o, score::energy_score(p, truth, nullptr, seed, 40));
    vfhist::put(&o, score::energy_score(p, t, &weights, seed, 40));
    vfhist::put(&o, score::energy_score(p, truth, nullptr, seed + 1, 40));
    vfhist::put(&o, score::variogram_score(p, truth, nullptr, score::VariogramScoreOrder::cMadogram));
    vfhist::put(&o, score::variogram_score(p, t, &w, score::VariogramScoreOrder::cVariogram));
    vfhist::put(&o, RootMeanSquareError()(m.mean, t));
    vfhist::put(&o, RootMeanSquareError()(mean, t));
    vfhist::put(&o, NegativeLogLikelihood<JointDistribution>()(p, t));
    vfhist::put(&o, NegativeLogLikelihood<MarginalDistribution>()(m, t));
    vfhist::put(&o, differential_entropy(cov));
    return o;
  });
}
} // namespace
