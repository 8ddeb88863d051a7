// C01: predictions of a Gaussian process are exact conditioning.  Built once
// for each of the setups (covariance and mean) a to f: PART selects.
#define VFGP_UNITS
#include "gp_oracle.h"

#include <Eigen/Eigenvalues>
#include <albatross/Evaluation>

#ifndef PART
#define PART a
#endif
#define C01_CAT2(a, b) a##b
#define C01_CAT(a, b) C01_CAT2(a, b)
#define C01_STR2(a) #a
#define C01_STR(a) C01_STR2(a)
#define C01_SETUP C01_CAT(setup_, PART)

namespace {

using namespace vfgp;
using albatross::JointDistribution;
using albatross::MarginalDistribution;

struct Three {
  Eigen::VectorXd mean;
  MarginalDistribution marginal;
  JointDistribution joint;
};

template <typename P> Three all_three(const P &p) {
  return Three{p.mean(), p.marginal(), p.joint()};
}

bool same_bits(const Three &a, const Three &b) {
  return a.mean == b.mean && a.marginal.mean == b.marginal.mean &&
         a.marginal.covariance.diagonal() ==
             b.marginal.covariance.diagonal() &&
         a.joint.mean == b.joint.mean && a.joint.covariance == b.joint.covariance;
}

void compare(vf::Case &c, const std::string &key, const Three &t, const Post &p,
             double amp) {
  compare_mean(c, (key + "_mean").c_str(), t.mean, p, amp);
  compare_mean(c, (key + "_marginal_mean").c_str(), t.marginal.mean, p, amp);
  compare_var(c, (key + "_marginal_variance").c_str(),
              t.marginal.covariance.diagonal(), p, amp);
  compare_mean(c, (key + "_joint_mean").c_str(), t.joint.mean, p, amp);
  compare_cov(c, (key + "_joint_covariance").c_str(), t.joint.covariance, p,
              amp);
}

void compare_close(vf::Case &c, const char *key, const Three &a, const Three &b,
                   double amp) {
  double scale = amp;
  if (b.mean.size() > 0)
    scale = std::max(scale, b.mean.cwiseAbs().maxCoeff());
  VF_REQUIRE(key, a.mean.size() == b.mean.size(), "size");
  for (Eigen::Index i = 0; i < a.mean.size(); ++i) {
    VF_CLOSE(key, a.mean[i], b.mean[i], 0., 1e-7 * scale);
    VF_CLOSE(key, a.marginal.mean[i], b.marginal.mean[i], 0., 1e-7 * scale);
    VF_CLOSE(key, a.marginal.covariance.diagonal()[i],
             b.marginal.covariance.diagonal()[i], 0., 1e-8 * amp * amp);
    for (Eigen::Index j = 0; j < a.mean.size(); ++j)
      VF_CLOSE(key, a.joint.covariance(i, j), b.joint.covariance(i, j), 0.,
               1e-8 * amp * amp);
  }
}

double least_eigenvalue(const Eigen::MatrixXd &m) {
  Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(
      Eigen::MatrixXd(0.5 * (m + m.transpose())), Eigen::EigenvaluesOnly);
  return es.eigenvalues().minCoeff();
}

VF_SECTION("conditioning_" C01_STR(PART), 60, 3000) {
  vf::Rng &g = c.rng;
  auto setup = C01_SETUP(g);
  const double amp = setup.o.amplitude;
  const std::size_t n = g.coin(0.15) ? 1 : g.size(2, 16);
  const std::size_t m = g.coin(0.15) ? 1 : g.size(2, 8);
  Data data = make_data(g, setup.o, n);
  const std::vector<double> test = make_test(g, data, m);
  // some or all of the observations without reported error
  bool exact = false;
  if (g.coin(0.3)) {
    Data trial = data;
    const bool all = g.coin();
    for (auto &v : trial.var)
      if (all || g.coin())
        v = 0.;
    LM A = setup.o.K(trial.x, true, trial.x, true), L;
    for (std::size_t i = 0; i < n; ++i)
      A(i, i) += trial.var[i];
    bool fine = cholesky(A, &L);
    for (std::size_t i = 0; fine && i < n; ++i)
      fine = L(i, i) > 1e-2L * amp;
    if (fine) {
      data = trial;
      exact = true;
    }
  }
  c.desc << setup.o.name << " n=" << n << " m=" << m << " exact=" << exact
         << " x0=" << data.x[0];
  c.reached();
  c.count("fits", 1);
  if (exact)
    c.count("exact_targets", 1);
  if (n == 1)
    c.count("one_observation", 1);

  const auto model = setup.gp();
  const auto dataset = data.dataset();
  const auto fit = model.fit(dataset);
  const Three plain = all_three(fit.predict(test));
  compare(c, "plain", plain,
          posterior(setup.o, data.x, data.y, data.var, test, false), amp);
  const Three noisy = all_three(fit.predict_with_measurement_noise(test));
  compare(c, "noisy", noisy,
          posterior(setup.o, data.x, data.y, data.var, test, true), amp);
  const Three marked =
      all_three(fit.predict(albatross::as_measurements(test)));
  VF_CHECK("marked", same_bits(noisy, marked), "as_measurements");
  // at the data itself
  const Three at_data = all_three(fit.predict(data.x));
  compare(c, "at_data", at_data,
          posterior(setup.o, data.x, data.y, data.var, data.x, false), amp);

  // never more uncertain than the prior, never negative
  const Eigen::MatrixXd prior_cov = model.compute_covariance(test);
  const Eigen::MatrixXd explained = prior_cov - plain.joint.covariance;
  VF_CHECK("symmetric",
           (plain.joint.covariance - plain.joint.covariance.transpose())
                   .cwiseAbs()
                   .maxCoeff() <= 1e-9 * amp * amp,
           "");
  VF_CHECK("positive", least_eigenvalue(plain.joint.covariance) >=
                           -1e-8 * amp * amp * static_cast<double>(m),
           least_eigenvalue(plain.joint.covariance));
  VF_CHECK("below_prior",
           least_eigenvalue(explained) >=
               -1e-8 * amp * amp * static_cast<double>(m),
           least_eigenvalue(explained));
  // what the model reports as its prior
  const JointDistribution prior = model.prior(test);
  const LM K = setup.o.K(test, true, test, true);
  for (std::size_t i = 0; i < m; ++i) {
    const Eigen::Index ei = static_cast<Eigen::Index>(i);
    VF_CLOSE("prior_mean", prior.mean[ei],
             static_cast<double>(setup.o.m(test[i])), 1e-12, 1e-12);
    for (std::size_t j = 0; j < m; ++j) {
      const Eigen::Index ej = static_cast<Eigen::Index>(j);
      VF_CLOSE("prior_covariance", prior.covariance(ei, ej),
               static_cast<double>(K(i, j)), 1e-11, 1e-11 * amp * amp);
    }
  }

  // the order of the data
  std::vector<std::size_t> order;
  for (std::size_t i = 0; i < n; ++i)
    order.push_back(i);
  g.shuffle(order);
  const auto shuffled = model.fit(data.pick(order).dataset());
  compare_close(c, "order_of_data", all_three(shuffled.predict(test)), plain,
                amp);
  // the order (and repetition) of what is asked for
  std::vector<std::size_t> pick;
  for (std::size_t i = 0, k = g.size(1, m + 2); i < k; ++i)
    pick.push_back(g.size(0, m - 1));
  std::vector<double> picked;
  for (auto i : pick)
    picked.push_back(test[i]);
  const Three partial = all_three(fit.predict(picked));
  Three expected;
  expected.mean = albatross::subset(plain.mean, pick);
  expected.marginal = albatross::subset(plain.marginal, pick);
  expected.joint = albatross::subset(plain.joint, pick);
  compare_close(c, "order_of_query", partial, expected, amp);
  VF_CHECK("nothing_requested",
           fit.predict(std::vector<double>()).mean().size() == 0 &&
               fit.predict(std::vector<double>()).joint().mean.size() == 0 &&
               fit.predict(std::vector<double>()).marginal().mean.size() == 0,
           "");

  // asked again, from copies, moved and temporary fit models
  VF_CHECK("repeatable", same_bits(all_three(fit.predict(test)), plain), "");
  {
    auto copy = fit;
    VF_CHECK("copied", same_bits(all_three(copy.predict(test)), plain), "");
    auto moved = std::move(copy);
    VF_CHECK("moved", same_bits(all_three(moved.predict(test)), plain), "");
    const auto late = std::move(moved).predict(test);
    VF_CHECK("moved_into_prediction", same_bits(all_three(late), plain), "");
  }
  {
    const auto owned = model.fit(dataset).predict(test);
    VF_CHECK("temporary", same_bits(all_three(owned), plain), "");
    const auto owned_noisy =
        model.fit(dataset).predict_with_measurement_noise(test);
    VF_CHECK("temporary_noisy", same_bits(all_three(owned_noisy), noisy), "");
    const auto separate = model.fit(dataset.features, dataset.targets);
    VF_CHECK("features_and_targets",
             same_bits(all_three(separate.predict(test)), plain), "");
  }
  // conversions
  const auto prediction = fit.predict(test);
  VF_CHECK("conversions",
           prediction.template get<Eigen::VectorXd>() == plain.mean &&
               prediction.template get<JointDistribution>().covariance ==
                   plain.joint.covariance &&
               static_cast<MarginalDistribution>(prediction).mean ==
                   plain.marginal.mean &&
               prediction.size() == m,
           "");
  // a model with the same parameters is the same model
  auto other = setup.gp();
  other.set_params(model.get_params());
  VF_CHECK("same_parameters",
           same_bits(all_three(other.fit(dataset).predict(test)), plain), "");

  // metrics read the prediction they are given
  MarginalDistribution truth(plain.mean +
                             Eigen::VectorXd::Constant(plain.mean.size(), amp));
  const albatross::RootMeanSquareError rmse;
  VF_CLOSE("metric", rmse(prediction, truth), amp, 1e-9, 0.);
}

// large problems: blocks, vectorized code and threads of the linear algebra
VF_SECTION("large_" C01_STR(PART), 1, 30) {
  vf::Rng &g = c.rng;
  auto setup = C01_SETUP(g);
  const std::size_t n = c.index % 2 == 0 ? g.pick(std::vector<std::size_t>{64, 128, 128, 256})
                                         : static_cast<std::size_t>(g.large(60, 300)),
                    m = static_cast<std::size_t>(g.large(20, 200));
  const Data data = make_data(g, setup.o, n);
  const std::vector<double> test = make_test(g, data, m);
  c.desc << setup.o.name << " n=" << n << " m=" << m << " x0=" << data.x[0];
  c.reached();
  c.count("large_fits", 1);
  const auto model = setup.gp();
  const auto fit = model.fit(data.dataset());
  compare(c, "large", all_three(fit.predict(test)),
          posterior(setup.o, data.x, data.y, data.var, test, false),
          3. * setup.o.amplitude);
}

} // namespace
