// Round trips of models and fit models.
#ifndef VERIF_C10_GP_H
#define VERIF_C10_GP_H

#include "c10_util.h"
#include "gp_oracle.h"

namespace vfser {

template <typename T> T *fresh() { return new T(); }

template <typename A, typename B>
void same_predictions(vf::Case &c, const A &a, const B &b, const char *f) {
  const auto am = a.mean();
  const auto bm = b.mean();
  VF_CHECK("mean", same(Eigen::VectorXd(am), Eigen::VectorXd(bm)), f);
  const auto av = a.marginal();
  const auto bv = b.marginal();
  VF_CHECK("marginal_mean", same(av.mean, bv.mean), f);
  VF_CHECK("marginal_variance",
           same(Eigen::VectorXd(av.covariance.diagonal()),
                Eigen::VectorXd(bv.covariance.diagonal())),
           f);
  const auto aj = a.joint();
  const auto bj = b.joint();
  VF_CHECK("joint_mean", same(aj.mean, bj.mean), f);
  VF_CHECK("joint_covariance", same(aj.covariance, bj.covariance), f);
}

template <typename M>
void same_model(vf::Case &c, const M &a, const M &b, const char *f) {
  VF_CHECK("model_equal", a == b, f);
  VF_CHECK("model_params", a.get_params() == b.get_params(), f);
  VF_CHECK("model_name", a.get_name() == b.get_name(),
           f << " " << a.get_name() << " " << b.get_name());
  VF_CHECK("model_insights", a.insights == b.insights, f);
}

inline albatross::ParameterPrior any_prior(vf::Rng &g) {
  using namespace albatross;
  switch (g.integer(0, 4)) {
  case 0:
    return FixedPrior();
  case 1:
    return UniformPrior(-1e3, g.uniform(1e3, 1e4));
  case 2:
    return GaussianPrior(g.normal(), g.uniform(0.5, 2.));
  case 3:
    return LogNormalPrior(g.normal(), g.uniform(0.5, 2.));
  default:
    return NonNegativePrior();
  }
}

// Into a default constructed model or a copy which differs from the saved one
// in the values of its parameters, in their priors, in neither or in both.
template <typename M> M other_model(vf::Case &c, const M &model) {
  if (c.rng.coin(0.4)) {
    return M();
  }
  M other(model);
  const double values = c.rng.pick(std::vector<double>{0., 0.5, 1.});
  const double priors = c.rng.pick(std::vector<double>{0., 0.5, 1.});
  for (const auto &p : model.get_params()) {
    if (c.rng.coin(values)) {
      other.set_param_value(p.first, 1.5 * p.second.value + 0.25);
    }
    if (c.rng.coin(priors)) {
      other.set_prior(p.first, any_prior(c.rng));
    }
  }
  if (values == 0. && priors > 0.) {
    c.count("other_priors_only");
  }
  if (c.rng.coin(0.7)) {
    other.insights["left"] = "over";
  }
  return other;
}

template <typename M> void decorate(vf::Case &c, M *model) {
  const auto n = c.rng.size(0, 2);
  for (std::size_t i = 0; i < n; ++i) {
    model->insights[random_text(c.rng)] = random_text(c.rng);
  }
  if (c.rng.coin()) {
    for (const auto &p : model->get_params()) {
      if (c.rng.coin(0.3)) {
        model->set_prior(p.first, any_prior(c.rng));
      }
    }
  }
}

} // namespace vfser

#endif
