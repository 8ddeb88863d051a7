// RANSAC of Gaussian processes against conditioning in long double.
#ifndef VERIF_C19_GP_H
#define VERIF_C19_GP_H

#include "c19_util.h"

namespace vfransac {
using namespace vfgp;

inline std::string by_parity(const double &x) {
  return std::to_string(static_cast<long>(std::floor(x)) & 3);
}
struct ByBin {
  int operator()(const double &x) const {
    return -static_cast<int>(std::floor(x / 2.5));
  }
};

struct Problem {
  Oracle o;
  Data d;

  Data pick(const std::vector<std::size_t> &ids) const { return d.pick(ids); }

  // deviation and covariance of the items given others
  void given(const std::vector<std::size_t> &train,
             const std::vector<std::size_t> &test, bool t_meas, LV *dev,
             LM *cov) const {
    const Data a = d.pick(train), b = d.pick(test);
    const Post p = posterior(o, a.x, a.y, a.var, b.x, t_meas);
    *cov = p.cov;
    dev->clear();
    for (std::size_t i = 0; i < b.x.size(); ++i) {
      dev->push_back(p.mean[i] - b.y[i]);
      (*cov)(i, i) += b.var[i];
    }
  }
  void prior(const std::vector<std::size_t> &items, LV *dev, LM *cov,
             bool with_noise = true) const {
    const Data a = d.pick(items);
    *cov = o.K(a.x, true, a.x, true);
    dev->clear();
    for (std::size_t i = 0; i < a.x.size(); ++i) {
      dev->push_back(o.m(a.x[i]) - a.y[i]);
      if (with_noise) {
        (*cov)(i, i) += a.var[i];
      }
    }
  }
};

// Distinct features: the prior of two measurements in one place is not what
// the sections here are about.  Some targets are damaged.
template <typename S> bool make_problem(vf::Case &c, const S &s, Problem *p) {
  auto &g = c.rng;
  p->o = s.o;
  const std::size_t n = g.size(4, 14);
  p->d = make_data(g, s.o, n, false);
  const double damage = g.pick(std::vector<double>{0., 0.1, 0.3});
  std::size_t damaged = 0;
  for (std::size_t i = 0; i < n; ++i) {
    if (g.coin(damage)) {
      p->d.y[i] += 20. * s.o.amplitude * (g.coin() ? 1. : -1.);
      ++damaged;
    }
  }
  c.desc << s.o.name << " n=" << n << " damaged=" << damaged << "; ";
  std::set<double> distinct(p->d.x.begin(), p->d.x.end());
  if (distinct.size() != n) {
    return false;
  }
  // Well enough conditioned for the metrics to be known to many digits.
  LM L;
  LV dev;
  LM cov;
  std::vector<std::size_t> ids;
  for (std::size_t i = 0; i < n; ++i) {
    ids.push_back(i);
  }
  p->prior(ids, &dev, &cov);
  if (!cholesky(cov, &L)) {
    return false;
  }
  LD low = HUGE_VALL, high = 0.L;
  for (std::size_t i = 0; i < n; ++i) {
    low = std::min(low, L(i, i));
    high = std::max(high, L(i, i));
  }
  return low > 1e-3L * high;
}

// The fit of a ransac model has to be the fit to the consensus.
template <typename Model, typename FM, typename Indexer>
void check_final_fit(vf::Case &c, const Model &model, const Problem &p,
                     const FM &fm, const Indexer &indexer) {
  const auto &fit = fm.get_fit();
  const bool ok = ransac_success(fit.ransac_output.return_code);
  VF_REQUIRE("fit_model_iff_success", fit.has_fit_model() == ok,
             to_string(fit.ransac_output.return_code));
  const std::vector<double> test = make_test(c.rng, p.d, 5);
  if (!ok) {
    VF_ABORTS("no_predictions_without_fit", fm.predict(test).mean());
    VF_ABORTS("no_fit_to_get", fit.get_fit_model_or_assert());
    c.count("failed_fits");
    return;
  }
  const auto items = items_of(indexer, fit.ransac_output.best.consensus());
  VF_CHECK("consensus_within_dataset",
           items.empty() || items.back() < p.d.x.size(), "");
  const Data kept = p.d.pick(items);
  const Post post = posterior(p.o, kept.x, kept.y, kept.var, test, false);
  const auto pred = fm.predict(test);
  compare_mean(c, "ransac_mean", pred.mean(), post, 100. * p.o.amplitude);
  const auto joint = pred.joint();
  compare_mean(c, "ransac_joint_mean", joint.mean, post,
               100. * p.o.amplitude);
  compare_cov(c, "ransac_covariance", joint.covariance, post, p.o.amplitude);
  const auto marginal = pred.marginal();
  compare_var(c, "ransac_variance", marginal.covariance.diagonal(), post,
              p.o.amplitude);
  auto features = fit.get_fit_model_or_assert().get_fit().train_features;
  std::sort(features.begin(), features.end());
  auto expected = kept.x;
  std::sort(expected.begin(), expected.end());
  VF_CHECK("fitted_to_the_consensus", features == expected, features.size());
  VF_CHECK("fit_has_the_params",
           fit.get_fit_model_or_assert().get_model().get_params() ==
               model.get_params(),
           "");
  c.count("ransac_fits");
}

} // namespace vfransac

#endif
