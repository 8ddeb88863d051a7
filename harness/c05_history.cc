// C05: densities do not depend on earlier ones, and change with the units of
// the features as densities do.
#include <albatross/GP>
#include <albatross/Evaluation>
#include <albatross/Tune>

#include <set>

#include "history_gp.h"

namespace {
using namespace vfhist_model;

VF_SECTION("history", 40, 1500) {
  walk_states(c, [](const State &s) {
    vfhist::Values o;
    auto model = s.gp();
    model.set_prior("u_length", LogNormalPrior(0.3, 1.));
    const auto data = s.dataset();
    vfhist::put(&o, model.log_likelihood(data));
    vfhist::put(&o, model.prior_log_likelihood());
    vfhist::put(&o, GaussianProcessNegativeLogLikelihood()(data, model));
    vfhist::put(&o, LeaveOneOutLikelihood<>()(data, model));
    vfhist::put(&o, LeaveOneOutLikelihood<MarginalDistribution>()(data, model));
    const auto joint = model.prior(s.x);
    vfhist::put(&o, negative_log_likelihood(joint, data.targets));
    vfhist::put(&o, negative_log_likelihood(joint.marginal(), data.targets));
    vfhist::put(&o, negative_log_likelihood(Eigen::VectorXd(joint.mean - data.targets.mean), joint.covariance));
    return o;
  });
}

VF_SECTION("mixed_units", 80, 4000) {
  in_units(c, [&](const State &s, const State &t) {
    double shift = 0.;
    for (auto x : s.x)
      shift += std::log(t.unit(x));
    const auto ds = s.dataset(), dt = t.dataset();
    VF_CLOSE("log_likelihood", t.gp().log_likelihood(dt) + shift, s.gp().log_likelihood(ds), 1e-9, 1e-8);
    const auto a = s.gp().prior(s.x), b = t.gp().prior(s.x);
    VF_CLOSE("joint", negative_log_likelihood(b, dt.targets) - shift,
             negative_log_likelihood(a, ds.targets), 1e-9, 1e-8);
    VF_CLOSE("marginal", negative_log_likelihood(b.marginal(), dt.targets) - shift,
             negative_log_likelihood(a.marginal(), ds.targets), 1e-9, 1e-8);
    // (coinciding features have the same noise: no density at all)
    if (std::set<double>(s.x.begin(), s.x.end()).size() == s.x.size())
      VF_CLOSE("entropy", differential_entropy(Eigen::MatrixXd(b.covariance)) - shift,
             differential_entropy(Eigen::MatrixXd(a.covariance)), 1e-9, 1e-8);
  });
}
} // namespace
