// C03: held out predictions do not depend on earlier ones, nor on the units.
#include <albatross/GP>
#include <albatross/Evaluation>

#include "history_gp.h"

namespace {
using namespace vfhist_model;

VF_SECTION("history", 40, 1500) {
  walk_states(c, [](const State &s) {
    vfhist::Values o;
    const auto model = s.gp();
    const auto data = s.dataset();
    const auto grouper = [s](const double &x) { return s.group(x); };
    const auto p = model.cross_validate().predict(data, grouper);
    vfhist::put(&o, p.mean());
    vfhist::put(&o, p.marginal());
    for (const auto &pair : p.joints())
      vfhist::put(&o, pair.second);
    for (const auto &pair : p.marginals())
      vfhist::put(&o, pair.second);
    const RootMeanSquareError rmse;
    vfhist::put(&o, model.cross_validate().scores(rmse, data, grouper));
    const NegativeLogLikelihood<JointDistribution> nll;
    vfhist::put(&o, model.cross_validate().scores(nll, data, grouper));
    for (const auto &pair : model.cross_validate().predictions(data, grouper))
      vfhist::put(&o, pair.second.joint());
    const auto prior = model.prior(s.x);
    vfhist::put(&o, leave_one_out_conditional(prior, data.targets));
    return o;
  });
}

VF_SECTION("mixed_units", 60, 3000) {
  in_units(c, [&](const State &s, const State &t) {
    const auto grouper = [s](const double &x) { return s.group(x); };
    const auto a = s.gp().cross_validate().predict(s.dataset(), grouper);
    const auto b = t.gp().cross_validate().predict(t.dataset(), grouper);
    same_mean(c, "mean", t, s.x, b.mean(), a.mean());
    same_mean(c, "marginal_mean", t, s.x, b.marginal().mean, a.marginal().mean);
    same_covariance(c, "variance", t, s.x, Eigen::MatrixXd(b.marginal().covariance),
                    Eigen::MatrixXd(a.marginal().covariance));
    const auto aj = a.joints(), bj = b.joints();
    const auto indexer = group_by(s.dataset(), grouper).indexers();
    for (const auto &pair : indexer) {
      std::vector<double> at;
      for (auto i : pair.second)
        at.push_back(s.x[i]);
      same_mean(c, "joint_mean", t, at, bj.at(pair.first).mean, aj.at(pair.first).mean);
      same_covariance(c, "joint_covariance", t, at, bj.at(pair.first).covariance,
                      aj.at(pair.first).covariance);
    }
    // every form in which the same predictions may be asked for
    using Key = typename std::decay<decltype(aj.begin()->first)>::type;
    const auto mean_map = a.get<std::map<Key, Eigen::VectorXd>>();
    const auto mean_group = a.get<Grouped<Key, Eigen::VectorXd>>();
    const auto marginal_map = a.get<std::map<Key, MarginalDistribution>>();
    const auto marginal_group = a.get<Grouped<Key, MarginalDistribution>>();
    const auto joint_map = a.get<std::map<Key, JointDistribution>>();
    const auto joint_group = a.get<Grouped<Key, JointDistribution>>();
    VF_CHECK("forms/mean", a.get<Eigen::VectorXd>() == a.mean(), "");
    VF_CHECK("forms/marginal", a.get<MarginalDistribution>() == a.marginal(), "");
    VF_CHECK("forms/sizes",
             mean_map.size() == indexer.size() &&
                 mean_group.size() == indexer.size() &&
                 marginal_map.size() == indexer.size() &&
                 marginal_group.size() == indexer.size() &&
                 joint_map.size() == indexer.size() &&
                 joint_group.size() == indexer.size(),
             "");
    for (const auto &pair : indexer) {
      const auto &j = aj.at(pair.first);
      VF_CHECK("forms/joints",
               joint_map.at(pair.first) == j && joint_group.at(pair.first) == j,
               "");
      VF_CHECK("forms/marginals",
               marginal_map.at(pair.first) == a.marginals().at(pair.first) &&
                   marginal_group.at(pair.first) ==
                       a.marginals().at(pair.first),
               "");
      VF_CHECK("forms/means",
               mean_map.at(pair.first) == a.means().at(pair.first) &&
                   mean_group.at(pair.first) == a.means().at(pair.first),
               "");
      // and all of them of the points of that group
      for (std::size_t i = 0; i < pair.second.size(); ++i) {
        const Eigen::Index e = static_cast<Eigen::Index>(i);
        const Eigen::Index at = static_cast<Eigen::Index>(pair.second[i]);
        const double scale = 1e-9 * (1. + std::fabs(a.mean()[at]));
        VF_CLOSE("forms/mean_entries", mean_map.at(pair.first)[e], a.mean()[at],
                 1e-9, scale);
        VF_CLOSE("forms/joint_entries", joint_map.at(pair.first).mean[e],
                 a.mean()[at], 1e-6, 1e3 * scale);
      }
    }
    c.count("forms", 1);
    const auto lp = leave_one_out_conditional(s.gp().prior(s.x), s.dataset().targets);
    const auto lq = leave_one_out_conditional(t.gp().prior(s.x), t.dataset().targets);
    same_mean(c, "conditional_mean", t, s.x, lq.mean, lp.mean);
    same_covariance(c, "conditional_variance", t, s.x, Eigen::MatrixXd(lq.covariance),
                    Eigen::MatrixXd(lp.covariance));
  });
}
} // namespace
