// C03: cross validation of Gaussian processes.  Built once per setup: PART
// selects.
#define VFGP_UNITS
#include "gp_oracle.h"

#include <albatross/Evaluation>

#ifndef PART
#define PART a
#endif
#define C03_CAT2(a, b) a##b
#define C03_CAT(a, b) C03_CAT2(a, b)
#define C03_STR2(a) #a
#define C03_STR(a) C03_STR2(a)
#define C03_SETUP C03_CAT(setup_, PART)

namespace {

using namespace vfgp;
using albatross::Grouped;
using albatross::GroupIndexer;
using albatross::JointDistribution;
using albatross::MarginalDistribution;

// What the observations ids look like given all the others.
Post held_out(const Oracle &o, const Data &d,
              const std::vector<std::size_t> &ids, bool observations) {
  std::vector<std::size_t> rest;
  for (std::size_t i = 0; i < d.x.size(); ++i)
    if (std::find(ids.begin(), ids.end(), i) == ids.end())
      rest.push_back(i);
  const Data test = d.pick(ids), train = d.pick(rest);
  Post p;
  if (!observations)
    return posterior(o, train.x, train.y, train.var, test.x, false);
  LM A = o.K(train.x, true, train.x, true);
  for (std::size_t i = 0; i < train.x.size(); ++i)
    A(i, i) += train.var[i];
  const LM C = o.K(train.x, true, test.x, true);
  LV r;
  for (std::size_t i = 0; i < train.x.size(); ++i)
    r.push_back(static_cast<LD>(train.y[i]) - o.m(train.x[i]));
  p.cov = o.K(test.x, true, test.x, true);
  p.mean = LV(test.x.size(), 0.L);
  if (!train.x.empty()) {
    const LM AiC = solve(A, C);
    const LM E = mul(transpose(C), AiC);
    for (std::size_t i = 0; i < p.cov.a.size(); ++i)
      p.cov.a[i] -= E.a[i];
    p.mean = mul(transpose(AiC), r);
  }
  for (std::size_t i = 0; i < test.x.size(); ++i) {
    p.mean[i] += o.m(test.x[i]);
    p.cov(i, i) += test.var[i];
  }
  return p;
}

long floor_of(const double &x) { return static_cast<long>(std::floor(x / 3.)); }
std::string sign_of(const double &x) { return x < 0. ? "minus" : "plus"; }

// dataset order
Post gather(const std::vector<std::vector<std::size_t>> &groups,
            const std::vector<Post> &posts, std::size_t n) {
  Post p;
  p.mean = LV(n, 0.L);
  p.cov = LM(n, n);
  for (std::size_t g = 0; g < groups.size(); ++g)
    for (std::size_t i = 0; i < groups[g].size(); ++i) {
      p.mean[groups[g][i]] = posts[g].mean[i];
      p.cov(groups[g][i], groups[g][i]) = posts[g].cov(i, i);
    }
  return p;
}

template <typename K, typename Model>
void check(vf::Case &c, const Model &model, const Oracle &o, const Data &d,
           const GroupIndexer<K> &indexer, bool partition) {
  const auto dataset = d.dataset();
  const double amp = 2. * o.amplitude;
  const auto cv = model.cross_validate();
  const auto pred = cv.predict(dataset, indexer);
  std::vector<std::vector<std::size_t>> groups;
  std::vector<Post> seen, latent;
  std::vector<K> keys;
  for (const auto &kv : indexer) {
    keys.push_back(kv.first);
    groups.push_back(kv.second);
    seen.push_back(held_out(o, d, kv.second, true));
    latent.push_back(held_out(o, d, kv.second, false));
  }
  c.count("groups_held_out", groups.size());
  const auto means = pred.means();
  const auto marginals = pred.marginals();
  const auto joints = pred.joints();
  VF_REQUIRE("group_count", means.size() == keys.size() &&
                                marginals.size() == keys.size() &&
                                joints.size() == keys.size(),
             means.size() << " for " << keys.size());
  for (std::size_t k = 0; k < keys.size(); ++k) {
    compare_mean(c, "means", means.at(keys[k]), seen[k], amp);
    compare_mean(c, "marginals_mean", marginals.at(keys[k]).mean, seen[k], amp);
    compare_var(c, "marginals_variance",
                marginals.at(keys[k]).covariance.diagonal(), seen[k], amp);
    compare_mean(c, "joints_mean", joints.at(keys[k]).mean, seen[k], amp);
    compare_cov(c, "joints_covariance", joints.at(keys[k]).covariance, seen[k],
                amp);
  }
  // refits asked for the process itself
  const auto refits = pred.predictions();
  VF_REQUIRE("refit_count", refits.size() == keys.size(), refits.size());
  for (std::size_t k = 0; k < keys.size(); ++k) {
    const JointDistribution joint = refits.at(keys[k]).joint();
    compare_mean(c, "refits_mean", joint.mean, latent[k], amp);
    compare_cov(c, "refits_covariance", joint.covariance, latent[k], amp);
    compare_mean(c, "refits_mean_only", refits.at(keys[k]).mean(), latent[k],
                 amp);
  }
  // held out observations by refitting and adding the noise back
  if (partition) {
    const Post all = gather(groups, seen, d.x.size());
    compare_mean(c, "mean", pred.mean(), all, amp);
    const MarginalDistribution marginal = pred.marginal();
    compare_mean(c, "marginal_mean", marginal.mean, all, amp);
    compare_var(c, "marginal_variance", marginal.covariance.diagonal(), all,
                amp);
    const Eigen::VectorXd v = pred.template get<Eigen::VectorXd>();
    VF_CHECK("get_mean", v == pred.mean(), "");
    const MarginalDistribution m = pred.template get<MarginalDistribution>();
    VF_CHECK("get_marginal", m == marginal, "");
    const auto gm =
        pred.template get<Grouped<K, MarginalDistribution>>();
    VF_CHECK("get_marginals", gm.size() == keys.size() &&
                                  gm.at(keys[0]) == marginals.at(keys[0]),
             "");
    const Grouped<K, JointDistribution> gj =
        pred.template get<Grouped<K, JointDistribution>>();
    VF_CHECK("get_joints",
             gj.size() == keys.size() && gj.at(keys[0]) == joints.at(keys[0]),
             "");
    const std::map<K, Eigen::VectorXd> mm =
        pred.template get<std::map<K, Eigen::VectorXd>>();
    VF_CHECK("get_mean_map",
             mm.size() == keys.size() && mm.at(keys[0]) == means.at(keys[0]),
             "");
    const std::map<K, MarginalDistribution> mr =
        pred.template get<std::map<K, MarginalDistribution>>();
    VF_CHECK("get_marginal_map", mr.size() == keys.size() &&
                                     mr.at(keys[0]) == marginals.at(keys[0]),
             "");
  }
  // scores, in the order of the keys
  const albatross::RootMeanSquareError rmse;
  const albatross::NegativeLogLikelihood<MarginalDistribution> nll;
  const albatross::NegativeLogLikelihood<JointDistribution> joint_nll;
  const Eigen::VectorXd s_rmse = cv.scores(rmse, dataset, indexer);
  const Eigen::VectorXd s_nll = cv.scores(nll, dataset, indexer);
  const Eigen::VectorXd s_joint = cv.scores(joint_nll, dataset, indexer);
  const auto folds = albatross::folds_from_group_indexer(dataset, indexer);
  const Eigen::VectorXd f_rmse = cv.scores(rmse, folds);
  const Eigen::VectorXd f_nll = cv.scores(nll, folds);
  const Eigen::Index n_keys = static_cast<Eigen::Index>(keys.size());
  VF_REQUIRE("score_count",
             s_rmse.size() == n_keys && s_nll.size() == n_keys &&
                 s_joint.size() == n_keys && f_rmse.size() == n_keys &&
                 f_nll.size() == n_keys,
             s_rmse.size());
  for (std::size_t k = 0; k < keys.size(); ++k) {
    const Eigen::Index ek = static_cast<Eigen::Index>(k);
    const auto truth = albatross::subset(dataset, groups[k]).targets;
    const LD n = static_cast<LD>(groups[k].size());
    LD square = 0.L, latent_square = 0.L, marginal_nll = 0.L, fold_nll = 0.L;
    LM S = seen[k].cov;
    LV r;
    for (std::size_t i = 0; i < groups[k].size(); ++i) {
      const Eigen::Index ei = static_cast<Eigen::Index>(i);
      const LD v = truth.covariance.diagonal()[ei];
      const LD e = truth.mean[ei] - seen[k].mean[i];
      const LD l = truth.mean[ei] - latent[k].mean[i];
      r.push_back(e);
      square += e * e / n;
      latent_square += l * l / n;
      const LD tau = 2.L * acosl(-1.L);
      // the metric adds the variance of the truth to the prediction
      const LD sv = seen[k].cov(i, i) + v, lv = latent[k].cov(i, i) + v;
      marginal_nll += 0.5L * (logl(tau * sv) + e * e / sv);
      fold_nll += 0.5L * (logl(tau * lv) + l * l / lv);
      S(i, i) += v;
    }
    const LV Sr = solve(S, r);
    LD q = 0.L;
    for (std::size_t i = 0; i < r.size(); ++i)
      q += r[i] * Sr[i];
    const LD joint =
        0.5L * (q + log_det(S) + n * logl(2.L * acosl(-1.L)));
    VF_CLOSE("rmse", s_rmse[ek], static_cast<double>(sqrtl(square)), 1e-6,
             1e-6 * amp);
    VF_CLOSE("nll", s_nll[ek], static_cast<double>(marginal_nll), 1e-5, 1e-5);
    VF_CLOSE("joint_nll", s_joint[ek], static_cast<double>(joint), 1e-5, 1e-5);
    VF_CLOSE("rmse_of_folds", f_rmse[ek],
             static_cast<double>(sqrtl(latent_square)), 1e-6, 1e-6 * amp);
    VF_CLOSE("nll_of_folds", f_nll[ek], static_cast<double>(fold_nll), 1e-5,
             1e-5);
  }
}

VF_SECTION("gp_" C03_STR(PART), 60, 3000) {
  vf::Rng &g = c.rng;
  auto setup = C03_SETUP(g);
  const Oracle &o = setup.o;
  const Data d = make_data(g, o, g.coin(0.1) ? 2 : g.extent(3, 16, 60));
  const std::size_t n = d.x.size();
  auto model = setup.gp();
  if (g.coin(0.4)) {
    model.set_thread_pool(albatross::make_shared_thread_pool(g.size(2, 4)));
    c.count("with_pool", 1);
  }
  const auto dataset = d.dataset();
  const int kind = g.integer(0, 5);
  c.desc << o.name << " n=" << n << " kind=" << kind << " x0=" << d.x[0];
  c.reached();
  c.count("cross_validated_gps", 1);
  if (kind == 0) {
    c.count("leave_one_out_cv", 1);
    GroupIndexer<std::size_t> indexer;
    for (std::size_t i = 0; i < n; ++i)
      indexer[i] = {i};
    check(c, model, o, d, indexer, true);
    const auto by_grouper =
        model.cross_validate().predict(dataset, albatross::LeaveOneOutGrouper());
    const auto by_indexer = model.cross_validate().predict(dataset, indexer);
    VF_CHECK("grouper", by_grouper.marginal() == by_indexer.marginal(), "");
    // the free functions
    const MarginalDistribution loo = albatross::leave_one_out_conditional(
        model.prior(d.x), dataset.targets);
    Post all;
    all.cov = LM(n, n);
    for (std::size_t i = 0; i < n; ++i) {
      const Post p = held_out(o, d, {i}, true);
      all.mean.push_back(p.mean[0]);
      all.cov(i, i) = p.cov(0, 0);
    }
    compare_mean(c, "loo_mean", loo.mean, all, 2. * o.amplitude);
    compare_var(c, "loo_variance", loo.covariance.diagonal(), all,
                2. * o.amplitude);
    Eigen::MatrixXd S = model.prior(d.x).covariance;
    S += dataset.targets.covariance;
    compare_var(c, "loo_variance_only",
                albatross::leave_one_out_conditional_variance(S), all,
                2. * o.amplitude);
  } else if (kind == 1) {
    const auto grouped = model.cross_validate().predict(dataset, floor_of);
    GroupIndexer<long> indexer;
    for (std::size_t i = 0; i < n; ++i)
      indexer[floor_of(d.x[i])].push_back(i);
    check(c, model, o, d, indexer, true);
    VF_CHECK("grouper",
             grouped.marginal() ==
                 model.cross_validate().predict(dataset, indexer).marginal(),
             "");
    const albatross::RootMeanSquareError rmse;
    VF_CHECK("score_grouper",
             model.cross_validate().scores(rmse, dataset, floor_of) ==
                 model.cross_validate().scores(rmse, dataset, indexer),
             "");
  } else if (kind == 2) {
    // strings as keys
    GroupIndexer<std::string> indexer;
    for (std::size_t i = 0; i < n; ++i)
      indexer[sign_of(d.x[i])].push_back(i);
    check(c, model, o, d, indexer, true);
  } else if (kind == 3) {
    const std::size_t k = g.size(1, 5);
    c.count("k_fold_cv", 1);
    check(c, model, o, d,
          dataset.group_by(albatross::KFoldGrouper(k)).indexers(), true);
  } else if (kind == 4) {
    // a partition written down by hand, indices in any order
    std::vector<std::size_t> order(n);
    for (std::size_t i = 0; i < n; ++i)
      order[i] = i;
    g.shuffle(order);
    GroupIndexer<int> indexer;
    const int groups = g.wide(1, 5, 25);
    for (auto i : order)
      indexer[7 * g.integer(1, groups) % 5].push_back(i);
    c.count("unordered_partitions", 1);
    check(c, model, o, d, indexer, true);
  } else {
    // groups which overlap or leave something out
    GroupIndexer<int> indexer;
    const int groups = g.integer(1, 4);
    for (int k = 0; k < groups; ++k)
      indexer[k] = g.choose(n, g.size(1, n));
    c.count("overlapping_or_partial", 1);
    check(c, model, o, d, indexer, false);
  }
  // conditionals straight from a prior
  {
    GroupIndexer<int> indexer;
    const int groups = g.integer(1, 4);
    for (std::size_t i = 0; i < n; ++i)
      indexer[g.integer(1, groups)].push_back(i);
    const auto pool = albatross::make_shared_thread_pool(g.size(1, 3));
    const JointDistribution prior = model.prior(d.x);
    const auto means = albatross::leave_one_group_out_conditional_means(
        prior, dataset.targets, indexer, pool.get());
    const auto marginals = albatross::leave_one_group_out_conditional_marginals(
        prior, dataset.targets, indexer);
    const auto joints = albatross::leave_one_group_out_conditional_joints(
        prior, dataset.targets, indexer, pool.get());
    VF_REQUIRE("conditional_count", means.size() == indexer.size() &&
                                        marginals.size() == indexer.size() &&
                                        joints.size() == indexer.size(),
               means.size());
    for (const auto &kv : indexer) {
      const Post p = held_out(o, d, kv.second, true);
      const double amp = 2. * o.amplitude;
      compare_mean(c, "conditional_means", means.at(kv.first), p, amp);
      compare_mean(c, "conditional_marginals", marginals.at(kv.first).mean, p,
                   amp);
      compare_var(c, "conditional_variances",
                  marginals.at(kv.first).covariance.diagonal(), p, amp);
      compare_mean(c, "conditional_joints", joints.at(kv.first).mean, p, amp);
      compare_cov(c, "conditional_covariances", joints.at(kv.first).covariance,
                  p, amp);
    }
  }
}

} // namespace
