// C19: RANSAC with the strategies made for Gaussian processes (one prior for
// all of the subsets).
#include "c19_gp.h"

namespace {
using namespace vfransac;

enum Consensus { COUNT, ENTROPY, CHI_SQUARED };

template <typename S, typename Strategy>
void gp_case(vf::Case &c, const S &s, const Strategy &strategy,
             bool chi_squared_inliers, Consensus consensus, double valid) {
  auto &g = c.rng;
  Problem p;
  if (!make_problem(c, s, &p)) {
    return;
  }
  const auto model = s.gp();
  const auto dataset = p.d.dataset();
  const auto indexer = strategy.get_indexer(dataset);
  using Key = std::decay_t<decltype(indexer.begin()->first)>;
  std::vector<Key> keys;
  for (const auto &pair : indexer) {
    keys.push_back(pair.first);
  }
  if (keys.size() < 2) {
    return;
  }
  RansacConfig config = random_config(g, keys.size(), 0.);
  config.inlier_threshold =
      chi_squared_inliers
          ? g.pick(std::vector<double>{0.5, 0.9, 0.99, 0.9999, 1.})
          : std::log(p.o.amplitude) + g.uniform(-2., 12.);
  c.desc << keys.size() << " groups sample=" << config.random_sample_size
         << " min=" << config.min_consensus_size
         << " threshold=" << config.inlier_threshold
         << " consensus=" << consensus << " valid=" << valid << "; ";

  Judge<Key> oracle;
  oracle.inlier = [&](const std::vector<Key> &cands, const Key &k) {
    LV dev;
    LM cov;
    p.given(items_of(indexer, cands), indexer.at(k), true, &dev, &cov);
    return chi_squared_inliers ? chi_squared(dev, cov) : nll(dev, cov);
  };
  oracle.consensus = [&](const std::vector<Key> &ks) -> LD {
    const auto items = items_of(indexer, ks);
    LV dev;
    LM cov;
    if (consensus == COUNT) {
      return -static_cast<LD>(items.size());
    } else if (consensus == ENTROPY) {
      p.prior(items, &dev, &cov, false);
      return 0.5L * (log_det(cov) + static_cast<LD>(items.size()) *
                                        (1.L + logl(2.L * acosl(-1.L))));
    }
    p.prior(items, &dev, &cov);
    return chi_squared(dev, cov);
  };
  if (valid < 1.) {
    oracle.valid = [&](const std::vector<Key> &cands) {
      LV dev;
      LM cov;
      p.prior(items_of(indexer, cands), &dev, &cov);
      const LD x = chi_squared(dev, cov);
      return fabsl(x - valid) < 1e-6L ? -1 : (x <= valid ? 1 : 0);
    };
  }

  const auto functions = [&]() {
    auto temporary = std::make_unique<Strategy>(strategy);
    return (*temporary)(model, dataset);
  }();
  const auto out = albatross::ransac(functions, indexer, config);
  judge(c, out, keys, config, oracle);

  const auto ransac_model = model.ransac(strategy, config);
  const auto fm = ransac_model.fit(dataset);
  VF_CHECK("model_does_the_same", fm.get_fit().ransac_output == out,
           to_string(fm.get_fit().ransac_output.return_code));
  check_final_fit(c, model, p, fm, indexer);
  c.count("gp_strategies");
  c.reached();
}

using NLL = NegativeLogLikelihood<JointDistribution>;

VF_SECTION("gp_default", 30, 600) {
  gp_case(c, setup_a(c.rng), DefaultGPRansacStrategy(), false, COUNT, 1.);
}

VF_SECTION("gp_entropy", 30, 600) {
  auto grouper = ByBin();
  gp_case(c, setup_b(c.rng),
          gp_ransac_strategy(NLL(), DifferentialEntropyConsensusMetric(),
                             grouper),
          false, ENTROPY, 1.);
}

VF_SECTION("gp_chi_squared", 40, 800) {
  const double valid =
      c.rng.pick(std::vector<double>{0.3, 0.9, 0.999});
  gp_case(c, setup_c(c.rng),
          gp_ransac_strategy(ChiSquaredCdf(), ChiSquaredConsensusMetric(),
                             ChiSquaredIsValidCandidateMetric(valid),
                             &by_parity),
          true, CHI_SQUARED, valid);
}

VF_SECTION("gp_valid_default", 30, 600) {
  gp_case(c, setup_b(c.rng),
          GaussianProcessRansacStrategy<NLL, FeatureCountConsensusMetric,
                                        ChiSquaredIsValidCandidateMetric,
                                        LeaveOneOutGrouper>(),
          false, COUNT, 0.999);
}

// Functions made from the distributions alone, with metrics which are gone by
// the time they are used.
VF_SECTION("gp_functions", 24, 400) {
  auto &g = c.rng;
  Problem p;
  const auto s = setup_b(c.rng);
  if (!make_problem(c, s, &p)) {
    return;
  }
  const auto dataset = p.d.dataset();
  const double valid = g.pick(std::vector<double>{0.5, 0.99});
  const auto indexer = dataset.group_by(ByBin()).indexers();
  if (indexer.size() < 2) {
    return;
  }
  const auto functions = [&]() {
    const auto metric =
        std::make_unique<ChiSquaredIsValidCandidateMetric>(valid);
    const auto inlier = std::make_unique<NLL>();
    const auto consensus = std::make_unique<FeatureCountConsensusMetric>();
    return get_gp_ransac_functions(s.gp().prior(dataset.features),
                                   dataset.targets, indexer, *inlier,
                                   *consensus, *metric);
  }();
  std::vector<int> keys;
  for (const auto &pair : indexer) {
    keys.push_back(pair.first);
  }
  Judge<int> oracle;
  oracle.inlier = [&](const std::vector<int> &cands, const int &k) {
    LV dev;
    LM cov;
    p.given(items_of(indexer, cands), indexer.at(k), true, &dev, &cov);
    return nll(dev, cov);
  };
  oracle.consensus = [&](const std::vector<int> &ks) {
    return -static_cast<LD>(items_of(indexer, ks).size());
  };
  oracle.valid = [&](const std::vector<int> &cands) {
    LV dev;
    LM cov;
    p.prior(items_of(indexer, cands), &dev, &cov);
    const LD x = chi_squared(dev, cov);
    return fabsl(x - valid) < 1e-6L ? -1 : (x <= valid ? 1 : 0);
  };
  const RansacConfig config = random_config(
      g, keys.size(), std::log(p.o.amplitude) + g.uniform(-2., 12.));
  judge(c, albatross::ransac(functions, indexer, config), keys, config,
        oracle);

  // The conditional model the functions work with.
  const ConditionalGaussian conditional(s.gp().prior(dataset.features),
                                        dataset.targets);
  const std::size_t n = p.d.x.size();
  const auto order = g.choose(n, n);
  const std::size_t k = g.size(1, n - 1);
  const std::vector<std::size_t> train(order.begin(),
                                       order.begin() + static_cast<long>(k));
  const std::vector<std::size_t> test(order.begin() + static_cast<long>(k),
                                      order.end());
  LV dev;
  LM cov;
  p.given(train, test, true, &dev, &cov);
  Post post;
  const Data held_out = p.d.pick(test);
  post.cov = cov;
  for (std::size_t i = 0; i < test.size(); ++i) {
    post.mean.push_back(dev[i] + held_out.y[i]);
    post.cov(i, i) -= held_out.var[i];
  }
  const auto fm = conditional.fit(train);
  const auto pred = fm.predict(test);
  compare_mean(c, "conditional_mean", pred.mean(), post, 100. * p.o.amplitude);
  compare_cov(c, "conditional_cov", pred.joint().covariance, post,
              p.o.amplitude);
  compare_mean(c, "conditional_joint_mean", pred.joint().mean, post,
               100. * p.o.amplitude);
  compare_mean(c, "conditional_marginal_mean", pred.marginal().mean, post,
               100. * p.o.amplitude);
  compare_var(c, "conditional_var", pred.marginal().covariance.diagonal(),
              post, p.o.amplitude);
  c.count("conditionals");
  c.reached();
}

} // namespace
