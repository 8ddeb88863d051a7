// C19: RANSAC with the generic strategy (the model is fitted to each subset).
#include "c19_gp.h"

namespace {
using namespace vfransac;

template <typename S, typename Strategy, typename Metric, typename JointLike>
void generic_case(vf::Case &c, const S &s, const Strategy &strategy,
                  const Metric &metric, JointLike joint_nll) {
  auto &g = c.rng;
  Problem p;
  if (!make_problem(c, s, &p)) {
    return;
  }
  const auto model = s.gp();
  const auto dataset = p.d.dataset();
  const auto indexer = strategy.get_indexer(dataset);
  using Key = std::decay_t<decltype(indexer.begin()->first)>;
  std::vector<Key> keys;
  for (const auto &pair : indexer) {
    keys.push_back(pair.first);
  }
  if (keys.size() < 2) {
    return;
  }
  RansacConfig config = random_config(g, keys.size(), 0.);
  config.max_iterations = g.size(1, 4);
  // Likelihoods of sensible items are around log(amplitude).
  config.inlier_threshold = std::log(p.o.amplitude) + g.uniform(-2., 12.);
  c.desc << keys.size() << " groups sample=" << config.random_sample_size
         << " min=" << config.min_consensus_size
         << " threshold=" << config.inlier_threshold << "; ";

  Judge<Key> oracle;
  oracle.inlier = [&](const std::vector<Key> &cands, const Key &k) {
    LV dev;
    LM cov;
    p.given(items_of(indexer, cands), indexer.at(k), false, &dev, &cov);
    if (!joint_nll) {
      LD sum = 0.L;
      for (std::size_t i = 0; i < dev.size(); ++i) {
        LM one(1, 1);
        one(0, 0) = cov(i, i);
        sum += nll({dev[i]}, one);
      }
      return sum;
    }
    return nll(dev, cov);
  };
  oracle.consensus = [&](const std::vector<Key> &ks) {
    // (What a leave one out score of a Gaussian process is, is C05.)
    return static_cast<LD>(
        metric(p.d.pick(items_of(indexer, ks)).dataset(), model));
  };

  // The functions outlive the strategy they came from.
  const auto functions = [&]() {
    auto temporary = std::make_unique<Strategy>(strategy);
    return (*temporary)(model, dataset);
  }();
  const auto out = albatross::ransac(functions, indexer, config);
  judge(c, out, keys, config, oracle);

  auto ransac_model = model.ransac(strategy, config);
  const auto fm = ransac_model.fit(dataset);
  VF_CHECK("model_does_the_same", fm.get_fit().ransac_output == out,
           to_string(fm.get_fit().ransac_output.return_code));
  check_final_fit(c, model, p, fm, indexer);
  VF_CHECK("params_of_the_model",
           ransac_model.get_params() == model.get_params(), "");
  VF_CHECK("name_contains_the_model",
           ransac_model.get_name().find(model.get_name()) != std::string::npos,
           ransac_model.get_name());
  c.count("generic");
  c.reached();
}

using NLL = NegativeLogLikelihood<JointDistribution>;
using MarginalNLL = NegativeLogLikelihood<MarginalDistribution>;

VF_SECTION("generic_loo", 24, 500) {
  generic_case(c, setup_a(c.rng), DefaultRansacStrategy(),
               LeaveOneOutLikelihood<>(), std::true_type());
}
VF_SECTION("generic_groups", 24, 500) {
  generic_case(c, setup_b(c.rng),
               get_generic_ransac_strategy(NLL(), LeaveOneOutLikelihood<>(),
                                           by_parity),
               LeaveOneOutLikelihood<>(), std::true_type());
}
VF_SECTION("generic_marginal", 24, 500) {
  generic_case(
      c, setup_c(c.rng),
      get_generic_ransac_strategy(
          MarginalNLL(), LeaveOneOutLikelihood<MarginalDistribution>(),
          ByBin()),
      LeaveOneOutLikelihood<MarginalDistribution>(), std::false_type());
}

} // namespace
