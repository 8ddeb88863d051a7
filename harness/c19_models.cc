// C19: RANSAC around a model whose arithmetic is easy to follow.
#include "c19_util.h"
#include <albatross/LeastSquares>

namespace vfplain {
using namespace albatross;

struct Item {
  double x;
  int group;
  std::size_t id;
  bool operator==(const Item &o) const {
    return x == o.x && group == o.group && id == o.id;
  }
};

class Average;

} // namespace vfplain

namespace albatross {
template <> struct Fit<vfplain::Average> {
  double mean = 0.;
  std::vector<std::size_t> ids;
  bool operator==(const Fit &o) const {
    return mean == o.mean && ids == o.ids;
  }
};
} // namespace albatross

namespace vfplain {

// Predicts the average target of what it was fitted to plus a step per group.
class Average : public ModelBase<Average> {
public:
  ALBATROSS_DECLARE_PARAMS(step);
  Average(double s = 0.25) { step = {s, UninformativePrior()}; }
  std::string get_name() const { return "average"; }

  Fit<Average> _fit_impl(const std::vector<Item> &features,
                         const MarginalDistribution &targets) const {
    Fit<Average> fit;
    for (std::size_t i = 0; i < features.size(); ++i) {
      fit.mean += targets.mean[static_cast<Eigen::Index>(i)] -
                  step.value * features[i].group;
      fit.ids.push_back(features[i].id);
    }
    fit.mean /= static_cast<double>(features.size());
    return fit;
  }

  Eigen::VectorXd
  _predict_impl(const std::vector<Item> &features, const Fit<Average> &fit,
                PredictTypeIdentity<Eigen::VectorXd> &&) const {
    Eigen::VectorXd out(static_cast<Eigen::Index>(features.size()));
    for (std::size_t i = 0; i < features.size(); ++i) {
      out[static_cast<Eigen::Index>(i)] =
          fit.mean + step.value * features[i].group;
    }
    return out;
  }
};

double worst(const Eigen::VectorXd &pred, const MarginalDistribution &truth) {
  return (pred - truth.mean).cwiseAbs().maxCoeff();
}
struct Worst : public PredictionMetric<Eigen::VectorXd> {
  Worst() : PredictionMetric<Eigen::VectorXd>(worst) {}
};

// Spread of the targets about their own fit, minus a bonus per item.
struct Spread : public ModelMetric<Spread> {
  explicit Spread(double bonus_ = 0.) : bonus(bonus_) {}
  template <typename FeatureType, typename ModelType>
  double _call_impl(const RegressionDataset<FeatureType> &dataset,
                    const ModelBase<ModelType> &model) const {
    const Eigen::VectorXd pred =
        model.fit(dataset).predict(dataset.features).mean();
    return (pred - dataset.targets.mean).squaredNorm() -
           bonus * static_cast<double>(dataset.size());
  }
  double bonus;
};

int item_group(const Item &i) { return i.group; }

} // namespace vfplain

namespace {
using namespace vfplain;
using vfransac::Judge;
using vfransac::judge;
using vfransac::items_of;
using vfransac::random_config;
typedef long double LD;

struct ById {
  std::size_t operator()(const Item &i) const { return i.id * 7 % 11; }
};

template <typename Grouper>
void plain_case(vf::Case &c, const Grouper &grouper) {
  auto &g = c.rng;
  const std::size_t n = g.extent(1, 20, 100);
  std::vector<Item> items;
  Eigen::VectorXd y(static_cast<Eigen::Index>(n));
  const double damage = g.pick(std::vector<double>{0., 0.1, 0.4});
  for (std::size_t i = 0; i < n; ++i) {
    items.push_back(
        Item{g.normal(), static_cast<int>(g.size(0, n > 20 ? 60 : 6)) - 3, i});
    y[static_cast<Eigen::Index>(i)] =
        2. + 0.25 * items.back().group + 0.1 * g.normal() +
        (g.coin(damage) ? 30. * g.normal() : 0.);
  }
  RegressionDataset<Item> dataset(
      items, MarginalDistribution(
                 y, Eigen::VectorXd::LinSpaced(static_cast<Eigen::Index>(n), 1.,
                                               2.)));
  const Average model(g.coin() ? 0.25 : g.normal());
  const double bonus = g.pick(std::vector<double>{0., 1., 100.});
  const auto strategy =
      get_generic_ransac_strategy(Worst(), Spread(bonus), grouper);
  const auto indexer = strategy.get_indexer(dataset);
  using Key = std::decay_t<decltype(indexer.begin()->first)>;
  std::vector<Key> keys;
  std::size_t covered = 0;
  for (const auto &pair : indexer) {
    keys.push_back(pair.first);
    covered += pair.second.size();
  }
  VF_CHECK("groups_cover_the_dataset", covered == n, covered);
  RansacConfig config = random_config(g, keys.size(), g.log_uniform(0.05, 40.));
  if (g.coin(0.1)) {
    config.max_iterations = g.size(0, 2);
    config.random_sample_size = g.size(0, keys.size() + 1);
    config.min_consensus_size = g.size(0, keys.size() + 1);
  }
  c.desc << "n=" << n << " groups=" << keys.size()
         << " sample=" << config.random_sample_size
         << " min=" << config.min_consensus_size
         << " iterations=" << config.max_iterations << "; ";

  const auto mean_of = [&](const std::vector<std::size_t> &ids) {
    LD sum = 0.L;
    for (auto i : ids) {
      sum += static_cast<LD>(y[static_cast<Eigen::Index>(i)]) -
             static_cast<LD>(model.step.value) * items[i].group;
    }
    return sum / static_cast<LD>(ids.size());
  };
  Judge<Key> oracle;
  oracle.inlier_tol = oracle.consensus_tol = 1e-9;
  oracle.inlier = [&](const std::vector<Key> &cands, const Key &k) {
    const LD mean = mean_of(items_of(indexer, cands));
    LD w = 0.L;
    for (auto i : indexer.at(k)) {
      w = std::max(w, fabsl(mean +
                            static_cast<LD>(model.step.value) * items[i].group -
                            y[static_cast<Eigen::Index>(i)]));
    }
    return w;
  };
  oracle.consensus = [&](const std::vector<Key> &ks) {
    const auto ids = items_of(indexer, ks);
    const LD mean = mean_of(ids);
    LD s = 0.L;
    for (auto i : ids) {
      const LD e = mean + static_cast<LD>(model.step.value) * items[i].group -
                   y[static_cast<Eigen::Index>(i)];
      s += e * e;
    }
    return s - static_cast<LD>(bonus) * static_cast<LD>(ids.size());
  };

  auto ransac_model =
      g.coin() ? model.ransac(strategy, config)
               : Ransac<Average, std::decay_t<decltype(strategy)>>(
                     model, strategy, config.inlier_threshold,
                     config.random_sample_size, config.min_consensus_size,
                     config.max_iterations, config.max_failed_candidates);
  if (g.coin(0.3)) {
    // parameters are those of the model inside
    ransac_model.set_param("step", Parameter(model.step.value + 5.));
    VF_CHECK("params_reach_the_model",
             ransac_model.get_params().at("step").value ==
                 model.step.value + 5.,
             "");
    ransac_model.set_param_value("step", model.step.value);
  }
  const auto fm = ransac_model.fit(dataset);
  const auto out = fm.get_fit().ransac_output;
  judge(c, out, keys, config, oracle);
  if (config.max_failed_candidates == 0 || g.coin(0.3)) {
    const auto without =
        model.ransac(strategy, config.inlier_threshold,
                     config.random_sample_size, config.min_consensus_size,
                     config.max_iterations);
    VF_CHECK("same_without_failed_limit",
             without.fit(dataset).get_fit().ransac_output == out, "");
  }

  const bool ok = ransac_success(out.return_code);
  VF_REQUIRE("fit_iff_success", fm.get_fit().has_fit_model() == ok, "");
  if (ok) {
    auto ids = fm.get_fit().get_fit_model_or_assert().get_fit().ids;
    std::sort(ids.begin(), ids.end());
    const auto expected = items_of(indexer, out.best.consensus());
    VF_CHECK("fitted_to_exactly_the_consensus", ids == expected,
             ids.size() << " of " << expected.size());
    const std::vector<Item> test = {Item{0., 2, 0}, Item{0., -1, 1}};
    const Eigen::VectorXd pred = fm.predict(test).mean();
    for (Eigen::Index i = 0; i < 2; ++i) {
      const LD e = mean_of(expected) +
                   static_cast<LD>(model.step.value) *
                       test[static_cast<std::size_t>(i)].group;
      VF_CLOSE("predicts_as_the_consensus_fit", pred[i],
               static_cast<double>(e), 1e-9, 1e-9);
    }
    c.count("plain_fits");
  } else {
    const std::vector<Item> test = {Item{0., 2, 0}};
    VF_ABORTS("no_prediction_without_a_fit", fm.predict(test).mean());
    c.count("plain_failures");
  }
  c.reached();
}

VF_SECTION("plain_loo", 60, 1500) { plain_case(c, LeaveOneOutGrouper()); }
VF_SECTION("plain_groups", 60, 1500) { plain_case(c, &item_group); }
VF_SECTION("plain_functor", 60, 1500) { plain_case(c, ById()); }

// With most of the data on a line, everything away from it is left out.
VF_SECTION("planted_outliers", 30, 600) {
  auto &g = c.rng;
  const std::size_t n = g.size(8, 24);
  const std::size_t bad = g.size(0, n / 4);
  const double a = 3. * g.normal(), b = 2. * g.normal();
  std::vector<double> x;
  Eigen::VectorXd y(static_cast<Eigen::Index>(n));
  for (std::size_t i = 0; i < n; ++i) {
    x.push_back(static_cast<double>(i) + 0.3 * g.u());
    y[static_cast<Eigen::Index>(i)] = a + b * x.back();
  }
  const auto where = g.choose(n, bad);
  const std::set<std::size_t> planted(where.begin(), where.end());
  for (auto i : planted) {
    y[static_cast<Eigen::Index>(i)] +=
        g.log_uniform(1e3, 1e6) * (g.coin() ? 1. : -1.);
  }
  c.desc << "n=" << n << " bad=" << bad << "; ";
  const RegressionDataset<double> dataset(x, MarginalDistribution(y));
  const auto strategy = get_generic_ransac_strategy(
      RootMeanSquareError(), LeaveOneOutRMSE(), LeaveOneOutGrouper());
  const RansacConfig config(1e-3, 2, n / 2, 60, 60);
  const auto fm = LinearRegression().ransac(strategy, config).fit(dataset);
  const auto &out = fm.get_fit().ransac_output;
  // At least half of the pairs are clean, 60 draws find one.
  VF_REQUIRE("line_found", ransac_success(out.return_code),
             to_string(out.return_code));
  const auto consensus = out.best.consensus();
  const std::set<std::size_t> kept(consensus.begin(), consensus.end());
  for (std::size_t i = 0; i < n; ++i) {
    VF_CHECK("clean_items_kept_planted_left_out",
             kept.count(i) + planted.count(i) == 1, i);
  }
  const std::vector<double> test = {-5., 0., 100.};
  const Eigen::VectorXd pred = fm.predict(test).mean();
  for (Eigen::Index i = 0; i < 3; ++i) {
    const double t = test[static_cast<std::size_t>(i)];
    VF_CLOSE("the_line", pred[i], a + b * t, 1e-7, 1e-6 * (1. + std::abs(b)));
  }
  c.count("planted", bad);
  c.reached();
}

} // namespace
