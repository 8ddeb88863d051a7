// C25: models of little data, and models and fits of every age.
#include "c25_util.h"

#include <albatross/serialize/GP>
#include <albatross/serialize/LeastSquares>

namespace c25_types {
using namespace albatross;

// Looks at a few other points, in another type of feature.
struct Place {
  double x = 0.;
  bool operator==(const Place &o) const { return x == o.x; }
  bool operator<(const Place &o) const { return x < o.x; }
  template <typename Archive> void serialize(Archive &ar) { ar(x); }
};

class PlaceKernel : public CovarianceFunction<PlaceKernel> {
public:
  ALBATROSS_DECLARE_PARAMS(place_sigma);
  PlaceKernel() { place_sigma = {2., PositivePrior()}; }
  std::string name() const { return "place"; }
  double _call_impl(const Place &a, const Place &b) const {
    const double d = a.x - b.x;
    return place_sigma.value * place_sigma.value * std::exp(-0.5 * d * d);
  }
};

struct ByInterval {
  long operator()(const double &x) const {
    return static_cast<long>(std::floor(x / 3.));
  }
};

} // namespace c25_types

namespace vflife {
inline void put(Text &t, const c25_types::Place &p) { put(t, p.x); }
} // namespace vflife

namespace {
using namespace vflife;
using c25_types::ByInterval;
using c25_types::Place;
using c25_types::PlaceKernel;

std::vector<double> points(vf::Rng &g, std::size_t n, bool duplicates) {
  std::vector<double> out;
  for (std::size_t i = 0; i < n; ++i) {
    out.push_back(duplicates && i > 0 && g.coin(0.3) ? out[g.size(0, i - 1)]
                                                     : g.uniform(-4., 4.));
  }
  return out;
}

RegressionDataset<double> measurements(vf::Rng &g, std::size_t n) {
  const auto xs = points(g, n, true);
  Eigen::VectorXd ys(static_cast<Eigen::Index>(n));
  for (Eigen::Index i = 0; i < ys.size(); ++i)
    ys[i] = g.normal();
  return RegressionDataset<double>(
      xs, g.coin() ? MarginalDistribution(ys, some_variance(g, n))
                   : MarginalDistribution(ys));
}

template <typename FitModelType, typename Features>
std::string predictions(const FitModelType &fit, const Features &xs) {
  Text t;
  put(t, fit.predict(xs));
  put(t, fit.predict(xs).mean());
  return t.os.str();
}

VF_SECTION("gaussian_process", 80, 1500) {
  auto &g = c.rng;
  Captured captured;
  const std::size_t n = std::max<std::size_t>(small_size(g), 1);
  const std::size_t m = small_size(g);
  const auto data = measurements(g, n);
  const auto xs = points(g, m, true);
  c.desc << "n=" << n << " m=" << m << " " << vf::hash_str(text(data));
  const auto cov = SquaredExponential<EuclideanDistance>(2., 1.5) +
                   IndependentNoise<double>(0.4) * Constant(1.) +
                   measurement_only(IndependentNoise<double>(0.3)) +
                   Polynomial<1>(0.5);
  const auto model = gp_from_covariance_and_mean(cov, LinearMean(), "little");
  using Model = std::decay_t<decltype(model)>;

  check_values(c, "covariance function", cov, [&](const auto &k) {
    return text(k(xs)) + text(k(data.features, xs)) + text(k.get_params()) +
           k.get_name();
  });
  check_values(c, "model", model, [&](const Model &mod) {
    return text(mod.get_params()) + text(mod.prior(xs)) +
           text(mod.log_likelihood(data));
  });
  const auto fit = model.fit(data);
  using FitType = std::decay_t<decltype(fit)>;
  check_values(c, "fit", fit, [&](const FitType &f) {
    return predictions(f, xs) + text(f.get_model().get_params());
  });
  const std::string expected = predictions(fit, xs);
  {
    // everything it was made from is gone
    auto other_model = std::make_unique<Model>(model);
    auto other_data = std::make_unique<RegressionDataset<double>>(data);
    auto other_fit = std::make_unique<FitType>(other_model->fit(*other_data));
    other_model.reset();
    other_data.reset();
    VF_CHECK("fit_outlives_its_sources",
             predictions(*other_fit, xs) == expected, "");
    auto moved = std::move(*other_fit);
    other_fit.reset();
    VF_CHECK("moved_fit_outlives_its_source",
             predictions(moved, xs) == expected, "");
    // predictions of temporaries
    const auto prediction = model.fit(data).predict(std::vector<double>(xs));
    VF_CHECK("prediction_of_a_temporary_fit",
             text(prediction) + text(prediction.mean()) == expected, "");
    const auto late = [&]() {
      const FitType local(fit);
      return local.predict(std::vector<double>(xs)).joint();
    };
    VF_CHECK("joint_of_a_local_fit",
             text(late()) == text(fit.predict(xs).joint()), "");
    auto copy = prediction;
    VF_CHECK("copied_prediction", text(copy) == text(prediction), "");
  }
  // updates, also of fits which are gone
  const auto extra = measurements(g, g.size(1, 3));
  const auto updated = update(model.fit(data), extra);
  const auto other_updated = fit.update(extra);
  VF_CHECK("updated", predictions(updated, xs) == predictions(other_updated, xs),
           "");
  VF_CHECK("update_leaves_the_fit_alone", predictions(fit, xs) == expected, "");
  // fits from predictions
  if (m > 0) {
    std::vector<double> distinct;
    for (double x : std::set<double>(xs.begin(), xs.end()))
      distinct.push_back(x);
    const auto again =
        model.fit_from_prediction(distinct, fit.predict(distinct).joint());
    text(again.predict(distinct).marginal());
  }
  // saved and loaded
  {
    std::stringstream buffer;
    {
      cereal::BinaryOutputArchive out(buffer);
      out(fit.get_fit());
    }
    typename FitType::fit_type loaded;
    cereal::BinaryInputArchive in(buffer);
    in(loaded);
    const FitType from_archive(model, typename FitType::fit_type(loaded));
    VF_CHECK("loaded", predictions(from_archive, xs) == expected, "");
  }
  // cross validation of little data
  if (n > 1) {
    text(model.cross_validate().predict(data, LeaveOneOutGrouper()).mean());
    text(model.cross_validate()
             .predict(data, [](const double &x) { return x > 0.; })
             .marginals());
    text(model.cross_validate().scores(RootMeanSquareError(), data,
                                       KFoldGrouper(2)));
  }
  const std::string out = captured.stop();
  VF_CHECK("nothing_on_standard_output", out.empty(), out.substr(0, 100));
  c.count("gaussian_processes");
  c.reached();
}

VF_SECTION("other_features", 60, 1200) {
  auto &g = c.rng;
  Captured captured;
  const std::size_t n = g.size(1, 4), m = small_size(g);
  std::vector<Place> xs, zs;
  for (std::size_t i = 0; i < n; ++i)
    xs.push_back(Place{g.normal()});
  for (std::size_t i = 0; i < m; ++i)
    zs.push_back(Place{g.normal()});
  c.desc << "n=" << n << " m=" << m << " " << vf::hash_str(text(xs));
  Eigen::VectorXd ys = some_vector(g, n).cwiseMin(10.).cwiseMax(-10.);
  const auto model =
      gp_from_covariance(PlaceKernel() + IndependentNoise<Place>(1.));
  const auto fit = model.fit(xs, MarginalDistribution(ys, some_variance(g, n)));
  text(fit.predict(zs));
  text(fit.predict_with_measurement_noise(zs));
  // combinations of features
  std::vector<LinearCombination<Place>> combinations;
  for (std::size_t i = 0; i < m; ++i) {
    Eigen::VectorXd w(static_cast<Eigen::Index>(n));
    for (Eigen::Index j = 0; j < w.size(); ++j)
      w[j] = g.normal();
    combinations.emplace_back(xs, w);
  }
  text(fit.predict(combinations));
  using V = variant<Place, double>;
  const auto both = gp_from_covariance(
      PlaceKernel() + SquaredExponential<EuclideanDistance>() +
      IndependentNoise<Place>(1.) + IndependentNoise<double>(1.));
  std::vector<V> mixed(xs.begin(), xs.end());
  mixed.emplace_back(0.5);
  Eigen::VectorXd y2(static_cast<Eigen::Index>(mixed.size()));
  y2.setConstant(0.3);
  const auto variant_fit = both.fit(mixed, MarginalDistribution(y2));
  text(variant_fit.predict(zs));
  text(variant_fit.predict(std::vector<double>{0.1}));
  const std::vector<V> wanted(zs.begin(), zs.end());
  text(variant_fit.predict(wanted).marginal());
  const std::string out = captured.stop();
  VF_CHECK("nothing_on_standard_output", out.empty(), out.substr(0, 100));
  c.count("other_features");
  c.reached();
}

VF_SECTION("sparse_gaussian_process", 50, 800) {
  auto &g = c.rng;
  Captured captured;
  const std::size_t n = std::max<std::size_t>(small_size(g), 1);
  const std::size_t m = small_size(g);
  const auto data = measurements(g, n);
  const auto xs = points(g, m, true);
  c.desc << "n=" << n << " m=" << m << " " << vf::hash_str(text(data));
  const auto cov = SquaredExponential<EuclideanDistance>(2., 1.5) +
                   measurement_only(IndependentNoise<double>(0.3));
  const auto model = sparse_gp_from_covariance(
      cov, ByInterval(), UniformlySpacedInducingPoints(g.size(1, 4)), "sparse",
      DenseQRImplementation());
  const auto fit = model.fit(data);
  using FitType = std::decay_t<decltype(fit)>;
  check_values(c, "sparse fit", fit,
               [&](const FitType &f) { return predictions(f, xs); });
  const std::string expected = predictions(fit, xs);
  const auto updated = update(fit, measurements(g, g.size(1, 3)));
  text(predictions(updated, xs));
  text(predictions(rebase_inducing_points(fit, std::vector<double>{-1., 1.}),
                   xs));
  text(model.log_likelihood(data));
  VF_CHECK("fit_left_alone", predictions(fit, xs) == expected, "");
  const auto prediction = model.fit(data).predict(std::vector<double>(xs));
  VF_CHECK("prediction_of_a_temporary_fit",
           text(prediction) + text(prediction.mean()) == expected, "");
  text(StateSpaceInducingPointStrategy()(
      SquaredExponential<EuclideanDistance>(2., 1.5), xs));
  text(StateSpaceInducingPointStrategy()(
      Exponential<EuclideanDistance>(2., 1.5), xs));
  {
    std::stringstream buffer;
    {
      cereal::BinaryOutputArchive out(buffer);
      out(fit.get_fit());
    }
    typename FitType::fit_type loaded;
    cereal::BinaryInputArchive in(buffer);
    in(loaded);
    VF_CHECK("loaded", predictions(FitType(model, typename FitType::fit_type(loaded)), xs) == expected, "");
  }
  // a fit which was never fit to anything
  typename FitType::fit_type never;
  typename FitType::fit_type copied(never);
  copied = fit.get_fit();
  VF_CHECK("assigned_over_an_empty_fit",
           predictions(FitType(model, typename FitType::fit_type(copied)), xs) == expected, "");
  const std::string out = captured.stop();
  VF_CHECK("nothing_on_standard_output", out.empty(), out.substr(0, 100));
  c.count("sparse");
  c.reached();
}

VF_SECTION("other_models", 100, 2000) {
  auto &g = c.rng;
  Captured captured;
  const std::size_t n = g.size(1, 6), m = small_size(g);
  c.desc << "n=" << n << " m=" << m << " ";
  // least squares
  {
    const Eigen::Index k =
        static_cast<Eigen::Index>(g.size(1, std::min<std::size_t>(n, 3)));
    std::vector<Eigen::VectorXd> rows, wanted;
    for (std::size_t i = 0; i < n; ++i)
      rows.push_back(some_matrix(g, k, 1).col(0));
    for (std::size_t i = 0; i < m; ++i)
      wanted.push_back(some_matrix(g, k, 1).col(0));
    const MarginalDistribution ys(some_vector(g, n));
    class Solver : public LeastSquares<Solver> {
    public:
      Eigen::VectorXd least_squares_solver(const Eigen::MatrixXd &A,
                                           const Eigen::VectorXd &b) const {
        return A.colPivHouseholderQr().solve(b);
      }
    };
    const auto fit = Solver().fit(rows, ys);
    using FitType = std::decay_t<decltype(fit)>;
    check_values(c, "least squares fit", fit, [&](const FitType &f) {
      return text(f.predict(wanted).mean());
    });
    const auto prediction =
        Solver().fit(rows, ys).predict(std::vector<Eigen::VectorXd>(wanted));
    VF_CHECK("least_squares_temporary",
             text(prediction.mean()) == text(fit.predict(wanted).mean()), "");
  }
  // no model at all
  {
    const auto data = measurements(g, n);
    const auto fit = NullModel().fit(data);
    const auto xs = points(g, m, false);
    text(fit.predict(xs).mean());
    text(fit.predict(xs).marginal());
    text(fit.predict(xs).joint());
  }
  // a conditional distribution
  {
    const JointDistribution prior(some_vector(g, n), some_psd(g, n));
    const MarginalDistribution truth(some_vector(g, n), some_variance(g, n));
    const auto model = std::make_unique<ConditionalGaussian>(prior, truth);
    std::vector<std::size_t> some = g.choose(n, g.size(1, n));
    const auto fit = model->fit(some);
    text(fit.predict(some).joint());
    text(fit.predict(std::vector<std::size_t>()).mean());
  }
  // robust models
  {
    const auto data = measurements(g, g.size(3, 7));
    const auto model = gp_from_covariance(
        SquaredExponential<EuclideanDistance>(2., 1.5) +
        IndependentNoise<double>(0.5));
    DefaultGPRansacStrategy strategy;
    const auto robust = model.ransac(strategy, 0.5, 1, 1, 5);
    const auto fit = robust.fit(data);
    const auto xs = points(g, m, false);
    text(fit.predict(xs).marginal());
    std::ostringstream os;
    os << fit.get_fit().ransac_output;
    VF_CHECK("ransac_printed", os.str().size() > 0, "");
    const auto prediction = robust.fit(data).predict(std::vector<double>(xs));
    text(prediction.mean());
  }
  const std::string out = captured.stop();
  VF_CHECK("nothing_on_standard_output", out.empty(), out.substr(0, 100));
  c.count("other_models");
  c.reached();
}

VF_SECTION("tuners", 30, 400) {
  auto &g = c.rng;
  Captured captured;
  const std::size_t n = g.size(0, 3);
  c.desc << "n=" << n << " ";
  ParameterStore params;
  for (std::size_t i = 0; i < n; ++i)
    params["p" + std::to_string(i)] =
        Parameter(g.u(), g.coin(0.2) ? PriorContainer(FixedPrior())
                                     : PriorContainer(UniformPrior(0., 1.)));
  std::ostringstream os;
  const auto f = [](const ParameterStore &p) {
    double s = 0.;
    for (const auto &x : p)
      s += std::pow(x.second.value - 0.3, 2.);
    return s;
  };
  c.desc << vf::hash_str(text(params));
  text(greedy_tune(f, params, 2, 2, nullptr, &os));
  text(compute_gradient(f, params, f(params)));
  if (get_tunable_parameters(params).values.size() > 0) {
    GenericTuner tuner(params, os);
    tuner.optimizer.set_maxeval(20);
    auto objective = f;
    text(tuner.tune(objective));
    VF_CHECK("tuner_writes_to_its_stream", os.str().size() > 0, "");
  }
  const auto data = measurements(g, 4);
  const auto model = gp_from_covariance(
      SquaredExponential<EuclideanDistance>(2., 1.5) +
      IndependentNoise<double>(0.5));
  LeaveOneOutLikelihood<> metric;
  std::ostringstream os2;
  auto tuner = get_tuner(model, metric, data, mean_aggregator, os2);
  tuner.optimizer.set_maxeval(10);
  text(tuner.tune());
  VF_CHECK("model_tuner_writes_to_its_stream", os2.str().size() > 0, "");
  const std::string out = captured.stop();
  VF_CHECK("nothing_on_standard_output", out.empty(), out.substr(0, 100));
  c.count("tuners");
  c.reached();
}

} // namespace
