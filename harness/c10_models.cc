// C10: archives of the other models.
#include "c10_gp.h"

namespace {
using namespace vfser;
using namespace vfgp;
using namespace albatross;

RegressionDataset<double> line(vf::Rng &g, std::size_t n, double outliers) {
  std::vector<double> x;
  Eigen::VectorXd y(static_cast<Eigen::Index>(n));
  const double a = g.normal(), b = g.normal();
  for (std::size_t i = 0; i < n; ++i) {
    x.push_back(static_cast<double>(i) + 0.25 * g.u());
    y[static_cast<Eigen::Index>(i)] = a + b * x.back() + 0.01 * g.normal();
    if (g.u() < outliers) {
      y[static_cast<Eigen::Index>(i)] += 50. * g.normal();
    }
  }
  return RegressionDataset<double>(
      x, MarginalDistribution(y, Eigen::VectorXd::Constant(
                                     static_cast<Eigen::Index>(n), 0.01)));
}

VF_SECTION("least_squares", 20, 300) {
  LinearRegression model;
  decorate(c, &model);
  const auto data = line(c.rng, c.rng.size(2, 20), 0.1);
  c.desc << "n=" << data.size() << "; ";
  trip_all(
      c, model, [&]() { return LinearRegression(); },
      [&](const auto &a, const auto &b, const char *f) {
        same_model(c, a, b, f);
      });
  const auto fm = model.fit(data);
  using FM = std::decay_t<decltype(fm)>;
  const std::vector<double> test = {-1., 0., 3.5};
  const auto other = LinearRegression().fit(line(c.rng, 5, 0.));
  trip_all(
      c, fm, [&]() { return c.rng.coin() ? FM() : FM(other); },
      [&](const FM &a, const FM &b, const char *f) {
        VF_CHECK("fit_equal", a == b, f);
        same_model(c, a.get_model(), b.get_model(), f);
        VF_CHECK("coefs", same(a.get_fit().coefs, b.get_fit().coefs), f);
        VF_CHECK("mean", same(a.predict(test).mean(), b.predict(test).mean()),
                 f);
      });
  c.count("least_squares_fits");
  c.reached();
}

VF_SECTION("null_model", 8, 60) {
  ParameterStore store;
  store["alpha"] = Parameter(c.rng.normal(), GaussianPrior(1., 2.));
  NullModel model(store);
  decorate(c, &model);
  trip_all(
      c, model,
      [&]() {
        ParameterStore s;
        s["alpha"] = Parameter(0.);
        return NullModel(s);
      },
      [&](const auto &a, const auto &b, const char *f) {
        same_model(c, a, b, f);
      });
  const auto fm = model.fit(line(c.rng, 4, 0.));
  using FM = std::decay_t<decltype(fm)>;
  const std::vector<double> test = {-1., 0., 3.5};
  trip_all(
      c, fm,
      [&]() {
        ParameterStore s;
        s["alpha"] = Parameter(0.);
        return FM(NullModel(s).fit(line(c.rng, 4, 0.)));
      },
      [&](const FM &a, const FM &b, const char *f) {
        VF_CHECK("null_fit", a == b, f);
        same_predictions(c, a.predict(test), b.predict(test), f);
      });
  c.count("null_fits");
  c.reached();
}

template <typename Key> RansacOutput<Key> random_output(vf::Case &c);

template <typename Key, typename MakeKey>
RansacIteration<Key> random_iteration(vf::Case &c, MakeKey &&key,
                                      bool allow_nan) {
  RansacIteration<Key> it;
  const auto n = c.rng.size(0, 4);
  for (std::size_t i = 0; i < n; ++i) {
    it.candidates.push_back(key());
    it.inliers[key()] = finite(c.rng);
    it.outliers[key()] = finite(c.rng);
  }
  if (!allow_nan || c.rng.coin()) {
    it.consensus_metric_value = finite(c.rng);
  }
  return it;
}

template <typename Key, typename MakeKey>
void outputs(vf::Case &c, MakeKey &&key) {
  const bool allow_nan = c.rng.coin();
  const auto make = [&]() {
    RansacOutput<Key> out;
    out.return_code = c.rng.pick(std::vector<ransac_return_code_t>{
        RANSAC_RETURN_CODE_INVALID, RANSAC_RETURN_CODE_SUCCESS,
        RANSAC_RETURN_CODE_NO_CONSENSUS, RANSAC_RETURN_CODE_INVALID_ARGUMENTS,
        RANSAC_RETURN_CODE_EXCEEDED_MAX_FAILED_CANDIDATES,
        RANSAC_RETURN_CODE_FAILURE});
    out.best = random_iteration<Key>(c, key, allow_nan);
    const auto n = c.rng.size(0, 5);
    for (std::size_t i = 0; i < n; ++i) {
      out.iterations.push_back(random_iteration<Key>(c, key, allow_nan));
    }
    return out;
  };
  const auto out = make();
  trip_all(
      c, out, make,
      [&](const auto &a, const auto &b, const char *f) {
        VF_CHECK("output_equal", a == b, f);
        VF_CHECK("return_code", a.return_code == b.return_code, f);
        VF_CHECK("output_metric",
                 same_bits(a.best.consensus_metric_value,
                           b.best.consensus_metric_value),
                 f);
      },
      !allow_nan);
  c.count("ransac_outputs");
}

VF_SECTION("ransac_output", 30, 300) {
  switch (c.index % 3) {
  case 0:
    outputs<int>(c, [&]() { return static_cast<int>(c.rng.integer(-9, 9)); });
    break;
  case 1:
    outputs<std::string>(c, [&]() { return random_text(c.rng); });
    break;
  default:
    outputs<double>(c, [&]() { return finite(c.rng); });
  }
  c.reached();
}

template <typename Model>
void ransac_case(vf::Case &c, const Model &model,
                 const RegressionDataset<double> &data) {
  const auto fm = model.fit(data);
  using FM = std::decay_t<decltype(fm)>;
  const std::vector<double> test = {-1., 0.5, 3.5};
  const auto other = model.fit(line(c.rng, 12, 0.));
  bool nans = std::isnan(fm.get_fit().ransac_output.best.consensus_metric_value);
  for (const auto &it : fm.get_fit().ransac_output.iterations) {
    nans = nans || std::isnan(it.consensus_metric_value);
  }
  trip_all(
      c, fm, [&]() { return c.rng.coin() ? FM() : FM(other); },
      [&](const FM &a, const FM &b, const char *f) {
        VF_CHECK("ransac_fit_equal", a.get_fit() == b.get_fit(), f);
        VF_REQUIRE("has_fit_model",
                   a.get_fit().has_fit_model() == b.get_fit().has_fit_model(),
                   f);
        VF_CHECK("ransac_params",
                 a.get_model().get_params() == b.get_model().get_params(), f);
        if (a.get_fit().has_fit_model()) {
          same_predictions(c, a.predict(test), b.predict(test), f);
          same_model(c, a.get_fit().get_fit_model_or_assert().get_model(),
                     b.get_fit().get_fit_model_or_assert().get_model(), f);
          c.count("ransac_fits");
        } else {
          c.count("empty_ransac_fits");
        }
        VF_CHECK("ransac_model_equal", a == b,
                 f << " " << a.get_model().get_name() << " "
                   << b.get_model().get_name());
      },
      !nans);
}

VF_SECTION("ransac", 24, 200) {
  auto cov = SE(20., 20.) + measurement_only(IN(0.5));
  auto gp = gp_from_covariance(cov, c.rng.coin() ? random_text(c.rng)
                                                 : std::string("gp"));
  RansacConfig config(c.rng.uniform(0.5, 4.), 3, c.rng.size(3, 6), 8, 8);
  const std::size_t mode = c.index % 4;
  if (mode == 3) {
    // Nobody agrees with anybody.
    config.inlier_threshold = -1e12;
    config.min_consensus_size = 6;
  }
  const auto data = line(c.rng, 12, mode == 3 ? 1. : 0.2);
  c.desc << "mode " << mode << "; ";
  if (mode == 0 || mode == 3) {
    auto model = gp.ransac(DefaultGPRansacStrategy(), config);
    ransac_case(c, model, data);
  } else if (mode == 1) {
    auto model = gp.ransac(DefaultRansacStrategy(), config);
    ransac_case(c, model, data);
  } else {
    GaussianProcessRansacStrategy<ChiSquaredCdf, ChiSquaredConsensusMetric,
                                  ChiSquaredIsValidCandidateMetric,
                                  LeaveOneOutGrouper>
        strategy;
    auto model = gp.ransac(strategy, config);
    ransac_case(c, model, data);
  }
  c.reached();
}

} // namespace
