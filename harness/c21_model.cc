// C21: sampling the parameters of models, and what the callbacks write.
#include "c21_util.h"

#include <albatross/SparseGP>

namespace c21_types {
using namespace albatross;

class FreeMean : public MeanFunction<FreeMean> {
public:
  ALBATROSS_DECLARE_PARAMS(alpha, beta, gamma, delta);
  FreeMean() {
    alpha = {0.5, UniformPrior(0., 1.)};
    beta = {0.3, GaussianPrior(0., 2.)};
    gamma = {1.2, NonNegativePrior()};
    delta = {2., LogScaleUniformPrior(1e-2, 1e2)};
  }
  std::string name() const { return "free_mean"; }
  double _call_impl(const double &x) const {
    return alpha.value + beta.value * x + gamma.value * x * x / 10. +
           delta.value * std::sin(x);
  }
};

struct ByInterval {
  long operator()(const double &x) const {
    return static_cast<long>(std::floor(x / 4.));
  }
};

} // namespace c21_types

namespace {
using namespace vfsample;
using c21_types::ByInterval;
using c21_types::FreeMean;

// The density of the values of the tunable parameters.
template <typename Model, typename Dataset> struct Posterior {
  const Model &model;
  const Dataset &data;
  bool inside(const std::vector<double> &x) const {
    std::size_t i = 0;
    for (const auto &p : model.get_params()) {
      const auto &prior = p.second.prior;
      if (prior.is_fixed()) {
        continue;
      }
      double lo = prior.lower_bound(), hi = prior.upper_bound();
      if (prior.is_log_scale()) {
        lo = std::log(lo);
        hi = std::log(hi);
      }
      if (!(x[i] >= lo && x[i] <= hi)) {
        return false;
      }
      ++i;
    }
    return i == x.size();
  }
  ParameterStore params(const std::vector<double> &x) const {
    ParameterStore out = model.get_params();
    std::size_t i = 0;
    for (auto &p : out) {
      if (p.second.prior.is_fixed()) {
        continue;
      }
      double v = p.second.prior.is_log_scale() ? std::exp(x[i]) : x[i];
      // rounding of the exponential
      v = std::min(std::max(v, p.second.prior.lower_bound()),
                   p.second.prior.upper_bound());
      p.second.value = v;
      ++i;
    }
    return out;
  }
  double operator()(const std::vector<double> &x) const {
    if (!inside(x)) {
      return -LARGE_VAL;
    }
    Model m(model);
    for (const auto &p : params(x)) {
      m.set_param(p.first, p.second);
    }
    return m.log_likelihood(data);
  }
};

PriorContainer random_prior(vf::Rng &g, double *value) {
  switch (g.integer(0, 7)) {
  case 0: {
    const double lo = 3. * g.normal(), w = g.log_uniform(0.05, 5.);
    *value = g.coin(0.3) ? lo : (g.coin(0.3) ? lo + w : g.uniform(lo, lo + w));
    return UniformPrior(lo, lo + w);
  }
  case 1: {
    const double lo = g.log_uniform(1e-3, 1.), hi = lo * g.log_uniform(2., 1e4);
    *value = g.coin(0.2) ? lo : (g.coin(0.2) ? hi : g.log_uniform(lo, hi));
    return LogScaleUniformPrior(lo, hi);
  }
  case 2:
    *value = g.normal();
    return GaussianPrior(g.normal(), g.log_uniform(0.1, 3.));
  case 3:
    *value = g.log_uniform(1e-3, 3.);
    return NonNegativePrior();
  case 4:
    *value = g.log_uniform(1e-3, 3.);
    return PositivePrior();
  case 5:
    *value = g.normal();
    return FixedPrior();
  case 6:
    *value = g.log_uniform(0.1, 2.);
    return LogNormalPrior(g.normal(), g.log_uniform(0.2, 2.));
  default:
    *value = g.log_uniform(0.01, 2.);
    return PositiveGaussianPrior(g.uniform(-1., 2.), g.log_uniform(0.3, 2.));
  }
}

RegressionDataset<double> random_data(vf::Rng &g, std::size_t n) {
  std::vector<double> xs;
  Eigen::VectorXd ys(static_cast<Eigen::Index>(n));
  for (std::size_t i = 0; i < n; ++i) {
    xs.push_back(static_cast<double>(i) + 0.3 * g.normal());
    ys[static_cast<Eigen::Index>(i)] = 0.3 + 0.2 * xs.back() + g.normal();
  }
  return RegressionDataset<double>(xs, ys);
}

template <typename Model> void randomize(vf::Case &c, Model *model) {
  auto &g = c.rng;
  std::size_t free = 0;
  for (const auto &name : {"alpha", "beta", "gamma", "delta"}) {
    double v = 0.;
    const auto prior = random_prior(g, &v);
    model->set_param(name, Parameter(v, prior));
    c.desc << name << "~" << prior.get_name() << " ";
    c.count("prior_" + prior.get_name().substr(0, prior.get_name().find('[')));
    free += prior.is_fixed() ? 0 : 1;
  }
  if (free == 0) {
    model->set_param("alpha", Parameter(0.5, UniformPrior(0., 1.)));
  }
}

std::size_t n_free(const ParameterStore &params) {
  std::size_t out = 0;
  for (const auto &p : params) {
    out += p.second.prior.is_fixed() ? 0 : 1;
  }
  return out;
}

template <typename Model, typename Dataset>
void run_model(vf::Case &c, const Model &model, const Dataset &data,
               std::size_t walkers, std::size_t iterations, double tol) {
  auto &g = c.rng;
  const auto params = model.get_params();
  const std::size_t dims = n_free(params);
  const auto seed =
      static_cast<std::default_random_engine::result_type>(g.next() % 1000000);
  std::default_random_engine gen(seed);
  Recorder recorder;
  const auto chain =
      ensemble_sampler(model, data, walkers, iterations, gen, recorder);
  VF_REQUIRE("model_history", !chain.empty(), "");
  const std::size_t n = chain[0].size();
  VF_CHECK("enough_walkers", n >= walkers && n >= 2 * dims, n);
  if (walkers >= 2 * params.size() + 1) {
    VF_CHECK("as_many_walkers_as_asked_for", n == walkers, n);
  }
  const Posterior<Model, Dataset> density{model, data};
  check_history(
      c, chain, n, dims, iterations, density,
      [&](const auto &x) { return density.inside(x); }, tol);
  check_callbacks(c, recorder, chain);
  VF_CHECK("model_is_left_alone", model.get_params() == params, "");
  c.count("model_chains");

  std::default_random_engine again(seed);
  const auto other = ensemble_sampler(model, data, walkers, iterations, again);
  bool equal = other.size() == chain.size();
  for (std::size_t t = 0; equal && t < chain.size(); ++t) {
    equal = same_states(chain[t], other[t]);
  }
  VF_CHECK("model_reproducible", equal, "");

  // The callbacks: the history goes to a file and comes back.
  auto text = std::make_shared<std::ostringstream>();
  std::shared_ptr<std::ostream> stream = text;
  auto csv = get_csv_writing_callback(model, stream);
  auto best_text = std::make_shared<std::ostringstream>();
  std::shared_ptr<std::ostream> best_stream = best_text;
  MaximumLikelihoodTrackingCallback best(params, best_stream);
  for (std::size_t t = 0; t < chain.size(); ++t) {
    csv(t, chain[t]);
    best(t, chain[t]);
  }
  std::istringstream lines(text->str());
  std::string line;
  std::getline(lines, line);
  std::vector<std::string> columns = {"iteration", "log_probability",
                                      "ensemble_index"};
  for (const auto &p : params) {
    columns.push_back(p.first);
  }
  VF_REQUIRE("csv_columns", split_string(line, ',') == columns, line);
  std::vector<double> best_x;
  double best_ll = -LARGE_VAL;
  for (std::size_t t = 0; t < chain.size(); ++t) {
    for (std::size_t k = 0; k < n; ++k) {
      const auto &s = chain[t][k];
      if (s.log_prob > best_ll) {
        best_ll = s.log_prob;
        best_x = s.params;
      }
      VF_REQUIRE("csv_line_per_state", bool(std::getline(lines, line)), t);
      const auto cells = split_string(line, ',');
      VF_REQUIRE("csv_cells", cells.size() == columns.size(), line);
      VF_CHECK("csv_iteration", cells[0] == std::to_string(t), line);
      VF_CHECK("csv_index", cells[2] == std::to_string(k), line);
      VF_CLOSE("csv_log_probability", std::stod(cells[1]), s.log_prob, 1e-9,
               1e-6);
      std::size_t col = 3;
      for (const auto &p : density.params(s.params)) {
        VF_CLOSE("csv_param", std::stod(cells[col]), p.second.value, 1e-9,
                 1e-6);
        ++col;
      }
      c.count("csv_lines");
    }
  }
  VF_CHECK("csv_has_no_more_lines", !std::getline(lines, line), line);
  VF_CHECK("tracked_maximum", best.max_ll == best_ll,
           best.max_ll << " " << best_ll);
  for (const auto &p : density.params(best_x)) {
    VF_CLOSE("tracked_params", best.param_store.at(p.first).value,
             p.second.value, 1e-12, 1e-300);
    VF_CHECK("tracked_prior",
             best.param_store.at(p.first).prior == p.second.prior, p.first);
  }
  {
    std::istringstream in(text->str());
    const auto raw = initial_params_from_csv(in);
    VF_REQUIRE("csv_restart_size", raw.size() == n, raw.size());
    std::istringstream in2(text->str());
    const auto restart = initial_params_from_csv(params, in2);
    VF_REQUIRE("csv_restart_size", restart.size() == n, restart.size());
    for (std::size_t k = 0; k < n; ++k) {
      const auto expected = density.params(chain.back()[k].params);
      VF_CHECK("csv_restart_params", raw[k].size() == expected.size(),
               raw[k].size());
      for (const auto &p : expected) {
        VF_CLOSE("csv_restart_value", raw[k].at(p.first), p.second.value, 1e-9,
                 1e-6);
      }
      VF_REQUIRE("csv_restart_dims", restart[k].size() == dims,
                 restart[k].size());
      VF_CHECK("csv_restart_within_bounds", density.inside(restart[k]), k);
      const auto back = density.params(restart[k]);
      for (const auto &p : expected) {
        VF_CLOSE("csv_restart_tunable", back.at(p.first).value, p.second.value,
                 1e-9, 1.1e-6);
      }
    }
    // and it can be sampled from there
    std::default_random_engine third(seed + 1);
    bool enough = true;
    std::size_t finite = 0;
    for (const auto &x : restart) {
      finite += std::isfinite(density(x)) ? 1 : 0;
    }
    enough = finite > 2;
    if (enough) {
      const auto more = ensemble_sampler(density, restart, 2, third);
      check_history(
          c, more, n, dims, 2, density,
          [&](const auto &x) { return density.inside(x); }, tol);
      c.count("restarts");
    }
  }
}

VF_SECTION("gaussian_process", 60, 1200) {
  auto &g = c.rng;
  IndependentNoise<double> noise(1.);
  noise.sigma_independent_noise.prior =
      g.coin() ? PriorContainer(LogScaleUniformPrior(1e-2, 1e2))
               : PriorContainer(UniformPrior(0.5, 4.));
  auto model = gp_from_covariance_and_mean(noise, FreeMean());
  randomize(c, &model);
  const auto data = random_data(g, g.size(2, 12));
  const std::size_t walkers = g.size(1, 24);
  const std::size_t iterations = g.size(0, 15);
  c.desc << " walkers=" << walkers << " iterations=" << iterations;
  run_model(c, model, data, walkers, iterations, 1e-9);
  c.reached();
}

VF_SECTION("sparse_gaussian_process", 10, 120) {
  auto &g = c.rng;
  IndependentNoise<double> noise(1.);
  noise.sigma_independent_noise.prior = LogScaleUniformPrior(1e-2, 1e2);
  auto model = sparse_gp_from_covariance_and_mean(
      SquaredExponential<EuclideanDistance>(2., 1.5) + measurement_only(noise),
      FreeMean(), ByInterval(), UniformlySpacedInducingPoints(4), "sparse",
      DenseQRImplementation());
  model.set_prior("inducing_nugget", FixedPrior());
  model.set_prior("measurement_nugget", FixedPrior());
  model.set_prior("squared_exponential_length_scale", UniformPrior(1., 4.));
  model.set_prior("sigma_squared_exponential", UniformPrior(0.5, 3.));
  randomize(c, &model);
  const auto data = random_data(g, g.size(6, 14));
  const std::size_t iterations = g.size(1, 4);
  c.desc << " iterations=" << iterations;
  run_model(c, model, data, g.size(1, 20), iterations, 1e-6);
  c.count("sparse_chains");
  c.reached();
}

// Measurements which say nothing leave the prior: started from draws of the
// prior the chains are draws of it.
VF_SECTION("prior_is_left", 6, 60) {
  auto &g = c.rng;
  auto model = gp_from_covariance_and_mean(IndependentNoise<double>(1.),
                                           FreeMean());
  model.set_prior("sigma_independent_noise", FixedPrior());
  model.set_prior("alpha", UniformPrior(0., 1.));
  model.set_prior("beta", FixedPrior());
  model.set_prior("gamma", FixedPrior());
  const bool two = g.coin();
  if (two) {
    model.set_param("delta", Parameter(2., LogScaleUniformPrior(1e-2, 1e2)));
  } else {
    model.set_prior("delta", FixedPrior());
  }
  RegressionDataset<double> data = random_data(g, 2);
  data.targets.covariance =
      (Eigen::VectorXd::Constant(2, 1e12)).asDiagonal();
  // A long chain of many walkers; the bound on the mean is that of the slow
  // chain (integrated time below 100 iterations).
  const std::size_t walkers = 40, iterations = vf::state().thorough ? 2500 : 900;
  std::default_random_engine gen(
      static_cast<std::default_random_engine::result_type>(g.next() % 100000));
  const auto chain = ensemble_sampler(model, data, walkers, iterations, gen);
  double n = 0., sum = 0., sum2 = 0., low = 0., below = 0.;
  for (std::size_t t = 150; t < chain.size(); ++t) {
    for (const auto &s : chain[t]) {
      const double u = s.params[0];
      VF_REQUIRE("prior_support", u >= 0. && u <= 1., u);
      sum += u;
      sum2 += u * u;
      n += 1.;
      below += u < 0.1 ? 1. : 0.;
      if (two) {
        low += s.params[1] < 0. ? 1. : 0.;
      }
    }
  }
  const double effective = n / 100.;
  const double sd = std::sqrt(1. / (12. * effective));
  VF_CHECK("prior_mean", std::abs(sum / n - 0.5) < 6. * sd,
           sum / n << " sd " << sd);
  c.observe_max("prior_mean_sigmas", std::abs(sum / n - 0.5) / sd);
  VF_CHECK("prior_spread",
           std::abs(sum2 / n - 1. / 3.) < 6. * std::sqrt(4. / 45. / effective),
           sum2 / n);
  VF_CHECK("prior_tail",
           std::abs(below / n - 0.1) < 6. * std::sqrt(0.09 / effective),
           below / n);
  if (two) {
    VF_CHECK("prior_log_scale",
             std::abs(low / n - 0.5) < 6. * std::sqrt(0.25 / effective),
             low / n);
  }
  c.count("prior_chains");
  c.reached();
}

VF_SECTION("jitter", 60, 600) {
  auto &g = c.rng;
  ParameterStore params;
  const std::size_t n = g.size(1, 6);
  for (std::size_t i = 0; i < n; ++i) {
    double v = 0.;
    const auto prior = random_prior(g, &v);
    params["p" + std::to_string(i)] = Parameter(v, prior);
  }
  std::default_random_engine gen(7);
  std::normal_distribution<double> jitter(0., g.log_uniform(1e-3, 10.));
  const std::size_t asked = g.size(0, 20);
  const auto initial = initial_params_from_jitter(params, jitter, gen, asked);
  VF_CHECK("jitter_count", initial.size() == std::max(asked, 2 * n + 1),
           initial.size());
  std::size_t dims = n_free(params);
  for (std::size_t k = 0; k < initial.size(); ++k) {
    VF_REQUIRE("jitter_dims", initial[k].size() == dims, initial[k].size());
    std::size_t i = 0;
    for (const auto &p : params) {
      const auto &prior = p.second.prior;
      if (prior.is_fixed()) {
        continue;
      }
      const bool log_scale = prior.is_log_scale();
      const double lo =
          log_scale ? std::log(prior.lower_bound()) : prior.lower_bound();
      const double hi =
          log_scale ? std::log(prior.upper_bound()) : prior.upper_bound();
      const double v = initial[k][i];
      VF_CHECK("jitter_within_bounds", v >= lo && v <= hi, v);
      if (k == 0) {
        VF_CHECK("first_is_the_start",
                 v == (log_scale ? std::log(p.second.value) : p.second.value),
                 v);
      }
      ++i;
    }
  }
  c.count("jittered", initial.size());
  c.reached();
}

} // namespace
