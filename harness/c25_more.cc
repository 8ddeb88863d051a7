// C25: samplers, archives and text, threads, cross validation and scores.
#include "c25_util.h"

#include <albatross/Samplers>
#include <albatross/serialize/GP>
#include <albatross/utils/AsyncUtils>
#include <albatross/utils/CsvUtils>

namespace c25_more_types {
using namespace albatross;
// Has no operator<<.
struct Silent {
  double x = 0.;
  bool operator==(const Silent &o) const { return x == o.x; }
  template <typename Archive>
  void serialize(Archive &ar, const std::uint32_t) {
    ar(cereal::make_nvp("x", x));
  }
};
struct Parity {
  long operator()(const double &x) const {
    return static_cast<long>(std::floor(x)) % 2;
  }
};
} // namespace c25_more_types

namespace {
using namespace vflife;
using c25_more_types::Parity;
using c25_more_types::Silent;

std::string walkers_text(const EnsembleSamplerState &s) {
  Text t;
  for (const auto &w : s) {
    put(t, w.params);
    t.num(w.log_prob);
    put(t, w.accepted);
  }
  return t.os.str();
}

RegressionDataset<double> few(vf::Rng &g, std::size_t n) {
  // the noise of a repeated place is shared: it has to be measured apart
  const bool measured_apart = g.coin();
  std::vector<double> xs;
  for (std::size_t i = 0; i < n; ++i)
    xs.push_back(measured_apart && i > 0 && g.coin(0.3)
                     ? xs[g.size(0, i - 1)]
                     : g.uniform(-4., 4.));
  Eigen::VectorXd ys(static_cast<Eigen::Index>(n));
  for (Eigen::Index i = 0; i < ys.size(); ++i)
    ys[i] = g.normal();
  return RegressionDataset<double>(
      xs, measured_apart ? MarginalDistribution(ys, some_variance(g, n))
                         : MarginalDistribution(ys));
}

auto small_model() {
  return gp_from_covariance(SquaredExponential<EuclideanDistance>(2., 1.5) +
                                IndependentNoise<double>(0.5),
                            "small");
}

VF_SECTION("samplers", 60, 900) {
  auto &g = c.rng;
  Captured captured;
  const std::size_t dims = g.size(1, 3), n = g.size(3, 9);
  c.desc << "dims=" << dims << " n=" << n << " ";
  const auto f = [](const std::vector<double> &p) {
    double s = 0.;
    for (double x : p)
      s -= 0.5 * x * x;
    return p[0] > 3. ? -HUGE_VAL : s;
  };
  EnsembleSamplerState state;
  for (std::size_t i = 0; i < n; ++i) {
    std::vector<double> p;
    for (std::size_t d = 0; d < dims; ++d)
      p.push_back(g.normal());
    if (i > 2 && g.coin(0.2))
      p[0] = 9.;
    if (i <= 2)
      p[0] = std::min(p[0], 2.5);
    SamplerState w = {p, f(p), true};
    state.push_back(w);
  }
  c.desc << vf::hash_str(walkers_text(state));
  std::default_random_engine gen(static_cast<unsigned>(g.size(1, 1000)));
  auto ready = ensure_finite_initial_state(f, state, gen);
  walkers_text(ready);
  for (std::size_t splits = 2; splits <= std::min<std::size_t>(n, 3); ++splits)
    ready = stretch_move_step(ready, f, gen, splits);
  walkers_text(ready);

  ParameterStore params;
  for (std::size_t d = 0; d < dims; ++d)
    params["p" + std::to_string(d)] =
        Parameter(0.5, UniformPrior(-20., 20.));
  params["z"] = Parameter(1., FixedPrior());
  auto kept = std::make_shared<std::ostringstream>();
  std::shared_ptr<std::ostream> as_base = kept;
  {
    MaximumLikelihoodTrackingCallback best(params, as_base);
    const auto history = ensemble_sampler(f, state, 3, gen, best);
    for (const auto &h : history)
      walkers_text(h);
    MaximumLikelihoodTrackingCallback other(
        params, std::shared_ptr<std::ostream>(
                    std::make_shared<std::ostringstream>()));
    other(0, history[0]);
    CsvWritingCallback temporary(params, std::shared_ptr<std::ostream>(
                                             std::make_shared<std::ostringstream>()));
    temporary(0, history[0]);
    temporary(1, history[1]);
  }
  VF_CHECK("best_so_far_is_written_to_its_stream", kept->str().size() > 0, "");
  {
    auto csv = std::make_shared<std::ostringstream>();
    std::shared_ptr<std::ostream> stream = csv;
    CsvWritingCallback writer(params, stream);
    stream.reset();
    const auto history = ensemble_sampler(f, state, 2, gen, writer);
    std::istringstream in(csv->str());
    const auto again = initial_params_from_csv(params, in);
    VF_CHECK("as_many_walkers_as_were_written", again.size() == n,
             again.size());
    text(again);
    walkers_text(history.back());
  }
  {
    std::normal_distribution<double> jitter(0., 0.1);
    text(initial_params_from_jitter(params, jitter, gen, g.size(0, 9)));
    const auto model = small_model();
    const auto data = few(g, g.size(1, 4));
    char name[] = "vf_walkers_XXXXXX";
    const int fd = mkstemp(name);
    close(fd);
    {
      auto writer = get_csv_writing_callback(model, std::string(name));
      const auto history =
          ensemble_sampler(model, data, g.size(0, 8), 2, gen, writer);
      for (const auto &h : history)
        walkers_text(h);
    }
    std::ifstream in(name);
    text(initial_params_from_csv(model.get_params(), in));
    unlink(name);
  }
  const std::string out = captured.stop();
  VF_CHECK("nothing_on_standard_output", out.empty(), out.substr(0, 100));
  c.count("samplers");
  c.reached();
}

template <typename X> std::string printed(const X &x) {
  std::ostringstream os;
  os << x;
  return os.str();
}

bool holds(const std::string &all, const std::string &part) {
  return all.find(part) != std::string::npos;
}

VF_SECTION("text_and_archives", 100, 2000) {
  auto &g = c.rng;
  Captured captured;
  const std::size_t n = small_size(g);
  const auto data = some_dataset(g, n);
  c.desc << "n=" << n << " " << vf::hash_str(text(data));
  const auto lines = [](const std::string &s) {
    return static_cast<std::size_t>(std::count(s.begin(), s.end(), '\n'));
  };
  VF_CHECK("one_line_per_entry", lines(printed(data)) == n, printed(data));
  std::vector<Silent> silent(n);
  VF_CHECK("one_line_per_entry",
           lines(printed(RegressionDataset<Silent>(silent, data.targets))) == n,
           "");
  if (n > 0)
    VF_CHECK("measurement_printed",
             printed(Measurement<double>(data.features[0])).size() > 0, "");
  // the text of a model names every parameter
  auto model = gp_from_covariance_and_mean(
      SquaredExponential<EuclideanDistance>(2., 1.5) *
              Exponential<AngularDistance>() +
          Constant(1.) + IndependentNoise<double>(0.5),
      LinearMean(), "printed");
  const std::string pretty = model.pretty_string();
  for (const auto &p : model.get_params())
    VF_CHECK("parameter_named", holds(pretty, p.first), pretty);
  VF_CHECK("model_named", holds(pretty, model.get_name()), pretty);
  const auto covariance = SquaredExponential<EuclideanDistance>(2., 1.5) +
                          Nugget() + Constant(1.);
  for (const auto &p : covariance.get_params())
    VF_CHECK("parameter_named", holds(covariance.pretty_string(), p.first),
             covariance.pretty_string());
  for (const auto &p : LinearMean().get_params())
    VF_CHECK("parameter_named", holds(LinearMean().pretty_string(), p.first),
             p.first);
  {
    std::unique_ptr<DistanceMetric> metric;
    for (int k = 0; k < 3; ++k) {
      if (k == 0)
        metric = std::make_unique<EuclideanDistance>();
      else if (k == 1)
        metric = std::make_unique<RadialDistance>();
      else
        metric = std::make_unique<AngularDistance>();
      VF_CHECK("metric_named", metric->get_name().size() > 0, k);
    }
  }
  for (auto code : {RANSAC_RETURN_CODE_INVALID, RANSAC_RETURN_CODE_SUCCESS,
                    RANSAC_RETURN_CODE_NO_CONSENSUS,
                    RANSAC_RETURN_CODE_INVALID_ARGUMENTS,
                    RANSAC_RETURN_CODE_EXCEEDED_MAX_FAILED_CANDIDATES,
                    RANSAC_RETURN_CODE_FAILURE})
    VF_CHECK("code_named", to_string(code).size() > 0, code);
  std::vector<RegressionDataset<double>> several(g.size(0, 3), data);
  std::vector<MarginalDistribution> predicted(
      several.size(),
      MarginalDistribution(some_vector(g, n), some_variance(g, n)));
  std::ostringstream csv;
  write_to_csv(csv, data);
  write_to_csv(csv, several, predicted);
  write_to_csv(csv, RegressionDataset<Silent>(silent, data.targets),
               MarginalDistribution(some_vector(g, n)), g.coin());
  const auto extent = static_cast<Eigen::Index>(n);
  write_to_csv(csv, Eigen::MatrixXd(some_matrix(g, extent, g.integer(0, 2))));
  // archives which live longer or shorter than what was saved
  {
    std::ostringstream os;
    {
      auto heap = std::make_unique<RegressionDataset<double>>(data);
      cereal::BinaryOutputArchive ar(os);
      ar(*heap);
    }
    RegressionDataset<double> target = some_dataset(g, small_size(g));
    {
      std::istringstream is(os.str());
      cereal::BinaryInputArchive ar(is);
      ar(target);
    }
    VF_CHECK("loaded", text(target) == text(data), text(target));
    check_values(c, "loaded", target);
  }
  // a model which has been through an archive
  const auto fit_model = small_model();
  const auto training = few(g, g.size(1, 4));
  const auto fit = fit_model.fit(training);
  using Fitted = std::decay_t<decltype(fit.get_fit())>;
  std::ostringstream os;
  {
    cereal::BinaryOutputArchive ar(os);
    ar(fit.get_fit());
  }
  const auto others = few(g, small_size(g));
  Fitted target(g.coin() || others.size() == 0
                    ? Fitted()
                    : Fitted(fit_model.fit(others).get_fit()));
  {
    std::istringstream is(os.str());
    cereal::BinaryInputArchive ar(is);
    ar(target);
  }
  VF_CHECK("fit_loaded", target == fit.get_fit(), "");
  text(target.information);
  text(Eigen::VectorXd(target.train_covariance.vectorD()));
  text(Eigen::MatrixXd(target.train_covariance.matrixL()));
  const std::string out = captured.stop();
  VF_CHECK("nothing_on_standard_output", out.empty(), out.substr(0, 100));
  c.count("archives");
  c.reached();
}

VF_SECTION("threads", 60, 900) {
  auto &g = c.rng;
  Captured captured;
  const std::size_t n = g.coin(0.2) ? g.size(10, 60) : small_size(g);
  const auto xs = some_values(g, n);
  c.desc << "n=" << n << " " << vf::hash_str(text(xs));
  std::shared_ptr<ThreadPool> pool =
      g.coin(0.2) ? serial_thread_pool : make_shared_thread_pool(g.size(1, 4));
  const auto twice = [](const double &x) { return 2. * x; };
  const auto doubled = albatross::apply(xs, twice, pool.get());
  VF_CHECK("applied", doubled == albatross::apply(xs, twice), text(doubled));
  std::vector<double> seen(n, -1.);
  std::vector<std::size_t> places(n);
  for (std::size_t i = 0; i < n; ++i)
    places[i] = i;
  albatross::apply(
      places, [&](const std::size_t &i) { seen[i] = xs[i]; }, pool.get());
  VF_CHECK("applied_in_place", seen == xs, text(seen));
  std::map<std::string, double> named;
  for (std::size_t i = 0; i < n; ++i)
    named["k" + std::to_string(i)] = xs[i];
  text(albatross::apply(named, twice, pool.get()));
  // objects (with storage of their own) returned by the workers
  const auto vectors = albatross::apply(
      xs, [](const double &x) { return std::vector<double>(3, x); },
      pool.get());
  text(vectors);
  const auto strings = albatross::apply(
      vectors,
      [](const std::vector<double> &v) {
        return std::string(40, v[0] > 0 ? '+' : '-');
      },
      pool.get());
  text(strings);
  // what a worker throws belongs to the caller
  if (n > 0) {
    std::string caught;
    const std::size_t bad = g.size(0, n - 1);
    try {
      albatross::apply(
          places,
          [&](const std::size_t &i) {
            if (i == bad)
              throw std::runtime_error(std::string(60, 'x'));
            return i;
          },
          pool.get());
    } catch (const std::exception &e) {
      caught = e.what();
    }
    VF_CHECK("exception_reaches_the_caller", caught == std::string(60, 'x'),
             caught);
  }
  // a model which outlives the caller's handle on the pool
  auto model = small_model();
  model.set_thread_pool(pool);
  pool.reset();
  const auto data = few(g, g.size(1, 6));
  const auto fit = model.fit(data);
  const auto requested = few(g, small_size(g)).features;
  text(fit.predict(requested));
  VF_CHECK("same_with_threads",
           text(fit.predict(requested)) ==
               text(small_model().fit(data).predict(requested)),
           "");
  const std::string out = captured.stop();
  VF_CHECK("nothing_on_standard_output", out.empty(), out.substr(0, 100));
  c.count("threads");
  c.reached();
}

VF_SECTION("cross_validation_and_scores", 60, 900) {
  auto &g = c.rng;
  Captured captured;
  const std::size_t n = g.size(2, 8);
  const auto data = few(g, n);
  c.desc << "n=" << n << " " << vf::hash_str(text(data));
  const auto model = small_model();
  const auto look = [&](const auto &p) {
    Text t;
    put(t, p.mean());
    put(t, p.marginal());
    put(t, p.means());
    put(t, p.marginals());
    put(t, p.joints());
    return t.os.str();
  };
  const auto all_of_it = [&](const auto &grouper) {
    const auto cv = [&]() {
      // nothing of it is left when the predictions are read
      auto own = std::make_unique<RegressionDataset<double>>(data);
      auto its_model = std::make_unique<std::decay_t<decltype(model)>>(model);
      return its_model->cross_validate().predict(*own, grouper);
    }();
    const std::string found = look(cv);
    VF_CHECK("kept_what_it_needs",
             found == look(model.cross_validate().predict(data, grouper)),
             found.substr(0, 200));
    text(model.cross_validate().scores(RootMeanSquareError(), data, grouper));
    text(model.cross_validate().scores(
        NegativeLogLikelihood<JointDistribution>(), data, grouper));
    const auto grouped = data.group_by(grouper).groups();
    for (const auto &pair : grouped)
      text(pair.second);
  };
  if (g.coin())
    all_of_it(LeaveOneOutGrouper());
  else
    all_of_it(KFoldGrouper(g.size(2, 4)));
  const auto by_parity = data.group_by(Parity()).indexers();
  if (by_parity.size() > 1)
    all_of_it(Parity());
  // scores of everything
  const Eigen::VectorXd truth = data.targets.mean;
  const Eigen::MatrixXd psd = some_psd(g, n);
  const JointDistribution joint(0.5 * truth, psd);
  text(score::energy_score(joint, truth, nullptr, 3,
                           static_cast<Eigen::Index>(g.size(2, 40))));
  text(score::energy_score(joint, data.targets));
  for (auto order : {score::VariogramScoreOrder::cVariogram,
                     score::VariogramScoreOrder::cMadogram}) {
    text(score::variogram_score(joint, truth, nullptr, order));
    Eigen::MatrixXd weights = some_matrix(g, psd.rows(), psd.cols());
    weights = weights.cwiseAbs();
    text(score::variogram_score(joint, data.targets, &weights, order));
  }
  text(distance::wasserstein_2(joint, JointDistribution(truth, psd)));
  const std::string out = captured.stop();
  VF_CHECK("nothing_on_standard_output", out.empty(), out.substr(0, 100));
  c.count("cross_validated");
  c.reached();
}

} // namespace
