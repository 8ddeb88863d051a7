// C12: everything which takes a thread pool gives what it gives without one.
#include "c12_util.h"

namespace c12_types {
using namespace albatross;

// Counts the evaluations of every pair of features (by their ids).
struct Site {
  double x = 0.;
  std::size_t id = 0;
  bool operator==(const Site &o) const { return x == o.x && id == o.id; }
};

struct PairLog {
  std::vector<std::atomic<int>> calls;
  std::size_t n, m;
  PairLog(std::size_t n_, std::size_t m_) : calls(n_ * m_), n(n_), m(m_) {
    for (auto &a : calls)
      a = 0;
  }
};

class LoggedKernel : public CovarianceFunction<LoggedKernel> {
public:
  ALBATROSS_DECLARE_PARAMS(logged_sigma);
  LoggedKernel() { logged_sigma = {1.5, PositivePrior()}; }
  std::string name() const { return "logged"; }
  PairLog *log = nullptr;
  std::size_t fail_at = 1000000;
  std::uint64_t work = 0;
  double _call_impl(const Site &a, const Site &b) const {
    if (log != nullptr && a.id < log->n && b.id < log->m) {
      log->calls[a.id * log->m + b.id]++;
    }
    if (a.id == fail_at || b.id == fail_at) {
      throw std::out_of_range("bad site");
    }
    if (work > 0) {
      std::this_thread::sleep_for(std::chrono::microseconds(work));
    }
    const double d = a.x - b.x;
    return logged_sigma.value * logged_sigma.value * std::exp(-0.1 * d * d);
  }
};

struct ByTen {
  long operator()(const double &x) const {
    return static_cast<long>(std::floor(x / 10.));
  }
};

} // namespace c12_types

namespace {
using namespace vfpool;
using namespace c12_types;

std::vector<Site> sites(vf::Rng &g, std::size_t n) {
  std::vector<Site> out;
  for (std::size_t i = 0; i < n; ++i) {
    out.push_back(Site{g.uniform(-20., 20.), i});
  }
  return out;
}

VF_SECTION("covariance_matrices", 250, 6000) {
  auto &g = c.rng;
  Pool pool(c);
  const std::size_t n = g.coin(0.2) ? g.size(0, 2) : g.extent(1, 45, 300);
  const std::size_t m = g.coin(0.2) ? g.size(0, 2) : g.extent(1, 45, 300);
  c.desc << "n=" << n << " m=" << m << " ";
  LoggedKernel k;
  const auto xs = sites(g, n), ys = sites(g, m);
  {
    PairLog log(n, n);
    k.log = &log;
    k.work = g.coin(0.1) ? 2 : 0;
    const Eigen::MatrixXd actual = k(xs, pool.get());
    k.log = nullptr;
    k.work = 0;
    for (std::size_t i = 0; i < n; ++i) {
      for (std::size_t j = 0; j <= i; ++j) {
        const int calls = log.calls[i * n + j] + log.calls[j * n + i] *
                                                     (i == j ? 0 : 1);
        VF_CHECK("pair_evaluated_once", calls == 1,
                 i << "," << j << " " << calls);
      }
    }
    const Eigen::MatrixXd serial = k(xs);
    VF_CHECK("symmetric_size",
             actual.rows() == Eigen::Index(n) && actual.cols() == actual.rows(),
             actual.rows());
    VF_CHECK("symmetric_result", max_difference(actual, serial) < 1e-14,
             max_difference(actual, serial));
    if (n > 0) {
      VF_CHECK("symmetric", actual == actual.transpose(), "");
    }
  }
  {
    PairLog log(n, m);
    k.log = &log;
    const Eigen::MatrixXd actual = k(xs, ys, pool.get());
    k.log = nullptr;
    for (auto &a : log.calls) {
      VF_CHECK("cross_pair_evaluated_once", a == 1, a);
    }
    VF_CHECK("cross_size",
             actual.rows() == Eigen::Index(n) &&
                 actual.cols() == Eigen::Index(m),
             actual.rows() << "x" << actual.cols());
    VF_CHECK("cross_result", max_difference(actual, k(xs, ys)) < 1e-14,
             max_difference(actual, k(xs, ys)));
  }
  {
    // compositions, measurements, sums of other types
    std::vector<double> us, vs;
    for (std::size_t i = 0; i < n; ++i)
      us.push_back(xs[i].x);
    for (std::size_t i = 0; i < m; ++i)
      vs.push_back(ys[i].x);
    const auto sum =
        SquaredExponential<EuclideanDistance>(5., 1.) *
            Polynomial<2>(0.5) +
        measurement_only(IndependentNoise<double>(0.3)) +
        Matern32<EuclideanDistance>(2., 0.4);
    const auto mu = as_measurements(us);
    const double scale = 1. + sum(us).cwiseAbs().sum();
    VF_CHECK("sum_result",
             max_difference(sum(us, pool.get()), sum(us)) < 1e-12 * scale, n);
    VF_CHECK("measurement_result",
             max_difference(sum(mu, pool.get()), sum(mu)) < 1e-12 * scale, n);
    const double cross_scale = 1. + sum(us, vs).cwiseAbs().sum();
    VF_CHECK("sum_cross",
             max_difference(sum(us, vs, pool.get()), sum(us, vs)) <
                 1e-12 * cross_scale,
             n);
    VF_CHECK("measurement_cross",
             max_difference(sum(mu, vs, pool.get()), sum(mu, vs)) <
                 1e-12 * cross_scale,
             n);
  }
  if (n > 0 && pool.workers() > 1) {
    // One bad pair.
    k.fail_at = g.size(0, n - 1);
    bool caught = false;
    try {
      g.coin() ? k(xs, pool.get()) : k(xs, xs, pool.get());
    } catch (const std::out_of_range &) {
      caught = true;
    }
    VF_CHECK("failing_pair_reaches_the_caller", caught, n);
    k.fail_at = 1000000;
    c.count("failing_pairs");
  }
  pool.done();
  c.count("covariance_matrices");
  c.reached();
}

Eigen::MatrixXd random_spd(vf::Rng &g, Eigen::Index n) {
  Eigen::MatrixXd a(n, n);
  for (Eigen::Index i = 0; i < a.size(); ++i)
    a.data()[i] = g.normal();
  Eigen::MatrixXd out = a * a.transpose();
  out.diagonal().array() += 1. + static_cast<double>(n);
  return out;
}

Eigen::MatrixXd random_matrix(vf::Rng &g, Eigen::Index n, Eigen::Index m) {
  Eigen::MatrixXd a(n, m);
  for (Eigen::Index i = 0; i < a.size(); ++i)
    a.data()[i] = g.normal();
  return a;
}

VF_SECTION("linear_algebra", 150, 3000) {
  auto &g = c.rng;
  Pool pool(c);
  const std::size_t k = g.size(1, 14);
  c.desc << "blocks=" << k << " ";
  BlockDiagonal diagonal;
  Eigen::Index n = 0;
  for (std::size_t i = 0; i < k; ++i) {
    const Eigen::Index s = g.integer(1, 7);
    diagonal.blocks.push_back(random_spd(g, s));
    n += s;
  }
  const auto ldlt = diagonal.ldlt();
  const Eigen::Index cols = g.integer(1, 4);
  const Eigen::MatrixXd rhs = random_matrix(g, n, cols);
  const Eigen::VectorXd v = random_matrix(g, n, 1);
  VF_CHECK("block_solve",
           max_difference(ldlt.solve(rhs, pool.get()), ldlt.solve(rhs)) < 1e-12,
           n);
  VF_CHECK("block_sqrt_solve",
           max_difference(ldlt.sqrt_solve(rhs, pool.get()),
                          ldlt.sqrt_solve(rhs)) < 1e-12,
           n);
  VF_CHECK("block_solve_vector",
           max_difference(ldlt.solve(v, pool.get()), ldlt.solve(v)) < 1e-12, n);
  VF_CHECK("block_sqrt_solve_vector",
           max_difference(ldlt.sqrt_solve(v, pool.get()),
                          ldlt.sqrt_solve(v)) < 1e-12,
           n);
  const Eigen::MatrixXd back = diagonal.toDense() * ldlt.solve(rhs, pool.get());
  VF_CHECK("block_solution_solves", max_difference(back, rhs) < 1e-8, n);

  // blocks of an inverse
  const Eigen::Index size = g.integer(1, 25);
  const Eigen::SerializableLDLT full(random_spd(g, size));
  std::vector<std::vector<std::size_t>> blocks;
  std::vector<std::size_t> inds(static_cast<std::size_t>(size));
  std::iota(inds.begin(), inds.end(), 0);
  for (std::size_t i = 0, e = g.size(1, 9); i < e; ++i) {
    blocks.push_back(
        g.choose(static_cast<std::size_t>(size),
                 g.size(1, static_cast<std::size_t>(size))));
  }
  const auto threaded = full.inverse_blocks(blocks, pool.get());
  const auto serial = full.inverse_blocks(blocks);
  VF_REQUIRE("inverse_blocks_size", threaded.size() == blocks.size(),
             threaded.size());
  for (std::size_t i = 0; i < blocks.size(); ++i) {
    VF_CHECK("inverse_blocks", max_difference(threaded[i], serial[i]) < 1e-12,
             i);
  }
  pool.done();
  c.count("linear_algebra");
  c.reached();
}

template <typename A, typename B>
void same_maps(vf::Case &c, const char *key, const A &a, const B &b) {
  VF_REQUIRE(key, a.size() == b.size(), a.size() << " " << b.size());
  auto it = b.begin();
  for (const auto &p : a) {
    VF_CHECK(key, p.first == it->first, "keys");
    const auto dist = [](const auto &x, const auto &y) {
      using T = std::decay_t<decltype(x)>;
      if constexpr (std::is_same<T, Eigen::VectorXd>::value) {
        return max_difference(x, y);
      } else {
        const double m = max_difference(x.mean, y.mean);
        if constexpr (std::is_same<T, JointDistribution>::value) {
          return std::max(m, max_difference(x.covariance, y.covariance));
        } else {
          return std::max(m, max_difference(x.covariance.diagonal(),
                                            y.covariance.diagonal()));
        }
      }
    };
    VF_CHECK(key, dist(p.second, it->second) < 1e-9, dist(p.second, it->second));
    ++it;
  }
}

VF_SECTION("leave_group_out", 100, 2000) {
  auto &g = c.rng;
  Pool pool(c);
  const std::size_t n = g.size(2, 30);
  const Eigen::Index en = static_cast<Eigen::Index>(n);
  const int k = static_cast<int>(g.integer(2, 9));
  std::vector<std::size_t> inds(n);
  std::iota(inds.begin(), inds.end(), 0);
  g.shuffle(inds);
  const auto indexer =
      group_by(inds, [&](const std::size_t &i) { return int(i) % k; })
          .indexers();
  c.desc << "n=" << n << " groups=" << indexer.size() << " ";
  const JointDistribution prior(random_matrix(g, en, 1), random_spd(g, en));
  const Eigen::VectorXd var = random_matrix(g, en, 1).cwiseAbs();
  const MarginalDistribution truth(random_matrix(g, en, 1), var);
  same_maps(c, "held_out_means",
            leave_one_group_out_conditional_means(prior, truth, indexer,
                                                  pool.get()),
            leave_one_group_out_conditional_means(prior, truth, indexer));
  same_maps(c, "held_out_marginals",
            leave_one_group_out_conditional_marginals(prior, truth, indexer,
                                                      pool.get()),
            leave_one_group_out_conditional_marginals(prior, truth, indexer));
  same_maps(c, "held_out_joints",
            leave_one_group_out_conditional_joints(prior, truth, indexer,
                                                   pool.get()),
            leave_one_group_out_conditional_joints(prior, truth, indexer));
  pool.done();
  c.count("leave_group_out");
  c.reached();
}

RegressionDataset<double> line(vf::Rng &g, std::size_t n) {
  std::vector<double> xs;
  Eigen::VectorXd ys(static_cast<Eigen::Index>(n)), var(ys.size());
  for (std::size_t i = 0; i < n; ++i) {
    xs.push_back(1.7 * static_cast<double>(i) + g.uniform(0., 1.));
    ys[static_cast<Eigen::Index>(i)] = 0.2 * xs.back() + g.normal();
    var[static_cast<Eigen::Index>(i)] = g.uniform(0.01, 0.3);
  }
  return RegressionDataset<double>(xs, MarginalDistribution(ys, var));
}

template <typename P>
void same_prediction(vf::Case &c, const char *key, const P &a, const P &b,
                     double tol = 1e-8) {
  const auto ja = a.joint(), jb = b.joint();
  VF_CHECK(key, max_difference(ja.mean, jb.mean) < tol,
           max_difference(ja.mean, jb.mean));
  VF_CHECK(key, max_difference(ja.covariance, jb.covariance) < tol,
           max_difference(ja.covariance, jb.covariance));
  VF_CHECK(key, max_difference(a.mean(), b.mean()) < tol, "mean");
  const auto ma = a.marginal(), mb = b.marginal();
  VF_CHECK(key,
           max_difference(ma.covariance.diagonal(), mb.covariance.diagonal()) <
               tol,
           "marginal");
}

VF_SECTION("gaussian_process", 60, 1000) {
  auto &g = c.rng;
  Pool pool(c);
  const std::size_t n = g.size(2, 24);
  const auto data = line(g, n);
  c.desc << "n=" << n << " ";
  const auto cov = SquaredExponential<EuclideanDistance>(4., 2.) +
                   IndependentNoise<double>(0.5) + Constant(1.);
  const auto model = gp_from_covariance_and_mean(cov, LinearMean());
  auto threaded = model;
  threaded.set_thread_pool(pool.pool);
  std::vector<double> xs;
  for (std::size_t i = 0, e = g.size(1, 12); i < e; ++i) {
    xs.push_back(g.uniform(-3., 2. * double(n)));
  }
  const auto fit = model.fit(data);
  const auto threaded_fit = threaded.fit(data);
  same_prediction(c, "gp_prediction", threaded_fit.predict(xs),
                  fit.predict(xs));
  VF_CLOSE("gp_log_likelihood", threaded.log_likelihood(data),
           model.log_likelihood(data), 1e-9, 1e-9);
  const auto extra = line(g, 3);
  same_prediction(c, "gp_update",
                  update(threaded_fit, extra).predict(xs),
                  update(fit, extra).predict(xs));
  // cross validation
  const LeaveOneOutGrouper loo;
  const auto by = [](const double &x) {
    return static_cast<int>(std::floor(x / 6.));
  };
  const auto a = threaded.cross_validate().predict(data, by);
  const auto b = model.cross_validate().predict(data, by);
  same_maps(c, "gp_cross_validated_joints", a.joints(), b.joints());
  same_maps(c, "gp_cross_validated_means", a.means(), b.means());
  same_maps(c, "gp_cross_validated_marginals", a.marginals(), b.marginals());
  VF_CHECK("gp_cross_validated_mean",
           max_difference(threaded.cross_validate().predict(data, loo).mean(),
                          model.cross_validate().predict(data, loo).mean()) <
               1e-8,
           n);
  // Many workers predict with the same fit.
  const auto each = albatross::apply(
      xs,
      [&](const double &x) {
        return std::make_pair(fit.predict(std::vector<double>{x}).marginal(),
                              double(threaded_fit.predict(
                                  std::vector<double>{x}).mean()[0]));
      },
      std::make_shared<ThreadPool>(4).get());
  const auto all = fit.predict(xs).marginal();
  for (std::size_t i = 0; i < xs.size(); ++i) {
    const auto ei = static_cast<Eigen::Index>(i);
    VF_CLOSE("shared_fit_mean", each[i].first.mean[0], all.mean[ei], 1e-8, 1e-8);
    VF_CLOSE("shared_fit_second_mean", each[i].second, all.mean[ei], 1e-8,
             1e-8);
  }
  // Many workers fit and score the groups with the same model.
  auto scores_pool = std::make_shared<ThreadPool>(3);
  const auto fits = data.group_by(by).apply(
      [&](const RegressionDataset<double> &d) {
        return model.fit(d).predict(xs).mean();
      },
      scores_pool.get());
  for (const auto &p : data.group_by(by).groups()) {
    VF_CHECK("shared_model_fit",
             max_difference(fits.at(p.first),
                            model.fit(p.second).predict(xs).mean()) < 1e-8,
             p.first);
  }
  pool.done();
  c.count("gaussian_process");
  c.reached();
}

template <typename QRImpl>
void sparse_case(vf::Case &c, double tol) {
  auto &g = c.rng;
  Pool pool(c);
  const std::size_t n = g.size(8, 26);
  const auto data = line(g, n);
  c.desc << "n=" << n << " ";
  const auto cov = SquaredExponential<EuclideanDistance>(6., 2.) +
                   measurement_only(IndependentNoise<double>(0.5));
  const auto model = sparse_gp_from_covariance_and_mean(
      cov, LinearMean(), ByTen(), UniformlySpacedInducingPoints(g.size(3, 6)),
      "sparse", QRImpl());
  auto threaded = model;
  threaded.set_thread_pool(pool.pool);
  std::vector<double> xs;
  for (std::size_t i = 0, e = g.size(1, 8); i < e; ++i) {
    xs.push_back(g.uniform(0., 1.7 * double(n)));
  }
  const auto fit = model.fit(data);
  const auto threaded_fit = threaded.fit(data);
  same_prediction(c, "sparse_prediction", threaded_fit.predict(xs),
                  fit.predict(xs), tol);
  VF_CLOSE("sparse_log_likelihood", threaded.log_likelihood(data),
           model.log_likelihood(data), 1e-7, 1e-7);
  const auto extra = line(g, 4);
  same_prediction(c, "sparse_update", update(threaded_fit, extra).predict(xs),
                  update(fit, extra).predict(xs), tol);
  const std::vector<double> points = {-1., 7., 15., 23., 31.};
  same_prediction(c, "sparse_rebase",
                  rebase_inducing_points(threaded_fit, points).predict(xs),
                  rebase_inducing_points(fit, points).predict(xs), 10. * tol);
  pool.done();
  c.count("sparse_gaussian_process");
  c.reached();
}

VF_SECTION("sparse_gaussian_process", 40, 600) {
  sparse_case<DenseQRImplementation>(c, 1e-5);
}

#ifndef VERIF_TSAN
VF_SECTION("sparse_gaussian_process_spqr", 20, 300) {
  sparse_case<SPQRImplementation>(c, 1e-5);
}
#endif

VF_SECTION("tuning", 60, 1000) {
  auto &g = c.rng;
  Pool pool(c);
  const std::size_t dims = g.size(1, 5);
  ParameterStore params;
  std::vector<double> center;
  for (std::size_t i = 0; i < dims; ++i) {
    center.push_back(g.uniform(-2., 2.));
    params["p" + std::to_string(i)] =
        Parameter(g.uniform(-3., 3.),
                  g.coin(0.3) ? PriorContainer(UninformativePrior())
                              : PriorContainer(UniformPrior(-4., 4.)));
  }
  std::atomic<std::size_t> evaluations{0};
  const std::uint64_t work = g.pick(std::vector<std::uint64_t>{0, 0, 20});
  const auto f = [&](const ParameterStore &p) {
    evaluations++;
    pause(work);
    double s = 0.;
    std::size_t i = 0;
    for (const auto &x : p) {
      s += std::pow(x.second.value - center[i++], 2.) *
           (1. + static_cast<double>(i));
    }
    return s;
  };
  const auto a = compute_gradient(f, params, f(params), pool.get());
  const std::size_t used = evaluations;
  const auto b = compute_gradient(f, params, f(params));
  VF_CHECK("gradient", a == b, dims);
  VF_CHECK("gradient_evaluations", evaluations - used == used,
           used << " " << evaluations);
  std::vector<double> x;
  for (const auto &p : params) {
    x.push_back(p.second.value);
  }
  const auto h = [&](const std::vector<double> &v) {
    double s = 0.;
    for (std::size_t i = 0; i < v.size(); ++i) {
      s += std::cos(v[i]) * center[i];
    }
    return s;
  };
  VF_CHECK("vector_gradient",
           compute_gradient(h, x, h(x), pool.get()) ==
               compute_gradient(h, x, h(x)),
           dims);
  bool bounded = true;
  for (const auto &p : params) {
    bounded = bounded && std::isfinite(p.second.prior.upper_bound());
  }
  if (bounded) {
    const std::size_t queries = g.size(1, 4), iterations = g.size(1, 3);
    const auto t =
        greedy_tune(f, params, queries, iterations, pool.get(), nullptr);
    const auto s = greedy_tune(f, params, queries, iterations, nullptr, nullptr);
    VF_CHECK("greedy", t == s, dims);
    c.count("greedy");
  }
  // an objective which is a model
  const auto data = line(g, g.size(4, 10));
  const auto model = gp_from_covariance(
      SquaredExponential<EuclideanDistance>(4., 2.) +
      IndependentNoise<double>(0.5));
  const auto ll = [&](const ParameterStore &p) {
    auto m = model;
    m.set_params(p);
    return -m.log_likelihood(data);
  };
  const auto mp = model.get_params();
  const auto ga = compute_gradient(ll, mp, ll(mp), pool.get());
  VF_CHECK("model_gradient", ga == compute_gradient(ll, mp, ll(mp)), "");
  pool.done();
  c.count("tuning");
  c.reached();
}

} // namespace
