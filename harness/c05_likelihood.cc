// C05: likelihoods and tuning objectives are true Gaussian log densities.
#define VFGP_UNITS
#include "vf.h"

#include <albatross/GP>
#include <albatross/LeastSquares>
#include <albatross/NullModel>
#include <albatross/Tune>

#include "gp_oracle.h"

using namespace vfgp;

namespace {

const LD LOG_2PI = logl(2.L * acosl(-1.L));

// -log N(d; 0, S)
LD nll_oracle(const LV &d, const LM &S) {
  const LV x = solve(S, d);
  LD q = 0.L;
  for (std::size_t i = 0; i < d.size(); ++i)
    q += d[i] * x[i];
  return 0.5L * (q + log_det(S) + static_cast<LD>(d.size()) * LOG_2PI);
}

LD nll_oracle(LD d, LD v) { return 0.5L * (d * d / v + logl(v) + LOG_2PI); }

Eigen::MatrixXd random_spd(vf::Rng &g, Eigen::Index n, double scale) {
  Eigen::MatrixXd a(n, n);
  for (Eigen::Index i = 0; i < n; ++i)
    for (Eigen::Index j = 0; j < n; ++j)
      a(i, j) = g.normal();
  Eigen::MatrixXd s = a * a.transpose();
  s.diagonal().array() += g.log_uniform(0.05, 2.) * static_cast<double>(n);
  // entries of very different size
  Eigen::VectorXd d(n);
  const double range = g.coin(0.3) ? 1e7 : 10.;
  for (Eigen::Index i = 0; i < n; ++i)
    d[i] = scale * g.log_uniform(1. / range, range);
  Eigen::MatrixXd r = d.asDiagonal() * s * d.asDiagonal();
  return 0.5 * (r + r.transpose());
}

Eigen::VectorXd random_vector(vf::Rng &g, Eigen::Index n, double scale) {
  Eigen::VectorXd v(n);
  for (Eigen::Index i = 0; i < n; ++i)
    v[i] = scale * g.normal();
  return v;
}

// each entry in the units of its variance
Eigen::VectorXd random_deviation(vf::Rng &g, const Eigen::MatrixXd &S, double scale) {
  return random_vector(g, S.rows(), scale).cwiseProduct(S.diagonal().cwiseSqrt());
}

double ntol(LD expected) {
  return 1e-8 * (1. + static_cast<double>(fabsl(expected)));
}

} // namespace

VF_SECTION("densities", 400, 20000) {
  vf::Rng &g = c.rng;
  // also so many dimensions that the determinant leaves the range of a double
  const bool many = g.coin(0.08);
  const Eigen::Index n = g.coin(0.2) ? 1 : many ? g.integer(40, 110) : g.integer(2, 14);
  const double scale = many || g.coin(0.2) ? g.log_uniform(1e-12, 1e12) : g.log_uniform(1e-5, 1e5);
  c.count(n >= 40 ? "many_dimensions" : "few_dimensions");
  const Eigen::MatrixXd S = random_spd(g, n, scale);
  const Eigen::VectorXd d =
      random_deviation(g, S, g.log_uniform(1e-2, 10.));
  c.desc << "n=" << n << " scale=" << scale;
  c.reached();
  c.count("densities", 1);

  const LD full = nll_oracle(from_eigen_vector(d), from_eigen(S));
  VF_CLOSE("full", albatross::negative_log_likelihood(d, S),
           static_cast<double>(full), 0., ntol(full));
  VF_CLOSE("full_ldlt",
           albatross::negative_log_likelihood(
               d, Eigen::LDLT<Eigen::MatrixXd>(S)),
           static_cast<double>(full), 0., ntol(full));
  VF_CLOSE("full_ldlt_upper",
           albatross::negative_log_likelihood(
               d, Eigen::LDLT<Eigen::MatrixXd, Eigen::Upper>(S)),
           static_cast<double>(full), 0., ntol(full));
  VF_CLOSE("full_serializable_ldlt",
           albatross::negative_log_likelihood(d, Eigen::SerializableLDLT(S)),
           static_cast<double>(full), 0., ntol(full));

  // independent entries, in each of the three forms
  const Eigen::VectorXd v = S.diagonal();
  LD diag = 0.L, product = 0.L;
  for (Eigen::Index i = 0; i < n; ++i) {
    const LD one = nll_oracle(d[i], v[i]);
    diag += one;
    VF_CLOSE("scalar", albatross::negative_log_likelihood(d[i], v[i]),
             static_cast<double>(one), 0., ntol(one));
    VF_CLOSE("log_pdf", albatross::gaussian::log_pdf(d[i], v[i]),
             static_cast<double>(-one), 0., ntol(one));
    if (one < 600.L) {
      VF_CLOSE("pdf", albatross::gaussian::pdf(d[i], v[i]),
               static_cast<double>(expl(-one)), 1e-10, 0.);
    }
    product += one;
  }
  const Eigen::DiagonalMatrix<double, Eigen::Dynamic> D = v.asDiagonal();
  const Eigen::MatrixXd dense = D;
  VF_CLOSE("diagonal", albatross::negative_log_likelihood(d, D),
           static_cast<double>(diag), 0., ntol(diag));
  VF_CLOSE("diagonal_wrapper",
           albatross::negative_log_likelihood(
               d, Eigen::DiagonalMatrix<double, Eigen::Dynamic>(v)),
           static_cast<double>(diag), 0., ntol(diag));
  VF_CLOSE("diagonal_as_dense", albatross::negative_log_likelihood(d, dense),
           static_cast<double>(diag), 0., ntol(diag));
  if (n == 3) {
    const Eigen::DiagonalMatrix<double, 3> D3(v[0], v[1], v[2]);
    VF_CLOSE("diagonal_fixed_size", albatross::negative_log_likelihood(d, D3),
             static_cast<double>(diag), 0., ntol(diag));
    c.count("fixed_size", 1);
  }

  // entropy: E[-log p]
  const LD entropy = 0.5L * (static_cast<LD>(n) * (1.L + LOG_2PI) +
                             log_det(from_eigen(S)));
  VF_CLOSE("entropy", albatross::differential_entropy(S),
           static_cast<double>(entropy), 0., ntol(entropy));
  VF_CLOSE("entropy_ldlt",
           albatross::differential_entropy(Eigen::LDLT<Eigen::MatrixXd>(S)),
           static_cast<double>(entropy), 0., ntol(entropy));
  VF_CLOSE("log_determinant",
           albatross::log_determinant_of_symmetric(
               Eigen::LDLT<Eigen::MatrixXd>(S)),
           static_cast<double>(log_det(from_eigen(S))), 0., ntol(entropy));
  LD sum = 0.L;
  for (Eigen::Index i = 0; i < n; ++i)
    sum += logl(v[i]);
  VF_CLOSE("log_sum", albatross::log_sum(v), static_cast<double>(sum), 0.,
           ntol(sum));
}

// the likelihood of measured truth under a predicted distribution
VF_SECTION("metrics", 400, 20000) {
  vf::Rng &g = c.rng;
  const bool many = g.coin(0.05);
  const Eigen::Index n = g.coin(0.2) ? 1 : many ? g.integer(40, 90) : g.integer(2, 12);
  const double scale = many || g.coin(0.2) ? g.log_uniform(1e-12, 1e12) : g.log_uniform(1e-3, 1e3);
  const Eigen::MatrixXd S = random_spd(g, n, scale);
  const Eigen::VectorXd mean = random_deviation(g, S, 30.);
  const bool exact = g.coin(0.25);
  Eigen::VectorXd tv = Eigen::VectorXd::Zero(n);
  if (!exact) {
    for (Eigen::Index i = 0; i < n; ++i)
      tv[i] = g.coin(0.2) ? 0. : S(i, i) * g.log_uniform(1e-3, 3.);
  }
  const Eigen::VectorXd tm = mean + random_deviation(g, S, 1.);
  const albatross::MarginalDistribution truth =
      exact ? albatross::MarginalDistribution(tm)
            : albatross::MarginalDistribution(tm, tv);
  const albatross::JointDistribution joint(mean, S);
  const albatross::MarginalDistribution marginal = joint.marginal();
  c.desc << "n=" << n << " exact=" << exact;
  c.reached();
  c.count("metrics", 1);

  LM A = from_eigen(S);
  LV d;
  LD independent = 0.L;
  for (Eigen::Index i = 0; i < n; ++i) {
    A(static_cast<std::size_t>(i), static_cast<std::size_t>(i)) += tv[i];
    d.push_back(static_cast<LD>(mean[i]) - tm[i]);
    independent += nll_oracle(d.back(), static_cast<LD>(S(i, i)) + tv[i]);
  }
  const LD full = nll_oracle(d, A);
  albatross::NegativeLogLikelihood<albatross::JointDistribution> jm;
  albatross::NegativeLogLikelihood<albatross::MarginalDistribution> mm;
  VF_CLOSE("joint", jm(joint, truth), static_cast<double>(full), 0.,
           ntol(full));
  VF_CLOSE("marginal", mm(marginal, truth), static_cast<double>(independent),
           0., ntol(independent));
  VF_CLOSE("joint_function", albatross::negative_log_likelihood(joint, truth),
           static_cast<double>(full), 0., ntol(full));
  VF_CLOSE("marginal_function",
           albatross::negative_log_likelihood(marginal, truth),
           static_cast<double>(independent), 0., ntol(independent));
  // a joint distribution without correlation is its marginal
  const albatross::JointDistribution uncorrelated(
      mean, Eigen::MatrixXd(S.diagonal().asDiagonal()));
  VF_CLOSE("uncorrelated_joint", jm(uncorrelated, truth),
           static_cast<double>(independent), 0., ntol(independent));

  // the entries may come in any order
  std::vector<std::size_t> order;
  for (std::size_t i = 0; i < static_cast<std::size_t>(n); ++i)
    order.push_back(i);
  g.shuffle(order);
  VF_CLOSE("order",
           jm(albatross::subset(joint, order), albatross::subset(truth, order)),
           static_cast<double>(full), 0., ntol(full));
}

namespace {

// Gives some of the parameters of a model a prior and returns the log density
// of their values.
template <typename Model> LD add_priors(vf::Rng &g, Model *model) {
  // parameters come with priors of their own: all are replaced
  LD expected = 0.L;
  for (const auto &pair : model->get_params()) {
    const double value = pair.second.value;
    switch (g.integer(0, value > 0. ? 4 : 2)) {
    case 0:
      model->set_prior(pair.first, albatross::UninformativePrior());
      break;
    case 1: {
      const double mu = value + g.normal(), sigma = g.log_uniform(0.1, 10.);
      model->set_prior(pair.first, albatross::GaussianPrior(mu, sigma));
      expected -= nll_oracle(static_cast<LD>(value) - mu,
                             static_cast<LD>(sigma) * sigma);
      break;
    }
    case 2: {
      const double lo = value - g.log_uniform(0.1, 10.),
                   hi = value + g.log_uniform(0.1, 10.);
      model->set_prior(pair.first, albatross::UniformPrior(lo, hi));
      expected -= logl(static_cast<LD>(hi) - lo);
      break;
    }
    case 3: {
      const double mu = std::log(value) + 0.3 * g.normal(),
                   sigma = g.log_uniform(0.1, 3.);
      model->set_prior(pair.first, albatross::LogNormalPrior(mu, sigma));
      expected -= nll_oracle(logl(value) - mu, static_cast<LD>(sigma) * sigma) +
                  logl(value);
      break;
    }
    default:
      model->set_prior(pair.first, albatross::PositivePrior());
    }
  }
  return expected;
}

} // namespace

namespace {
bool well_conditioned(const LM &A) {
  LM L;
  if (!cholesky(A, &L))
    return false;
  for (std::size_t i = 0; i < A.r; ++i)
    if (L(i, i) < 3e-3L * sqrtl(A(i, i)))
      return false;
  return true;
}
} // namespace

VF_SECTION("gp_likelihood", 160, 6000) {
  vf::Rng &g = c.rng;
  const std::size_t which = g.size(0, 3);
  const std::size_t n = g.coin(0.1) ? 1 : g.coin(0.04) ? g.size(50, 90) : g.size(2, 14);
  with_setup(c, which, [&](auto setup) {
    auto data = make_data(g, setup.o, n);
    const bool exact = which != 1 && g.coin(0.2); // no reported error
    if (exact)
      data.var.assign(n, 0.);
    auto model = setup.gp();
    LD prior = add_priors(g, &model);
    c.desc << setup.o.name << " n=" << n << " exact=" << exact;

    LM A = setup.o.K(data.x, true, data.x, true);
    LV d;
    for (std::size_t i = 0; i < n; ++i) {
      A(i, i) += data.var[i];
      d.push_back(static_cast<LD>(data.y[i]) - setup.o.m(data.x[i]));
    }
    if (!well_conditioned(A))
      return; // (nearly) the same exact feature twice
    c.reached();
    c.count("gp_likelihoods", 1);
    c.count(exact ? "exact_targets" : "noisy_targets", 1);
    const LD expected = -nll_oracle(d, A) + prior;
    VF_CLOSE("prior_log_likelihood", model.prior_log_likelihood(),
             static_cast<double>(prior), 0., ntol(prior));
    const auto dataset = data.dataset();
    const double ll = model.log_likelihood(dataset);
    VF_CLOSE("log_likelihood", ll, static_cast<double>(expected), 0.,
             1e-7 * (1. + static_cast<double>(fabsl(expected))));
    albatross::GaussianProcessNegativeLogLikelihood metric;
    VF_CHECK("metric", metric(dataset, model) == -ll,
             metric(dataset, model) << " " << ll);

    // the prior distribution the model reports is the one it uses
    albatross::JointDistribution prior_dist = model.prior(data.x);
    VF_CLOSE("from_prior",
             albatross::negative_log_likelihood(prior_dist, dataset.targets),
             static_cast<double>(prior - expected), 0.,
             1e-7 * (1. + static_cast<double>(fabsl(expected))));

    // the order of the data does not matter
    std::vector<std::size_t> order;
    for (std::size_t i = 0; i < n; ++i)
      order.push_back(i);
    g.shuffle(order);
    VF_CLOSE("order", model.log_likelihood(data.pick(order).dataset()), ll, 0.,
             1e-7 * (1. + std::fabs(ll)));

    // chain rule: p(a, b) = p(a) p(b | a), b predicted with its noise
    if (n >= 2) {
      const std::size_t k = g.size(1, n - 1);
      std::vector<std::size_t> first(order.begin(),
                                     order.begin() + static_cast<long>(k)),
          rest(order.begin() + static_cast<long>(k), order.end());
      const Data a = data.pick(first), b = data.pick(rest);
      bool apart = true; // process noise is shared by equal features
      for (double x : b.x)
        for (double y : a.x)
          apart = apart && x != y;
      if (apart) {
        const auto fit = model.fit(a.dataset());
        const albatross::JointDistribution pred =
            fit.predict_with_measurement_noise(b.x).joint();
        const double chain =
            model.log_likelihood(a.dataset()) -
            albatross::negative_log_likelihood(pred, b.dataset().targets);
        VF_CLOSE("chain_rule", chain, ll, 0., 1e-6 * (1. + std::fabs(ll)));
        c.count("chains", 1);
      }
    }

    // objectives of the tuner: the average over data sets, at the values asked
    // for
    const std::size_t m = g.size(1, 3);
    std::vector<albatross::RegressionDataset<double>> sets(1, dataset);
    LD average = 0.L;
    average += prior - expected - prior;
    while (sets.size() < m) {
      const Data more = make_data(g, setup.o, g.size(1, 6), false);
      LM B = setup.o.K(more.x, true, more.x, true);
      LV e;
      for (std::size_t i = 0; i < more.x.size(); ++i) {
        B(i, i) += more.var[i];
        e.push_back(static_cast<LD>(more.y[i]) - setup.o.m(more.x[i]));
      }
      average += nll_oracle(e, B) - prior;
      sets.push_back(more.dataset());
    }
    average /= static_cast<LD>(m);
    std::vector<double> values;
    for (const auto &s : sets)
      values.push_back(metric(s, model));
    VF_CLOSE("aggregated", albatross::mean_aggregator(values),
             static_cast<double>(average), 0.,
             1e-7 * (1. + static_cast<double>(fabsl(average))));
  });
}

namespace {

// density and error of held out observations by refitting, from the oracle
struct HeldOut {
  LD joint = 0.L;    // - log density with all correlations
  LD marginal = 0.L; // - log density of each on its own
  LD twice_joint = 0.L, twice_marginal = 0.L; // reported variance twice
  LD rmse = 0.L;
};

HeldOut held_out(const Oracle &o, const Data &d,
                 const std::vector<std::size_t> &group) {
  std::vector<bool> in(d.x.size(), false);
  for (auto i : group)
    in[i] = true;
  std::vector<std::size_t> rest;
  for (std::size_t i = 0; i < d.x.size(); ++i)
    if (!in[i])
      rest.push_back(i);
  const Data t = d.pick(rest), h = d.pick(group);
  // measurements seen from measurements: the covariance of the observations
  LM A = o.K(t.x, true, t.x, true);
  for (std::size_t i = 0; i < t.x.size(); ++i)
    A(i, i) += t.var[i];
  const LM C = o.K(t.x, true, h.x, true);
  LM P = o.K(h.x, true, h.x, true);
  LV e;
  for (std::size_t i = 0; i < t.x.size(); ++i)
    e.push_back(static_cast<LD>(t.y[i]) - o.m(t.x[i]));
  LV mean(h.x.size(), 0.L);
  if (!t.x.empty()) {
    const LM AiC = solve(A, C);
    const LM E = mul(transpose(C), AiC);
    for (std::size_t i = 0; i < P.a.size(); ++i)
      P.a[i] -= E.a[i];
    mean = mul(transpose(AiC), e);
  }
  LV dev;
  LM Q = P;
  HeldOut r;
  LD sq = 0.L;
  for (std::size_t i = 0; i < h.x.size(); ++i) {
    dev.push_back(static_cast<LD>(h.y[i]) - o.m(h.x[i]) - mean[i]);
    sq += dev[i] * dev[i];
    P(i, i) += h.var[i];
    Q(i, i) += 2.L * h.var[i];
    r.marginal += nll_oracle(dev[i], P(i, i));
    r.twice_marginal += nll_oracle(dev[i], Q(i, i));
  }
  r.joint = nll_oracle(dev, P);
  r.twice_joint = nll_oracle(dev, Q);
  r.rmse = sqrtl(sq / static_cast<LD>(h.x.size()));
  return r;
}

} // namespace

namespace {

// the objective must be the definition; the one known deviation (see
// known_findings.txt) counts the reported variance twice, anything else is new
void check_objective(vf::Case &c, const std::string &key, double actual,
                     LD expected, LD twice, bool exact) {
  const double tol = 1e-6 * (1. + static_cast<double>(fabsl(expected)));
  if (exact) {
    VF_CLOSE(key, actual, static_cast<double>(expected), 0., tol);
    return;
  }
  const bool is_twice =
      std::fabs(actual - static_cast<double>(twice)) <=
      1e-6 * (1. + static_cast<double>(fabsl(twice)));
  if (is_twice) {
    VF_CLOSE("gp_reported_variance_counted_twice", actual,
             static_cast<double>(expected), 0., tol);
  } else {
    VF_CLOSE(key + "_noisy", actual, static_cast<double>(expected), 0., tol);
  }
}

} // namespace

namespace {
// keys do not sort in the order of the features
std::string group_of(const double &x) {
  const int k = static_cast<int>(std::floor(std::fabs(x) * 1000.)) % 4;
  return std::vector<std::string>{"m", "b", "z", ""}[static_cast<std::size_t>(k)];
}
} // namespace

VF_SECTION("gp_leave_one_out", 100, 4000) {
  vf::Rng &g = c.rng;
  const std::size_t which = g.size(0, 3);
  const std::size_t n = g.extent(2, 12, 40);
  with_setup(c, which, [&](auto setup) {
    auto data = make_data(g, setup.o, n, false);
    // observations without reported error in half of the cases
    const bool exact = g.coin(0.6);
    if (exact)
      data.var.assign(n, 0.);
    auto model = setup.gp();
    const LD prior = add_priors(g, &model);
    c.desc << setup.o.name << " n=" << n << " exact=" << exact;
    LM A = setup.o.K(data.x, true, data.x, true);
    for (std::size_t i = 0; i < n; ++i)
      A(i, i) += data.var[i];
    if (!well_conditioned(A))
      return;
    c.reached();
    c.count(exact ? "exact_targets" : "noisy_targets", 1);
    const auto dataset = data.dataset();

    LD joint = -prior, twice = -prior, rmse = 0.L;
    for (std::size_t i = 0; i < n; ++i) {
      const HeldOut h = held_out(setup.o, data, {i});
      joint += h.joint;
      twice += h.twice_joint;
      rmse += h.rmse;
    }
    rmse /= static_cast<LD>(n);
    const albatross::LeaveOneOutLikelihood<> loo_joint;
    const albatross::LeaveOneOutLikelihood<albatross::MarginalDistribution>
        loo_marginal;
    const albatross::LeaveOneOutRMSE loo_rmse;
    check_objective(c, "loo_joint", loo_joint(dataset, model), joint, twice,
                    exact);
    check_objective(c, "loo_marginal", loo_marginal(dataset, model), joint,
                    twice, exact);
    VF_CLOSE("loo_rmse", loo_rmse(dataset, model), static_cast<double>(rmse),
             1e-6, 1e-9 * setup.o.amplitude);

    // groups
    std::map<std::string, std::vector<std::size_t>> by;
    for (std::size_t i = 0; i < n; ++i)
      by[group_of(data.x[i])].push_back(i);
    if (by.size() >= 2) {
      HeldOut t;
      t.joint = t.marginal = t.twice_joint = t.twice_marginal = -prior;
      for (const auto &p : by) {
        const HeldOut h = held_out(setup.o, data, p.second);
        t.joint += h.joint;
        t.marginal += h.marginal;
        t.twice_joint += h.twice_joint;
        t.twice_marginal += h.twice_marginal;
      }
      const albatross::LeaveOneGroupOutLikelihood<double> logo_joint(&group_of);
      const albatross::LeaveOneGroupOutLikelihood<
          double, albatross::MarginalDistribution>
          logo_marginal(&group_of);
      check_objective(c, "logo_joint", logo_joint(dataset, model), t.joint,
                      t.twice_joint, exact);
      check_objective(c, "logo_marginal", logo_marginal(dataset, model),
                      t.marginal, t.twice_marginal, exact);
      c.count("grouped", 1);
    }
  });
}

// models without a shortcut: the held out density of a refit
VF_SECTION("generic_leave_one_out", 60, 3000) {
  vf::Rng &g = c.rng;
  const std::size_t n = g.extent(2, 10, 40);
  Data data;
  for (std::size_t i = 0; i < n; ++i) {
    data.x.push_back(g.uniform(-5., 5.));
    data.y.push_back(30. * g.normal());
    data.var.push_back(g.coin(0.3) ? 0. : g.log_uniform(0.1, 1e4));
  }
  c.desc << "null n=" << n;
  c.reached();
  c.count("null_models", 1);
  const auto dataset = data.dataset();
  albatross::NullModel model;
  // the null model predicts independent values of mean zero and variance 1e4
  LD expected = 0.L, rmse = 0.L, grouped_joint = 0.L;
  for (std::size_t i = 0; i < n; ++i) {
    expected += nll_oracle(data.y[i], 1e4L + data.var[i]);
    rmse += fabsl(static_cast<LD>(data.y[i])) / static_cast<LD>(n);
  }
  grouped_joint = expected;
  const double tol = ntol(expected);
  const albatross::LeaveOneOutLikelihood<> loo_joint;
  const albatross::LeaveOneOutLikelihood<albatross::MarginalDistribution>
      loo_marginal;
  const albatross::LeaveOneOutRMSE loo_rmse;
  VF_CLOSE("loo_joint", loo_joint(dataset, model),
           static_cast<double>(expected), 0., tol);
  VF_CLOSE("loo_marginal", loo_marginal(dataset, model),
           static_cast<double>(expected), 0., tol);
  VF_CLOSE("loo_rmse", loo_rmse(dataset, model), static_cast<double>(rmse),
           1e-9, 0.);
  const albatross::LeaveOneGroupOutLikelihood<double> logo_joint(&group_of);
  const albatross::LeaveOneGroupOutLikelihood<double,
                                              albatross::MarginalDistribution>
      logo_marginal(&group_of);
  VF_CLOSE("logo_joint", logo_joint(dataset, model),
           static_cast<double>(grouped_joint), 0., tol);
  VF_CLOSE("logo_marginal", logo_marginal(dataset, model),
           static_cast<double>(grouped_joint), 0., tol);
}
