// C20: linear, null and conditional models match their closed forms; model
// adapters change only what they override.
#include "vf.h"

#include <albatross/Evaluation>
#include <albatross/GP>
#include <albatross/LeastSquares>
#include <albatross/NullModel>

#include "gp_oracle.h"

namespace vfuser {

using namespace albatross;

// least squares on the rows of a design matrix
class Design : public LeastSquares<Design> {
public:
  std::string get_name() const { return "design"; }
};

// the same, with a ridge solver of the user's own
class Ridge : public LeastSquares<Ridge> {
public:
  double lambda = 0.;
  std::string get_name() const { return "ridge"; }
  Eigen::VectorXd least_squares_solver(const Eigen::MatrixXd &A,
                                       const Eigen::VectorXd &b) const {
    const Eigen::MatrixXd n =
        A.transpose() * A +
        lambda * Eigen::MatrixXd::Identity(A.cols(), A.cols());
    return n.ldlt().solve(A.transpose() * b);
  }
};

// polynomial features of the user's own
class Cubic : public LeastSquares<Cubic> {
public:
  using Base = LeastSquares<Cubic>;
  std::string get_name() const { return "cubic"; }
  std::vector<Eigen::VectorXd> rows(const std::vector<double> &xs) const {
    std::vector<Eigen::VectorXd> o;
    for (double x : xs) {
      Eigen::VectorXd r(4);
      r << 1., x, x * x, x * x * x;
      o.push_back(r);
    }
    return o;
  }
  Base::FitType _fit_impl(const std::vector<double> &features,
                          const MarginalDistribution &targets) const {
    return Base::_fit_impl(rows(features), targets);
  }
  Eigen::VectorXd _predict_impl(const std::vector<double> &features,
                                const Base::FitType &fit,
                                PredictTypeIdentity<Eigen::VectorXd>) const {
    return Base::_predict_impl(rows(features), fit,
                               PredictTypeIdentity<Eigen::VectorXd>());
  }
};

// models which only predict one of the three kinds
struct Tag {};
struct JointOnly;
struct MarginalOnly;
struct MeanOnly;

} // namespace vfuser

namespace albatross {
template <> struct Fit<vfuser::Tag> {
  double level = 0.;
  bool operator==(const Fit &o) const { return level == o.level; }
};
} // namespace albatross

namespace vfuser {

inline Fit<Tag> tag_fit(const MarginalDistribution &targets) {
  Fit<Tag> f;
  f.level = targets.mean.size() ? targets.mean.mean() : 0.;
  return f;
}

inline JointDistribution tag_joint(const std::vector<double> &xs,
                                   const Fit<Tag> &fit) {
  const Eigen::Index n = static_cast<Eigen::Index>(xs.size());
  Eigen::VectorXd m(n);
  Eigen::MatrixXd c(n, n);
  for (Eigen::Index i = 0; i < n; ++i) {
    m[i] = fit.level + xs[static_cast<std::size_t>(i)];
    for (Eigen::Index j = 0; j < n; ++j)
      c(i, j) = std::exp(-std::fabs(xs[static_cast<std::size_t>(i)] -
                                    xs[static_cast<std::size_t>(j)])) *
                (2. + fit.level * fit.level);
  }
  return JointDistribution(m, c);
}

struct JointOnly : public ModelBase<JointOnly> {
  std::string get_name() const { return "joint_only"; }
  Fit<Tag> _fit_impl(const std::vector<double> &,
                     const MarginalDistribution &t) const {
    return tag_fit(t);
  }
  JointDistribution _predict_impl(const std::vector<double> &xs,
                                  const Fit<Tag> &fit,
                                  PredictTypeIdentity<JointDistribution>) const {
    return tag_joint(xs, fit);
  }
};

struct MarginalOnly : public ModelBase<MarginalOnly> {
  std::string get_name() const { return "marginal_only"; }
  Fit<Tag> _fit_impl(const std::vector<double> &,
                     const MarginalDistribution &t) const {
    return tag_fit(t);
  }
  MarginalDistribution
  _predict_impl(const std::vector<double> &xs, const Fit<Tag> &fit,
                PredictTypeIdentity<MarginalDistribution>) const {
    return tag_joint(xs, fit).marginal();
  }
};

struct MeanOnly : public ModelBase<MeanOnly> {
  std::string get_name() const { return "mean_only"; }
  Fit<Tag> _fit_impl(const std::vector<double> &,
                     const MarginalDistribution &t) const {
    return tag_fit(t);
  }
  Eigen::VectorXd _predict_impl(const std::vector<double> &xs,
                                const Fit<Tag> &fit,
                                PredictTypeIdentity<Eigen::VectorXd>) const {
    return tag_joint(xs, fit).mean;
  }
};

// A Gaussian process over angles in degrees, adapting one over radians: only
// the features change.
struct Degrees {
  double value;
  bool operator==(const Degrees &o) const { return value == o.value; }
};

template <typename CovFunc, typename MeanFunc>
class DegreesGP
    : public GaussianProcessBase<CovFunc, MeanFunc,
                                 DegreesGP<CovFunc, MeanFunc>> {
public:
  using Base =
      GaussianProcessBase<CovFunc, MeanFunc, DegreesGP<CovFunc, MeanFunc>>;
  using Base::_fit_impl;
  using Base::_predict_impl;
  using Base::Base;

  static std::vector<double> convert(const std::vector<Degrees> &f) {
    std::vector<double> o;
    for (const auto &d : f)
      o.push_back(d.value * 4.);
    return o;
  }

  using FitType = Fit<GPFit<Eigen::SerializableLDLT, double>>;

  auto _fit_impl(const std::vector<Degrees> &features,
                 const MarginalDistribution &targets) const {
    return Base::_fit_impl(convert(features), targets);
  }

  template <typename PredictType>
  PredictType _predict_impl(const std::vector<Degrees> &features,
                            const FitType &fit,
                            PredictTypeIdentity<PredictType> &&) const {
    return Base::_predict_impl(convert(features), fit,
                               PredictTypeIdentity<PredictType>());
  }
};

} // namespace vfuser

namespace {

using namespace vfgp;
using albatross::JointDistribution;
using albatross::MarginalDistribution;

// solution of the normal equations, and the largest error double may make
LV normal_equations(const LM &A, const LV &b) {
  const LM At = transpose(A);
  return solve(mul(At, A), mul(At, b));
}

// condition number of A (square root of that of the normal matrix), roughly
LD roundness(const LM &A) {
  LM N = mul(transpose(A), A);
  // scale the columns
  std::vector<LD> s;
  for (std::size_t i = 0; i < N.r; ++i)
    s.push_back(sqrtl(N(i, i)));
  for (std::size_t i = 0; i < N.r; ++i)
    for (std::size_t j = 0; j < N.r; ++j)
      N(i, j) /= s[i] * s[j];
  LM L;
  if (!cholesky(N, &L))
    return 0.L;
  LD m = 1.L;
  for (std::size_t i = 0; i < N.r; ++i)
    m = std::min(m, L(i, i));
  return m;
}

// Designs whose columns nearly coincide: targets which are a linear function of
// the rows determine its coefficients to about the condition number times the
// rounding of the entries, for few rows as for many.
VF_SECTION("nearly_collinear", 120, 6000) {
  vf::Rng &g = c.rng;
  const std::size_t p = g.size(2, 5);
  const std::size_t n = g.coin(0.3) ? g.size(p + 1, p + 10) : g.size(10 * p, 60 * p);
  const double apart = g.log_uniform(1e-6, 1e-3);
  c.desc << "n=" << n << " p=" << p << " apart=" << apart;
  c.reached();
  c.count("nearly_collinear", 1);
  const double unit = g.log_uniform(1e-3, 1e3);
  std::vector<double> coefs;
  for (std::size_t j = 0; j < p; ++j)
    coefs.push_back(static_cast<double>(g.integer(1, 8)) * (g.coin() ? 1. : -1.));
  std::vector<Eigen::VectorXd> rows;
  Eigen::VectorXd y(static_cast<Eigen::Index>(n));
  for (std::size_t i = 0; i < n; ++i) {
    Eigen::VectorXd r(static_cast<Eigen::Index>(p));
    for (std::size_t j = 0; j < p; ++j)
      r[static_cast<Eigen::Index>(j)] =
          unit * (j < 2 ? (j == 0 ? g.normal() : r[0] / unit + apart * g.normal()) : g.normal());
    LD t = 0.L;
    for (std::size_t j = 0; j < p; ++j)
      t += static_cast<LD>(coefs[j]) * r[static_cast<Eigen::Index>(j)];
    y[static_cast<Eigen::Index>(i)] = static_cast<double>(t);
    rows.push_back(r);
  }
  LD seen = 0.L;
  for (const auto &r : rows)
    seen = std::max(seen, fabsl(static_cast<LD>(r[1]) - r[0]) / (static_cast<LD>(unit) * apart));
  // rounding of the rows and of the factorization, times the condition number
  const double tol = 1e-13 * static_cast<double>(n) / (apart * static_cast<double>(seen));
  const auto fit = vfuser::Design().fit(rows, MarginalDistribution(y));
  const Eigen::VectorXd actual = fit.get_fit().coefs;
  VF_REQUIRE("size", actual.size() == static_cast<Eigen::Index>(p), actual.size());
  if (n >= 3 * p)
    for (std::size_t j = 0; j < p; ++j)
      VF_CLOSE("coefficient", actual[static_cast<Eigen::Index>(j)], coefs[j], 0., 50. * tol);
  const Eigen::VectorXd pred = fit.predict(rows).mean();
  double most = 0.;
  for (const auto &r : rows)
    for (std::size_t j = 0; j < p; ++j)
      most = std::max(most, std::fabs(coefs[j] * r[static_cast<Eigen::Index>(j)]));
  VF_REQUIRE("predictions", pred.size() == y.size(), pred.size());
  for (std::size_t i = 0; i < n; ++i)
    VF_CLOSE("at_data", pred[static_cast<Eigen::Index>(i)], y[static_cast<Eigen::Index>(i)], 0.,
             1e-12 * most * static_cast<double>(n));
}

VF_SECTION("least_squares", 250, 12000) {
  vf::Rng &g = c.rng;
  const std::size_t p = g.extent(1, 6, 25);
  const std::size_t n = g.coin(0.15) ? p : g.size(p, p + 20);
  const double spread = g.log_uniform(1., 1e3);
  std::vector<double> col_scale;
  for (std::size_t j = 0; j < p; ++j)
    col_scale.push_back(g.log_uniform(1. / spread, spread));
  std::vector<Eigen::VectorXd> rows;
  LM A(n, p);
  for (std::size_t i = 0; i < n; ++i) {
    Eigen::VectorXd r(static_cast<Eigen::Index>(p));
    for (std::size_t j = 0; j < p; ++j) {
      const double v = (j == 0 && g.coin(0.5)) ? col_scale[0]
                                               : col_scale[j] * g.normal();
      r[static_cast<Eigen::Index>(j)] = v;
      A(i, j) = v;
    }
    rows.push_back(r);
  }
  const double yscale = g.log_uniform(1e-3, 1e5);
  LV b;
  Eigen::VectorXd y(static_cast<Eigen::Index>(n));
  for (std::size_t i = 0; i < n; ++i) {
    y[static_cast<Eigen::Index>(i)] = yscale * g.normal();
    b.push_back(y[static_cast<Eigen::Index>(i)]);
  }
  c.desc << "n=" << n << " p=" << p << " y=" << yscale;
  const LD round = roundness(A);
  if (round < 1e-2L)
    return; // close to rank deficient
  c.reached();
  c.count("designs", 1);
  if (n == p)
    c.count("square", 1);

  // no variance, the same variance for all, in both cases the same fit
  MarginalDistribution targets(y);
  const bool weighted = g.coin();
  if (weighted) {
    targets = MarginalDistribution(
        y, Eigen::VectorXd(Eigen::VectorXd::Constant(
               y.size(), g.log_uniform(1e-3, 1e3))));
  }
  const vfuser::Design model;
  const auto fit = model.fit(rows, targets);
  const LV coefs = normal_equations(A, b);
  const double tol = 1e-9 / static_cast<double>(round * round);
  LD bn = 0.L;
  for (auto v : b)
    bn = std::max(bn, fabsl(v));
  const Eigen::VectorXd actual = fit.get_fit().coefs;
  VF_REQUIRE("coefs_size", actual.size() == static_cast<Eigen::Index>(p),
             actual.size());
  LD colnorm = 0.L;
  for (std::size_t j = 0; j < p; ++j) {
    colnorm = 0.L;
    for (std::size_t i = 0; i < n; ++i)
      colnorm = std::max(colnorm, fabsl(A(i, j)));
    VF_CLOSE("coefs", actual[static_cast<Eigen::Index>(j)],
             static_cast<double>(coefs[j]), tol,
             tol * static_cast<double>(bn / colnorm));
  }

  // predictions are that linear function, of new rows as well
  std::vector<Eigen::VectorXd> query = rows;
  for (std::size_t k = 0; k < 3; ++k) {
    Eigen::VectorXd r(static_cast<Eigen::Index>(p));
    for (std::size_t j = 0; j < p; ++j)
      r[static_cast<Eigen::Index>(j)] = col_scale[j] * g.normal();
    query.push_back(r);
  }
  const Eigen::VectorXd pred = fit.predict(query).mean();
  VF_REQUIRE("prediction_size",
             pred.size() == static_cast<Eigen::Index>(query.size()),
             pred.size());
  for (std::size_t i = 0; i < query.size(); ++i) {
    LD e = 0.L, mag = bn;
    for (std::size_t j = 0; j < p; ++j) {
      const LD t = coefs[j] * query[i][static_cast<Eigen::Index>(j)];
      e += t;
      mag = std::max(mag, fabsl(t));
    }
    VF_CLOSE("prediction", pred[static_cast<Eigen::Index>(i)],
             static_cast<double>(e), 0., tol * static_cast<double>(mag));
  }
  VF_CHECK("nothing_requested",
           fit.predict(std::vector<Eigen::VectorXd>()).mean().size() == 0, "");
  // residuals are orthogonal to the columns of the design
  for (std::size_t j = 0; j < p; ++j) {
    LD dot = 0.L, mag = 0.L;
    for (std::size_t i = 0; i < n; ++i) {
      const LD t = A(i, j) * (b[i] - pred[static_cast<Eigen::Index>(i)]);
      dot += t;
      mag += fabsl(A(i, j)) * bn;
    }
    VF_CHECK("orthogonal", fabsl(dot) <= 1e-8L / round * mag,
             "column " << j << " " << static_cast<double>(dot));
  }

  // a solver of the user's own is the one which is used
  vfuser::Ridge ridge;
  ridge.lambda = g.log_uniform(1e-2, 1e2);
  LM N = mul(transpose(A), A);
  for (std::size_t j = 0; j < p; ++j)
    N(j, j) += ridge.lambda;
  const LV rc = solve(N, mul(transpose(A), b));
  const Eigen::VectorXd ra = ridge.fit(rows, targets).get_fit().coefs;
  for (std::size_t j = 0; j < p; ++j) {
    colnorm = 0.L;
    for (std::size_t i = 0; i < n; ++i)
      colnorm = std::max(colnorm, fabsl(A(i, j)));
    VF_CLOSE("own_solver", ra[static_cast<Eigen::Index>(j)],
             static_cast<double>(rc[j]), 1e-6,
             1e-6 * static_cast<double>(bn / colnorm));
  }

  // different variances are refused: nothing would weight them
  if (n >= 2 && c.index % 8 == 0) {
    Eigen::VectorXd v = Eigen::VectorXd::Ones(y.size());
    v[static_cast<Eigen::Index>(g.size(1, n - 1))] = 2.;
    const MarginalDistribution uneven(y, v);
    VF_ABORTS("uneven_variance", model.fit(rows, uneven));
    c.count("refused", 1);
  }
}

VF_SECTION("regression", 200, 10000) {
  vf::Rng &g = c.rng;
  const std::size_t n = g.extent(2, 20, 300);
  const double centre = g.coin() ? 0. : g.uniform(-20., 20.);
  const double width = g.log_uniform(0.3, 30.);
  std::vector<double> x, query;
  Eigen::VectorXd y(static_cast<Eigen::Index>(n));
  LV b;
  LM A(n, 2);
  for (std::size_t i = 0; i < n; ++i) {
    x.push_back(centre + width * g.uniform(-1., 1.));
    y[static_cast<Eigen::Index>(i)] = 10. * g.normal();
    b.push_back(y[static_cast<Eigen::Index>(i)]);
    A(i, 0) = 1.L;
    A(i, 1) = x.back();
  }
  for (int i = 0; i < 4; ++i)
    query.push_back(centre + width * g.uniform(-2., 2.));
  c.desc << "n=" << n << " at " << centre << " width " << width;
  const LD round = roundness(A);
  if (round < 1e-3L)
    return;
  c.reached();
  c.count("lines", 1);
  const albatross::RegressionDataset<double> dataset(x, y);
  const albatross::LinearRegression model;
  const auto fit = model.fit(dataset);
  const LV coefs = normal_equations(A, b);
  const double tol = 1e-10 / static_cast<double>(round * round);
  const Eigen::VectorXd pred = fit.predict(query).mean();
  VF_REQUIRE("size", pred.size() == 4, pred.size());
  for (std::size_t i = 0; i < 4; ++i) {
    const LD e = coefs[0] + coefs[1] * query[i];
    VF_CLOSE("line", pred[static_cast<Eigen::Index>(i)], static_cast<double>(e),
             0.,
             tol * (10. + static_cast<double>(fabsl(coefs[0]) +
                                              fabsl(coefs[1] * query[i]))));
  }
  // moving a fit model or copying it
  auto copy = fit;
  const auto moved = std::move(copy);
  VF_CHECK("moved", moved.predict(query).mean() == pred, "");
  VF_CHECK("temporary", model.fit(dataset).predict(query).mean() == pred, "");

  // an adapter with features of its own
  if (n >= 6) {
    LM C(n, 4);
    for (std::size_t i = 0; i < n; ++i)
      for (std::size_t j = 0; j < 4; ++j)
        C(i, j) = powl(x[i], static_cast<LD>(j));
    const LD r = roundness(C);
    if (r > 1e-3L) {
      const LV cc = normal_equations(C, b);
      const vfuser::Cubic cubic;
      const Eigen::VectorXd cp = cubic.fit(dataset).predict(query).mean();
      for (std::size_t i = 0; i < 4; ++i) {
        LD e = 0.L, mag = 10.L;
        for (std::size_t j = 0; j < 4; ++j) {
          const LD t = cc[j] * powl(query[i], static_cast<LD>(j));
          e += t;
          mag += fabsl(t);
        }
        VF_CLOSE("cubic", cp[static_cast<Eigen::Index>(i)],
                 static_cast<double>(e), 0.,
                 1e-10 / static_cast<double>(r * r) * static_cast<double>(mag));
      }
      c.count("cubics", 1);
    }
  }
}

VF_SECTION("null", 100, 4000) {
  vf::Rng &g = c.rng;
  const std::size_t n = g.extent(0, 8, 100), m = g.extent(0, 8, 100);
  std::vector<std::string> train, query;
  for (std::size_t i = 0; i < n; ++i)
    train.push_back(std::to_string(g.integer(0, 9)));
  for (std::size_t i = 0; i < m; ++i)
    query.push_back(std::to_string(g.integer(0, 9)));
  Eigen::VectorXd y(static_cast<Eigen::Index>(n));
  for (Eigen::Index i = 0; i < y.size(); ++i)
    y[i] = 1e3 * g.normal();
  c.desc << "n=" << n << " m=" << m;
  c.reached();
  c.count("null_models", 1);
  const Eigen::Index em = static_cast<Eigen::Index>(m);
  const albatross::NullModel model;
  auto check = [&](const char *what, const auto &pred) {
    const Eigen::VectorXd mean = pred.mean();
    const MarginalDistribution marginal = pred.marginal();
    const JointDistribution joint = pred.joint();
    VF_REQUIRE(what,
               mean.size() == em && marginal.mean.size() == em &&
                   joint.mean.size() == em && joint.covariance.rows() == em &&
                   joint.covariance.cols() == em &&
                   marginal.covariance.diagonal().size() == em,
               "sizes");
    if (em > 0) {
      VF_CHECK(what,
               mean.isZero(0.) && marginal.mean.isZero(0.) &&
                   joint.mean.isZero(0.),
               "mean");
      VF_CHECK(what,
               (marginal.covariance.diagonal().array() == 1e4).all() &&
                   joint.covariance ==
                       Eigen::MatrixXd(1e4 * Eigen::MatrixXd::Identity(em, em)),
               "covariance");
    }
  };
  const auto fit = model.fit(
      albatross::RegressionDataset<std::string>(train, MarginalDistribution(y)));
  check("fit", fit.predict(query));
  Eigen::MatrixXd S = Eigen::MatrixXd::Identity(y.size(), y.size());
  const auto other = model.fit_from_prediction(train, JointDistribution(y, S));
  check("from_prediction", other.predict(query));
  VF_CHECK("same", fit == other && fit.get_fit() == other.get_fit(), "");
}

VF_SECTION("conditional", 250, 12000) {
  vf::Rng &g = c.rng;
  const std::size_t n = g.extent(1, 14, 60);
  const Eigen::Index en = static_cast<Eigen::Index>(n);
  const double scale = g.log_uniform(1e-3, 1e3);
  Eigen::MatrixXd a(en, en);
  for (Eigen::Index i = 0; i < en; ++i)
    for (Eigen::Index j = 0; j < en; ++j)
      a(i, j) = g.normal();
  Eigen::MatrixXd S = scale * scale *
                      (a * a.transpose() +
                       0.2 * Eigen::MatrixXd::Identity(en, en));
  S = Eigen::MatrixXd(0.5 * (S + S.transpose()));
  Eigen::VectorXd prior_mean(en), y(en), v(en);
  for (Eigen::Index i = 0; i < en; ++i) {
    prior_mean[i] = 10. * scale * g.normal();
    y[i] = prior_mean[i] + 3. * scale * g.normal();
    v[i] = g.coin(0.3) ? 0. : scale * scale * g.log_uniform(1e-2, 10.);
  }
  const bool exact = g.coin(0.3);
  if (exact)
    v.setZero();
  const JointDistribution prior(prior_mean, S);
  const MarginalDistribution truth =
      exact ? MarginalDistribution(y) : MarginalDistribution(y, v);
  std::vector<std::size_t> all;
  for (std::size_t i = 0; i < n; ++i)
    all.push_back(i);
  g.shuffle(all);
  const std::size_t k = g.size(1, n);
  const std::vector<std::size_t> train(all.begin(),
                                       all.begin() + static_cast<long>(k));
  std::vector<std::size_t> query;
  for (std::size_t i = 0, m = g.size(1, n + 3); i < m; ++i)
    query.push_back(g.size(0, n - 1)); // repeats, and observed entries as well
  if (g.coin(0.35)) {
    // exactly what was observed, in that order or in another
    query = train;
    if (g.coin(0.4))
      g.shuffle(query);
    c.count("at_the_observed", 1);
  }
  c.desc << "n=" << n << " k=" << k << " m=" << query.size()
         << " exact=" << exact;
  c.reached();
  c.count("conditionals", 1);

  Post p;
  LM A(k, k), C(k, query.size());
  LV d;
  for (std::size_t i = 0; i < k; ++i) {
    const Eigen::Index ii = static_cast<Eigen::Index>(train[i]);
    for (std::size_t j = 0; j < k; ++j)
      A(i, j) = S(ii, static_cast<Eigen::Index>(train[j]));
    A(i, i) += v[ii];
    for (std::size_t j = 0; j < query.size(); ++j)
      C(i, j) = S(ii, static_cast<Eigen::Index>(query[j]));
    d.push_back(static_cast<LD>(y[ii]) - prior_mean[ii]);
  }
  const LM AiC = solve(A, C);
  p.cov = LM(query.size(), query.size());
  const LM E = mul(transpose(C), AiC);
  p.mean = mul(transpose(AiC), d);
  for (std::size_t i = 0; i < query.size(); ++i) {
    p.mean[i] += prior_mean[static_cast<Eigen::Index>(query[i])];
    for (std::size_t j = 0; j < query.size(); ++j)
      p.cov(i, j) = S(static_cast<Eigen::Index>(query[i]),
                      static_cast<Eigen::Index>(query[j])) -
                    E(i, j);
  }
  const double amp = std::sqrt(S.diagonal().maxCoeff());
  const albatross::ConditionalGaussian model(prior, truth);
  const auto fit = model.fit(train);
  const auto pred = fit.predict(query);
  compare_mean(c, "mean", pred.mean(), p, 10. * amp);
  const MarginalDistribution marginal = pred.marginal();
  compare_mean(c, "marginal_mean", marginal.mean, p, 10. * amp);
  compare_var(c, "marginal_variance", marginal.covariance.diagonal(), p,
              3. * amp);
  const JointDistribution joint = pred.joint();
  compare_mean(c, "joint_mean", joint.mean, p, 10. * amp);
  compare_cov(c, "joint_covariance", joint.covariance, p, 3. * amp);
  if (exact) {
    // observed entries are reproduced and have no variance left
    for (std::size_t i = 0; i < query.size(); ++i) {
      const bool seen =
          std::find(train.begin(), train.end(), query[i]) != train.end();
      if (seen) {
        const Eigen::Index e = static_cast<Eigen::Index>(i);
        VF_CLOSE("observed_mean", joint.mean[e],
                 y[static_cast<Eigen::Index>(query[i])], 1e-7, 1e-6 * amp);
        VF_CHECK("observed_variance",
                 std::fabs(joint.covariance(e, e)) < 1e-7 * amp * amp,
                 joint.covariance(e, e));
        c.count("observed", 1);
      }
    }
  }
  // the parts of the problem are handed out unchanged
  VF_CHECK("get_prior",
           model.get_prior(train).mean == albatross::subset(prior_mean, train),
           "");
  VF_CHECK("get_truth",
           model.get_truth(train).mean == albatross::subset(y, train), "");
  // nothing observed: the prior
  if (c.index % 4 == 0) {
    const auto none = model.fit(std::vector<std::size_t>());
    const JointDistribution jn = none.predict(query).joint();
    VF_CHECK("unobserved",
             jn.mean == albatross::subset(prior_mean, query) &&
                 jn.covariance == albatross::symmetric_subset(S, query),
             "");
    c.count("nothing_observed", 1);
  }
}

// predictions of every kind from models which provide only one
VF_SECTION("kinds", 100, 4000) {
  vf::Rng &g = c.rng;
  const std::size_t n = g.size(1, 6), m = g.size(0, 6);
  std::vector<double> x, q;
  Eigen::VectorXd y(static_cast<Eigen::Index>(n));
  for (std::size_t i = 0; i < n; ++i) {
    x.push_back(g.normal());
    y[static_cast<Eigen::Index>(i)] = g.normal();
  }
  for (std::size_t i = 0; i < m; ++i)
    q.push_back(g.normal());
  c.desc << "n=" << n << " m=" << m << " " << y.sum();
  c.reached();
  c.count("kinds", 1);
  const albatross::RegressionDataset<double> dataset(x, y);
  const auto fit = vfuser::tag_fit(dataset.targets);
  const JointDistribution e = vfuser::tag_joint(q, fit);
  const auto jp = vfuser::JointOnly().fit(dataset).predict(q);
  VF_CHECK("joint_only",
           jp.mean() == e.mean && jp.joint().mean == e.mean &&
               jp.joint().covariance == e.covariance &&
               jp.marginal().mean == e.mean &&
               jp.marginal().covariance.diagonal() ==
                   Eigen::VectorXd(e.covariance.diagonal()),
           "");
  const auto mp = vfuser::MarginalOnly().fit(dataset).predict(q);
  VF_CHECK("marginal_only",
           mp.mean() == e.mean && mp.marginal().mean == e.mean &&
               mp.marginal().covariance.diagonal() ==
                   Eigen::VectorXd(e.covariance.diagonal()),
           "");
  VF_CHECK("get",
           jp.get<Eigen::VectorXd>() == e.mean &&
               jp.get<JointDistribution>().covariance == e.covariance &&
               mp.get<MarginalDistribution>().mean == e.mean &&
               static_cast<JointDistribution>(jp).covariance == e.covariance &&
               static_cast<MarginalDistribution>(jp).mean == e.mean,
           "");
  const auto np = vfuser::MeanOnly().fit(dataset).predict(q);
  VF_CHECK("mean_only", np.mean() == e.mean && np.size() == m, "");
}

// an adapted Gaussian process is the process it adapts, on converted features
VF_SECTION("adapter", 100, 4000) {
  vf::Rng &g = c.rng;
  auto setup = setup_d(g); // defined for double only
  const auto data = make_data(g, setup.o, g.size(2, 12));
  const auto test = make_test(g, data, g.size(1, 6));
  c.desc << "n=" << data.x.size() << " m=" << test.size();
  c.reached();
  c.count("adapters", 1);
  const auto gp = setup.gp();
  const vfuser::DegreesGP<decltype(setup.cov), decltype(setup.mean)> adapter(
      setup.cov, setup.mean);
  auto adapted = [](const std::vector<double> &x) {
    std::vector<vfuser::Degrees> o;
    for (double v : x)
      o.push_back({v / 4.}); // exact
    return o;
  };
  const albatross::RegressionDataset<vfuser::Degrees> ad(
      adapted(data.x), data.dataset().targets);
  const auto fit = adapter.fit(ad);
  const auto pred = fit.predict(adapted(test));
  const auto direct_fit = gp.fit(data.dataset());
  const auto direct = direct_fit.predict(test);
  const double amp = setup.o.amplitude;
  const Post p = posterior(setup.o, data.x, data.y, data.var, test, false);
  compare_mean(c, "mean", pred.mean(), p, amp);
  compare_cov(c, "joint", pred.joint().covariance, p, amp);
  VF_CHECK("same_mean", pred.mean() == direct.mean(), "");
  VF_CHECK("same_marginal",
           pred.marginal().covariance.diagonal() ==
               direct.marginal().covariance.diagonal(),
           "");
  VF_CHECK("same_joint",
           pred.joint().covariance == direct.joint().covariance, "");
  VF_CHECK("params", adapter.get_params() == gp.get_params(), "");
  // what is not overridden is still there
  VF_CHECK("likelihood",
           adapter.log_likelihood(data.dataset()) ==
               gp.log_likelihood(data.dataset()),
           "");
  const auto raw_fit = adapter.fit(data.dataset());
  VF_CHECK("raw", raw_fit.predict(test).mean() == direct.mean(), "");
  // held out predictions of an adapter without shortcut are refits
  if (data.x.size() >= 3 && c.index % 4 == 0) {
    const auto loo =
        adapter.cross_validate().predict(ad, albatross::LeaveOneOutGrouper());
    const Eigen::VectorXd held = loo.mean();
    VF_REQUIRE("held_out_size",
               held.size() == static_cast<Eigen::Index>(data.x.size()), "");
    for (std::size_t i = 0; i < data.x.size(); ++i) {
      std::vector<std::size_t> rest;
      for (std::size_t j = 0; j < data.x.size(); ++j)
        if (j != i)
          rest.push_back(j);
      const Data t = data.pick(rest);
      const Post h = posterior(setup.o, t.x, t.y, t.var, {data.x[i]}, false);
      VF_CLOSE("held_out", held[static_cast<Eigen::Index>(i)],
               static_cast<double>(h.mean[0]), 1e-7, 1e-6 * amp);
    }
    c.count("held_out", 1);
  }
}

} // namespace
