// C15: distribution functions, quadrature, Chebyshev and uniformity statistic
// against their definitions.
#include <albatross/Common>
#include <albatross/Evaluation>
#include <albatross/Stats>

#include <boost/math/special_functions/gamma.hpp>

#include "vf.h"

using namespace albatross;

namespace {

double draw_shape(vf::Rng &g) {
  switch (g.integer(0, 6)) {
  case 0:
    return g.log_uniform(5e-4, 1e6);
  case 1:
    return 0.5 * static_cast<double>(g.integer(1, 60));
  case 2: // around the switch between the two ways to compute it
    return 10. + g.pick(std::vector<double>{-1e-9, -1e-3, 0., 1e-12, 1e-3, 0.5,
                                            -0.5, 1.});
  case 3:
    return g.uniform(0.1, 30.);
  case 4:
    return g.log_uniform(10., 1e5);
  case 5:
    return 0.5 * static_cast<double>(g.integer(20, 2000));
  default:
    return g.log_uniform(5e-4, 0.5);
  }
}

double draw_argument(vf::Rng &g, double a) {
  switch (g.integer(0, 7)) {
  case 0:
    return std::max(0., a + std::sqrt(a + 1.) * g.uniform(-14., 16.));
  case 1:
    return a * g.log_uniform(1e-3, 1e3);
  case 2:
    return g.log_uniform(1e-320, 1e-10);
  case 3:
    return g.log_uniform(1e-12, 1e3);
  case 4:
    return g.log_uniform(1e2, 1e300);
  case 5:
    return g.uniform(0., 60.);
  case 6:
    return std::max(0., a + std::sqrt(a + 1.) * g.uniform(-5., 5.));
  default:
    return g.pick(std::vector<double>{0., 5e-324, 2.2250738585072014e-308,
                                      2.2e-16, 1e-16, 1., 2., 30., 35., 40.,
                                      700., 1e308});
  }
}

// 1e-6 is what the truncated continued fraction (shape below 10) can offer;
// the quadrature is far better.
double tolerance(double a) {
  return a < 10. ? 1e-6 : 1e-12 + 5e-14 * a;
}

double reference(double a, double z) {
  return static_cast<double>(boost::math::gamma_p(static_cast<long double>(a),
                                                  static_cast<long double>(z)));
}

VF_SECTION("incomplete_gamma", 4000, 200000) {
  auto &g = c.rng;
  const double a = draw_shape(g);
  const double z = draw_argument(g, a);
  c.desc << std::setprecision(17) << "a " << a << " z " << z;
  c.reached();
  const double v = incomplete_gamma(a, z);
  const double e = reference(a, z);
  VF_CHECK("in_range", v >= 0. && v <= 1., v);
  VF_CHECK("value", std::fabs(v - e) <= tolerance(a), v << " expected " << e);
  c.observe_max(a < 10. ? "error_fraction" : "error_quadrature_scaled",
                std::fabs(v - e) / tolerance(a));
  c.count(e < 1e-3 ? "lower_tail" : e > 0.999 ? "upper_tail" : "bulk");
  // small values: relative accuracy of the lower tail
  if (a < 10. && z < 0.5 * a && e > 1e-250)
    VF_CHECK("lower_tail", std::fabs(v - e) <= 1e-6 * e,
             v << " expected " << e);
  // non decreasing to the right
  double last = v, at = z;
  for (int i = 0; i < 6; ++i) {
    const double next = at + std::max(at, 1e-300) * g.log_uniform(1e-12, 1.);
    if (!std::isfinite(next))
      break;
    const double w = incomplete_gamma(a, next);
    VF_CHECK("monotone", w >= last - 2. * tolerance(a),
             "at " << at << " " << last << " at " << next << " " << w);
    VF_CHECK("in_range", w >= 0. && w <= 1., w);
    last = w;
    at = next;
  }
  VF_CHECK("nan_shape", std::isnan(incomplete_gamma(NAN, z)), "");
  VF_CHECK("nan_argument", std::isnan(incomplete_gamma(a, NAN)), "");
  VF_CHECK("negative_shape", std::isnan(incomplete_gamma(-a, z)), "");
  VF_CHECK("at_zero", incomplete_gamma(a, 0.) == 0., "");
  VF_CHECK("zero_shape", incomplete_gamma(0., std::max(z, 1e-3)) == 1., "");
}

VF_SECTION("chi_squared", 3000, 150000) {
  auto &g = c.rng;
  const bool integer = g.coin(0.6);
  const double dof = integer ? static_cast<double>(g.coin(0.7) ? g.integer(1, 40)
                                                               : g.integer(1, 20000))
                             : 2. * draw_shape(g);
  double x = 2. * draw_argument(g, 0.5 * dof);
  c.desc << std::setprecision(17) << "dof " << dof << " x " << x;
  c.reached();
  const double tol = tolerance(0.5 * dof);
  const double v = chi_squared_cdf(x, dof);
  if (std::isinf(x)) {
    VF_CHECK("infinite", v == 1., v);
    x = 1e300;
  }
  const double e = reference(0.5 * dof, 0.5 * x);
  VF_CHECK("in_range", v >= 0. && v <= 1., v);
  if (!std::isinf(2. * x))
    VF_CHECK("value", std::fabs(chi_squared_cdf(x, dof) - e) <= tol,
             v << " expected " << e);
  if (integer) {
    c.count("integer_dof");
    const double w = chi_squared_cdf(x, dof);
    VF_CHECK("int", chi_squared_cdf(x, static_cast<int>(dof)) == w, "");
    VF_CHECK("size_t", chi_squared_cdf(x, static_cast<std::size_t>(dof)) == w, "");
    VF_CHECK("index", chi_squared_cdf(x, static_cast<Eigen::Index>(dof)) == w, "");
    VF_CHECK("unsigned", chi_squared_cdf(x, static_cast<unsigned>(dof)) == w, "");
    const double variance = g.log_uniform(1e-6, 1e6);
    const double z = std::fabs(g.normal()) * 3.;
    const double deviation = (g.coin() ? 1. : -1.) * std::sqrt(variance) * z;
    VF_CHECK("scaled",
             std::fabs(chi_squared_cdf(deviation, variance,
                                       static_cast<std::size_t>(dof)) -
                       reference(0.5 * dof, 0.5 * deviation * deviation / variance)) <=
                 tol + 1e-9,
             "deviation " << deviation << " variance " << variance);
  }
  VF_CHECK("negative", std::isnan(chi_squared_cdf(-std::max(x, 1e-300), dof)), "");
  VF_CHECK("nan", std::isnan(chi_squared_cdf(NAN, dof)), "");
  VF_CHECK("at_zero", chi_squared_cdf(0., dof) == 0., "");
  VF_CHECK("at_infinity", chi_squared_cdf(INFINITY, dof) == 1., "");
  VF_CHECK("no_freedom", chi_squared_cdf(x, 0.) == 1., "");
}

// One and two degrees of freedom have elementary forms.
VF_SECTION("elementary_forms", 600, 20000) {
  auto &g = c.rng;
  const double x = g.coin() ? g.log_uniform(1e-12, 1e4) : g.uniform(0., 80.);
  c.desc << std::setprecision(17) << x;
  c.reached();
  VF_CHECK("one", std::fabs(chi_squared_cdf(x, 1) - std::erf(std::sqrt(0.5 * x))) <= 1e-6,
           x);
  VF_CHECK("two", std::fabs(chi_squared_cdf(x, 2) + std::expm1(-0.5 * x)) <= 1e-6, x);
  // four: 1 - exp(-x/2) (1 + x/2)
  VF_CHECK("four",
           std::fabs(chi_squared_cdf(x, 4) -
                     (1. - std::exp(-0.5 * x) * (1. + 0.5 * x))) <= 1e-6,
           x);
}

// The distance of a vector under a covariance is that of the whitened vector.
VF_SECTION("chi_squared_vector", 800, 20000) {
  auto &g = c.rng;
  const auto n = static_cast<Eigen::Index>(g.size(1, 7));
  Eigen::MatrixXd l = Eigen::MatrixXd::Zero(n, n);
  for (Eigen::Index i = 0; i < n; ++i) {
    l(i, i) = g.uniform(0.5, 2.);
    for (Eigen::Index j = 0; j < i; ++j)
      l(i, j) = g.uniform(-1., 1.);
  }
  const double scale = g.log_uniform(1e-4, 1e4);
  // variables in units of their own, in some cases very different ones
  const bool mixed = g.coin();
  Eigen::VectorXd units(n);
  for (Eigen::Index i = 0; i < n; ++i)
    units[i] = mixed ? scale * g.log_uniform(1e-6, 1e6) : scale;
  l = units.asDiagonal() * l;
  Eigen::VectorXd z(n);
  for (Eigen::Index i = 0; i < n; ++i)
    z[i] = g.normal() * g.uniform(0.1, 2.5);
  std::vector<Eigen::Index> perm(static_cast<std::size_t>(n));
  for (std::size_t i = 0; i < perm.size(); ++i)
    perm[i] = static_cast<Eigen::Index>(i);
  g.shuffle(perm);
  Eigen::VectorXd d(n), unit(n);
  Eigen::MatrixXd cov(n, n);
  const Eigen::VectorXd d0 = l * z;
  const Eigen::MatrixXd cov0 = l * l.transpose();
  for (Eigen::Index i = 0; i < n; ++i) {
    d[i] = d0[perm[static_cast<std::size_t>(i)]];
    unit[i] = units[perm[static_cast<std::size_t>(i)]];
    for (Eigen::Index j = 0; j < n; ++j)
      cov(i, j) = cov0(perm[static_cast<std::size_t>(i)], perm[static_cast<std::size_t>(j)]);
  }
  const Eigen::VectorXd d_copy = d;
  const Eigen::MatrixXd cov_copy = cov;
  const double e = reference(0.5 * static_cast<double>(n), 0.5 * z.squaredNorm());
  c.desc << "n " << n << " scale " << scale << " mixed " << mixed << " z " << vf::str(z.transpose());
  c.reached();
  const double v = chi_squared_cdf(d, cov);
  VF_CHECK("value", std::fabs(v - e) <= 2e-6, v << " expected " << e);
  VF_CHECK("untouched", d == d_copy && cov == cov_copy, "");
  VF_CHECK("sign", std::fabs(chi_squared_cdf(Eigen::VectorXd(-d), cov) - v) <= 1e-9, "");
  // split the covariance into that of a prediction and that of the truth
  Eigen::VectorXd extra(n);
  for (Eigen::Index i = 0; i < n; ++i)
    extra[i] = g.uniform(0., 0.05) * unit[i] * unit[i];
  Eigen::MatrixXd predicted = cov;
  predicted.diagonal() -= extra;
  Eigen::VectorXd mean(n);
  for (Eigen::Index i = 0; i < n; ++i)
    mean[i] = g.normal() * unit[i];
  const JointDistribution prediction(Eigen::VectorXd(mean + d), predicted);
  const MarginalDistribution truth(mean, extra);
  const double metric = ChiSquaredCdf()(prediction, truth);
  VF_CHECK("metric", std::fabs(metric - e) <= 2e-6, metric << " expected " << e);
}

VF_SECTION("gaussian", 2000, 100000) {
  auto &g = c.rng;
  const double variance = g.coin() ? g.log_uniform(1e-3, 1e3) : g.log_uniform(1e-200, 1e200);
  const double z = g.coin(0.7) ? g.normal() * 2. : g.uniform(-40., 40.);
  const double d = g.coin(0.05) ? 0. : z * std::sqrt(variance);
  c.desc << std::setprecision(17) << "d " << d << " variance " << variance;
  c.reached();
  const long double q = static_cast<long double>(d) * d / (2.L * variance);
  const long double e = -q - 0.5L * std::log(2.L * 3.141592653589793238462643L * variance);
  VF_CLOSE("log_pdf", gaussian::log_pdf(d, variance), static_cast<double>(e), 1e-13, 1e-11);
  if (q < 690.L) // beyond, the exponential is denormal before it is scaled
    VF_CLOSE("pdf", gaussian::pdf(d, variance), static_cast<double>(std::exp(e)), 1e-10, 1e-300);
  VF_CHECK("even", gaussian::pdf(d, variance) == gaussian::pdf(-d, variance) &&
                       gaussian::log_pdf(d, variance) == gaussian::log_pdf(-d, variance),
           "");
  VF_CHECK("mode", gaussian::log_pdf(0., variance) >= gaussian::log_pdf(d, variance), "");
  VF_CLOSE("negative_log_likelihood", negative_log_likelihood(d, variance),
           -static_cast<double>(e), 1e-13, 1e-11);
}

// The statistic is the largest distance between the empirical distribution
// and the uniform one, on either side of a jump.
VF_SECTION("uniform_statistic", 1200, 40000) {
  auto &g = c.rng;
  const std::size_t n = g.coin(0.1) ? 1 : g.size(1, g.coin(0.2) ? 400 : 12);
  const int kind = static_cast<int>(g.integer(0, 4));
  std::vector<double> s;
  for (std::size_t i = 0; i < n; ++i) {
    double v = g.u();
    if (kind == 1)
      v = std::floor(v * 4.) / 4.; // ties
    if (kind == 2)
      v = v * v * v;
    if (kind == 3)
      v = 0.9 + 0.1 * v;
    if (kind == 4)
      v = g.pick(std::vector<double>{0., 1., 0.5, v});
    s.push_back(v);
  }
  c.desc << "n " << n << " kind " << kind << " "
         << vf::hash_bytes(s.data(), s.size() * sizeof(double));
  c.reached();
  double expected = 0.;
  for (const double x : s) {
    double below = 0., upto = 0.;
    for (const double y : s) {
      below += y < x;
      upto += y <= x;
    }
    expected = std::max(expected, std::fabs(below / static_cast<double>(n) - x));
    expected = std::max(expected, std::fabs(upto / static_cast<double>(n) - x));
  }
  const std::vector<double> copy = s;
  const double v = uniform_ks_test(s);
  VF_CLOSE("value", v, expected, 1e-12, 1e-14);
  VF_CHECK("untouched", copy == s, "");
  VF_CHECK("in_range", v >= 0.5 / static_cast<double>(n) - 1e-12 && v <= 1., v);
  std::vector<double> shuffled = s;
  g.shuffle(shuffled);
  VF_CHECK("order", uniform_ks_test(shuffled) == v, "");
  c.count("samples", n);
}

VF_SECTION("chebyshev", 1200, 30000) {
  auto &g = c.rng;
  const Eigen::Index n = g.coin(0.5) ? g.integer(0, 5) : g.integer(0, 80);
  const Eigen::Index m = g.coin(0.05) ? 0 : g.integer(1, 9);
  Eigen::ArrayXd x(m);
  for (Eigen::Index i = 0; i < m; ++i)
    x[i] = g.coin(0.25) ? g.pick(std::vector<double>{-1., 1., 0., 0.5, -0.5, 1. - 1e-12})
                        : g.uniform(-1., 1.);
  c.desc << "n " << n << " at " << vf::str(x.transpose());
  c.reached();
  const Eigen::ArrayXd copy = x;
  const Eigen::ArrayXd t = chebyshev_t(n, x);
  const Eigen::ArrayXd u = chebyshev_u(n, x);
  const Eigen::ArrayXXd tp = chebyshev_t_phi(n, x);
  const Eigen::ArrayXXd up = chebyshev_u_phi(n, x);
  VF_REQUIRE("size", t.size() == m && u.size() == m && tp.rows() == m && up.rows() == m &&
                         tp.cols() == n + 1 && up.cols() == n + 1,
             "");
  VF_CHECK("untouched", (x == copy).all(), "");
  if (m == 0) {
    c.count("no_locations");
    return;
  }
  const double nn = static_cast<double>(n) + 1.;
  for (Eigen::Index i = 0; i < m; ++i) {
    const long double theta = std::acos(static_cast<long double>(x[i]));
    const long double s = std::sin(theta);
    VF_CLOSE("first_kind", t[i], static_cast<double>(std::cos(n * theta)), 0.,
             2e-15 * nn * nn + 1e-14);
    long double a = 1.L, b = 2.L * x[i], value = n == 0 ? a : b;
    for (Eigen::Index k = 2; k <= n; ++k) {
      value = 2.L * x[i] * b - a;
      a = b;
      b = value;
    }
    VF_CLOSE("second_kind", u[i], static_cast<double>(value), 0., 2e-15 * nn * nn * nn + 1e-14);
    if (s > 0.05L)
      VF_CLOSE("second_kind_sine", u[i], static_cast<double>(std::sin((n + 1) * theta) / s), 0.,
               1e-13 * nn * nn + 1e-13);
    for (Eigen::Index k = 0; k <= n; ++k) {
      VF_CLOSE("first_basis", tp(i, k), static_cast<double>(std::cos(k * theta)), 0.,
               2e-15 * nn * nn + 1e-14);
      if (k == n)
        VF_CLOSE("second_basis_last", up(i, k), u[i], 1e-12, 1e-12);
      if (s > 0.05L)
        VF_CLOSE("second_basis", up(i, k),
                 static_cast<double>(std::sin((k + 1) * theta) / s), 0., 1e-13 * nn * nn + 1e-13);
    }
    VF_CHECK("bounded", std::fabs(t[i]) <= 1. + 2e-15 * nn * nn + 1e-14, t[i]);
  }
  if (c.index < 24) {
    VF_ABORTS("negative_degree", chebyshev_t(-1 - n, x));
    VF_ABORTS("negative_degree", chebyshev_u(-1 - n, x));
    VF_ABORTS("negative_degree", chebyshev_t_phi(-1 - n, x));
    VF_ABORTS("negative_degree", chebyshev_u_phi(-1 - n, x));
  }
}

} // namespace
