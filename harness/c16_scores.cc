// C16: scores and distances of predictions against their definitions.
#include <albatross/Evaluation>

#include "gp_oracle.h"
#include "vf.h"

using namespace albatross;
using vfgp::LM;
using vfgp::LV;

namespace {

struct Shape {
  Eigen::VectorXd mean;
  Eigen::MatrixXd l, cov; // cov = l l^T
};

Eigen::MatrixXd rotation(vf::Rng &g, Eigen::Index n) {
  Eigen::MatrixXd q = Eigen::MatrixXd::Identity(n, n);
  for (int k = 0; k < 3 * n; ++k) {
    const Eigen::Index i = g.integer(0, n - 1), j = g.integer(0, n - 1);
    if (i == j)
      continue;
    const double a = g.uniform(0., 6.283);
    for (Eigen::Index r = 0; r < n; ++r) {
      const double x = q(r, i), y = q(r, j);
      q(r, i) = std::cos(a) * x - std::sin(a) * y;
      q(r, j) = std::sin(a) * x + std::cos(a) * y;
    }
  }
  return q;
}

// scores must not depend on the unit that is used
double some_scale(vf::Rng &g) {
  return g.coin(0.3) ? g.log_uniform(1e-12, 1e12) : g.log_uniform(1e-3, 1e3);
}

// eigenvalues between scale/spread and scale
Shape draw(vf::Rng &g, Eigen::Index n, double spread, double scale, Eigen::Index rank) {
  Shape s;
  s.l = rotation(g, n);
  for (Eigen::Index i = 0; i < n; ++i) {
    const double e = i < rank ? std::sqrt(scale * g.log_uniform(1. / spread, 1.)) : 0.;
    s.l.col(i) *= e;
  }
  if (g.coin(0.2)) { // no correlation
    for (Eigen::Index i = 0; i < n; ++i)
      for (Eigen::Index j = 0; j < n; ++j)
        if (i != j)
          s.l(i, j) = 0.;
        else if (s.l(i, i) == 0. && rank == n)
          s.l(i, i) = std::sqrt(scale);
  }
  s.cov = s.l * s.l.transpose();
  s.cov = 0.5 * (s.cov + s.cov.transpose()).eval();
  s.mean.resize(n);
  const double m = g.pick(std::vector<double>{0., 1., 10.}) * std::sqrt(scale);
  for (Eigen::Index i = 0; i < n; ++i)
    s.mean[i] = m * g.normal();
  return s;
}

// eigenvalues of a symmetric matrix by Jacobi rotations in long double
std::vector<long double> eigenvalues(LM a) {
  const std::size_t n = a.r;
  for (int sweep = 0; sweep < 60; ++sweep) {
    long double off = 0.L, on = 0.L;
    for (std::size_t i = 0; i < n; ++i)
      for (std::size_t j = 0; j < n; ++j)
        (i == j ? on : off) += a(i, j) * a(i, j);
    if (off <= 1e-38L * on || off == 0.L)
      break;
    for (std::size_t p = 0; p < n; ++p)
      for (std::size_t q = p + 1; q < n; ++q) {
        if (a(p, q) == 0.L)
          continue;
        const long double theta = (a(q, q) - a(p, p)) / (2.L * a(p, q));
        const long double t = (theta >= 0.L ? 1.L : -1.L) /
                              (std::fabs(theta) + std::sqrt(theta * theta + 1.L));
        const long double co = 1.L / std::sqrt(t * t + 1.L), si = t * co;
        for (std::size_t k = 0; k < n; ++k) {
          const long double x = a(k, p), y = a(k, q);
          a(k, p) = co * x - si * y;
          a(k, q) = si * x + co * y;
        }
        for (std::size_t k = 0; k < n; ++k) {
          const long double x = a(p, k), y = a(q, k);
          a(p, k) = co * x - si * y;
          a(q, k) = si * x + co * y;
        }
      }
  }
  std::vector<long double> e;
  for (std::size_t i = 0; i < n; ++i)
    e.push_back(a(i, i));
  return e;
}

std::string tell(const Shape &s) {
  std::ostringstream o;
  o << std::setprecision(17) << "mean " << s.mean.transpose() << " cov "
    << vf::hash_bytes(s.cov.data(), 8 * static_cast<std::size_t>(s.cov.size()));
  return o.str();
}

VF_SECTION("errors", 800, 30000) {
  auto &g = c.rng;
  const Eigen::Index n = g.coin(0.1) ? 0 : g.integer(1, g.coin(0.1) ? 60 : 8);
  const double scale = some_scale(g);
  Eigen::VectorXd p(n), t(n), v(n);
  for (Eigen::Index i = 0; i < n; ++i) {
    p[i] = scale * g.normal();
    t[i] = scale * g.normal();
    v[i] = g.uniform(0., 3.);
  }
  // an offset between the two, and one which both have
  double offset = 0.;
  if (g.coin(0.4)) {
    offset = scale * g.log_uniform(1., 1e9) * (g.coin() ? 1. : -1.);
    p.array() += offset;
    if (g.coin(0.4))
      t.array() += offset;
    c.count("with_an_offset");
  }
  const bool same = g.coin(0.1);
  if (same)
    t = p;
  c.desc << "n " << n << " " << vf::str(p.transpose()) << " | " << vf::str(t.transpose());
  c.reached();
  long double ss = 0.L, sum = 0.L, dev = 0.L;
  for (Eigen::Index i = 0; i < n; ++i) {
    const long double d = static_cast<long double>(p[i]) - t[i];
    ss += d * d;
    sum += d;
  }
  for (Eigen::Index i = 0; i < n; ++i) {
    const long double d = static_cast<long double>(p[i]) - t[i] - sum / n;
    dev += d * d;
  }
  const MarginalDistribution truth(t, v);
  const MarginalDistribution exact(t);
  const Eigen::VectorXd p0 = p;
  if (n == 0) {
    c.count("empty");
    VF_CHECK("empty_deviation", std::isnan(standard_deviation(p, t)), "");
    return;
  }
  const double rmse = static_cast<double>(std::sqrt(ss / n));
  const double sd = n == 1 ? 0. : static_cast<double>(std::sqrt(dev / (n - 1)));
  const double tol = 1e-13 * scale + 1e-15 * static_cast<double>(n) * std::fabs(offset);
  VF_CLOSE("rmse", root_mean_square_error(p, t), rmse, 1e-12, tol);
  VF_CLOSE("rmse_metric", RootMeanSquareError()(p, truth), rmse, 1e-12, tol);
  VF_CLOSE("rmse_metric", RootMeanSquareError()(p, exact), rmse, 1e-12, tol);
  VF_CLOSE("rmse_symmetric", root_mean_square_error(t, p), rmse, 1e-12, tol);
  VF_CLOSE("deviation", standard_deviation(p, t), sd, 1e-11, tol);
  VF_CLOSE("deviation_metric", StandardDeviation()(p, truth), sd, 1e-11, tol);
  VF_CLOSE("deviation_vector", standard_deviation(Eigen::VectorXd(p - t)), sd, 1e-11, tol);
  VF_CHECK("bias", rmse * rmse * static_cast<double>(n) + 1e-9 * scale * scale +
                       1e-9 * rmse * rmse >=
                       sd * sd * static_cast<double>(n - 1),
           "");
  if (same)
    VF_CHECK("identical", root_mean_square_error(p, t) == 0. && standard_deviation(p, t) == 0.,
             "");
  VF_CHECK("untouched", p == p0, "");
}

VF_SECTION("entropy", 600, 20000) {
  auto &g = c.rng;
  const Eigen::Index n = g.wide(1, 9, 60);
  const double scale = some_scale(g);
  const Shape s = draw(g, n, g.log_uniform(1., 1e4), scale, n);
  c.desc << "n " << n << " " << tell(s);
  c.reached();
  const LM a = vfgp::from_eigen(s.cov);
  const long double expected =
      0.5L * (n * (1.L + std::log(2.L * 3.141592653589793238462643L)) + vfgp::log_det(a));
  const Eigen::LDLT<Eigen::MatrixXd> ldlt(s.cov);
  VF_CLOSE("matrix", differential_entropy(s.cov), static_cast<double>(expected), 1e-9, 1e-9);
  VF_CLOSE("decomposition", differential_entropy(ldlt), static_cast<double>(expected), 1e-9, 1e-9);
  VF_CLOSE("log_determinant", log_determinant_of_symmetric(ldlt),
           static_cast<double>(vfgp::log_det(a)), 1e-9, 1e-9);
  // two independent parts have the sum of the entropies
  const Eigen::Index m = g.integer(1, 4);
  const Shape other = draw(g, m, 100., scale * g.log_uniform(0.01, 100.), m);
  Eigen::MatrixXd both = Eigen::MatrixXd::Zero(n + m, n + m);
  both.topLeftCorner(m, m) = other.cov;
  both.bottomRightCorner(n, n) = s.cov;
  VF_CLOSE("independent_parts", differential_entropy(both),
           differential_entropy(s.cov) + differential_entropy(other.cov), 1e-9, 1e-9);
  const double k = g.log_uniform(1e-3, 1e3);
  VF_CLOSE("scaled", differential_entropy(Eigen::MatrixXd(k * s.cov)),
           static_cast<double>(expected) + 0.5 * static_cast<double>(n) * std::log(k), 1e-9, 1e-9);
}

// ---- CRPS: integral of (F(x) - [x >= y])^2
double crps_integral(double mu, double sigma, double y) {
  auto f = [&](long double x) {
    return 0.5L * std::erfc(-(x - mu) / (sigma * std::sqrt(2.L)));
  };
  auto piece = [&](long double a, long double b, bool above) {
    const int n = 4000;
    const long double h = (b - a) / n;
    long double s = 0.L;
    for (int i = 0; i <= n; ++i) {
      const long double v = f(a + i * h) - (above ? 1.L : 0.L);
      s += v * v * (i == 0 || i == n ? 1.L : i % 2 ? 4.L : 2.L);
    }
    return s * h / 3.L;
  };
  const long double lo = mu - 12.L * sigma, hi = mu + 12.L * sigma;
  long double total = 0.L;
  if (y < lo)
    return static_cast<double>((lo - y) + piece(lo, hi, true));
  if (y > hi)
    return static_cast<double>((y - hi) + piece(lo, hi, false));
  total = piece(lo, y, false) + piece(y, hi, true);
  return static_cast<double>(total);
}

VF_SECTION("crps", 500, 15000) {
  auto &g = c.rng;
  const double scale = some_scale(g);
  const double mu = scale * g.normal() * g.pick(std::vector<double>{0., 1., 10.});
  const double sigma = scale * g.log_uniform(1e-2, 1e2);
  const double y = mu + sigma * g.normal() * g.pick(std::vector<double>{0., 1., 1., 4., 20.});
  c.desc << std::setprecision(17) << "mu " << mu << " sigma " << sigma << " y " << y;
  c.reached();
  const double v = score::crps_normal(mu, sigma, y);
  const double e = crps_integral(mu, sigma, y);
  VF_CLOSE("value", v, e, 1e-9, 1e-9 * sigma);
  VF_CHECK("positive", v > 0., v);
  VF_CLOSE("mirror", score::crps_normal(-mu, sigma, -y), v, 1e-12, 1e-13 * sigma);
  const double shift = scale * g.normal(), k = g.log_uniform(1e-3, 1e3);
  VF_CLOSE("shift", score::crps_normal(mu + shift, sigma, y + shift), v, 1e-9,
           1e-13 * (sigma + std::fabs(mu) + std::fabs(shift)));
  VF_CLOSE("scale", score::crps_normal(k * mu, k * sigma, k * y), k * v, 1e-9, 1e-12 * k * (sigma + std::fabs(mu)));
  VF_CLOSE("point_mass", score::crps_normal(mu, 0., y), std::fabs(y - mu), 1e-14, 0.);
  VF_CHECK("not_finite", std::isnan(score::crps_normal(NAN, sigma, y)) &&
                             std::isnan(score::crps_normal(mu, INFINITY, y)) &&
                             std::isnan(score::crps_normal(mu, sigma, -INFINITY)),
           "");
  // proper: the expected score is best for the true distribution
  const double mu2 = mu + sigma * g.uniform(-2., 2.), sigma2 = sigma * g.log_uniform(0.3, 3.);
  double own = 0., other = 0.;
  const int n = 200;
  for (int i = 0; i <= n; ++i) {
    const double z = -8. + 16. * i / n;
    const double w = std::exp(-0.5 * z * z) / std::sqrt(2. * M_PI) * 16. / n;
    own += w * score::crps_normal(mu, sigma, mu + sigma * z);
    other += w * score::crps_normal(mu2, sigma2, mu + sigma * z);
  }
  VF_CHECK("proper", own <= other + 1e-9 * sigma, own << " and " << other);
}

// ---- Energy score: E|w (X - y)| - E|w (X - X')| / 2
struct Estimate {
  double value, tolerance;
};

Estimate energy_reference(vf::Rng &g, const Eigen::VectorXd &mean, const Eigen::MatrixXd &l,
                          const Eigen::VectorXd &truth, const Eigen::VectorXd &w,
                          Eigen::Index library_samples) {
  const int n = 4000;
  double s1 = 0., s11 = 0., s2 = 0., s22 = 0.;
  Eigen::VectorXd z(l.cols()), z2(l.cols());
  for (int i = 0; i < n; ++i) {
    for (Eigen::Index k = 0; k < z.size(); ++k) {
      z[k] = g.normal();
      z2[k] = g.normal();
    }
    const double a = (mean + l * z - truth).cwiseProduct(w).norm();
    const double b = (l * (z - z2)).cwiseProduct(w).norm();
    s1 += a;
    s11 += a * a;
    s2 += b;
    s22 += b * b;
  }
  s1 /= n;
  s2 /= n;
  const double v1 = std::max(0., s11 / n - s1 * s1), v2 = std::max(0., s22 / n - s2 * s2);
  const double m = static_cast<double>(library_samples);
  // worst case of the library's estimate: the antithetic halves carry no
  // information of their own
  const double se = std::sqrt(v1 / n) + 0.5 * std::sqrt(v2 / n) + std::sqrt(v1 / m) +
                    0.5 * std::sqrt(2. * v2 / m);
  return {s1 - 0.5 * s2, 7. * se};
}

VF_SECTION("energy", 260, 6000) {
  auto &g = c.rng;
  const Eigen::Index n = g.integer(1, 6);
  const double scale = some_scale(g);
  const Shape s = draw(g, n, g.coin() ? 1.5 : g.log_uniform(10., 1e4), scale * scale, n);
  Eigen::VectorXd truth(n), w(n);
  for (Eigen::Index i = 0; i < n; ++i) {
    truth[i] = s.mean[i] + scale * g.normal() * g.pick(std::vector<double>{0., 0.3, 3.});
    w[i] = g.pick(std::vector<double>{0., 0.1, 1., 5.}) * g.uniform(0.5, 1.5);
  }
  if (w.maxCoeff() <= 0.)
    w[0] = 1.;
  const bool weighted = g.coin();
  const Eigen::VectorXd used = weighted ? w : Eigen::VectorXd::Ones(n);
  const auto seed = static_cast<unsigned>(g.integer(0, 1 << 30));
  const Eigen::Index samples = g.pick(std::vector<Eigen::Index>{600, 1000, 1501});
  const JointDistribution p(s.mean, s.cov);
  c.desc << "n " << n << " " << tell(s) << " weighted " << weighted << " samples " << samples
         << " seed " << seed;
  c.reached();
  const Eigen::VectorXd *wp = weighted ? &w : nullptr;
  const double es = score::energy_score(p, truth, wp, seed, samples);
  VF_CHECK("not_negative", es >= 0. && std::isfinite(es), es);
  const Estimate e = energy_reference(g, s.mean, s.l, truth, used, samples);
  VF_CHECK("value", std::fabs(es - e.value) <= e.tolerance,
           es << " expected " << e.value << " within " << e.tolerance);
  c.count("energy_samples", static_cast<std::uint64_t>(samples));
  VF_CHECK("reproducible", score::energy_score(p, truth, wp, seed, samples) == es, "");
  VF_CHECK("default_weights",
           weighted || [&]() {
             const Eigen::VectorXd ones = Eigen::VectorXd::Ones(n);
             return vf::close(score::energy_score(p, truth, &ones, seed, samples), es, 1e-12, 1e-300);
           }(),
           "");
  // one dimension: the CRPS
  if (n == 1) {
    c.count("one_dimension");
    const double crps = used[0] * score::crps_normal(s.mean[0], std::sqrt(s.cov(0, 0)), truth[0]);
    VF_CHECK("crps", std::fabs(es - crps) <= e.tolerance, es << " and " << crps);
  }
  // same seed: exact laws
  const double k = g.log_uniform(0.01, 100.);
  const JointDistribution scaled(Eigen::VectorXd(k * s.mean), Eigen::MatrixXd(k * k * s.cov));
  VF_CLOSE("scaled", score::energy_score(scaled, Eigen::VectorXd(k * truth), wp, seed, samples),
           k * es, 1e-6, 1e-9 * k * scale);
  Eigen::VectorXd kw = k * used;
  VF_CLOSE("scaled_weights", score::energy_score(p, truth, &kw, seed, samples), k * es, 1e-9,
           1e-10 * k * scale);
  Eigen::VectorXd shift(n);
  for (Eigen::Index i = 0; i < n; ++i)
    shift[i] = 10. * scale * g.normal();
  VF_CLOSE("shifted",
           score::energy_score(JointDistribution(Eigen::VectorXd(s.mean + shift), s.cov),
                               Eigen::VectorXd(truth + shift), wp, seed, samples),
           es, 1e-6, 1e-9 * scale);
  // an uncertain truth adds to the predicted covariance
  Eigen::VectorXd noise(n);
  for (Eigen::Index i = 0; i < n; ++i)
    noise[i] = scale * scale * g.uniform(0., 2.);
  Eigen::MatrixXd inflated = s.cov;
  inflated.diagonal() += noise;
  VF_CLOSE("uncertain_truth",
           score::energy_score(p, MarginalDistribution(truth, noise), wp, seed, samples),
           score::energy_score(JointDistribution(s.mean, inflated), truth, wp, seed, samples),
           1e-12, 1e-300);
  VF_CHECK("untouched", p.covariance == s.cov && p.mean == s.mean, "");
  // few samples are noisy, but never negative
  for (Eigen::Index m : {2, 3, 4})
    VF_CHECK("few_samples", score::energy_score(p, truth, wp, seed + 1, m) >= 0., m);
  if (c.index < 16) {
    VF_ABORTS("too_few_samples", score::energy_score(p, truth, wp, seed, 1));
    VF_ABORTS("wrong_size", score::energy_score(p, Eigen::VectorXd(Eigen::VectorXd::Zero(n + 1)), nullptr, seed, 10));
  }
}

// Two correlated pairs which only differ in the sign of the correlation.
VF_SECTION("energy_correlation", 60, 1500) {
  auto &g = c.rng;
  const double a = g.log_uniform(0.2, 1.), b = g.log_uniform(2., 6.), r = g.uniform(0.9, 0.98);
  for (double sign : {1., -1.}) {
    const double rho = sign * r;
    Eigen::MatrixXd l(2, 2);
    // the larger variance last: the decomposition pivots
    l << a, 0., b * rho, b * std::sqrt(1. - rho * rho);
    const Eigen::MatrixXd cov = l * l.transpose();
    Eigen::VectorXd mean = Eigen::VectorXd::Zero(2), truth(2), w = Eigen::VectorXd::Ones(2);
    truth << g.uniform(1., 3.) * a, 0.;
    w[1] = a / b;
    c.desc << std::setprecision(17) << cov(0, 0) << " " << cov(0, 1) << " " << cov(1, 1) << "; ";
    c.reached();
    const double es = score::energy_score(JointDistribution(mean, cov), truth, &w, 7, 3000);
    const Estimate e = energy_reference(g, mean, l, truth, w, 3000);
    VF_CHECK("value", std::fabs(es - e.value) <= e.tolerance,
             es << " expected " << e.value << " within " << e.tolerance);
    // a permutation of the entries does not matter beyond sampling
    Eigen::MatrixXd swapped(2, 2);
    swapped << cov(1, 1), cov(0, 1), cov(0, 1), cov(0, 0);
    const Eigen::VectorXd t2 = truth.reverse(), w2 = w.reverse();
    VF_CHECK("permuted",
             std::fabs(score::energy_score(JointDistribution(mean, swapped), t2, &w2, 7, 3000) -
                       e.value) <= e.tolerance,
             "");
  }
}

// ---- Variogram score, over the pairs i < j
VF_SECTION("variogram", 900, 30000) {
  auto &g = c.rng;
  const Eigen::Index n = g.coin(0.1) ? 1 : g.integer(2, 8);
  const double scale = some_scale(g);
  const Eigen::Index rank = g.coin(0.3) ? g.integer(0, n) : n;
  Shape s = draw(g, n, g.log_uniform(1., 1e4), scale * scale, rank);
  if (g.coin(0.2) && n > 1) { // two perfectly correlated entries
    s.l.row(1) = s.l.row(0);
    s.cov = s.l * s.l.transpose();
    s.mean[1] = s.mean[0] + (g.coin() ? 0. : scale);
    c.count("perfectly_correlated");
  }
  Eigen::VectorXd truth(n);
  Eigen::MatrixXd w(n, n);
  for (Eigen::Index i = 0; i < n; ++i) {
    truth[i] = s.mean[i] + scale * g.normal() * g.pick(std::vector<double>{0., 0.3, 3.});
    for (Eigen::Index j = 0; j <= i; ++j)
      w(i, j) = w(j, i) = g.pick(std::vector<double>{0., 0.1, 1., 5.}) * g.uniform(0.5, 1.5);
  }
  const bool weighted = g.coin();
  // of the weights of (i, j) and (j, i) the one with i < j counts
  const bool one_sided = weighted && g.coin(0.3);
  if (one_sided) {
    c.count("one_sided_weights");
    for (Eigen::Index i = 0; i < n; ++i)
      for (Eigen::Index j = 0; j < i; ++j)
        w(i, j) = g.coin() ? 0. : g.uniform(0., 5.);
  }
  const bool uncertain = g.coin(0.3);
  const bool squares = g.coin();
  Eigen::VectorXd noise(n);
  for (Eigen::Index i = 0; i < n; ++i)
    noise[i] = uncertain ? scale * scale * g.uniform(0., 2.) : 0.;
  const JointDistribution p(s.mean, s.cov);
  c.desc << "n " << n << " rank " << rank << " " << tell(s) << " weighted " << weighted
         << " uncertain " << uncertain << (squares ? " variogram" : " madogram");
  c.reached();
  long double expected = 0.L, size = 0.L;
  for (Eigen::Index i = 0; i < n; ++i)
    for (Eigen::Index j = i + 1; j < n; ++j) {
      const long double mu = static_cast<long double>(s.mean[i]) - s.mean[j];
      const long double var = std::max(0.L, static_cast<long double>(s.cov(i, i)) + s.cov(j, j) -
                                                2.L * s.cov(i, j)) +
                              noise[i] + noise[j];
      const long double sd = std::sqrt(var);
      long double m;
      if (squares)
        m = mu * mu + var;
      else if (sd == 0.L)
        m = std::fabs(mu);
      else
        m = sd * std::sqrt(2.L / 3.141592653589793238462643L) * std::exp(-0.5L * mu * mu / var) +
            std::fabs(mu) * std::erf(std::fabs(mu) / (sd * std::sqrt(2.L)));
      const long double d = std::fabs(static_cast<long double>(truth[i]) - truth[j]);
      const long double e = (squares ? d * d : d) - m;
      expected += (weighted ? w(i, j) : 1.L) * e * e;
      size += (weighted ? w(i, j) : 1.L) * (m * m + (squares ? d * d * d * d : d * d));
    }
  const auto order = squares ? score::VariogramScoreOrder::cVariogram
                             : score::VariogramScoreOrder::cMadogram;
  const Eigen::MatrixXd *wp = weighted ? &w : nullptr;
  const double v = uncertain
                       ? score::variogram_score(p, MarginalDistribution(truth, noise), wp, order)
                       : score::variogram_score(p, truth, wp, order);
  VF_CHECK("not_negative", v >= 0. && std::isfinite(v), v);
  const double tol = 1e-7 * static_cast<double>(size) +
                     1e-7 * (squares ? std::pow(scale, 4.) : scale * scale);
  VF_CLOSE("value", v, static_cast<double>(expected), 1e-7, tol);
  if (!weighted) {
    const Eigen::MatrixXd ones = Eigen::MatrixXd::Ones(n, n);
    VF_CLOSE("default_weights", score::variogram_score(p, truth, &ones, order),
             score::variogram_score(p, truth, nullptr, order), 1e-12, 1e-300);
    if (!squares && !uncertain)
      VF_CHECK("default_order", score::variogram_score(p, truth) == v, "");
  }
  if (n == 1) {
    c.count("single_entry");
    VF_CHECK("no_pairs", v == 0., v);
  }
  // the order of the entries does not matter, nor a common shift
  Eigen::PermutationMatrix<Eigen::Dynamic> perm(n);
  const auto order_of = g.choose(static_cast<std::size_t>(n), static_cast<std::size_t>(n));
  for (Eigen::Index i = 0; i < n; ++i)
    perm.indices()[i] = static_cast<int>(order_of[static_cast<std::size_t>(i)]);
  const Eigen::MatrixXd pw = perm * w * perm.transpose();
  const JointDistribution pp(Eigen::VectorXd((perm * s.mean).array() + scale),
                             Eigen::MatrixXd(perm * s.cov * perm.transpose()));
  const Eigen::VectorXd pt = (perm * truth).array() + scale;
  const Eigen::VectorXd pn = perm * noise;
  if (!one_sided)
    VF_CLOSE("permuted",
           score::variogram_score(pp, MarginalDistribution(pt, pn), weighted ? &pw : nullptr, order),
           static_cast<double>(expected), 1e-7, 2. * tol);
  if (c.index < 16)
    VF_ABORTS("wrong_weights",
              Eigen::MatrixXd bad = Eigen::MatrixXd::Ones(n + 1, n + 1);
              score::variogram_score(p, truth, &bad, order));
}

// ---- Wasserstein distance (squared)
VF_SECTION("wasserstein", 900, 30000) {
  auto &g = c.rng;
  const Eigen::Index n = g.wide(1, 7, 30);
  const double scale = some_scale(g);
  const Eigen::Index ra = g.coin(0.35) ? g.integer(0, n) : n;
  const Eigen::Index rb = g.coin(0.35) ? g.integer(0, n) : n;
  const Shape a = draw(g, n, g.log_uniform(1., 1e6), scale * scale, ra);
  Shape b = draw(g, n, g.log_uniform(1., 1e6), scale * scale * g.log_uniform(0.01, 100.), rb);
  if (g.coin(0.15))
    b = a;
  if (ra < n || rb < n)
    c.count("singular");
  c.desc << "n " << n << " ranks " << ra << " " << rb << " a " << tell(a) << " b " << tell(b);
  c.reached();
  const JointDistribution da(a.mean, a.cov), db(b.mean, b.cov);
  const double w = distance::wasserstein_2(da, db);
  VF_CHECK("finite", std::isfinite(w), w);
  const double size = a.cov.trace() + b.cov.trace() + (a.mean - b.mean).squaredNorm();
  VF_CHECK("not_negative", w >= -1e-9 * size, w);
  // tr sqrt(sqrt(B) A sqrt(B)) is the sum of the roots of the eigenvalues of
  // (Lb^T La)(Lb^T La)^T
  const LM m = vfgp::mul(vfgp::transpose(vfgp::from_eigen(b.l)), vfgp::from_eigen(a.l));
  long double cross = 0.L;
  for (const long double e : eigenvalues(vfgp::mul(m, vfgp::transpose(m))))
    cross += std::sqrt(std::max(0.L, e));
  long double expected = a.cov.trace() + b.cov.trace() - 2.L * cross;
  for (Eigen::Index i = 0; i < n; ++i)
    expected += (static_cast<long double>(a.mean[i]) - b.mean[i]) *
                (static_cast<long double>(a.mean[i]) - b.mean[i]);
  VF_CLOSE("value", w, static_cast<double>(expected), 1e-6, 1e-6 * size);
  VF_CLOSE("symmetric", distance::wasserstein_2(db, da), w, 1e-6, 1e-6 * size);
  VF_CLOSE("itself", distance::wasserstein_2(da, da), 0., 0., 1e-6 * (a.cov.trace() + a.mean.squaredNorm() * 1e-6));
  // triangle inequality of the distance itself
  const Shape d = draw(g, n, 100., scale * scale, n);
  const JointDistribution dd(d.mean, d.cov);
  const double ab = std::sqrt(std::max(0., w));
  const double ad = std::sqrt(std::max(0., distance::wasserstein_2(da, dd)));
  const double db_ = std::sqrt(std::max(0., distance::wasserstein_2(dd, db)));
  VF_CHECK("triangle", ab <= ad + db_ + 1e-3 * std::sqrt(size + d.cov.trace()), ab << " " << ad << " " << db_);
  // a common rotation does not matter
  const Eigen::MatrixXd q = rotation(g, n);
  VF_CLOSE("rotated",
           distance::wasserstein_2(
               JointDistribution(Eigen::VectorXd(q * a.mean), Eigen::MatrixXd(q * a.cov * q.transpose())),
               JointDistribution(Eigen::VectorXd(q * b.mean), Eigen::MatrixXd(q * b.cov * q.transpose()))),
           w, 1e-5, 1e-5 * size);
}

} // namespace
