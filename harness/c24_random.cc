// C24: random helpers.  Statistical bounds are at least seven standard errors.
#include "vf.h"
#include <albatross/Core>
#include <albatross/Indexing>
#include <albatross/utils/RandomUtils>

using namespace albatross;

namespace {

void check_sample(vf::Case &c, const std::vector<std::size_t> &got,
                  std::size_t n, std::size_t low, std::size_t high) {
  VF_CHECK("size", got.size() == n, got.size() << " expected " << n);
  std::set<std::size_t> distinct(got.begin(), got.end());
  VF_CHECK("distinct", distinct.size() == got.size(), distinct.size());
  for (auto x : got)
    VF_CHECK("range", x >= low && x <= high, x);
}

VF_SECTION("without_replacement", 3000, 50000) {
  const std::size_t low = c.rng.coin() ? 0 : c.rng.size(0, 1000);
  const std::size_t choices = c.rng.coin(0.7) ? c.rng.size(1, 12)
                                              : c.rng.extent(1, 300, 5000);
  const std::size_t n = c.rng.coin(0.2) ? c.rng.pick(std::vector<std::size_t>{
                                              0, 1, choices - 1, choices})
                                        : c.rng.size(0, choices);
  const unsigned seed = static_cast<unsigned>(c.rng.next());
  c.desc << "n=" << n << " low=" << low << " choices=" << choices << " seed="
         << seed;
  std::default_random_engine gen(seed), again(seed);
  const auto got = randint_without_replacement(n, low, low + choices - 1, gen);
  check_sample(c, got, n, low, low + choices - 1);
  VF_CHECK("reproducible",
           got == randint_without_replacement(n, low, low + choices - 1, again),
           "");
  std::vector<std::string> xs;
  for (std::size_t i = 0; i < choices; ++i)
    xs.push_back("x" + std::to_string(i));
  std::default_random_engine g2(seed);
  const auto picked = random_without_replacement(xs, n, g2);
  VF_CHECK("pick_size", picked.size() == n, picked.size());
  std::set<std::string> p(picked.begin(), picked.end());
  VF_CHECK("pick_distinct", p.size() == n, p.size());
  for (const auto &x : picked)
    VF_CHECK("pick_member", std::find(xs.begin(), xs.end(), x) != xs.end(), x);
  if (n == choices)
    c.count("all_of_them");
  if (n > choices / 2 + 1 && n < choices)
    c.count("more_than_half");
  if (c.index < 6)
    VF_ABORTS("too_many",
              randint_without_replacement(choices + 1, low, low + choices - 1, gen));
  c.reached();
}

// Every element is as likely as any other, as is every pair.
VF_SECTION("equally_likely", 60, 600) {
  const std::size_t low = c.rng.size(0, 5);
  const std::size_t choices = c.rng.size(2, 9);
  const std::size_t n = c.rng.size(1, choices - 1);
  const unsigned seed = static_cast<unsigned>(c.rng.next());
  c.desc << "n=" << n << " low=" << low << " choices=" << choices << " seed="
         << seed;
  std::default_random_engine gen(seed);
  const int trials = 3000;
  std::vector<double> count(choices, 0.);
  std::vector<double> pairs(choices * choices, 0.);
  for (int t = 0; t < trials; ++t) {
    const auto got = randint_without_replacement(n, low, low + choices - 1, gen);
    for (auto x : got) {
      VF_REQUIRE("range", x >= low && x < low + choices, x);
      count[x - low] += 1;
      for (auto y : got)
        pairs[(x - low) * choices + (y - low)] += 1;
    }
  }
  const double k = static_cast<double>(choices), m = static_cast<double>(n);
  const double p = m / k;
  const double se = std::sqrt(p * (1 - p) / trials);
  for (std::size_t i = 0; i < choices; ++i) {
    VF_CHECK("frequency", std::fabs(count[i] / trials - p) <= 7 * se + 1e-12,
             i << ": " << count[i] / trials << " expected " << p);
  }
  const double pp = p * (m - 1) / (k - 1);
  const double pse = std::sqrt(std::max(pp * (1 - pp), 1e-4) / trials);
  for (std::size_t i = 0; i < choices; ++i)
    for (std::size_t j = 0; j < i; ++j)
      VF_CHECK("pair_frequency",
               std::fabs(pairs[i * choices + j] / trials - pp) <= 7 * pse + 1e-12,
               i << "," << j << ": " << pairs[i * choices + j] / trials
                 << " expected " << pp);
  c.count("draws", trials);
  c.reached();
}

// ranges far beyond 32 bits: each eighth of the range is hit equally often
VF_SECTION("wide_ranges", 120, 2000) {
  const std::size_t choices = static_cast<std::size_t>(
      c.rng.log_uniform(64., c.rng.coin() ? 1e5 : 9e18));
  const std::size_t low =
      c.rng.coin(0.3) ? 0
                      : static_cast<std::size_t>(c.rng.log_uniform(1., 9e18));
  const std::size_t n =
      c.rng.size(1, std::min<std::size_t>(choices / 3, 40));
  const unsigned seed = static_cast<unsigned>(c.rng.next());
  c.desc << "n=" << n << " low=" << low << " choices=" << choices
         << " seed=" << seed;
  std::default_random_engine gen(seed);
  const std::size_t trials = 4000 / n + 1;
  const double total = static_cast<double>(trials * n);
  std::vector<double> count(8, 0.), odd(2, 0.);
  for (std::size_t t = 0; t < trials; ++t) {
    const auto got = randint_without_replacement(n, low, low + (choices - 1), gen);
    VF_REQUIRE("wide_size", got.size() == n, got.size());
    VF_REQUIRE("wide_distinct",
               std::set<std::size_t>(got.begin(), got.end()).size() == n, "");
    for (auto x : got) {
      VF_REQUIRE("wide_range", x >= low && x - low < choices, x);
      const std::size_t b = static_cast<std::size_t>(
          8.L * static_cast<long double>(x - low) /
          static_cast<long double>(choices));
      count[std::min<std::size_t>(b, 7)] += 1.;
      odd[(x - low) % 2] += 1.;
    }
  }
  const double width = 8. / static_cast<double>(choices);
  for (std::size_t b = 0; b < 8; ++b)
    VF_CHECK("wide_frequency",
             std::fabs(count[b] / total - 0.125) <=
                 7. * std::sqrt(0.125 * 0.875 / total) + width,
             b << ": " << count[b] / total);
  VF_CHECK("wide_parity",
           std::fabs(odd[0] / total - 0.5) <=
               3.5 / std::sqrt(total) + width,
           odd[0] / total);
  if (choices > (std::size_t(1) << 32))
    c.count("beyond_32_bits");
  c.reached();
}

VF_SECTION("covariance_matrix", 300, 3000) {
  const Eigen::Index k = c.rng.wide(1, 25, 80);
  const unsigned seed = static_cast<unsigned>(c.rng.next());
  c.desc << "k=" << k << " seed=" << seed;
  std::default_random_engine gen(seed), again(seed);
  const Eigen::MatrixXd m = random_covariance_matrix(k, gen);
  VF_REQUIRE("shape", m.rows() == k && m.cols() == k, m.rows());
  VF_CHECK("finite", m.allFinite(), "");
  const double scale = std::max(m.cwiseAbs().maxCoeff(), 1e-300);
  VF_CHECK("symmetric",
           (m - m.transpose()).cwiseAbs().maxCoeff() <= 1e-13 * scale * 25, "");
  const Eigen::VectorXd ev =
      Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd>(m).eigenvalues();
  VF_CHECK("psd", ev.minCoeff() >= -1e-12 * scale * static_cast<double>(k),
           ev.minCoeff());
  VF_CHECK("reproducible", m == random_covariance_matrix(k, again), "");
  // With a distribution for the eigen values.
  const double lo = c.rng.log_uniform(1e-3, 1.), hi = lo * c.rng.uniform(1.5, 50.);
  std::uniform_real_distribution<double> dist(lo, hi);
  const Eigen::MatrixXd d = random_covariance_matrix(k, dist, gen);
  const Eigen::VectorXd dv =
      Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd>(d).eigenvalues();
  VF_CHECK("eigen_value_range",
           dv.minCoeff() >= lo * (1 - 1e-9) - 1e-12 * hi &&
               dv.maxCoeff() <= hi * (1 + 1e-9),
           dv.minCoeff() << ".." << dv.maxCoeff() << " not in " << lo << ".."
                         << hi);
  c.reached();
}

VF_SECTION("fill", 200, 2000) {
  const unsigned seed = static_cast<unsigned>(c.rng.next());
  const Eigen::Index r = c.rng.integer(1, 9), k = c.rng.integer(1, 9);
  c.desc << r << "x" << k << " seed=" << seed;
  std::default_random_engine gen(seed), again(seed);
  const double mean = c.rng.normal() * 10., sd = c.rng.log_uniform(0.01, 10.);
  Eigen::MatrixXd a(r, k), b(r, k);
  gaussian_fill(a, mean, sd, gen);
  gaussian_fill(b, mean, sd, again);
  VF_CHECK("reproducible", a == b, "");
  VF_CHECK("shape", a.rows() == r && a.cols() == k, "");
  std::set<double> values(a.data(), a.data() + a.size());
  VF_CHECK("fresh_draws", values.size() == static_cast<std::size_t>(a.size()),
           "an entry was repeated");
  VF_CHECK("plausible", ((a.array() - mean) / sd).abs().maxCoeff() < 10., "");
  Eigen::MatrixXd next(r, k);
  gaussian_fill(next, mean, sd, gen);
  VF_CHECK("advances", next != a, "");
  std::uniform_real_distribution<double> u(-2., 3.);
  random_fill(a, u, gen);
  VF_CHECK("uniform_range", a.minCoeff() >= -2. && a.maxCoeff() <= 3., "");
  Eigen::VectorXd v(c.rng.integer(1, 50)), w(v.size());
  gaussian_fill(v);
  gaussian_fill(w);
  VF_CHECK("default_seed", v == w, "");

  const double fill = c.rng.uniform(0., 0.9);
  const auto s = random_sparse_matrix<double>(r, k, fill, gen, -3., 5.);
  VF_CHECK("sparse_shape", s.rows() == r && s.cols() == k, "");
  VF_CHECK("sparse_count",
           s.nonZeros() == static_cast<Eigen::Index>(
                               static_cast<double>(r) *
                               (static_cast<double>(k) * fill)),
           s.nonZeros());
  for (Eigen::Index o = 0; o < s.outerSize(); ++o)
    for (Eigen::SparseMatrix<double>::InnerIterator it(s, o); it; ++it)
      VF_CHECK("sparse_value", it.value() >= -3. && it.value() <= 5., it.value());
  c.reached();
}

// The sample mean and covariance converge to what was asked for.
VF_SECTION("multivariate_normal", 60, 600) {
  const Eigen::Index k = c.rng.integer(1, 5);
  const unsigned seed = static_cast<unsigned>(c.rng.next());
  Eigen::MatrixXd L = Eigen::MatrixXd::Zero(k, k);
  Eigen::VectorXd mean(k);
  // each variable may have a unit of its own
  const bool units = c.rng.coin(0.6), mixed = c.rng.coin();
  double unit = units ? c.rng.log_uniform(1e-7, 1e7) : 1.;
  if (units)
    c.count("units");
  for (Eigen::Index i = 0; i < k; ++i) {
    if (units && mixed)
      unit = c.rng.log_uniform(1e-7, 1e7);
    mean[i] = 3. * unit * c.rng.normal();
    for (Eigen::Index j = 0; j <= i; ++j)
      L(i, j) = unit * (i == j ? c.rng.log_uniform(0.2, 4.) : c.rng.normal());
  }
  const Eigen::MatrixXd cov = L * L.transpose();
  c.desc << "k=" << k << " seed=" << seed << " cov00=" << cov(0, 0);
  std::default_random_engine gen(seed);
  const int n = 4000;
  Eigen::VectorXd sum = Eigen::VectorXd::Zero(k), zsum = sum;
  Eigen::MatrixXd second = Eigen::MatrixXd::Zero(k, k), zsecond = second;
  for (int t = 0; t < n; ++t) {
    const Eigen::VectorXd x = random_multivariate_normal(mean, cov, gen);
    VF_REQUIRE("size", x.size() == k, x.size());
    sum += x;
    second += (x - mean) * (x - mean).transpose();
    const Eigen::VectorXd z = random_multivariate_normal(cov, gen);
    zsum += z;
    zsecond += z * z.transpose();
  }
  for (Eigen::Index i = 0; i < k; ++i) {
    const double se = std::sqrt(cov(i, i) / n);
    VF_CHECK("mean", std::fabs(sum[i] / n - mean[i]) <= 7 * se, sum[i] / n);
    VF_CHECK("zero_mean", std::fabs(zsum[i] / n) <= 7 * se, zsum[i] / n);
    for (Eigen::Index j = 0; j < k; ++j) {
      const double cse =
          std::sqrt((cov(i, i) * cov(j, j) + cov(i, j) * cov(i, j)) / n);
      VF_CHECK("covariance",
               std::fabs(second(i, j) / n - cov(i, j)) <= 8 * cse,
               second(i, j) / n << " expected " << cov(i, j));
      VF_CHECK("zero_mean_covariance",
               std::fabs(zsecond(i, j) / n - cov(i, j)) <= 8 * cse,
               zsecond(i, j) / n << " expected " << cov(i, j));
    }
  }
  std::default_random_engine g1(seed), g2(seed);
  VF_CHECK("reproducible",
           random_multivariate_normal(mean, cov, g1) ==
               random_multivariate_normal(mean, cov, g2),
           "");
  c.count("draws", 2 * n);
  c.reached();
}

} // namespace
