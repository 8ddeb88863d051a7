// C21: the target density is what the sampler leaves unchanged.
//
// Ensembles which start as independent draws of the target are independent
// draws of it after any number of steps, so that averages over many short
// chains are known exactly and their spread is that of independent chains.
#include "c21_util.h"

namespace {
using namespace vfsample;

struct Target {
  std::string name;
  std::size_t dims;
  std::function<double(const std::vector<double> &)> log_density;
  std::function<std::vector<double>(vf::Rng &)> draw;
};

double logistic(double x) { return 1. / (1. + std::exp(-x)); }

Target make_target(vf::Rng &g, int which) {
  Target t;
  switch (which % 6) {
  case 0: {
    // correlated normal
    t.name = "normal";
    t.dims = g.size(1, 4);
    const std::size_t n = t.dims;
    auto L = std::make_shared<Eigen::MatrixXd>(Eigen::MatrixXd::Zero(
        static_cast<Eigen::Index>(n), static_cast<Eigen::Index>(n)));
    for (Eigen::Index i = 0; i < L->rows(); ++i)
      for (Eigen::Index j = 0; j <= i; ++j)
        (*L)(i, j) = i == j ? g.log_uniform(0.1, 10.) : g.normal();
    const double shift = 5. * g.normal();
    t.log_density = [L, shift](const std::vector<double> &x) {
      Eigen::VectorXd v(static_cast<Eigen::Index>(x.size()));
      for (std::size_t i = 0; i < x.size(); ++i)
        v[static_cast<Eigen::Index>(i)] = x[i] - shift;
      return -0.5 *
             L->triangularView<Eigen::Lower>().solve(v).squaredNorm();
    };
    t.draw = [L, shift, n](vf::Rng &r) {
      Eigen::VectorXd z(static_cast<Eigen::Index>(n));
      for (Eigen::Index i = 0; i < z.size(); ++i)
        z[i] = r.normal();
      const Eigen::VectorXd v = (*L) * z;
      std::vector<double> x;
      for (Eigen::Index i = 0; i < z.size(); ++i)
        x.push_back(v[i] + shift);
      return x;
    };
    break;
  }
  case 1: {
    t.name = "uniform";
    t.dims = g.size(1, 3);
    const std::size_t n = t.dims;
    t.log_density = [](const std::vector<double> &x) {
      for (auto v : x)
        if (!(v >= -1. && v <= 3.))
          return -LARGE_VAL;
      return 0.;
    };
    t.draw = [n](vf::Rng &r) {
      std::vector<double> x;
      for (std::size_t i = 0; i < n; ++i)
        x.push_back(r.uniform(-1., 3.));
      return x;
    };
    break;
  }
  case 2: {
    t.name = "exponential";
    t.dims = g.size(1, 3);
    const std::size_t n = t.dims;
    const double rate = g.log_uniform(0.2, 5.);
    t.log_density = [rate](const std::vector<double> &x) {
      double s = 0.;
      for (auto v : x) {
        if (v < 0.)
          return -LARGE_VAL;
        s -= rate * v;
      }
      return s;
    };
    t.draw = [n, rate](vf::Rng &r) {
      std::vector<double> x;
      for (std::size_t i = 0; i < n; ++i)
        x.push_back(-std::log1p(-r.u()) / rate);
      return x;
    };
    break;
  }
  case 3: {
    t.name = "logistic";
    t.dims = g.size(1, 3);
    const std::size_t n = t.dims;
    t.log_density = [](const std::vector<double> &x) {
      double s = 0.;
      for (auto v : x)
        s -= std::abs(v) + 2. * std::log1p(std::exp(-std::abs(v)));
      return s;
    };
    t.draw = [n](vf::Rng &r) {
      std::vector<double> x;
      for (std::size_t i = 0; i < n; ++i) {
        const double u = std::min(std::max(r.u(), 1e-15), 1. - 1e-15);
        x.push_back(std::log(u / (1. - u)));
      }
      return x;
    };
    break;
  }
  case 4: {
    // two modes
    t.name = "mixture";
    t.dims = 1;
    const double apart = g.uniform(0.5, 3.);
    t.log_density = [apart](const std::vector<double> &x) {
      const double a = x[0] - apart, b = x[0] + apart;
      return std::log(0.3 * std::exp(-0.5 * a * a) +
                      0.7 * std::exp(-0.5 * b * b));
    };
    t.draw = [apart](vf::Rng &r) {
      return std::vector<double>{r.normal() + (r.u() < 0.3 ? apart : -apart)};
    };
    break;
  }
  default: {
    // bent
    t.name = "bent";
    t.dims = 2;
    t.log_density = [](const std::vector<double> &x) {
      const double b = x[1] - x[0] * x[0];
      return -0.5 * (x[0] * x[0] + 4. * b * b);
    };
    t.draw = [](vf::Rng &r) {
      const double x = r.normal();
      return std::vector<double>{x, x * x + 0.5 * r.normal()};
    };
  }
  }
  return t;
}

// Bounded functions of a state, their expectations come from fresh draws.
std::vector<double> statistics(const SamplerState &s, double center,
                               double scale) {
  std::vector<double> out;
  double sum = 0.;
  for (auto v : s.params) {
    const double u = (v - center) / scale;
    out.push_back(logistic(3. * u));
    out.push_back(u > 0. ? 1. : 0.);
    out.push_back(std::min(u * u, 9.));
    sum += u;
  }
  out.push_back(logistic(sum));
  out.push_back(std::max(-12., std::min(s.log_prob, 4.)));
  out.push_back(std::cos(2. * sum));
  return out;
}

void target_case(vf::Case &c, int which) {
  auto &g = c.rng;
  const Target t = make_target(g, which);
  const std::size_t walkers = g.size(3, 10);
  const std::size_t steps = g.size(3, 12);
  const std::size_t replicates = vf::state().thorough ? 6000 : 2500;
  c.desc << t.name << " dims=" << t.dims << " walkers=" << walkers
         << " steps=" << steps << "; ";

  // Where and how wide, and the expectations.
  double mean = 0., square = 0.;
  std::size_t count = 0;
  for (int i = 0; i < 2000; ++i) {
    for (auto v : t.draw(g)) {
      mean += v;
      square += v * v;
      ++count;
    }
  }
  mean /= static_cast<double>(count);
  const double scale =
      std::sqrt(std::max(square / static_cast<double>(count) - mean * mean,
                         1e-12));
  std::vector<double> expected, expected_square;
  const std::size_t fresh = replicates * walkers * 4;
  for (std::size_t i = 0; i < fresh; ++i) {
    SamplerState s;
    s.params = t.draw(g);
    s.log_prob = t.log_density(s.params);
    const auto v = statistics(s, mean, scale);
    expected.resize(v.size(), 0.);
    expected_square.resize(v.size(), 0.);
    for (std::size_t j = 0; j < v.size(); ++j) {
      expected[j] += v[j];
      expected_square[j] += v[j] * v[j];
    }
  }
  const std::size_t m = expected.size();
  std::vector<double> sum(m, 0.), sum_square(m, 0.);
  std::size_t moved = 0;
  for (std::size_t r = 0; r < replicates; ++r) {
    EnsembleSamplerState initial;
    for (std::size_t k = 0; k < walkers; ++k) {
      const auto x = t.draw(g);
      initial.push_back(SamplerState{x, t.log_density(x), true});
    }
    std::default_random_engine gen(
        static_cast<std::default_random_engine::result_type>(
            1 + g.next() % 2000000000));
    // The first numbers of engines which were seeded with neighbours of each
    // other are neighbours themselves.
    gen.discard(10);
    const auto chain = ensemble_sampler(t.log_density, initial, steps, gen);
    VF_REQUIRE("history", chain.size() == steps + 1, chain.size());
    std::vector<double> average(m, 0.);
    for (const auto &s : chain.back()) {
      const auto v = statistics(s, mean, scale);
      for (std::size_t j = 0; j < m; ++j) {
        average[j] += v[j] / static_cast<double>(walkers);
      }
      moved += s.accepted;
    }
    for (std::size_t j = 0; j < m; ++j) {
      sum[j] += average[j];
      sum_square[j] += average[j] * average[j];
    }
  }
  const double R = static_cast<double>(replicates);
  const double F = static_cast<double>(fresh);
  for (std::size_t j = 0; j < m; ++j) {
    const double a = sum[j] / R;
    const double va = std::max(sum_square[j] / R - a * a, 0.) / R;
    const double b = expected[j] / F;
    const double vb = std::max(expected_square[j] / F - b * b, 0.) / F;
    const double se = std::sqrt(va + vb) + 1e-12;
    c.observe_max("target_sigma", std::abs(a - b) / se);
    VF_CHECK("leaves_the_target_unchanged", std::abs(a - b) < 7.5 * se,
             "statistic " << j << " of " << m << ": " << a << " expected " << b
                          << " standard error " << se);
  }
  VF_CHECK("it_moves", moved > replicates * walkers / 20,
           moved << " of " << replicates * walkers);
  c.count("chains", replicates);
  c.reached();
}

VF_SECTION("target_normal", 6, 30) { target_case(c, 0); }
VF_SECTION("target_uniform", 4, 20) { target_case(c, 1); }
VF_SECTION("target_exponential", 4, 20) { target_case(c, 2); }
VF_SECTION("target_logistic", 4, 20) { target_case(c, 3); }
VF_SECTION("target_mixture", 4, 20) { target_case(c, 4); }
VF_SECTION("target_bent", 4, 20) { target_case(c, 5); }

// From anywhere the chains arrive at the target.
VF_SECTION("arrives", 6, 40) {
  auto &g = c.rng;
  const Target t = make_target(g, static_cast<int>(c.index));
  const std::size_t walkers = g.size(10, 20);
  const std::size_t burn = 400, keep = 40;
  const std::size_t replicates = 100;
  c.desc << t.name << " dims=" << t.dims << "; ";
  double sum = 0., sum_square = 0., expected = 0., expected_square = 0.;
  const std::size_t fresh = 40000;
  double median;
  {
    std::vector<double> xs;
    for (int i = 0; i < 2001; ++i)
      xs.push_back(t.draw(g)[0]);
    std::nth_element(xs.begin(), xs.begin() + 1000, xs.end());
    median = xs[1000];
  }
  for (std::size_t i = 0; i < fresh; ++i) {
    const double v = t.draw(g)[0] > median;
    expected += v / static_cast<double>(fresh);
    expected_square += v * v / static_cast<double>(fresh);
  }
  for (std::size_t r = 0; r < replicates; ++r) {
    // a corner of the target
    std::vector<std::vector<double>> initial;
    const auto x0 = t.draw(g);
    for (std::size_t k = 0; k < walkers; ++k) {
      const auto x = t.draw(g);
      std::vector<double> p;
      for (std::size_t i = 0; i < x.size(); ++i)
        p.push_back(x0[i] + 0.3 * (x[i] - x0[i]));
      initial.push_back(p);
    }
    std::default_random_engine gen(
        static_cast<std::default_random_engine::result_type>(
            1 + g.next() % 2000000000));
    const auto chain =
        ensemble_sampler(t.log_density, initial, burn + keep, gen);
    double a = 0.;
    for (std::size_t i = burn; i < chain.size(); ++i)
      for (const auto &s : chain[i])
        a += s.params[0] > median;
    a /= static_cast<double>((chain.size() - burn) * walkers);
    sum += a / static_cast<double>(replicates);
    sum_square += a * a / static_cast<double>(replicates);
  }
  const double se =
      std::sqrt(std::max(sum_square - sum * sum, 0.) /
                    static_cast<double>(replicates) +
                (expected_square - expected * expected) /
                    static_cast<double>(fresh)) +
      1e-3;
  c.observe_max("arrival_sigma", std::abs(sum - expected) / se);
  VF_CHECK("long_run_statistics", std::abs(sum - expected) < 8. * se,
           sum << " expected " << expected << " standard error " << se);
  c.count("long_chains", replicates);
  c.reached();
}

} // namespace
