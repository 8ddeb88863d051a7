// Walks over Gaussian process problems, and the same problem in other units.
#ifndef VERIF_HISTORY_GP_H
#define VERIF_HISTORY_GP_H

#include <albatross/GP>

#include "history.h"

namespace vfhist_model {

using namespace albatross;

// Every feature may have a unit of its own (a power of two, so that nothing is
// rounded): f(x) = unit(x) g(x).
inline double unit_of(double x, bool units) {
  if (!units)
    return 1.;
  const std::uint64_t h = vf::mix(vf::hash_bytes(&x, sizeof(x)));
  return std::ldexp(1., static_cast<int>(h % 41) - 20);
}

class UnitCovariance : public CovarianceFunction<UnitCovariance> {
public:
  ALBATROSS_DECLARE_PARAMS(u_length, u_sigma, u_constant);
  bool units = false;
  UnitCovariance() : UnitCovariance(1., 1., 1., false) {}
  UnitCovariance(double l, double s, double k, bool units_) : units(units_) {
    u_length = {l, PositivePrior()};
    u_sigma = {s, PositivePrior()};
    u_constant = {k, PositivePrior()};
  }
  std::string name() const { return "unit_covariance"; }
  double _call_impl(const double &x, const double &y) const {
    const double d = (x - y) / u_length.value;
    return unit_of(x, units) * unit_of(y, units) *
           (u_sigma.value * u_sigma.value * std::exp(-std::fabs(d)) +
            u_constant.value * u_constant.value);
  }
};

class UnitNoise : public CovarianceFunction<UnitNoise> {
public:
  ALBATROSS_DECLARE_PARAMS(u_noise);
  bool units = false;
  UnitNoise() : UnitNoise(1., false) {}
  UnitNoise(double s, bool units_) : units(units_) { u_noise = {s, PositivePrior()}; }
  std::string name() const { return "unit_noise"; }
  double _call_impl(const double &x, const double &y) const {
    return x == y ? unit_of(x, units) * unit_of(y, units) * u_noise.value * u_noise.value : 0.;
  }
};

class UnitMean : public MeanFunction<UnitMean> {
public:
  ALBATROSS_DECLARE_PARAMS(u_offset, u_slope);
  bool units = false;
  UnitMean() : UnitMean(0., 0., false) {}
  UnitMean(double offset, double slope, bool units_) : units(units_) {
    u_offset = {offset, UninformativePrior()};
    u_slope = {slope, UninformativePrior()};
  }
  std::string name() const { return "unit_mean"; }
  std::string get_name() const { return "unit_mean"; }
  double _call_impl(const double &x) const {
    return unit_of(x, units) * (u_offset.value + u_slope.value * x);
  }
};

struct State {
  double length, sigma, constant, noise, offset, slope;
  std::vector<double> x, y, var, test;
  double width; // of the groups
  double nugget = 1e-4, inducing = 1e-4;
  std::vector<double> u;
  bool units = false;

  double unit(double v) const { return unit_of(v, units); }

  auto covariance() const {
    return UnitCovariance(length, sigma, constant, units) +
           measurement_only(UnitNoise(noise, units));
  }
  UnitMean mean() const { return UnitMean(offset, slope, units); }
  auto gp() const { return gp_from_covariance_and_mean(covariance(), mean(), "walk"); }

  RegressionDataset<double> dataset() const {
    Eigen::VectorXd m(static_cast<Eigen::Index>(x.size())), v(m.size());
    for (std::size_t i = 0; i < x.size(); ++i) {
      m[static_cast<Eigen::Index>(i)] = y[i] * unit(x[i]);
      v[static_cast<Eigen::Index>(i)] = var[i] * unit(x[i]) * unit(x[i]);
    }
    return RegressionDataset<double>(x, MarginalDistribution(m, v));
  }
  std::string group(double v) const { return std::to_string(std::floor(v / width)); }
};

inline State some_state(vf::Rng &g) {
  State s;
  s.length = g.log_uniform(1., 5.);
  s.sigma = g.log_uniform(0.5, 2.);
  s.constant = g.log_uniform(0.5, 2.);
  s.noise = g.log_uniform(0.1, 0.5);
  s.offset = g.normal();
  s.slope = 0.3 * g.normal();
  s.width = g.uniform(1., 6.);
  const std::size_t n = g.size(2, 12), m = g.size(1, 5);
  for (std::size_t i = 0; i < n; ++i) {
    s.x.push_back(std::round(g.uniform(-8., 8.) * 16.) / 16.);
    s.y.push_back(2. * g.normal());
    s.var.push_back(g.log_uniform(0.01, 0.3));
  }
  for (std::size_t i = 0; i < m; ++i)
    s.test.push_back(g.coin(0.3) ? s.x[g.size(0, n - 1)] : std::round(g.uniform(-8., 8.) * 16.) / 16.);
  for (std::size_t i = 0; i < 4; ++i)
    s.u.push_back(-6. + 4. * static_cast<double>(i) + g.uniform(0., 1.));
  return s;
}

// changes exactly one thing
inline std::string change_one(vf::Rng &g, State *s, bool sparse = false) {
  const double f = g.uniform(1.3, 2.);
  const std::size_t i = g.size(0, s->x.size() - 1), j = g.size(0, s->x.size() - 1);
  switch (g.integer(0, sparse ? 16 : 13)) {
  case 0: s->length *= f; return "length";
  case 1: s->sigma *= f; return "sigma";
  case 2: s->constant *= f; return "constant";
  case 3: s->noise *= f; return "noise";
  case 4: s->offset += f; return "offset";
  case 5: s->slope += 0.2 * f; return "slope";
  case 6: s->x[i] += f; return "feature";
  case 7: s->y[i] += f; return "target";
  case 8: s->var[i] *= 3. * f; return "variance";
  case 9: std::swap(s->y[i], s->y[j]); return "targets swapped";
  case 10: std::swap(s->x[i], s->x[j]); return "features swapped";
  case 11: std::swap(s->var[i], s->var[j]); return "variances swapped";
  case 12: s->test[g.size(0, s->test.size() - 1)] += f; return "query";
  case 13: s->width *= f; return "groups";
  case 14: s->nugget *= 20.; return "nugget";
  case 15: s->inducing *= 20.; return "inducing nugget";
  default: s->u[g.size(0, s->u.size() - 1)] += 0.3 * f; return "inducing point";
  }
}

template <typename F>
void walk_states(vf::Case &c, const F &eval, bool sparse = false) {
  State s = some_state(c.rng);
  c.desc << "n=" << s.x.size() << " m=" << s.test.size() << " x0=" << s.x[0] << " y0=" << s.y[0];
  c.reached();
  c.count("walks");
  std::vector<vfhist::Step> steps;
  std::string what = "start";
  for (int k = 0; k < 7; ++k) {
    steps.push_back({what, [s, eval]() { return eval(s); }});
    what = change_one(c.rng, &s, sparse);
  }
  vfhist::walk(c, steps);
}

template <typename P> void put_all(vfhist::Values *o, const P &p) {
  vfhist::put(o, p.mean());
  vfhist::put(o, p.marginal());
  vfhist::put(o, p.joint());
}

// the same problem with and without units of its own for every feature
template <typename F> void in_units(vf::Case &c, const F &compare) {
  State s = some_state(c.rng);
  c.desc << "n=" << s.x.size() << " m=" << s.test.size() << " x0=" << s.x[0] << " y0=" << s.y[0];
  c.reached();
  c.count("mixed_units");
  State t = s;
  t.units = true;
  compare(s, t);
}

inline void same_mean(vf::Case &c, const char *key, const State &t, const std::vector<double> &at,
                      const Eigen::VectorXd &got, const Eigen::VectorXd &expected) {
  VF_REQUIRE(key, got.size() == expected.size(), got.size());
  for (Eigen::Index i = 0; i < got.size(); ++i)
    VF_CLOSE(key, got[i] / t.unit(at[static_cast<std::size_t>(i)]), expected[i], 1e-8, 1e-8);
}
inline void same_covariance(vf::Case &c, const char *key, const State &t,
                            const std::vector<double> &at, const Eigen::MatrixXd &got,
                            const Eigen::MatrixXd &expected) {
  VF_REQUIRE(key, got.rows() == expected.rows() && got.cols() == expected.cols(), got.rows());
  for (Eigen::Index i = 0; i < got.rows(); ++i)
    for (Eigen::Index j = 0; j < got.cols(); ++j)
      VF_CLOSE(key,
               got(i, j) / t.unit(at[static_cast<std::size_t>(i)]) /
                   t.unit(at[static_cast<std::size_t>(j)]),
               expected(i, j), 1e-8, 1e-8);
}
template <typename P, typename Q>
void same_prediction(vf::Case &c, const std::string &key, const State &t,
                     const std::vector<double> &at, const P &got, const Q &expected) {
  same_mean(c, (key + "_mean").c_str(), t, at, got.mean(), expected.mean());
  const auto m = got.marginal(), n = expected.marginal();
  same_mean(c, (key + "_marginal_mean").c_str(), t, at, m.mean, n.mean);
  same_covariance(c, (key + "_variance").c_str(), t, at, Eigen::MatrixXd(m.covariance),
                  Eigen::MatrixXd(n.covariance));
  const auto j = got.joint(), k = expected.joint();
  same_mean(c, (key + "_joint_mean").c_str(), t, at, j.mean, k.mean);
  same_covariance(c, (key + "_covariance").c_str(), t, at, j.covariance, k.covariance);
}

} // namespace vfhist_model

#endif
