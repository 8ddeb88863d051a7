// Independent Gaussian process oracle in long double, and generators of
// covariance / mean functions paired with their textbook formula.
#ifndef VERIF_GP_ORACLE_H
#define VERIF_GP_ORACLE_H

#include "vf.h"

#include <albatross/GP>

namespace vfgp {

typedef long double LD;

// ---- small dense linear algebra (no Eigen) ---------------------------------
struct LM {
  std::size_t r = 0, c = 0;
  std::vector<LD> a;
  LM() {}
  LM(std::size_t r_, std::size_t c_) : r(r_), c(c_), a(r_ * c_, 0.L) {}
  LD &operator()(std::size_t i, std::size_t j) { return a[i * c + j]; }
  LD operator()(std::size_t i, std::size_t j) const { return a[i * c + j]; }
};

typedef std::vector<LD> LV;

inline LM transpose(const LM &m) {
  LM t(m.c, m.r);
  for (std::size_t i = 0; i < m.r; ++i)
    for (std::size_t j = 0; j < m.c; ++j)
      t(j, i) = m(i, j);
  return t;
}

inline LM mul(const LM &a, const LM &b) {
  LM o(a.r, b.c);
  for (std::size_t i = 0; i < a.r; ++i)
    for (std::size_t k = 0; k < a.c; ++k)
      for (std::size_t j = 0; j < b.c; ++j)
        o(i, j) += a(i, k) * b(k, j);
  return o;
}

inline LV mul(const LM &a, const LV &b) {
  LV o(a.r, 0.L);
  for (std::size_t i = 0; i < a.r; ++i)
    for (std::size_t k = 0; k < a.c; ++k)
      o[i] += a(i, k) * b[k];
  return o;
}

// Gaussian elimination with partial pivoting: X with A X = B
inline LM solve(LM A, LM B) {
  const std::size_t n = A.r;
  for (std::size_t k = 0; k < n; ++k) {
    std::size_t p = k;
    for (std::size_t i = k + 1; i < n; ++i)
      if (fabsl(A(i, k)) > fabsl(A(p, k)))
        p = i;
    if (p != k) {
      for (std::size_t j = 0; j < n; ++j)
        std::swap(A(k, j), A(p, j));
      for (std::size_t j = 0; j < B.c; ++j)
        std::swap(B(k, j), B(p, j));
    }
    for (std::size_t i = k + 1; i < n; ++i) {
      const LD f = A(i, k) / A(k, k);
      if (f == 0.L)
        continue;
      for (std::size_t j = k; j < n; ++j)
        A(i, j) -= f * A(k, j);
      for (std::size_t j = 0; j < B.c; ++j)
        B(i, j) -= f * B(k, j);
    }
  }
  for (std::size_t k = n; k-- > 0;) {
    for (std::size_t j = 0; j < B.c; ++j) {
      LD s = B(k, j);
      for (std::size_t i = k + 1; i < n; ++i)
        s -= A(k, i) * B(i, j);
      B(k, j) = s / A(k, k);
    }
  }
  return B;
}

inline LV solve(const LM &A, const LV &b) {
  LM B(b.size(), 1);
  for (std::size_t i = 0; i < b.size(); ++i)
    B(i, 0) = b[i];
  const LM X = solve(A, B);
  return X.a;
}

// log |A| and positive definiteness by Cholesky
inline bool cholesky(const LM &A, LM *L) {
  const std::size_t n = A.r;
  *L = LM(n, n);
  for (std::size_t j = 0; j < n; ++j) {
    LD d = A(j, j);
    for (std::size_t k = 0; k < j; ++k)
      d -= (*L)(j, k) * (*L)(j, k);
    if (!(d > 0.L))
      return false;
    (*L)(j, j) = sqrtl(d);
    for (std::size_t i = j + 1; i < n; ++i) {
      LD s = A(i, j);
      for (std::size_t k = 0; k < j; ++k)
        s -= (*L)(i, k) * (*L)(j, k);
      (*L)(i, j) = s / (*L)(j, j);
    }
  }
  return true;
}

inline LD log_det(const LM &A) {
  LM L;
  if (!cholesky(A, &L))
    return -HUGE_VALL;
  LD s = 0.L;
  for (std::size_t i = 0; i < A.r; ++i)
    s += 2.L * logl(L(i, i));
  return s;
}

inline LM from_eigen(const Eigen::MatrixXd &m) {
  LM o(static_cast<std::size_t>(m.rows()), static_cast<std::size_t>(m.cols()));
  for (Eigen::Index i = 0; i < m.rows(); ++i)
    for (Eigen::Index j = 0; j < m.cols(); ++j)
      o(static_cast<std::size_t>(i), static_cast<std::size_t>(j)) = m(i, j);
  return o;
}

inline LV from_eigen_vector(const Eigen::VectorXd &v) {
  LV o;
  for (Eigen::Index i = 0; i < v.size(); ++i)
    o.push_back(v[i]);
  return o;
}

// ---- the declared prior ------------------------------------------------------
struct Oracle {
  // covariance of f(x) and f(y); the flags say which are measurements
  std::function<LD(double, bool, double, bool)> k;
  std::function<LD(double)> m;
  std::string name;
  double amplitude = 1.; // scale of the prior standard deviation

  LM K(const std::vector<double> &xs, bool mx, const std::vector<double> &ys,
       bool my) const {
    LM o(xs.size(), ys.size());
    for (std::size_t i = 0; i < xs.size(); ++i)
      for (std::size_t j = 0; j < ys.size(); ++j)
        o(i, j) = k(xs[i], mx, ys[j], my);
    return o;
  }
};

struct Post {
  LV mean;
  LM cov;
};

// Conditional distribution of the features ts given measurements y (with
// independent error variances var) of the features xs.  Training features are
// measurements among themselves, and plain features seen from ts.
inline Post posterior(const Oracle &o, const std::vector<double> &xs,
                      const std::vector<double> &y,
                      const std::vector<double> &var,
                      const std::vector<double> &ts, bool t_meas) {
  Post p;
  LM A = o.K(xs, true, xs, true);
  for (std::size_t i = 0; i < xs.size(); ++i)
    A(i, i) += var[i];
  const LM C = o.K(xs, false, ts, t_meas);
  LV d;
  for (std::size_t i = 0; i < xs.size(); ++i)
    d.push_back(static_cast<LD>(y[i]) - o.m(xs[i]));
  const LM AiC = solve(A, C);
  p.cov = o.K(ts, t_meas, ts, t_meas);
  const LM e = mul(transpose(C), AiC);
  for (std::size_t i = 0; i < p.cov.a.size(); ++i)
    p.cov.a[i] -= e.a[i];
  p.mean = mul(transpose(AiC), d);
  for (std::size_t i = 0; i < ts.size(); ++i)
    p.mean[i] += o.m(ts[i]);
  return p;
}

// ---- textbook kernels --------------------------------------------------------
inline LD se(LD d, LD l, LD s) { return s * s * expl(-(d / l) * (d / l)); }
inline LD expo(LD d, LD l, LD s) { return s * s * expl(-fabsl(d) / l); }
inline LD mat32(LD d, LD l, LD s) {
  const LD r = sqrtl(3.L) * d / l;
  return s * s * (1.L + r) * expl(-r);
}
inline LD mat52(LD d, LD l, LD s) {
  const LD r = sqrtl(5.L) * d / l;
  return s * s * (1.L + r + r * r / 3.L) * expl(-r);
}

} // namespace vfgp

// A mean function of the user's own.
namespace vfuser {
using namespace albatross;
class SineMean : public albatross::MeanFunction<SineMean> {
public:
  ALBATROSS_DECLARE_PARAMS(sine_amplitude, sine_rate);
  SineMean() {
    sine_amplitude = {1., albatross::GaussianPrior(0., 10.)};
    sine_rate = {1., albatross::PositivePrior()};
  }
  std::string get_name() const { return "sine"; }
  double _call_impl(const double &x) const {
    return sine_amplitude.value * std::sin(sine_rate.value * x);
  }
};
// A known gain which depends on the feature.
class Ramp : public albatross::ScalingFunction {
public:
  ALBATROSS_DECLARE_PARAMS(ramp_rate);
  Ramp(double rate = 0.05) {
    ramp_rate = {rate, albatross::UniformPrior(-10., 10.)};
  }
  std::string get_name() const override { return "ramp"; }
  double _call_impl(const double &x) const { return 1. + ramp_rate.value * x; }
};
} // namespace vfuser

namespace vfgp {

using albatross::EuclideanDistance;
using SE = albatross::SquaredExponential<EuclideanDistance>;
using EX = albatross::Exponential<EuclideanDistance>;
using M32 = albatross::Matern32<EuclideanDistance>;
using M52 = albatross::Matern52<EuclideanDistance>;
using IN = albatross::IndependentNoise<double>;

template <typename Cov, typename Mean> struct Setup {
  Cov cov;
  Mean mean;
  Oracle o;
  auto gp() const {
    return albatross::gp_from_covariance_and_mean(cov, mean);
  }
};

struct Scales {
  double l1, l2, s1, s2, noise, unit;
};

inline Scales scales(vf::Rng &g) {
  Scales s;
  s.l1 = g.log_uniform(0.5, 20.);
  s.l2 = g.log_uniform(0.5, 20.);
  s.s1 = g.log_uniform(0.3, 30.);
  s.s2 = g.log_uniform(0.3, 30.);
  s.noise = s.s1 * g.log_uniform(0.03, 1.);
  s.unit = 1.;
#ifdef VFGP_UNITS
  // the unit of what is observed must not matter
  if (g.coin(0.25))
    s.unit = std::ldexp(1., static_cast<int>(g.integer(-40, 40)));
  s.s1 *= s.unit;
  s.s2 *= s.unit;
  s.noise *= s.unit;
#endif
  return s;
}

// squared exponential plus measurement noise, no mean
inline auto setup_a(vf::Rng &g) {
  const Scales s = scales(g);
  auto cov = SE(s.l1, s.s1) + albatross::measurement_only(IN(s.noise));
  Setup<decltype(cov), albatross::ZeroMean> r{cov, albatross::ZeroMean(), {}};
  r.o.name = "se+meas_noise";
  r.o.amplitude = std::hypot(s.s1, s.noise);
  r.o.k = [s](double x, bool mx, double y, bool my) {
    LD v = se(fabsl(static_cast<LD>(x) - y), s.l1, s.s1);
    if (mx && my && x == y)
      v += static_cast<LD>(s.noise) * s.noise;
    return v;
  };
  r.o.m = [](double) { return 0.L; };
  return r;
}

// matern 5/2, constant, measurement noise, linear mean
inline auto setup_b(vf::Rng &g) {
  const Scales s = scales(g);
  auto cov = M52(s.l1, s.s1) + albatross::Constant(s.s2) +
             albatross::measurement_only(IN(s.noise));
  albatross::LinearMean mean;
  const double slope = s.unit * 3. * g.normal(),
               offset = s.unit * 10. * g.normal();
  mean.slope.value = slope;
  mean.offset.value = offset;
  Setup<decltype(cov), albatross::LinearMean> r{cov, mean, {}};
  r.o.name = "mat52+const+meas_noise,linear";
  r.o.amplitude = std::hypot(std::hypot(s.s1, s.s2), s.noise);
  r.o.k = [s](double x, bool mx, double y, bool my) {
    LD v = mat52(fabsl(static_cast<LD>(x) - y), s.l1, s.s1) +
           static_cast<LD>(s.s2) * s.s2;
    if (mx && my && x == y)
      v += static_cast<LD>(s.noise) * s.noise;
    return v;
  };
  r.o.m = [slope, offset](double x) {
    return static_cast<LD>(slope) * x + offset;
  };
  return r;
}

// products, noise which is part of the process, own mean function
inline auto setup_c(vf::Rng &g) {
  const Scales s = scales(g);
  const double pn = s.noise;
  auto cov = SE(s.l1, 1.) * albatross::Polynomial<1>(s.s2 * 0.3) +
             EX(s.l2, s.s1) + IN(pn);
  vfuser::SineMean mean;
  const double a = s.unit * 4. * g.normal(), w = g.log_uniform(0.1, 3.);
  mean.sine_amplitude.value = a;
  mean.sine_rate.value = w;
  Setup<decltype(cov), vfuser::SineMean> r{cov, mean, {}};
  r.o.name = "se*poly+exp+noise,sine";
  r.o.amplitude = std::hypot(std::hypot(s.s1, s.s2 * 0.3 * 10.), pn);
  r.o.k = [s, pn](double x, bool, double y, bool) {
    const LD q = static_cast<LD>(s.s2 * 0.3);
    LD v = se(fabsl(static_cast<LD>(x) - y), s.l1, 1.L) *
               (q * q + q * q * static_cast<LD>(x) * y) +
           expo(fabsl(static_cast<LD>(x) - y), s.l2, s.s1);
    if (x == y)
      v += static_cast<LD>(pn) * pn;
    return v;
  };
  r.o.m = [a, w](double x) {
    return static_cast<LD>(a) * sinl(static_cast<LD>(w) * x);
  };
  return r;
}

// sum and product of means, two terms of measurement noise
inline auto setup_d(vf::Rng &g) {
  const Scales s = scales(g);
  auto cov = M32(s.l1, s.s1) * EX(s.l2, 1.) +
             albatross::measurement_only(IN(s.noise)) + SE(s.l2, s.s2);
  albatross::LinearMean lin;
  const double slope = s.unit * g.normal(),
               offset = s.unit * 5. * g.normal();
  lin.slope.value = slope;
  lin.offset.value = offset;
  vfuser::SineMean sine;
  const double a = s.unit * g.normal(), w = g.log_uniform(0.1, 2.);
  sine.sine_amplitude.value = a;
  sine.sine_rate.value = w;
  auto mean = lin + sine;
  Setup<decltype(cov), decltype(mean)> r{cov, mean, {}};
  r.o.name = "mat32*exp+meas_noise+se,linear+sine";
  r.o.amplitude = std::hypot(std::hypot(s.s1, s.s2), s.noise);
  r.o.k = [s](double x, bool mx, double y, bool my) {
    const LD d = fabsl(static_cast<LD>(x) - y);
    LD v = mat32(d, s.l1, s.s1) * expo(d, s.l2, 1.L) + se(d, s.l2, s.s2);
    if (mx && my && x == y)
      v += static_cast<LD>(s.noise) * s.noise;
    return v;
  };
  r.o.m = [slope, offset, a, w](double x) {
    return static_cast<LD>(slope) * x + offset +
           static_cast<LD>(a) * sinl(static_cast<LD>(w) * x);
  };
  return r;
}

// a scaled process, product of means
inline auto setup_e(vf::Rng &g) {
  const Scales s = scales(g);
  const double rate = g.uniform(-0.05, 0.05);
  auto cov = albatross::ScalingTerm<vfuser::Ramp>(vfuser::Ramp(rate)) *
                 SE(s.l1, s.s1) +
             M32(s.l2, s.s2) + albatross::measurement_only(IN(s.noise));
  albatross::LinearMean lin;
  const double slope = s.unit * 0.3 * g.normal(),
               offset = s.unit * 3. * g.normal();
  lin.slope.value = slope;
  lin.offset.value = offset;
  vfuser::SineMean sine;
  const double a = g.normal(), w = g.log_uniform(0.1, 2.);
  sine.sine_amplitude.value = a;
  sine.sine_rate.value = w;
  auto mean = lin * sine;
  Setup<decltype(cov), decltype(mean)> r{cov, mean, {}};
  r.o.name = "ramp*se+mat32+meas_noise,linear*sine";
  r.o.amplitude = std::hypot(std::hypot(1.5 * s.s1, s.s2), s.noise);
  r.o.k = [s, rate](double x, bool mx, double y, bool my) {
    const LD d = fabsl(static_cast<LD>(x) - y), q = rate;
    LD v = (1.L + q * x) * (1.L + q * y) * se(d, s.l1, s.s1) +
           mat32(d, s.l2, s.s2);
    if (mx && my && x == y)
      v += static_cast<LD>(s.noise) * s.noise;
    return v;
  };
  r.o.m = [slope, offset, a, w](double x) {
    return (static_cast<LD>(slope) * x + offset) * static_cast<LD>(a) *
           sinl(static_cast<LD>(w) * x);
  };
  return r;
}

// measurements with correlated errors of their own
inline auto setup_f(vf::Rng &g) {
  const Scales s = scales(g);
  auto cov = EX(s.l1, s.s1) +
             albatross::measurement_only(SE(s.l2, s.noise) + IN(s.noise)) +
             albatross::measurement_only(albatross::Constant(0.5 * s.noise));
  Setup<decltype(cov), albatross::ZeroMean> r{cov, albatross::ZeroMean(), {}};
  r.o.name = "exp+meas[se+noise]+meas[const]";
  r.o.amplitude = std::hypot(s.s1, 1.5 * s.noise);
  r.o.k = [s](double x, bool mx, double y, bool my) {
    const LD d = fabsl(static_cast<LD>(x) - y), q = s.noise;
    LD v = expo(d, s.l1, s.s1);
    if (mx && my) {
      v += se(d, s.l2, s.noise) + 0.25L * q * q;
      if (x == y)
        v += q * q;
    }
    return v;
  };
  r.o.m = [](double) { return 0.L; };
  return r;
}

// ---- data ---------------------------------------------------------------------
struct Data {
  std::vector<double> x, y, var;

  albatross::RegressionDataset<double> dataset() const {
    Eigen::VectorXd m(static_cast<Eigen::Index>(y.size()));
    Eigen::VectorXd v(static_cast<Eigen::Index>(y.size()));
    for (std::size_t i = 0; i < y.size(); ++i) {
      m[static_cast<Eigen::Index>(i)] = y[i];
      v[static_cast<Eigen::Index>(i)] = var[i];
    }
    return albatross::RegressionDataset<double>(
        x, albatross::MarginalDistribution(m, v));
  }

  Data pick(const std::vector<std::size_t> &ids) const {
    Data d;
    for (auto i : ids) {
      d.x.push_back(x[i]);
      d.y.push_back(y[i]);
      d.var.push_back(var[i]);
    }
    return d;
  }
};

// Features in [-10, 10], sometimes repeated; noise is large enough to keep the
// problem well conditioned (the claim is about the mathematics, the tolerance
// is for rounding).
inline Data make_data(vf::Rng &g, const Oracle &o, std::size_t n,
                      bool duplicates = true) {
  Data d;
  const double floor = 1e-4 * o.amplitude * o.amplitude;
  for (std::size_t i = 0; i < n; ++i) {
    const double fresh = std::round(g.uniform(-10., 10.) * 1e3) / 1e3;
    if (duplicates && i > 0 && g.coin(0.1))
      d.x.push_back(d.x[g.size(0, i - 1)]);
    else
      d.x.push_back(fresh);
    d.y.push_back(static_cast<double>(o.m(d.x.back())) + o.amplitude * g.normal());
    d.var.push_back(floor * (1. + (g.coin(0.3) ? 0. : g.log_uniform(1., 1e3))));
  }
  return d;
}

inline std::vector<double> make_test(vf::Rng &g, const Data &d, std::size_t n) {
  std::vector<double> t;
  for (std::size_t i = 0; i < n; ++i) {
    if (!d.x.empty() && g.coin(0.3))
      t.push_back(d.x[g.size(0, d.x.size() - 1)]);
    else
      t.push_back(g.uniform(-12., 12.));
  }
  return t;
}

// Compares a prediction with the oracle.
inline void compare_mean(vf::Case &c, const char *key, const Eigen::VectorXd &m,
                         const Post &p, double amplitude) {
  VF_REQUIRE(std::string(key) + "_size",
             static_cast<std::size_t>(m.size()) == p.mean.size(),
             m.size() << " values for " << p.mean.size() << " features");
  LD scale = amplitude;
  for (auto v : p.mean)
    scale = std::max(scale, fabsl(v));
  for (std::size_t i = 0; i < p.mean.size(); ++i) {
    VF_CLOSE(key, m[static_cast<Eigen::Index>(i)], static_cast<double>(p.mean[i]),
             0., 1e-7 * static_cast<double>(scale));
  }
}

inline void compare_cov(vf::Case &c, const char *key, const Eigen::MatrixXd &m,
                        const Post &p, double amplitude) {
  VF_REQUIRE(std::string(key) + "_size",
             static_cast<std::size_t>(m.rows()) == p.cov.r &&
                 static_cast<std::size_t>(m.cols()) == p.cov.c,
             m.rows() << "x" << m.cols() << " for " << p.cov.r);
  LD scale = static_cast<LD>(amplitude) * amplitude;
  for (std::size_t i = 0; i < p.cov.r; ++i)
    for (std::size_t j = 0; j < p.cov.c; ++j)
      VF_CLOSE(key, m(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)),
               static_cast<double>(p.cov(i, j)), 0.,
               1e-8 * static_cast<double>(scale));
}

inline void compare_var(vf::Case &c, const char *key, const Eigen::VectorXd &v,
                        const Post &p, double amplitude) {
  VF_REQUIRE(std::string(key) + "_size",
             static_cast<std::size_t>(v.size()) == p.cov.r, v.size());
  LD scale = static_cast<LD>(amplitude) * amplitude;
  for (std::size_t i = 0; i < p.cov.r; ++i)
    VF_CLOSE(key, v[static_cast<Eigen::Index>(i)],
             static_cast<double>(p.cov(i, i)), 0.,
             1e-8 * static_cast<double>(scale));
}

// Runs f on one of the setups, chosen by which.
template <typename F> void with_setup(vf::Case &c, std::size_t which, F &&f) {
  switch (which % 4) {
  case 0:
    f(setup_a(c.rng));
    break;
  case 1:
    f(setup_b(c.rng));
    break;
  case 2:
    f(setup_c(c.rng));
    break;
  default:
    f(setup_d(c.rng));
  }
}

} // namespace vfgp

#endif
