// A latent process seen by two kinds of sensor, its features (plain, variant,
// measured, combined) as linear forms, and conditioning on those.
#ifndef VERIF_GP_FORMS_H
#define VERIF_GP_FORMS_H

#include "gp_oracle.h"

namespace vfuser {

using namespace albatross;

// Two kinds of sensor of one latent process: B sees it amplified.
struct A {
  double v = 0.;
  bool operator==(const A &o) const { return v == o.v; }
};
struct B {
  double v = 0.;
  bool operator==(const B &o) const { return v == o.v; }
};

class Shared : public CovarianceFunction<Shared> {
public:
  ALBATROSS_DECLARE_PARAMS(shared_sigma, shared_length, shared_gain);
  Shared(double s, double l, double gain) {
    shared_sigma = {s, PositivePrior()};
    shared_length = {l, PositivePrior()};
    shared_gain = {gain, UniformPrior(-100., 100.)};
  }
  std::string name() const { return "shared"; }
  double _call_impl(const A &x, const A &y) const { return base(x.v, y.v); }
  double _call_impl(const A &x, const B &y) const {
    return shared_gain.value * base(x.v, y.v);
  }
  double _call_impl(const B &x, const B &y) const {
    return shared_gain.value * shared_gain.value * base(x.v, y.v);
  }

private:
  double base(double x, double y) const {
    return shared_sigma.value * shared_sigma.value *
           std::exp(-std::fabs(x - y) / shared_length.value);
  }
};

// Only B drifts.
class Drift : public CovarianceFunction<Drift> {
public:
  ALBATROSS_DECLARE_PARAMS(drift_sigma);
  Drift(double s) { drift_sigma = {s, PositivePrior()}; }
  std::string name() const { return "drift"; }
  double _call_impl(const B &x, const B &y) const {
    return drift_sigma.value * drift_sigma.value * (1. + x.v * y.v / 100.);
  }
};

class ANoise : public CovarianceFunction<ANoise> {
public:
  ALBATROSS_DECLARE_PARAMS(a_noise);
  ANoise(double s) { a_noise = {s, PositivePrior()}; }
  std::string name() const { return "a_noise"; }
  double _call_impl(const A &x, const A &y) const {
    return x == y ? a_noise.value * a_noise.value : 0.;
  }
};

class ABMean : public MeanFunction<ABMean> {
public:
  ALBATROSS_DECLARE_PARAMS(ab_offset);
  ABMean(double o) { ab_offset = {o, UniformPrior(-1e3, 1e3)}; }
  std::string get_name() const { return "ab_mean"; }
  double _call_impl(const A &x) const { return ab_offset.value + x.v; }
  double _call_impl(const B &x) const { return 2. * ab_offset.value - x.v; }
};

} // namespace vfuser

namespace {

using namespace vfgp;
using namespace albatross;
using vfuser::A;
using vfuser::B;
typedef variant<A, B> AB;

// every feature is a linear combination of values of A and B
struct Term {
  double coef;
  bool b;
  double v;
};
struct Form {
  std::vector<Term> terms;
  bool measured_a = false; // one A, marked as a measurement
};

Form form(const A &a) { return Form{{{1., false, a.v}}, false}; }
Form form(const B &b) { return Form{{{1., true, b.v}}, false}; }
Form form(const AB &x) {
  return x.match([](const A &a) { return form(a); },
                 [](const B &b) { return form(b); });
}
template <typename X> Form form(const Measurement<X> &m);
template <typename X> Form form(const LinearCombination<X> &l) {
  Form f;
  for (std::size_t i = 0; i < l.values.size(); ++i)
    for (Term t : form(l.values[i]).terms) {
      t.coef *= l.coefficients[static_cast<Eigen::Index>(i)];
      f.terms.push_back(t);
    }
  return f;
}
Form form(const variant<Measurement<A>, Measurement<B>> &x) {
  return x.match(
      [](const Measurement<A> &a) {
        Form f = form(a.value);
        f.measured_a = true;
        return f;
      },
      [](const Measurement<B> &b) { return form(b.value); });
}
template <> Form form(const Measurement<A> &m) {
  Form f = form(m.value);
  f.measured_a = true;
  return f;
}
template <> Form form(const Measurement<B> &m) { return form(m.value); }
template <typename X> Form form(const Measurement<LinearCombination<X>> &m) {
  return form(m.value);
}

struct World {
  double sigma, length, gain, drift, noise, offset;

  LD base(const Term &x, const Term &y) const {
    LD v = static_cast<LD>(sigma) * sigma *
           expl(-fabsl(static_cast<LD>(x.v) - y.v) / length);
    if (x.b)
      v *= gain;
    if (y.b)
      v *= gain;
    if (x.b && y.b)
      v += static_cast<LD>(drift) * drift *
           (1.L + static_cast<LD>(x.v) * y.v / 100.L);
    return v;
  }
  LD k(const Form &f, const Form &g) const {
    LD s = 0.L;
    for (const auto &x : f.terms)
      for (const auto &y : g.terms)
        s += static_cast<LD>(x.coef) * y.coef * base(x, y);
    if (f.measured_a && g.measured_a && f.terms[0].v == g.terms[0].v)
      s += static_cast<LD>(noise) * noise;
    return s;
  }
  LD m(const Form &f) const {
    LD s = 0.L;
    for (const auto &t : f.terms)
      s += static_cast<LD>(t.coef) *
           (t.b ? 2.L * offset - t.v : static_cast<LD>(offset) + t.v);
    return s;
  }
  double amp() const {
    return std::hypot(sigma * std::max(1., std::fabs(gain)), 1.5 * drift);
  }
  auto gp() const {
    return gp_from_covariance_and_mean(
        vfuser::Shared(sigma, length, gain) + vfuser::Drift(drift) +
            measurement_only(vfuser::ANoise(noise)),
        vfuser::ABMean(offset));
  }
};

World make_world(vf::Rng &g) {
  World w;
  w.sigma = g.log_uniform(0.3, 30.);
  w.length = g.log_uniform(0.5, 20.);
  w.gain = g.uniform(-2., 2.);
  w.drift = w.sigma * g.log_uniform(0.1, 3.);
  w.noise = w.sigma * g.log_uniform(0.05, 1.);
  w.offset = 10. * g.normal();
  return w;
}

// generators
double place(vf::Rng &g) { return std::round(g.uniform(-8., 8.) * 4.) / 4.; }
void make(vf::Rng &g, A *a) { a->v = place(g); }
void make(vf::Rng &g, B *b) { b->v = place(g); }
void make(vf::Rng &g, AB *x) {
  if (g.coin()) {
    *x = A{place(g)};
  } else {
    *x = B{place(g)};
  }
}
void move_to(double v, A *a) { a->v = v; }
void move_to(double v, B *b) { b->v = v; }
void move_to(double v, AB *x) {
  if (x->is<A>()) {
    *x = A{v};
  } else {
    *x = B{v};
  }
}
template <typename X> void make(vf::Rng &g, LinearCombination<X> *l) {
  const std::size_t n = g.size(1, 4);
  std::vector<X> v(n);
  Eigen::VectorXd coef(static_cast<Eigen::Index>(n));
  for (std::size_t i = 0; i < n; ++i) {
    make(g, &v[i]);
    coef[static_cast<Eigen::Index>(i)] = g.coin(0.1) ? 0. : g.uniform(-1., 1.);
    if (g.coin(0.15)) { // a small weight of something large
      const double far = (g.coin() ? 1. : -1.) * g.log_uniform(1e3, 1e12);
      move_to(far, &v[i]);
      coef[static_cast<Eigen::Index>(i)] /= std::fabs(far);
    }
  }
  *l = LinearCombination<X>(v, coef);
}
template <typename X> std::vector<X> make_all(vf::Rng &g, std::size_t n) {
  std::vector<X> o(n);
  for (auto &x : o)
    make(g, &x);
  return o;
}

template <typename X> std::vector<Form> forms(const std::vector<X> &xs) {
  std::vector<Form> o;
  for (const auto &x : xs)
    o.push_back(form(x));
  return o;
}

struct Seen {
  std::vector<Form> plain, measured;
  std::vector<double> y, var;
};

Post general(const World &w, const Seen &s, const std::vector<Form> &ts) {
  const std::size_t n = s.plain.size(), m = ts.size();
  LM K(n, n), C(n, m);
  LV d;
  for (std::size_t i = 0; i < n; ++i) {
    for (std::size_t j = 0; j < n; ++j)
      K(i, j) = w.k(s.measured[i], s.measured[j]);
    K(i, i) += s.var[i];
    for (std::size_t j = 0; j < m; ++j)
      C(i, j) = w.k(s.plain[i], ts[j]);
    d.push_back(static_cast<LD>(s.y[i]) - w.m(s.plain[i]));
  }
  Post p;
  p.cov = LM(m, m);
  const LM KiC = solve(K, C);
  const LM E = mul(transpose(C), KiC);
  p.mean = mul(transpose(KiC), d);
  for (std::size_t i = 0; i < m; ++i) {
    p.mean[i] += w.m(ts[i]);
    for (std::size_t j = 0; j < m; ++j)
      p.cov(i, j) = w.k(ts[i], ts[j]) - E(i, j);
  }
  return p;
}

template <typename X>
RegressionDataset<X> observe(vf::Rng &g, const World &w,
                             const std::vector<X> &xs, Seen *seen) {
  Eigen::VectorXd y(static_cast<Eigen::Index>(xs.size())),
      v(static_cast<Eigen::Index>(xs.size()));
  seen->plain = forms(xs);
  seen->measured = forms(as_measurements(xs));
  for (std::size_t i = 0; i < xs.size(); ++i) {
    const Eigen::Index e = static_cast<Eigen::Index>(i);
    y[e] = static_cast<double>(w.m(seen->plain[i])) + w.amp() * g.normal();
    v[e] = w.amp() * w.amp() * g.log_uniform(1e-3, 1.);
    seen->y.push_back(y[e]);
    seen->var.push_back(v[e]);
  }
  return RegressionDataset<X>(xs, MarginalDistribution(y, v));
}

} // namespace

#endif
