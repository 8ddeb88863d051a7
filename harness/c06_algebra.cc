// C06: sums, products, scalings, variants, measurements and linear combinations
// are the same algebra applied to the parts.
#include "gp_oracle.h"

#include <Eigen/Eigenvalues>
#include <optional>

using namespace albatross;
using namespace vfgp;

namespace vf_c06 {

struct X {
  double v = 0.;
  bool operator==(const X &o) const { return v == o.v; }
};
struct Y {
  double v = 0.;
  bool operator==(const Y &o) const { return v == o.v; }
};
struct Z { // only known to itself
  double v = 0.;
  bool operator==(const Z &o) const { return v == o.v; }
};

class XDistance : public DistanceMetric {
public:
  std::string get_name() const override { return "x"; }
  double operator()(const X &a, const X &b) const { return std::fabs(a.v - b.v); }
};
class YDistance : public DistanceMetric {
public:
  std::string get_name() const override { return "y"; }
  double operator()(const Y &a, const Y &b) const { return std::fabs(a.v - b.v); }
};
class BothDistance : public DistanceMetric {
public:
  std::string get_name() const override { return "both"; }
  double operator()(const X &a, const X &b) const { return std::fabs(a.v - b.v); }
  double operator()(const Y &a, const Y &b) const { return std::fabs(a.v - b.v); }
};

// A latent process seen directly by X and amplified by Y; the mixed pair is
// only defined one way round.
class Latent : public CovarianceFunction<Latent> {
public:
  ALBATROSS_DECLARE_PARAMS(latent_length, latent_gain);
  Latent(double l = 1., double gain = 2.) {
    latent_length = {l, PositivePrior()};
    latent_gain = {gain, UniformPrior(-100., 100.)};
  }
  std::string name() const { return "latent"; }
  double _call_impl(const X &a, const X &b) const { return base(a.v, b.v); }
  double _call_impl(const X &a, const Y &b) const {
    return latent_gain.value * base(a.v, b.v);
  }
  double _call_impl(const Y &a, const Y &b) const {
    return latent_gain.value * latent_gain.value * base(a.v, b.v);
  }

private:
  double base(double a, double b) const {
    return std::exp(-std::fabs(a - b) / latent_length.value);
  }
};

// Treats a measurement differently from the feature.
class Sensor : public CovarianceFunction<Sensor> {
public:
  ALBATROSS_DECLARE_PARAMS(sensor_sigma);
  Sensor(double s = 1.) { sensor_sigma = {s, PositivePrior()}; }
  std::string name() const { return "sensor"; }
  // (without these a plain feature would convert to a measurement)
  double _call_impl(const X &, const X &) const { return 0.; }
  double _call_impl(const X &, const Measurement<X> &) const { return 0.; }
  double _call_impl(const Measurement<X> &, const X &) const { return 0.; }
  double _call_impl(const Measurement<X> &a, const Measurement<X> &b) const {
    return a.value == b.value ? sensor_sigma.value * sensor_sigma.value : 0.;
  }
};

class YScale : public ScalingFunction {
public:
  ALBATROSS_DECLARE_PARAMS(y_rate);
  YScale(double r = 0.5) { y_rate = {r, UniformPrior(-10., 10.)}; }
  std::string get_name() const override { return "y_scale"; }
  double _call_impl(const Y &y) const { return 1. + y_rate.value * y.v; }
};
class BothScale : public ScalingFunction {
public:
  ALBATROSS_DECLARE_PARAMS(both_rate);
  BothScale(double r = 0.5) { both_rate = {r, UniformPrior(-10., 10.)}; }
  std::string get_name() const override { return "both_scale"; }
  double _call_impl(const X &x) const { return 1. + both_rate.value * x.v * x.v; }
  double _call_impl(const Y &y) const { return both_rate.value - y.v; }
};

class XMean : public MeanFunction<XMean> {
public:
  ALBATROSS_DECLARE_PARAMS(x_slope);
  XMean(double s = 1.) { x_slope = {s, UniformPrior(-100., 100.)}; }
  std::string get_name() const { return "x_mean"; }
  double _call_impl(const X &x) const { return x_slope.value * x.v; }
};
class XYMean : public MeanFunction<XYMean> {
public:
  ALBATROSS_DECLARE_PARAMS(xy_level);
  XYMean(double s = 1.) { xy_level = {s, UniformPrior(-100., 100.)}; }
  std::string get_name() const { return "xy_mean"; }
  double _call_impl(const X &x) const { return xy_level.value + x.v * x.v; }
  double _call_impl(const Y &y) const { return xy_level.value * y.v; }
};
class YMean : public MeanFunction<YMean> {
public:
  ALBATROSS_DECLARE_PARAMS(y_level);
  YMean(double s = 1.) { y_level = {s, UniformPrior(-100., 100.)}; }
  std::string get_name() const { return "y_mean"; }
  double _call_impl(const Y &y) const { return y_level.value - y.v; }
};

// ---- what it should be -------------------------------------------------------
struct Atom {
  char kind; // 'x' or 'y'
  double v;
  bool measured;
};

typedef std::optional<LD> Value;
typedef std::function<Value(const Atom &, const Atom &)> Formula;

template <typename Cov> struct Term {
  Cov cov;
  Formula f;
};

template <typename A, typename B>
auto operator+(const Term<A> &a, const Term<B> &b) {
  auto sum = a.cov + b.cov;
  const Formula fa = a.f, fb = b.f;
  return Term<std::decay_t<decltype(sum)>>{
      sum, [fa, fb](const Atom &p, const Atom &q) -> Value {
        const Value u = fa(p, q), v = fb(p, q);
        if (u && v)
          return *u + *v;
        return u ? u : v;
      }};
}

template <typename A, typename B>
auto operator*(const Term<A> &a, const Term<B> &b) {
  auto product = a.cov * b.cov;
  const Formula fa = a.f, fb = b.f;
  return Term<std::decay_t<decltype(product)>>{
      product, [fa, fb](const Atom &p, const Atom &q) -> Value {
        const Value u = fa(p, q), v = fb(p, q);
        if (u && v)
          return *u * *v;
        return u ? u : v;
      }};
}

// a scaling by itself supports nothing
template <typename F, typename B, typename G>
auto scaled(const F &scaling, G factor, const Term<B> &b) {
  const Formula fb = b.f;
  const Formula f = [factor, fb](const Atom &p, const Atom &q) -> Value {
    const Value v = fb(p, q);
    if (!v)
      return v;
    return *v * factor(p) * factor(q);
  };
  auto product = ScalingTerm<F>(scaling) * b.cov;
  return Term<std::decay_t<decltype(product)>>{product, f};
}
template <typename F, typename B, typename G>
auto scaled_right(const F &scaling, G factor, const Term<B> &b) {
  const Formula fb = b.f;
  const Formula f = [factor, fb](const Atom &p, const Atom &q) -> Value {
    const Value v = fb(p, q);
    if (!v)
      return v;
    return *v * factor(p) * factor(q);
  };
  auto product = b.cov * ScalingTerm<F>(scaling);
  return Term<std::decay_t<decltype(product)>>{product, f};
}

template <typename A> auto only_measured(const Term<A> &a) {
  const Formula fa = a.f;
  auto m = measurement_only(a.cov);
  return Term<std::decay_t<decltype(m)>>{
      m, [fa](const Atom &p, const Atom &q) -> Value {
        const Value v = fa(p, q);
        if (!v)
          return v;
        return p.measured && q.measured ? *v : 0.L;
      }};
}

inline auto term_se_x(double l, double s) {
  return Term<SquaredExponential<XDistance>>{
      SquaredExponential<XDistance>(l, s),
      [=](const Atom &p, const Atom &q) -> Value {
        if (p.kind != 'x' || q.kind != 'x')
          return {};
        return se(fabsl(static_cast<LD>(p.v) - q.v), l, s);
      }};
}
inline auto term_m32_y(double l, double s) {
  return Term<Matern32<YDistance>>{
      Matern32<YDistance>(l, s), [=](const Atom &p, const Atom &q) -> Value {
        if (p.kind != 'y' || q.kind != 'y')
          return {};
        return mat32(fabsl(static_cast<LD>(p.v) - q.v), l, s);
      }};
}
inline auto term_exp_same(double l, double s) {
  return Term<Exponential<BothDistance>>{
      Exponential<BothDistance>(l, s), [=](const Atom &p, const Atom &q) -> Value {
        if (p.kind != q.kind)
          return {};
        return expo(fabsl(static_cast<LD>(p.v) - q.v), l, s);
      }};
}
inline auto term_constant(double s) {
  return Term<Constant>{Constant(s), [=](const Atom &, const Atom &) -> Value {
                          return static_cast<LD>(s) * s;
                        }};
}
template <typename T> auto term_noise(char kind, double s) {
  return Term<IndependentNoise<T>>{
      IndependentNoise<T>(s), [=](const Atom &p, const Atom &q) -> Value {
        if (p.kind != kind || q.kind != kind)
          return {};
        return p.v == q.v ? static_cast<LD>(s) * s : 0.L;
      }};
}
inline auto term_nugget(double s) {
  Nugget n;
  n.nugget_sigma.value = s;
  return Term<Nugget>{n, [=](const Atom &p, const Atom &q) -> Value {
                        if (p.kind != q.kind)
                          return {};
                        return p.v == q.v ? static_cast<LD>(s) * s : 0.L;
                      }};
}
inline auto term_latent(double l, double gain) {
  return Term<Latent>{Latent(l, gain), [=](const Atom &p, const Atom &q) -> Value {
                        if (p.kind == 'z' || q.kind == 'z')
                          return {};
                        const LD g = (p.kind == 'y' ? gain : 1.) *
                                     static_cast<LD>(q.kind == 'y' ? gain : 1.);
                        return g * expo(fabsl(static_cast<LD>(p.v) - q.v), l, 1.L);
                      }};
}
inline auto term_sensor(double s) {
  return Term<Sensor>{Sensor(s), [=](const Atom &p, const Atom &q) -> Value {
                        if (p.kind != 'x' || q.kind != 'x')
                          return {};
                        return p.measured && q.measured && p.v == q.v
                                   ? static_cast<LD>(s) * s
                                   : 0.L;
                      }};
}

// ---- features in all of their representations ----------------------------------
typedef std::vector<std::pair<LD, Atom>> Combo;

typedef variant<X, Y> V;
typedef variant<Measurement<X>, Measurement<Y>> MV;
typedef variant<Z, X, Y> ZV;

template <typename T> struct Rep {
  T value;
  Combo combo;
  bool measured_combo = false; // a measurement of a linear combination
};

inline double coordinate(vf::Rng &g) { return g.integer(-6, 6) * 0.5; }

inline V make_v(vf::Rng &g, Atom *a) {
  a->v = coordinate(g);
  a->measured = false;
  a->kind = g.coin(0.5) ? 'x' : 'y';
  if (a->kind == 'x')
    return V(X{a->v});
  return V(Y{a->v});
}

inline void make(vf::Rng &g, Rep<X> &r) {
  const Atom a{'x', coordinate(g), false};
  r = {X{a.v}, {{1.L, a}}, false};
}
inline void make(vf::Rng &g, Rep<Y> &r) {
  const Atom a{'y', coordinate(g), false};
  r = {Y{a.v}, {{1.L, a}}, false};
}
inline void make(vf::Rng &g, Rep<Measurement<X>> &r) {
  const Atom a{'x', coordinate(g), true};
  r = {Measurement<X>(X{a.v}), {{1.L, a}}, false};
}
inline void make(vf::Rng &g, Rep<Measurement<Y>> &r) {
  const Atom a{'y', coordinate(g), true};
  r = {Measurement<Y>(Y{a.v}), {{1.L, a}}, false};
}
inline void make(vf::Rng &g, Rep<V> &r) {
  Atom a;
  r.value = make_v(g, &a);
  r.combo = {{1.L, a}};
}
inline void make(vf::Rng &g, Rep<MV> &r) {
  Atom a;
  const auto ms = as_measurements(std::vector<V>{make_v(g, &a)});
  r.value = ms[0];
  a.measured = true;
  r.combo = {{1.L, a}};
}
inline void make(vf::Rng &g, Rep<LinearCombination<X>> &r) {
  const std::size_t n = g.size(0, 4);
  std::vector<X> xs;
  Eigen::VectorXd co(Eigen::Index(n), 1);
  r.combo.clear();
  for (std::size_t i = 0; i < n; ++i) {
    const Atom a{'x', coordinate(g), false};
    xs.push_back(X{a.v});
    co[Eigen::Index(i)] = g.coin(0.1) ? 0. : g.normal();
    r.combo.push_back({co[Eigen::Index(i)], a});
  }
  r.value = LinearCombination<X>(xs, co);
}
inline void make(vf::Rng &g, Rep<LinearCombination<V>> &r) {
  const std::size_t n = g.size(0, 4);
  std::vector<V> xs;
  Eigen::VectorXd co(Eigen::Index(n), 1);
  r.combo.clear();
  for (std::size_t i = 0; i < n; ++i) {
    Atom a;
    xs.push_back(make_v(g, &a));
    co[Eigen::Index(i)] = g.normal();
    r.combo.push_back({co[Eigen::Index(i)], a});
  }
  r.value = LinearCombination<V>(xs, co);
}
inline void make(vf::Rng &g, Rep<Measurement<LinearCombination<X>>> &r) {
  Rep<LinearCombination<X>> in;
  make(g, in);
  r = {Measurement<LinearCombination<X>>(in.value), in.combo, true};
}

// ---- expectations for the mixed features ----------------------------------------
inline LD expected(const Formula &f, const Combo &a, const Combo &b, LD *size) {
  LD sum = 0.L;
  *size = 0.L;
  for (const auto &p : a)
    for (const auto &q : b) {
      const LD t = p.first * q.first * f(p.second, q.second).value_or(0.L);
      sum += t;
      *size += fabsl(t);
    }
  return sum;
}

template <typename Cov, typename A, typename B, typename = void>
struct callable : std::false_type {};
template <typename Cov, typename A, typename B>
struct callable<Cov, A, B,
                std::enable_if_t<std::is_same<
                    double, decltype(std::declval<const Cov &>()(
                                std::declval<const A &>(),
                                std::declval<const B &>()))>::value>>
    : std::true_type {};

template <typename T> struct name_of;
#define VF_NAME(T, N)                                                           \
  template <> struct name_of<T> {                                               \
    static const char *get() { return N; }                                      \
  }
VF_NAME(X, "X");
VF_NAME(Y, "Y");
VF_NAME(Measurement<X>, "M<X>");
VF_NAME(Measurement<Y>, "M<Y>");
VF_NAME(V, "V<X,Y>");
VF_NAME(MV, "V<M<X>,M<Y>>");
VF_NAME(LinearCombination<X>, "L<X>");
VF_NAME(LinearCombination<V>, "L<V<X,Y>>");
VF_NAME(Measurement<LinearCombination<X>>, "M<L<X>>");

template <typename A, typename B, typename Cov>
void check_pair(vf::Case &c, const Term<Cov> &t, bool in_place_noise,
                double scale) {
  Rep<A> a;
  Rep<B> b;
  make(c.rng, a);
  make(c.rng, b);
  const std::string pair =
      std::string(name_of<A>::get()) + "," + name_of<B>::get();
  LD size = 0.L;
  const LD want = expected(t.f, a.combo, b.combo, &size);
  if constexpr (callable<Cov, A, B>::value) {
    // whether noise of a measured linear combination is that of its parts is a
    // question of interpretation
    if ((a.measured_combo || b.measured_combo) && in_place_noise)
      return;
    const double got = t.cov(a.value, b.value);
    c.count("pairs", 1);
    VF_CLOSE("value of " + pair, got, static_cast<double>(want), 0.,
             1e-11 * static_cast<double>(size) + 1e-16 * scale);
    static_assert(callable<Cov, B, A>::value, "defined one way round only");
    VF_CLOSE("order of " + pair, t.cov(b.value, a.value), got, 0.,
             1e-12 * static_cast<double>(size) + 1e-16 * scale);
    // cross covariance block of vectors of these
    const Eigen::MatrixXd m = t.cov(std::vector<A>{a.value, a.value},
                                    std::vector<B>{b.value});
    VF_REQUIRE("block_size", m.rows() == 2 && m.cols() == 1, m.rows());
    VF_CHECK("block of " + pair, m(0, 0) == got && m(1, 0) == got, m);
  } else {
    // then none of the parts may be supported
    bool supported = false;
    for (const auto &p : a.combo)
      for (const auto &q : b.combo)
        supported = supported || t.f(p.second, q.second).has_value();
    c.count("undefined_pairs", 1);
    VF_CHECK("undefined " + pair, !supported, "not callable");
  }
}

template <typename A, typename Cov>
void check_row(vf::Case &c, const Term<Cov> &t, bool noise, double scale) {
  check_pair<A, X>(c, t, noise, scale);
  check_pair<A, Y>(c, t, noise, scale);
  check_pair<A, Measurement<X>>(c, t, noise, scale);
  check_pair<A, Measurement<Y>>(c, t, noise, scale);
  check_pair<A, V>(c, t, noise, scale);
  check_pair<A, MV>(c, t, noise, scale);
  check_pair<A, LinearCombination<X>>(c, t, noise, scale);
  check_pair<A, LinearCombination<V>>(c, t, noise, scale);
  check_pair<A, Measurement<LinearCombination<X>>>(c, t, noise, scale);
}

template <typename Cov>
void check_term(vf::Case &c, const Term<Cov> &t, bool noise, bool psd,
                double scale) {
  check_row<X>(c, t, noise, scale);
  check_row<Y>(c, t, noise, scale);
  check_row<Measurement<X>>(c, t, noise, scale);
  check_row<Measurement<Y>>(c, t, noise, scale);
  check_row<V>(c, t, noise, scale);
  check_row<MV>(c, t, noise, scale);
  check_row<LinearCombination<X>>(c, t, noise, scale);
  check_row<LinearCombination<V>>(c, t, noise, scale);
  check_row<Measurement<LinearCombination<X>>>(c, t, noise, scale);
  // Gram matrices of mixed features
  const std::size_t n = c.rng.size(0, 9);
  std::vector<Rep<V>> plain(n);
  std::vector<Rep<MV>> meas(n);
  std::vector<V> vs;
  std::vector<MV> ms;
  for (std::size_t i = 0; i < n; ++i) {
    make(c.rng, plain[i]);
    make(c.rng, meas[i]);
    vs.push_back(plain[i].value);
    ms.push_back(meas[i].value);
  }
  const auto gram = [&](const Eigen::MatrixXd &K, const auto &reps) {
    VF_REQUIRE("gram_size", K.rows() == Eigen::Index(n) && K.cols() == K.rows(),
               K.rows());
    for (std::size_t i = 0; i < n; ++i)
      for (std::size_t j = 0; j < n; ++j) {
        LD size = 0.L;
        const LD want = expected(t.f, reps[i].combo, reps[j].combo, &size);
        VF_CLOSE("gram", K(Eigen::Index(i), Eigen::Index(j)),
                 static_cast<double>(want), 0., 1e-11 * double(size) + 1e-16 * scale);
        VF_CHECK("gram_symmetric", K(Eigen::Index(i), Eigen::Index(j)) ==
                                       K(Eigen::Index(j), Eigen::Index(i)),
                 K);
      }
    if (psd && n > 0) {
      Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(K);
      VF_CHECK("gram_psd", es.eigenvalues().minCoeff() >= -1e-11 * scale,
               es.eigenvalues().transpose());
      c.count("psd_checked", 1);
    }
  };
  gram(t.cov(vs), plain);
  gram(t.cov(ms), meas);
  const Eigen::VectorXd d = t.cov.diagonal(ms);
  VF_REQUIRE("diagonal_size", d.size() == Eigen::Index(n), d.size());
  for (std::size_t i = 0; i < n; ++i)
    VF_CHECK("diagonal", d[Eigen::Index(i)] == t.cov(ms[i], ms[i]), d[Eigen::Index(i)]);
  const Eigen::MatrixXd cross = t.cov(vs, ms);
  for (std::size_t i = 0; i < n; ++i)
    for (std::size_t j = 0; j < n; ++j) {
      LD size = 0.L;
      const LD want = expected(t.f, plain[i].combo, meas[j].combo, &size);
      VF_CLOSE("cross", cross(Eigen::Index(i), Eigen::Index(j)),
               static_cast<double>(want), 0., 1e-11 * double(size) + 1e-16 * scale);
    }
}

struct Draws {
  double l1, l2, l3, s1, s2, s3, gain, rate;
};
inline Draws draws(vf::Rng &g) {
  Draws d;
  d.l1 = g.log_uniform(0.2, 10.);
  d.l2 = g.log_uniform(0.2, 10.);
  d.l3 = g.log_uniform(0.2, 10.);
  d.s1 = g.log_uniform(0.1, 10.);
  d.s2 = g.log_uniform(0.1, 10.);
  d.s3 = g.coin(0.1) ? 0. : g.log_uniform(0.1, 10.);
  d.gain = 2. * g.normal();
  d.rate = g.normal();
  return d;
}
inline void describe(vf::Case &c, const Draws &d, std::size_t which) {
  c.desc << which << " " << d.l1 << " " << d.l2 << " " << d.l3 << " " << d.s1
         << " " << d.s2 << " " << d.s3 << " " << d.gain << " " << d.rate;
}

} // namespace vf_c06

namespace {
using namespace vf_c06;

#ifndef VF_C06_PART
#define VF_C06_PART 0
#endif


#define VF_TERM(NAME, ...)                                                      \
  VF_SECTION(NAME, 60, 1200) {                                                  \
    auto &g = c.rng;                                                            \
    const Draws d = draws(g);                                                   \
    describe(c, d, 0);                                                          \
    const double rate = d.rate;                                                 \
    const auto yf = [rate](const Atom &a) { return y_factor(a, rate); };        \
    const auto bf = [rate](const Atom &a) { return both_factor(a, rate); };     \
    (void)yf;                                                                   \
    (void)bf;                                                                   \
    check_term(c, __VA_ARGS__);                                                 \
    c.reached();                                                                \
  }

inline LD y_factor(const Atom &a, double rate) {
  return a.kind == 'y' ? 1.L + static_cast<LD>(rate) * a.v : 1.L;
}
inline LD both_factor(const Atom &a, double rate) {
  return a.kind == 'x' ? 1.L + static_cast<LD>(rate) * a.v * a.v
                       : static_cast<LD>(rate) - a.v;
}

// term, whether it holds noise, whether it is positive semi-definite, size
#if VF_C06_PART == 0
VF_TERM("sum_of_types", term_se_x(d.l1, d.s1) + term_m32_y(d.l2, d.s2), false,
        true, 1e4)
VF_TERM("sum_with_noise",
        term_se_x(d.l1, d.s1) + term_latent(d.l2, d.gain) +
            only_measured(term_noise<X>('x', d.s2)),
        true, true, 1e4)
#elif VF_C06_PART == 1
VF_TERM("sum_with_sensor",
        term_constant(d.s3) + (term_nugget(d.s1) + term_latent(d.l2, d.gain)) +
            term_sensor(d.s2),
        true, true, 1e4)
#elif VF_C06_PART == 2
// cross pairs of the first are not defined, there the product is the rest
VF_TERM("one_sided_product",
        term_exp_same(d.l1, d.s1) * term_constant(d.s3) +
            term_latent(d.l2, d.gain) * term_se_x(d.l3, d.s2),
        false, false, 1e6)
#elif VF_C06_PART == 3
VF_TERM("product_of_sums",
        (term_se_x(d.l1, d.s1) + term_constant(d.s3)) *
            (term_m32_y(d.l2, d.s2) + term_latent(d.l3, d.gain)),
        false, true, 1e7)
#elif VF_C06_PART == 4
VF_TERM("noise_of_sums",
        only_measured(term_noise<X>('x', d.s1) + term_noise<Y>('y', d.s2)) +
            term_latent(d.l1, d.gain) * term_constant(d.s1),
        true, true, 1e5)
#elif VF_C06_PART == 5
VF_TERM("scaled_left",
        scaled(YScale(rate), yf, term_latent(d.l1, d.gain)) + term_constant(d.s3),
        false, true, 1e7)
VF_TERM("scaled_right",
        scaled_right(BothScale(rate), bf, term_se_x(d.l1, d.s1)) +
            term_m32_y(d.l2, d.s2) + only_measured(term_noise<X>('x', d.s2)),
        true, true, 1e7)
#elif VF_C06_PART == 6
VF_TERM("scaled_sum",
        scaled(BothScale(rate), bf,
               term_latent(d.l1, d.gain) + term_nugget(d.s1)) +
            scaled_right(YScale(rate), yf, term_m32_y(d.l2, d.s2)),
        false, true, 1e7)
#else
// Parameters set on the composition are those of the parts.
VF_SECTION("parameters", 200, 3000) {
  auto &g = c.rng;
  const Draws d = draws(g), e = draws(g);
  describe(c, d, 0);
  describe(c, e, 1);
  auto cov = (SquaredExponential<XDistance>(d.l1, d.s1) + Latent(d.l2, d.gain)) *
                 ScalingTerm<BothScale>(BothScale(d.rate)) +
             measurement_only(IndependentNoise<X>(d.s2));
  const auto want = (SquaredExponential<XDistance>(e.l1, e.s1) + Latent(e.l2, e.gain)) *
                        ScalingTerm<BothScale>(BothScale(e.rate)) +
                    measurement_only(IndependentNoise<X>(e.s2));
  cov.set_param_values({{"squared_exponential_length_scale", e.l1},
                        {"sigma_squared_exponential", e.s1},
                        {"latent_length", e.l2},
                        {"latent_gain", e.gain},
                        {"both_rate", e.rate},
                        {"sigma_independent_noise", e.s2}});
  for (std::size_t k = 0; k < 6; ++k) {
    Rep<MV> a, b;
    make(g, a);
    make(g, b);
    VF_CHECK("same_as_built", cov(a.value, b.value) == want(a.value, b.value),
             cov(a.value, b.value) << " vs " << want(a.value, b.value));
  }
  c.count("parameters_set", 6);
  c.reached();
}

// Pairs of types which are not defined contribute nothing.
VF_SECTION("unknown_types", 200, 3000) {
  auto &g = c.rng;
  const Draws d = draws(g);
  describe(c, d, 0);
  const auto t = term_latent(d.l1, d.gain) + term_se_x(d.l2, d.s1) +
                 term_noise<Z>('z', d.s2);
  std::vector<ZV> zs;
  std::vector<Atom> as;
  const std::size_t n = g.extent(1, 7, 40);
  for (std::size_t i = 0; i < n; ++i) {
    const double v = coordinate(g);
    switch (g.size(0, 2)) {
    case 0:
      zs.push_back(ZV(Z{v}));
      as.push_back(Atom{'z', v, false});
      c.count("unknown_elements", 1);
      break;
    case 1:
      zs.push_back(ZV(X{v}));
      as.push_back(Atom{'x', v, false});
      break;
    default:
      zs.push_back(ZV(Y{v}));
      as.push_back(Atom{'y', v, false});
    }
  }
  const Eigen::MatrixXd K = t.cov(zs);
  XYMean mean(d.rate);
  const Eigen::VectorXd m = mean(zs);
  for (std::size_t i = 0; i < n; ++i) {
    for (std::size_t j = 0; j < n; ++j) {
      const LD want = t.f(as[i], as[j]).value_or(0.L);
      VF_CLOSE("gram", K(Eigen::Index(i), Eigen::Index(j)), double(want), 1e-12,
               1e-13 * (1. + d.gain * d.gain));
    }
    const double w = as[i].kind == 'z' ? 0.
                     : as[i].kind == 'x'
                         ? d.rate + as[i].v * as[i].v
                         : d.rate * as[i].v;
    VF_CLOSE("mean", m[Eigen::Index(i)], w, 1e-13, 1e-13);
  }
  c.reached();
}

// ---- mean functions ------------------------------------------------------------
typedef std::function<Value(const Atom &)> MeanFormula;

template <typename Mean, typename A, typename = void>
struct mean_callable : std::false_type {};
template <typename Mean, typename A>
struct mean_callable<Mean, A,
                     std::enable_if_t<std::is_same<
                         double, decltype(std::declval<const Mean &>()(
                                     std::declval<const A &>()))>::value>>
    : std::true_type {};

template <typename A, typename Mean>
void mean_rep(vf::Case &c, const Mean &mean, const MeanFormula &f) {
  std::vector<A> as;
  Eigen::VectorXd target(Eigen::Index(c.rng.size(0, 4)), 1);
  std::vector<double> wants;
  bool supported = false;
  for (Eigen::Index i = 0; i < target.size(); ++i) {
    Rep<A> a;
    make(c.rng, a);
    as.push_back(a.value);
    LD want = 0.L;
    for (const auto &p : a.combo) {
      supported = supported || f(p.second).has_value();
      want += p.first * f(p.second).value_or(0.L);
    }
    wants.push_back(double(want));
    target[i] = c.rng.normal();
  }
  const std::string key = name_of<A>::get();
  if constexpr (mean_callable<Mean, A>::value) {
    c.count("means", 1);
    const Eigen::VectorXd all = mean(as);
    VF_REQUIRE("mean_size", all.size() == target.size(), all.size());
    Eigen::VectorXd added = target, removed = target;
    mean.add_to(as, &added);
    mean.remove_from(as, &removed);
    for (Eigen::Index i = 0; i < target.size(); ++i) {
      const double w = wants[std::size_t(i)];
      VF_CLOSE("mean of " + key, mean(as[std::size_t(i)]), w, 1e-11, 1e-11);
      VF_CHECK("mean_vector of " + key, all[i] == mean(as[std::size_t(i)]), all[i]);
      VF_CLOSE("added " + key, added[i], target[i] + w, 1e-11, 1e-11);
      VF_CLOSE("removed " + key, removed[i], target[i] - w, 1e-11, 1e-11);
    }
  } else {
    VF_CHECK("mean_undefined " + key, !supported, "not callable");
  }
}

template <typename Mean>
void check_mean(vf::Case &c, const Mean &mean, const MeanFormula &f) {
  mean_rep<X>(c, mean, f);
  mean_rep<Y>(c, mean, f);
  mean_rep<Measurement<X>>(c, mean, f);
  mean_rep<Measurement<Y>>(c, mean, f);
  mean_rep<V>(c, mean, f);
  mean_rep<MV>(c, mean, f);
  mean_rep<LinearCombination<X>>(c, mean, f);
  mean_rep<LinearCombination<V>>(c, mean, f);
  mean_rep<Measurement<LinearCombination<X>>>(c, mean, f);
}

VF_SECTION("mean_functions", 300, 5000) {
  auto &g = c.rng;
  const double p = g.normal(), q = g.coin(0.1) ? 0. : g.normal(), r = g.normal();
  const MeanFormula x = [p](const Atom &a) -> Value {
    if (a.kind != 'x')
      return {};
    return static_cast<LD>(p) * a.v;
  };
  const MeanFormula xy = [q](const Atom &a) -> Value {
    return a.kind == 'x' ? static_cast<LD>(q) + static_cast<LD>(a.v) * a.v
                         : static_cast<LD>(q) * a.v;
  };
  const MeanFormula y = [r](const Atom &a) -> Value {
    if (a.kind != 'y')
      return {};
    return static_cast<LD>(r) - a.v;
  };
  const auto plus = [](MeanFormula s, MeanFormula t) -> MeanFormula {
    return [s, t](const Atom &a) -> Value {
      const Value u = s(a), v = t(a);
      if (u && v)
        return *u + *v;
      return u ? u : v;
    };
  };
  const auto times = [](MeanFormula s, MeanFormula t) -> MeanFormula {
    return [s, t](const Atom &a) -> Value {
      const Value u = s(a), v = t(a);
      if (u && v)
        return *u * *v;
      return u ? u : v;
    };
  };
  c.desc << p << " " << q << " " << r;
  check_mean(c, XMean(p), x);
  check_mean(c, XMean(p) + XYMean(q), plus(x, xy));
  check_mean(c, XYMean(q) * XMean(p), times(xy, x));
  check_mean(c, XMean(p) + YMean(r), plus(x, y));
  check_mean(c, (XMean(p) + YMean(r)) * XYMean(q), times(plus(x, y), xy));
  check_mean(c, YMean(r) * XYMean(q) + XMean(p), plus(times(y, xy), x));
  // the mean which is zero leaves everything alone, and is a neutral element
  std::vector<X> xs{X{1.}, X{2.}};
  Eigen::VectorXd t = Eigen::VectorXd::Constant(2, 7.);
  ZeroMean zero;
  zero.add_to(xs, &t);
  zero.remove_from(xs, &t);
  VF_CHECK("zero_mean", t[0] == 7. && t[1] == 7. && zero(xs).size() == 2 &&
                            zero(xs).isZero(0.) && zero(xs[0]) == 0.,
           t);
  VF_CHECK("neutral", (XMean(p) + zero)(xs[1]) == XMean(p)(xs[1]), p);
  c.reached();
}

// Helpers that build linear combinations.
VF_SECTION("linear_combinations", 300, 5000) {
  auto &g = c.rng;
  const Draws d = draws(g);
  describe(c, d, 0);
  const auto t = term_latent(d.l1, d.gain) + term_se_x(d.l2, d.s1);
  const double tol = 1e-12 * (1. + d.gain * d.gain + d.s1 * d.s1) * 50.;
  Rep<X> a, b;
  Rep<Y> y;
  Rep<V> v;
  make(g, a);
  make(g, b);
  make(g, y);
  make(g, v);
  const auto k = [&](const auto &p, const auto &q) { return t.cov(p, q); };
  const auto sum = linear_combination::sum(a.value, b.value);
  const auto diff = linear_combination::difference(a.value, b.value);
  const auto mixed = linear_combination::sum(a.value, y.value);
  const auto mixed_diff = linear_combination::difference(a.value, y.value);
  VF_CLOSE("sum", k(sum, v.value), k(a.value, v.value) + k(b.value, v.value), 0., tol);
  VF_CLOSE("difference", k(diff, v.value), k(a.value, v.value) - k(b.value, v.value),
           0., tol);
  VF_CLOSE("sum_of_types", k(mixed, v.value),
           k(a.value, v.value) + k(y.value, v.value), 0., tol);
  VF_CLOSE("difference_of_types", k(mixed_diff, v.value),
           k(a.value, v.value) - k(y.value, v.value), 0., tol);
  VF_CLOSE("variance_of_difference", k(mixed_diff, mixed_diff),
           k(a.value, a.value) - 2. * k(a.value, y.value) + k(y.value, y.value), 0.,
           tol);
  std::vector<X> xs;
  const std::size_t n = g.size(1, 6);
  double direct = 0.;
  for (std::size_t i = 0; i < n; ++i) {
    Rep<X> r;
    make(g, r);
    xs.push_back(r.value);
    direct += k(r.value, v.value) / double(n);
  }
  VF_CLOSE("mean", k(linear_combination::mean(xs), v.value), direct, 0., tol);
  VF_CLOSE("trivial", k(linear_combination::to_linear_combination(a.value), v.value),
           k(a.value, v.value), 0., tol);
  VF_CHECK("unchanged", linear_combination::to_linear_combination(sum) == sum, n);
  // a matrix of coefficients, dense or sparse, and a product of two of them
  const Eigen::Index rows = Eigen::Index(g.size(1, 4));
  Eigen::MatrixXd A(rows, Eigen::Index(n));
  for (Eigen::Index i = 0; i < A.size(); ++i)
    A.data()[i] = g.coin(0.3) ? 0. : g.normal();
  Eigen::MatrixXd B(Eigen::Index(2), rows);
  for (Eigen::Index i = 0; i < B.size(); ++i)
    B.data()[i] = g.coin(0.3) ? 0. : g.normal();
  const Eigen::SparseMatrix<double> As = A.sparseView(), Bs = B.sparseView();
  const auto dense = A * xs;
  const auto sparse = As * xs;
  const auto twice = Bs * sparse;
  const Eigen::MatrixXd K = t.cov(xs);
  const Eigen::MatrixXd want = A * K * A.transpose(),
                        want2 = B * want * B.transpose(), wantx = A * K;
  const auto close = [&](const char *key, const Eigen::MatrixXd &p,
                         const Eigen::MatrixXd &q) {
    VF_REQUIRE(std::string(key) + "_size",
               p.rows() == q.rows() && p.cols() == q.cols(), p.rows());
    for (Eigen::Index i = 0; i < p.rows(); ++i)
      for (Eigen::Index j = 0; j < p.cols(); ++j)
        VF_CLOSE(key, p(i, j), q(i, j), 0., 20. * tol);
  };
  close("dense_map", t.cov(dense), want);
  close("sparse_map", t.cov(sparse), want);
  close("product_of_maps", t.cov(twice), want2);
  close("cross_of_map", t.cov(dense, xs), wantx);
  close("as_measurements", t.cov(as_measurements(dense), xs), wantx);
  VF_CHECK("wrong_number_of_coefficients",
           vf::aborts([&] {
             LinearCombination<X> bad(xs, Eigen::VectorXd::Ones(Eigen::Index(n) + 1));
             (void)bad;
           }),
           n);
  c.reached();
}
#endif

} // namespace
