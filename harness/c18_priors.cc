// C18: every prior is the normalised density it names, with matching bounds.
//
// Oracle: densities rewritten in long double from their textbook definition,
// numerical integration of exp(log_pdf) (tanh-sinh like dense trapezoid in a
// coordinate where the integrand is smooth), and the set of hyper-parameters.
#include "vf.h"

#include <albatross/Core>

using namespace albatross;

namespace {

struct Ref {
  std::string kind;
  double a = 0., b = 0.; // hyper parameters
  bool proper = false;
  bool log_scale = false;
  bool fixed = false;
  double low = -HUGE_VAL, high = HUGE_VAL; // support of the density
  PriorContainer prior;

  // log density
  long double logp(long double x) const {
    const long double inf = HUGE_VALL;
    const long double l2pi = logl(2.0L * 3.14159265358979323846264338327950288L);
    if (kind == "uninformative" || kind == "fixed")
      return 0.L;
    if (kind == "positive")
      return x > 0.L ? 0.L : -inf;
    if (kind == "non_negative")
      return x >= 0.L ? 0.L : -inf;
    if (kind == "uniform" || kind == "log_scale_uniform")
      return (x >= a && x <= b) ? -logl(static_cast<long double>(b) - a) : -inf;
    if (kind == "gaussian") {
      const long double z = (x - a) / b;
      return -0.5L * l2pi - logl(b) - 0.5L * z * z;
    }
    if (kind == "positive_gaussian") {
      if (x < 0.L)
        return -inf;
      const long double z = (x - a) / b;
      const long double mass = 0.5L * erfcl(-static_cast<long double>(a) /
                                            (b * sqrtl(2.0L)));
      return -0.5L * l2pi - logl(b) - 0.5L * z * z - logl(mass);
    }
    if (kind == "log_normal") {
      if (x <= 0.L)
        return -inf;
      const long double z = (logl(x) - a) / b;
      return -0.5L * l2pi - logl(b) - 0.5L * z * z - logl(x);
    }
    return 0.L;
  }
};

Ref make(vf::Case &c, int which) {
  Ref r;
  auto &g = c.rng;
  const double mu = g.coin(0.2) ? 0. : g.uniform(-3., 3.) * g.log_uniform(1e-2, 1e2);
  const double sigma = g.coin(0.1) ? 1. : g.log_uniform(1e-3, 1e3);
  switch (which) {
  case 0:
    r.kind = "uninformative";
    r.prior = UninformativePrior();
    break;
  case 1:
    r.kind = "fixed";
    r.fixed = true;
    r.prior = FixedPrior();
    break;
  case 2:
    r.kind = "positive";
    r.low = 0.;
    r.prior = PositivePrior();
    break;
  case 3:
    r.kind = "non_negative";
    r.low = 0.;
    r.prior = NonNegativePrior();
    break;
  case 4: {
    r.kind = "uniform";
    r.a = mu;
    r.b = mu + sigma;
    if (g.coin(0.1)) {
      r.a = 0.;
      r.b = 1.;
      r.prior = UniformPrior();
    } else {
      r.prior = UniformPrior(r.a, r.b);
    }
    r.low = r.a;
    r.high = r.b;
    r.proper = true;
    break;
  }
  case 5: {
    r.kind = "log_scale_uniform";
    r.a = g.log_uniform(1e-12, 1e3);
    r.b = r.a * (1. + g.log_uniform(1e-2, 1e8));
    r.prior = LogScaleUniformPrior(r.a, r.b);
    r.low = r.a;
    r.high = r.b;
    r.proper = true;
    r.log_scale = true;
    break;
  }
  case 6:
    r.kind = "gaussian";
    r.a = mu;
    r.b = sigma;
    if (g.coin(0.1)) {
      r.a = 0.;
      r.b = 1.;
      r.prior = GaussianPrior();
    } else {
      r.prior = GaussianPrior(mu, sigma);
    }
    r.proper = true;
    break;
  case 7:
    r.kind = "positive_gaussian";
    r.b = sigma;
    // the mass above zero has to be representable
    r.a = g.coin(0.3) ? 0. : sigma * g.uniform(-6., 30.);
    r.prior = PositiveGaussianPrior(r.a, r.b);
    r.low = 0.;
    r.proper = true;
    break;
  default:
    r.kind = "log_normal";
    r.a = g.coin(0.2) ? 0. : g.uniform(-5., 5.);
    r.b = g.coin(0.1) ? 1. : g.log_uniform(1e-2, 4.);
    r.prior = LogNormalPrior(r.a, r.b);
    r.low = 0.;
    r.proper = true;
    break;
  }
  c.desc << r.kind << "(" << r.a << "," << r.b << ")";
  return r;
}

constexpr int KINDS = 9;

template <typename F>
double trapezoid(F f, double lo, double hi, int n) {
  const double h = (hi - lo) / n;
  long double s = 0.5L * (f(lo) + f(hi));
  for (int i = 1; i < n; ++i) {
    s += f(lo + h * i);
  }
  return static_cast<double>(s * h);
}

// Composite Simpson
template <typename F> double simpson(F f, double lo, double hi, int n) {
  const double h = (hi - lo) / n;
  long double s = f(lo) + f(hi);
  for (int i = 1; i < n; ++i) {
    s += (i % 2 ? 4.L : 2.L) * f(lo + h * i);
  }
  return static_cast<double>(s * h / 3.L);
}

double integrate(const Ref &r, const Prior &p, double lo, double hi) {
  // lo, hi clip the domain
  const auto f = [&](double x) { return std::exp(p.log_pdf(x)); };
  if (r.kind == "log_normal") {
    // x = exp(t)
    const double t0 = std::max(r.a - 12. * r.b, lo > 0. ? std::log(lo) : -700.);
    const double t1 = std::min(r.a + 12. * r.b, hi < HUGE_VAL ? std::log(hi) : 700.);
    return trapezoid([&](double t) { return f(std::exp(t)) * std::exp(t); }, t0,
                     t1, 4000);
  }
  if (r.kind == "gaussian") {
    return trapezoid(f, std::max(lo, r.a - 12. * r.b),
                     std::min(hi, r.a + 12. * r.b), 4000);
  }
  if (r.kind == "positive_gaussian") {
    const double top = std::max(0., r.a) + 12. * r.b;
    const double low = std::max({0., lo, r.a - 12. * r.b});
    return simpson(f, low, std::min(hi, top), 8000);
  }
  // uniforms
  return simpson(f, std::max(r.a, lo), std::min(r.b, hi), 200);
}

// A value from inside the support
double inside(vf::Case &c, const Ref &r) {
  auto &g = c.rng;
  if (r.kind == "uniform" || r.kind == "log_scale_uniform") {
    if (g.coin(0.1))
      return r.a;
    if (g.coin(0.1))
      return r.b;
    return std::min(r.b, std::max(r.a, g.uniform(r.a, r.b)));
  }
  // now and then so far out that the density itself underflows
  const bool far = g.coin(0.15);
  if (r.kind == "gaussian")
    return r.a + r.b * (far ? g.log_uniform(10., 1e5) * (g.coin() ? 1. : -1.) : 4. * g.normal());
  if (r.kind == "positive_gaussian") {
    if (far)
      return std::max(0., r.a) + r.b * g.log_uniform(10., 1e5);
    return g.coin(0.1) ? 0. : std::fabs(r.a + r.b * 3. * g.normal());
  }
  if (r.kind == "log_normal")
    return std::exp(far ? g.uniform(-680., 680.) : r.a + 3. * r.b * g.normal());
  if (r.kind == "positive")
    return g.log_uniform(1e-10, 1e10);
  if (r.kind == "non_negative")
    return g.coin(0.2) ? 0. : g.log_uniform(1e-10, 1e10);
  return g.normal() * g.log_uniform(1e-10, 1e10);
}

} // namespace

// The value of the density, directly and through a container.
VF_SECTION("pointwise", 3000, 60000) {
  const Ref r = make(c, static_cast<int>(c.index % KINDS));
  c.count("kind_" + r.kind);
  c.reached();
  for (int i = 0; i < 8; ++i) {
    const double x = inside(c, r);
    c.desc << " " << x;
    VF_CLOSE("density", r.prior.log_pdf(x), static_cast<double>(r.logp(x)),
             1e-9, 1e-9);
    if (r.logp(x) < -800.L)
      c.count("far_tails");
    const PriorContainer copy(r.prior);
    VF_CHECK("copy", copy.log_pdf(x) == r.prior.log_pdf(x), "at " << x);
    PriorContainer assigned;
    assigned = r.prior;
    VF_CHECK("assigned", assigned.log_pdf(x) == r.prior.log_pdf(x), "at " << x);
    const Parameter p(x, r.prior);
    VF_CHECK("parameter", p.prior_log_likelihood() == r.prior.log_pdf(x),
             "at " << x);
  }
  // Outside of the support there is no density.
  std::vector<double> outside;
  if (std::isfinite(r.low)) {
    outside.push_back(r.low - c.rng.log_uniform(1e-6, 1e6));
    outside.push_back(std::nextafter(r.low, -HUGE_VAL));
  }
  if (std::isfinite(r.high)) {
    outside.push_back(r.high + c.rng.log_uniform(1e-6, 1e6));
    outside.push_back(std::nextafter(r.high, HUGE_VAL));
  }
  for (double x : outside) {
    if (!(x < r.low || x > r.high))
      continue;
    c.count("outside_support");
    VF_CHECK("outside", r.prior.log_pdf(x) == -HUGE_VAL,
             "log_pdf(" << x << ") = " << r.prior.log_pdf(x));
    VF_CHECK("outside_bounds", !Parameter(x, r.prior).is_valid(),
             x << " is considered valid");
    ParameterStore store = {{"x", Parameter(x, r.prior)},
                            {"a", Parameter(1.)}};
    VF_CHECK("outside_store", !params_are_valid(store), x << " valid in store");
    VF_CHECK("outside_likelihood",
             parameter_prior_log_likelihood(store) == -HUGE_VAL, x);
  }
}

VF_SECTION("normalised", 450, 12000) {
  const int proper[] = {4, 5, 6, 7, 8};
  const Ref r = make(c, proper[c.index % 5]);
  c.reached();
  c.count("integrals");
  const double all = integrate(r, r.prior, -HUGE_VAL, HUGE_VAL);
  c.observe_max("largest_integral_error_1e9", std::fabs(all - 1.) * 1e9);
  VF_CLOSE("integral", all, 1., 1e-6, 0.);
  // The declared bounds do not exclude any relevant mass.
  const double bounded =
      integrate(r, r.prior, r.prior.lower_bound(), r.prior.upper_bound());
  VF_CLOSE("integral_within_bounds", bounded, 1., 1e-6, 0.);
}

VF_SECTION("flags", 1500, 30000) {
  const Ref r = make(c, static_cast<int>(c.index % KINDS));
  c.reached();
  const auto &p = r.prior;
  VF_CHECK("fixed", p.is_fixed() == r.fixed, p.get_name());
  VF_CHECK("log_scale", p.is_log_scale() == r.log_scale, p.get_name());
  VF_CHECK("name", p.get_name().rfind(r.kind, 0) == 0,
           p.get_name() << " should name " << r.kind);
  VF_CHECK("bounds_order", p.lower_bound() < p.upper_bound(), p.get_name());
  // every bound belongs to the support, and the support to the bounds up to
  // a tail without mass (positive: only the open end at zero)
  if (r.kind == "uniform" || r.kind == "log_scale_uniform") {
    VF_CHECK("lower", p.lower_bound() == r.a, p.lower_bound());
    VF_CHECK("upper", p.upper_bound() == r.b, p.upper_bound());
  } else if (r.kind == "positive") {
    VF_CHECK("lower", p.lower_bound() > 0. && p.lower_bound() < 1e-15,
             p.lower_bound());
    VF_CHECK("upper", p.upper_bound() == HUGE_VAL, p.upper_bound());
  } else if (r.kind == "non_negative") {
    VF_CHECK("lower", p.lower_bound() == 0., p.lower_bound());
    VF_CHECK("upper", p.upper_bound() == HUGE_VAL, p.upper_bound());
  } else if (r.kind == "uninformative" || r.kind == "fixed" ||
             r.kind == "gaussian") {
    VF_CHECK("lower", p.lower_bound() == -HUGE_VAL, p.lower_bound());
    VF_CHECK("upper", p.upper_bound() == HUGE_VAL, p.upper_bound());
  } else {
    VF_CHECK("lower", p.lower_bound() == 0., p.lower_bound());
  }
  // validity is membership of the closed interval
  for (int i = 0; i < 4; ++i) {
    double x = inside(c, r);
    if (c.rng.coin(0.3))
      x = p.lower_bound();
    else if (c.rng.coin(0.3))
      x = p.upper_bound();
    else if (c.rng.coin(0.3))
      x = -x;
    const bool expected = x >= p.lower_bound() && x <= p.upper_bound();
    VF_CHECK("valid", Parameter(x, p).is_valid() == expected, x);
    VF_CHECK("within", Parameter(x, p).within_bounds() == expected, x);
    if (!expected)
      c.count("invalid_values");
    ParameterStore store;
    store["other"] = Parameter(0.5, UniformPrior(0., 1.));
    store["x"] = Parameter(x, p);
    VF_CHECK("store_valid", params_are_valid(store) == expected, x);
  }
}

// Equality is equality of kind and hyper-parameters.
VF_SECTION("equality", 2000, 40000) {
  const int which = static_cast<int>(c.rng.size(0, KINDS - 1));
  const Ref r = make(c, which);
  c.reached();
  PriorContainer same, different;
  bool have_different = true;
  const double eps = c.rng.coin() ? 1e-9 : c.rng.log_uniform(1e-6, 1.);
  const double da = r.a + (c.rng.coin() ? eps * std::max(1e-3, std::fabs(r.a)) : 0.);
  double db = r.b;
  if (da == r.a)
    db = r.b + eps * std::max(1e-3, std::fabs(r.b));
  if (which == 5 && !(da < db))
    have_different = false;
  switch (which) {
  case 4:
    same = UniformPrior(r.a, r.b);
    if (da < db)
      different = UniformPrior(da, db);
    else
      have_different = false;
    break;
  case 5:
    same = LogScaleUniformPrior(r.a, r.b);
    if (have_different)
      different = LogScaleUniformPrior(da, db);
    break;
  case 6:
    same = GaussianPrior(r.a, r.b);
    different = GaussianPrior(da, db);
    break;
  case 7:
    same = PositiveGaussianPrior(r.a, r.b);
    different = PositiveGaussianPrior(da, db);
    break;
  case 8:
    same = LogNormalPrior(r.a, r.b);
    different = LogNormalPrior(da, db);
    break;
  default:
    same = r.prior;
    have_different = false;
  }
  VF_CHECK("same", r.prior == same, r.prior.get_name());
  VF_CHECK("not_different", !(r.prior != same), r.prior.get_name());
  VF_CHECK("parameter_same", Parameter(1., r.prior) == Parameter(1., same), "");
  VF_CHECK("parameter_value", Parameter(1., r.prior) != Parameter(2., same), "");
  if (have_different) {
    c.count("close_but_different");
    VF_CHECK("different", !(r.prior == different),
             r.prior.get_name() << " da " << da - r.a << " db " << db - r.b);
    VF_CHECK("is_different", r.prior != different, r.prior.get_name());
    VF_CHECK("parameter_different",
             Parameter(1., r.prior) != Parameter(1., different), "");
    VF_CHECK("parameter_not_same",
             !(Parameter(1., r.prior) == Parameter(1., different)), "");
  }
  const int other = static_cast<int>((static_cast<std::size_t>(which) +
                                      c.rng.size(1, KINDS - 1)) % KINDS);
  const Ref o = make(c, other);
  VF_CHECK("other_kind", !(r.prior == o.prior) && r.prior != o.prior,
           r.prior.get_name() << " and " << o.prior.get_name());
}

namespace vf_c18 {
class Handler : public ParameterHandlingMixin {
public:
  using ParameterHandlingMixin::ParameterHandlingMixin;
};
} // namespace vf_c18

// The likelihood of a set of parameters is the sum over its members.
VF_SECTION("sets", 800, 20000) {
  ParameterStore store;
  long double expected = 0.L;
  const std::size_t n = c.rng.extent(0, 8, 60);
  for (std::size_t i = 0; i < n; ++i) {
    const Ref r = make(c, static_cast<int>(c.rng.size(0, KINDS - 1)));
    const double x = inside(c, r);
    expected += r.logp(x);
    store["p" + std::to_string(c.rng.size(0, 1000)) + "_" + std::to_string(i)] =
        Parameter(x, r.prior);
    c.desc << "@" << x << ";";
  }
  c.reached();
  VF_CLOSE("sum", parameter_prior_log_likelihood(store),
           static_cast<double>(expected), 1e-9, 1e-8);
  const vf_c18::Handler h(store);
  VF_CLOSE("handler", h.prior_log_likelihood(), static_cast<double>(expected),
           1e-9, 1e-8);
  bool valid = true;
  for (const auto &p : store)
    valid = valid && p.second.value >= p.second.prior.lower_bound() &&
            p.second.value <= p.second.prior.upper_bound();
  VF_CHECK("valid", params_are_valid(store) == valid, "");
  VF_CHECK("handler_valid", h.params_are_valid() == valid, "");
  if (n == 0)
    c.count("empty_sets");
}

// Nonsense bounds are refused.
VF_SECTION("refused", 4, 20) {
  c.desc << c.index;
  c.reached();
  switch (c.index % 4) {
  case 0:
    VF_ABORTS("empty_interval", UniformPrior(1., 1.));
    break;
  case 1:
    VF_ABORTS("reversed", UniformPrior(2., 1.));
    break;
  case 2:
    VF_ABORTS("log_negative", LogScaleUniformPrior(-1., 1.));
    break;
  default:
    VF_ABORTS("log_zero", LogScaleUniformPrior(0., 1.));
  }
}
