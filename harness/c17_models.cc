// C17 for composed objects: covariance and mean functions, models.
#include "gp_oracle.h"

#include <albatross/LeastSquares>
#include <albatross/NullModel>
#include <albatross/SparseGP>

using namespace albatross;
using namespace vfgp;

namespace vf_c17m {

bool same_param(const Parameter &a, const Parameter &b) {
  return std::memcmp(&a.value, &b.value, 8) == 0 && a.prior == b.prior;
}

bool same_store(const ParameterStore &a, const ParameterStore &b) {
  if (a.size() != b.size())
    return false;
  for (auto i = a.begin(), j = b.begin(); i != a.end(); ++i, ++j)
    if (i->first != j->first || !same_param(i->second, j->second))
      return false;
  return true;
}

PriorContainer any_prior(vf::Rng &g) {
  switch (g.size(0, 3)) {
  case 0:
    return UniformPrior(0., 1e3);
  case 1:
    return GaussianPrior(1., 3.);
  case 2:
    return FixedPrior();
  default:
    return LogScaleUniformPrior(1e-3, 1e3);
  }
}

// An adapter with a parameter of its own, which leaves the others to its base.
template <typename CovFunc>
class Adapted
    : public GaussianProcessBase<CovFunc, LinearMean, Adapted<CovFunc>> {
public:
  using Base = GaussianProcessBase<CovFunc, LinearMean, Adapted<CovFunc>>;
  Adapted() : Base() { this->params_["center"] = {1., UniformPrior(-10., 10.)}; }
};

class Scale : public ScalingFunction {
public:
  ALBATROSS_DECLARE_PARAMS(scale_rate, scale_offset);
  Scale() {
    scale_rate = {0.3, UniformPrior(-10., 10.)};
    scale_offset = {1., GaussianPrior(0., 10.)};
  }
  std::string get_name() const override { return "scale"; }
  double _call_impl(const double &x) const {
    return scale_offset.value + scale_rate.value * x;
  }
};

// Random sets through the public interface, against a model map.
template <typename T, typename Check>
void sequence(vf::Case &c, T object, const std::set<std::string> &names,
              Check &&check) {
  auto &g = c.rng;
  ParameterStore model = object.get_params();
  std::set<std::string> found;
  for (const auto &p : model)
    found.insert(p.first);
  VF_REQUIRE("names", found == names, object.pretty_string());
  const T original(object);
  const ParameterStore initial = model;
  check(object, model);
  const std::size_t steps = g.size(1, 8);
  std::vector<std::string> list(names.begin(), names.end());
  for (std::size_t s = 0; s < steps; ++s) {
    const std::string name = g.pick(list);
    const double v = g.log_uniform(0.1, 10.);
    const std::size_t op = g.size(0, 5);
    c.desc << " " << op << ":" << name << "=" << v;
    switch (op) {
    case 0: {
      const Parameter p(v, any_prior(g));
      object.set_param(name, p);
      model[name] = p;
      break;
    }
    case 1:
      object.set_param_value(name, v);
      model[name].value = v;
      break;
    case 2: {
      const auto p = any_prior(g);
      object.set_prior(name, p);
      model[name].prior = p;
      break;
    }
    case 3: {
      ParameterStore some;
      for (std::size_t i = 0; i < 2; ++i)
        some[g.pick(list)] = Parameter(g.log_uniform(0.1, 10.), any_prior(g));
      object.set_params(some);
      for (const auto &p : some)
        model[p.first] = p.second;
      break;
    }
    case 4: {
      std::map<ParameterKey, ParameterValue> some;
      some[g.pick(list)] = v;
      some["unknown"] = 3.;
      object.set_param_values_if_exists(some);
      for (const auto &p : some)
        if (model.count(p.first))
          model[p.first].value = p.second;
      c.count("unknown_names");
      break;
    }
    default: {
      // through the optimizer's vector
      bool bounded = true;
      for (const auto &p : model)
        bounded = bounded && p.second.is_valid();
      if (!bounded)
        break;
      auto t = object.get_tunable_parameters();
      std::size_t k = 0;
      for (auto &p : model) {
        if (p.second.prior.is_fixed())
          continue;
        VF_REQUIRE("tunable_name", k < t.names.size() && t.names[k] == p.first,
                   p.first);
        const double target = g.log_uniform(0.1, 10.);
        t.values[k] = p.second.prior.is_log_scale() ? std::log(target) : target;
        p.second.value = p.second.prior.is_log_scale() ? std::exp(t.values[k])
                                                       : target;
        ++k;
      }
      object.set_tunable_params_values(t.values);
      c.count("tuning_vectors");
    }
    }
    VF_CHECK("params", same_store(object.get_params(), model),
             pretty_param_details(object.get_params())
                 << " expected " << pretty_param_details(model));
    VF_CHECK("value", object.get_param_value(name) == model[name].value, name);
    check(object, model);
    const T copy(object);
    VF_CHECK("copy", same_store(copy.get_params(), model), "copy differs");
    check(copy, model);
  }
  VF_CHECK("original", same_store(original.get_params(), initial),
           "setting a copy's parameters changed the original");
  check(original, initial);
  VF_CHECK("prior_log_likelihood",
           [&]() {
             double sum = 0.;
             for (const auto &p : model)
               sum += p.second.prior.log_pdf(p.second.value);
             const double got = object.prior_log_likelihood();
             return got == sum || std::fabs(got - sum) < 1e-9 * (1. + std::fabs(sum));
           }(),
           "");
}

} // namespace vf_c17m
using namespace vf_c17m;

namespace {
double val(const ParameterStore &p, const char *name) { return p.at(name).value; }
} // namespace

VF_SECTION("covariance", 400, 8000) {
  auto &g = c.rng;
  c.reached();
  const double x = g.uniform(-3., 3.), y = g.coin(0.3) ? x : g.uniform(-3., 3.);
  const double d = std::fabs(x - y);
  c.desc << "cov " << c.index % 4 << " at " << x << "," << y;
  switch (c.index % 4) {
  case 0: {
    const auto cov = SE() + EX() * M32() + measurement_only(IN());
    sequence(c, cov,
             {"squared_exponential_length_scale", "sigma_squared_exponential",
              "exponential_length_scale", "sigma_exponential",
              "matern_32_length_scale", "sigma_matern_32",
              "sigma_independent_noise"},
             [&](const auto &k, const ParameterStore &p) {
               const double e =
                   se(d, val(p, "squared_exponential_length_scale"),
                      val(p, "sigma_squared_exponential")) +
                   expo(d, val(p, "exponential_length_scale"),
                        val(p, "sigma_exponential")) *
                       mat32(d, val(p, "matern_32_length_scale"),
                             val(p, "sigma_matern_32"));
               const double n = val(p, "sigma_independent_noise");
               VF_CLOSE("k", k(x, y), e, 1e-10, 1e-100);
               VF_CLOSE("k_meas",
                        k(Measurement<double>(x), Measurement<double>(y)),
                        e + (x == y ? n * n : 0.), 1e-10, 1e-100);
             });
    break;
  }
  case 1: {
    const auto cov = (Constant() + Polynomial<2>()) * M52() + Nugget();
    sequence(c, cov,
             {"sigma_constant", "sigma_polynomial_0", "sigma_polynomial_1",
              "sigma_polynomial_2", "matern_52_length_scale", "sigma_matern_52",
              "nugget_sigma"},
             [&](const auto &k, const ParameterStore &p) {
               const double s0 = val(p, "sigma_polynomial_0"),
                            s1 = val(p, "sigma_polynomial_1"),
                            s2 = val(p, "sigma_polynomial_2"),
                            sc = val(p, "sigma_constant"),
                            n = val(p, "nugget_sigma");
               double e = (sc * sc + s0 * s0 + s1 * s1 * x * y +
                           s2 * s2 * x * x * y * y) *
                          static_cast<double>(mat52(d, val(p, "matern_52_length_scale"),
                                val(p, "sigma_matern_52")));
               if (x == y)
                 e += n * n;
               VF_CLOSE("k", k(x, y), e, 1e-10, 1e-12);
             });
    break;
  }
  case 2: {
    const auto cov = ScalingTerm<Scale>() * SE() + measurement_only(EX() + IN());
    sequence(c, cov,
             {"scale_rate", "scale_offset", "squared_exponential_length_scale",
              "sigma_squared_exponential", "exponential_length_scale",
              "sigma_exponential", "sigma_independent_noise"},
             [&](const auto &k, const ParameterStore &p) {
               const double fx = val(p, "scale_offset") + val(p, "scale_rate") * x,
                            fy = val(p, "scale_offset") + val(p, "scale_rate") * y;
               const double e =
                   fx * fy *
                   static_cast<double>(
                       se(d, val(p, "squared_exponential_length_scale"),
                          val(p, "sigma_squared_exponential")));
               const double n = val(p, "sigma_independent_noise");
               const double m = static_cast<double>(
                   expo(d, val(p, "exponential_length_scale"),
                        val(p, "sigma_exponential")));
               VF_CLOSE("k", k(x, y), e, 1e-10, 1e-12);
               VF_CLOSE("k_meas",
                        k(Measurement<double>(x), Measurement<double>(y)),
                        e + m + (x == y ? n * n : 0.), 1e-10, 1e-12);
             });
    break;
  }
  default: {
    const auto mean = LinearMean() * vfuser::SineMean();
    sequence(c, mean, {"slope", "offset", "sine_amplitude", "sine_rate"},
             [&](const auto &m, const ParameterStore &p) {
               VF_CLOSE("m", m(x),
                        (val(p, "slope") * x + val(p, "offset")) *
                            val(p, "sine_amplitude") *
                            std::sin(val(p, "sine_rate") * x),
                        1e-10, 1e-12);
             });
  }
  }
}

VF_SECTION("models", 300, 6000) {
  auto &g = c.rng;
  c.reached();
  const double x = g.uniform(-3., 3.), y = g.uniform(-3., 3.);
  const double d = std::fabs(x - y);
  const std::vector<double> xy = {x, y};
  c.desc << "model " << c.index % 4 << " at " << x << "," << y;
  const auto check_gp = [&](const auto &model, const ParameterStore &p) {
    const double k = static_cast<double>(
        se(d, val(p, "squared_exponential_length_scale"),
           val(p, "sigma_squared_exponential")));
    const double s = val(p, "sigma_squared_exponential");
    const double n = val(p, "sigma_independent_noise");
    const JointDistribution prior = model.prior(xy);
    VF_CLOSE("prior_mean", prior.mean[0], val(p, "slope") * x + val(p, "offset"),
             1e-10, 1e-12);
    VF_CLOSE("prior_mean", prior.mean[1], val(p, "slope") * y + val(p, "offset"),
             1e-10, 1e-12);
    VF_CLOSE("prior_cov", prior.covariance(0, 1), k, 1e-10, 1e-100);
    VF_CLOSE("prior_var", prior.covariance(0, 0), s * s + n * n, 1e-10, 1e-100);
    VF_CLOSE("sub_cov", model.get_covariance()(x, y), k, 1e-10, 1e-100);
    VF_CLOSE("sub_mean", model.get_mean()(y), val(p, "slope") * y + val(p, "offset"),
             1e-10, 1e-12);
  };
  const auto cov = SE() + measurement_only(IN());
  using Cov = decltype(SE() + measurement_only(IN()));
  const std::set<std::string> names = {
      "squared_exponential_length_scale", "sigma_squared_exponential",
      "sigma_independent_noise", "slope", "offset"};
  switch (c.index % 4) {
  case 0:
    sequence(c, gp_from_covariance_and_mean(cov, LinearMean()), names, check_gp);
    break;
  case 1: {
    auto with_center = names;
    with_center.insert("center");
    sequence(c, Adapted<std::decay_t<Cov>>(), with_center, check_gp);
    break;
  }
  case 2: {
    auto grouper = [](const double &f) { return std::floor(f); };
    auto model = sparse_gp_from_covariance_and_mean(
        cov, LinearMean(), grouper, UniformlySpacedInducingPoints(5), "sparse");
    auto with_nugget = names;
    with_nugget.insert("inducing_nugget");
    with_nugget.insert("measurement_nugget");
    sequence(c, model, with_nugget, check_gp);
    break;
  }
  default: {
    const ParameterStore p = {{"a", Parameter(1., GaussianPrior(0., 2.))},
                              {"b", Parameter(2., UniformPrior(0., 20.))}};
    sequence(c, NullModel(p), {"a", "b"},
             [&](const auto &, const ParameterStore &) {});
  }
  }
}
