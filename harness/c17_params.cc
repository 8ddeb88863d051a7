// C17: parameters survive every get, set and tuning-vector round trip.
//
// Oracle: a plain model map of names to (value, prior) which is updated by the
// same sequence of operations, and the textbook formula of the composed
// covariance evaluated with the values of that map.
#include "vf.h"

#include <albatross/Core>

using namespace albatross;

namespace vf_c17 {

class Handler : public ParameterHandlingMixin {
public:
  using ParameterHandlingMixin::ParameterHandlingMixin;
};

PriorContainer random_prior(vf::Rng &g, double *value) {
  switch (g.size(0, 8)) {
  case 0:
    *value = g.normal() * g.log_uniform(1e-6, 1e6);
    return UninformativePrior();
  case 1:
    *value = g.normal();
    return FixedPrior();
  case 2:
    *value = g.log_uniform(1e-9, 1e9);
    return PositivePrior();
  case 3:
    *value = g.coin(0.2) ? 0. : g.log_uniform(1e-9, 1e9);
    return NonNegativePrior();
  case 4: {
    const double lo = g.normal() * 10., hi = lo + g.log_uniform(1e-3, 1e3);
    *value = g.coin(0.2) ? lo : g.coin(0.2) ? hi : g.uniform(lo, hi);
    *value = std::min(hi, std::max(lo, *value));
    return UniformPrior(lo, hi);
  }
  case 5: {
    const double lo = g.log_uniform(1e-9, 1e3), hi = lo * g.log_uniform(2., 1e6);
    *value = g.coin(0.2) ? lo : g.coin(0.2) ? hi : g.log_uniform(lo, hi);
    *value = std::min(hi, std::max(lo, *value));
    return LogScaleUniformPrior(lo, hi);
  }
  case 6:
    *value = g.normal() * 5.;
    return GaussianPrior(g.normal(), g.log_uniform(0.1, 10.));
  case 7: {
    const double s = g.log_uniform(0.1, 10.);
    *value = std::fabs(g.normal()) * s;
    *value = std::min(*value, 9. * s);
    return PositiveGaussianPrior(0., s);
  }
  default:
    *value = g.log_uniform(0.1, 10.);
    return LogNormalPrior(0., 1.);
  }
}

std::string random_name(vf::Rng &g, std::size_t i) {
  static const char *stems[] = {"a", "Z", "sigma_", "length scale", "0", "_",
                                "param.", "x/y", "\xc3\xa9"};
  return std::string(stems[g.size(0, 8)]) + std::to_string(g.size(0, 99)) + "_" +
         std::to_string(i);
}

ParameterStore random_store(vf::Rng &g, std::size_t n) {
  ParameterStore s;
  for (std::size_t i = 0; i < n; ++i) {
    double v = 0.;
    const auto p = random_prior(g, &v);
    s[random_name(g, i)] = Parameter(v, p);
  }
  return s;
}

bool same_param(const Parameter &a, const Parameter &b) {
  const bool same_value = std::memcmp(&a.value, &b.value, sizeof(double)) == 0;
  return same_value && a.prior.get_name() == b.prior.get_name() &&
         a.prior == b.prior;
}

bool same_store(const ParameterStore &a, const ParameterStore &b) {
  if (a.size() != b.size())
    return false;
  for (auto i = a.begin(), j = b.begin(); i != a.end(); ++i, ++j)
    if (i->first != j->first || !same_param(i->second, j->second))
      return false;
  return true;
}

std::string show(const ParameterStore &s) {
  std::ostringstream o;
  o.precision(17);
  for (const auto &p : s)
    o << p.first << "=" << p.second.value << "[" << p.second.prior.get_name()
      << "] ";
  return o.str();
}

std::string any_name(vf::Rng &g, const ParameterStore &s) {
  auto it = s.begin();
  std::advance(it, static_cast<long>(g.size(0, s.size() - 1)));
  return it->first;
}

} // namespace vf_c17

using namespace vf_c17;

// Sequences of set operations on a store and on a handler, against the model.
VF_SECTION("store_sequences", 2000, 40000) {
  auto &g = c.rng;
  ParameterStore model = random_store(g, g.extent(1, 7, 60));
  ParameterStore store = model;
  Handler handler(model);
  const Handler untouched(model);
  const ParameterStore initial = model;
  c.desc << show(model);
  const std::size_t steps = g.size(1, 12);
  for (std::size_t s = 0; s < steps; ++s) {
    c.reached();
    const std::string name = any_name(g, model);
    double v = 0.;
    const auto prior = random_prior(g, &v);
    const std::size_t op = g.size(0, 9);
    c.desc << op << ":" << name << "=" << v << ";";
    switch (op) {
    case 0:
      set_param(name, Parameter(v, prior), &store);
      handler.set_param(name, Parameter(v, prior));
      model[name] = Parameter(v, prior);
      break;
    case 1:
      set_param_value(name, v, &store);
      if (g.coin())
        handler.set_param_value(name, v);
      else
        handler.set_param(name, v);
      model[name].value = v;
      break;
    case 2:
      set_param_prior(name, prior, &store);
      handler.set_prior(name, prior);
      model[name].prior = prior;
      break;
    case 3: {
      ParameterStore some;
      const std::size_t k = g.size(0, 3);
      for (std::size_t i = 0; i < k; ++i) {
        double w = 0.;
        const auto p = random_prior(g, &w);
        some[any_name(g, model)] = Parameter(w, p);
      }
      set_params(some, &store);
      handler.set_params(some);
      for (const auto &p : some)
        model[p.first] = p.second;
      break;
    }
    case 4: {
      std::map<ParameterKey, ParameterValue> some;
      const std::size_t k = g.size(0, 3);
      for (std::size_t i = 0; i < k; ++i)
        some[any_name(g, model)] = g.normal();
      set_param_values(some, &store);
      handler.set_param_values(some);
      for (const auto &p : some)
        model[p.first].value = p.second;
      break;
    }
    case 5: {
      const bool known = g.coin();
      const std::string n2 = known ? name : name + "_unknown";
      const bool a = set_param_if_exists(n2, Parameter(v, prior), &store);
      const bool b = albatross::set_param_if_exists(n2, Parameter(v, prior),
                                                    &handler);
      VF_CHECK("if_exists", a == known && b == known, n2);
      if (known)
        model[n2] = Parameter(v, prior);
      else
        c.count("unknown_names");
      break;
    }
    case 6: {
      const bool known = g.coin();
      const std::string n2 = known ? name : "unknown_" + name;
      const bool a = set_param_value_if_exists(n2, v, &store);
      const bool b = albatross::set_param_value_if_exists(n2, v, &handler);
      VF_CHECK("value_if_exists", a == known && b == known, n2);
      if (known)
        model[n2].value = v;
      else
        c.count("unknown_names");
      break;
    }
    case 7: {
      const bool known = g.coin();
      const std::string n2 = known ? name : "";
      const bool a = set_param_prior_if_exists(n2, prior, &store);
      VF_CHECK("prior_if_exists", a == known, n2);
      if (known) {
        handler.set_prior(n2, prior);
        model[n2].prior = prior;
      }
      break;
    }
    case 8: {
      ParameterStore some;
      std::size_t unknown = 0;
      const std::size_t k = g.size(1, 4);
      for (std::size_t i = 0; i < k; ++i) {
        double w = 0.;
        const auto p = random_prior(g, &w);
        if (g.coin(0.4)) {
          some["?" + std::to_string(i)] = Parameter(w, p);
          ++unknown;
        } else {
          some[any_name(g, model)] = Parameter(w, p);
        }
      }
      const bool a = set_params_if_exists(some, &store);
      const bool b = albatross::set_params_if_exists(some, &handler);
      VF_CHECK("params_if_exists", a == (unknown == 0) && b == a,
               unknown << " unknown of " << some.size());
      for (const auto &p : some)
        if (model.count(p.first))
          model[p.first] = p.second;
      break;
    }
    default: {
      std::map<ParameterKey, ParameterValue> some;
      std::size_t unknown = 0;
      const std::size_t k = g.size(1, 4);
      for (std::size_t i = 0; i < k; ++i) {
        if (g.coin(0.4)) {
          some["?" + std::to_string(i)] = g.normal();
          ++unknown;
        } else {
          some[any_name(g, model)] = g.normal();
        }
      }
      const bool a = set_param_values_if_exists(some, &store);
      const bool b = albatross::set_param_values_if_exists(some, &handler);
      VF_CHECK("values_if_exists", a == (unknown == 0) && b == a,
               unknown << " unknown of " << some.size());
      for (const auto &p : some)
        if (model.count(p.first))
          model[p.first].value = p.second;
    }
    }
    VF_CHECK("store", same_store(store, model), show(store) << " vs " << show(model));
    VF_CHECK("handler", same_store(handler.get_params(), model),
             show(handler.get_params()) << " vs " << show(model));
    const std::string read = any_name(g, model);
    const double value = handler.get_param_value(read);
    VF_CHECK("get_value", std::memcmp(&value, &model[read].value, 8) == 0, read);
  }
  VF_CHECK("other_copy", same_store(untouched.get_params(), initial), "");
  c.count("operations", steps);
}

// Unknown names are refused by the setters which do not say if_exists.
VF_SECTION("unknown_refused", 12, 60) {
  auto &g = c.rng;
  ParameterStore store = random_store(g, 3);
  Handler handler(store);
  c.desc << c.index << show(store);
  c.reached();
  switch (c.index % 6) {
  case 0:
    VF_ABORTS("set_param", set_param("nope", Parameter(1.), &store));
    break;
  case 1:
    VF_ABORTS("set_param_value", set_param_value("nope", 1., &store));
    break;
  case 2:
    VF_ABORTS("handler", handler.set_param_value("nope", 1.));
    break;
  case 3:
    VF_ABORTS("handler_store", handler.set_params({{"nope", Parameter(1.)}}));
    break;
  case 4: {
    auto t = handler.get_tunable_parameters();
    auto longer = t.values;
    longer.push_back(1.);
    VF_ABORTS("too_long", handler.set_tunable_params_values(longer));
    break;
  }
  default: {
    ParameterStore bad = {{"x", Parameter(3., UniformPrior(0., 1.))}};
    VF_ABORTS("out_of_bounds", get_tunable_parameters(bad));
  }
  }
}

// To the optimizer's vector and back.
VF_SECTION("tunable_round_trip", 3000, 60000) {
  auto &g = c.rng;
  const ParameterStore store = random_store(g, g.extent(0, 9, 80));
  c.desc << show(store);
  c.reached();
  const Handler handler(store);
  const TunableParameters t =
      g.coin() ? get_tunable_parameters(store) : handler.get_tunable_parameters();
  // one entry for each parameter which is not fixed, by name
  std::size_t i = 0, fixed = 0;
  const std::size_t n = t.names.size();
  VF_REQUIRE("sizes",
             t.values.size() == n && t.lower_bounds.size() == n &&
                 t.upper_bounds.size() == n,
             n);
  for (const auto &p : store) {
    if (p.second.prior.is_fixed()) {
      ++fixed;
      continue;
    }
    VF_REQUIRE("enough", i < n, n);
    VF_CHECK("name", t.names[i] == p.first, t.names[i] << " " << p.first);
    double v = p.second.value, lo = p.second.prior.lower_bound(),
           hi = p.second.prior.upper_bound();
    if (p.second.prior.is_log_scale()) {
      v = std::log(v);
      lo = std::log(lo);
      hi = std::log(hi);
      c.count("log_scale");
    }
    VF_CLOSE("value", t.values[i], v, 1e-14, 1e-14);
    VF_CLOSE("lower", t.lower_bounds[i], lo, 1e-14, 1e-14);
    VF_CLOSE("upper", t.upper_bounds[i], hi, 1e-14, 1e-14);
    VF_CHECK("inside", t.values[i] >= t.lower_bounds[i] &&
                           t.values[i] <= t.upper_bounds[i],
             t.names[i]);
    ++i;
  }
  VF_CHECK("all_of_them", i == n, i << " of " << n);
  c.count("fixed", fixed);
  // identity
  const bool force = g.coin();
  const ParameterStore back = set_tunable_params_values(store, t.values, force);
  VF_REQUIRE("same_names", back.size() == store.size(), back.size());
  for (const auto &p : store) {
    VF_REQUIRE("kept", back.count(p.first) == 1, p.first);
    VF_CHECK("prior_kept", back.at(p.first).prior == p.second.prior, p.first);
    if (p.second.prior.is_fixed() || !p.second.prior.is_log_scale())
      VF_CHECK("identity",
               std::memcmp(&back.at(p.first).value, &p.second.value, 8) == 0,
               p.first << " " << back.at(p.first).value);
    else
      VF_CLOSE("identity_log", back.at(p.first).value, p.second.value, 1e-13, 0.);
    if (force)
      VF_CHECK("still_valid", back.at(p.first).is_valid(),
               p.first << " " << back.at(p.first).value);
  }
  // other values: each ends up in its own parameter, forced into its bounds
  std::vector<double> x = t.values;
  for (std::size_t k = 0; k < x.size(); ++k)
    x[k] += g.normal() * (g.coin(0.2)   ? 100.
                          : g.coin(0.4) ? g.log_uniform(1e-12, 1e-2)
                                        : 0.1);
  Handler h2(store);
  h2.set_tunable_params_values(x, force);
  const ParameterStore direct = set_tunable_params_values(store, x, force);
  VF_CHECK("handler", same_store(h2.get_params(), direct), "");
  i = 0;
  for (const auto &p : store) {
    const double got = direct.at(p.first).value;
    if (p.second.prior.is_fixed()) {
      VF_CHECK("fixed_untouched", std::memcmp(&got, &p.second.value, 8) == 0,
               p.first);
      continue;
    }
    double v = p.second.prior.is_log_scale() ? std::exp(x[i]) : x[i];
    ++i;
    if (force) {
      if (v < p.second.prior.lower_bound() || v > p.second.prior.upper_bound())
        c.count("clamped");
      v = std::min(p.second.prior.upper_bound(),
                   std::max(p.second.prior.lower_bound(), v));
      VF_CHECK("forced", got >= p.second.prior.lower_bound() &&
                             got <= p.second.prior.upper_bound(),
               p.first << " " << got);
    }
    VF_CLOSE("set", got, v, 1e-13, 0.);
  }
  // and what was set is what comes back
  if (force) {
    const TunableParameters again = get_tunable_parameters(direct);
    VF_REQUIRE("same_size", again.values.size() == x.size(), again.values.size());
    for (std::size_t k = 0; k < x.size(); ++k) {
      const double expected =
          std::min(t.upper_bounds[k], std::max(t.lower_bounds[k], x[k]));
      VF_CLOSE("comes_back", again.values[k], expected, 1e-13, 1e-13);
    }
  }
  if (store.empty())
    c.count("empty_store");
}

// Printing names every parameter with a value that reads back.
VF_SECTION("printing", 400, 8000) {
  auto &g = c.rng;
  const ParameterStore store = random_store(g, g.extent(0, 6, 60));
  c.desc << show(store);
  c.reached();
  const std::string text = pretty_params(store);
  std::size_t at = 0;
  for (const auto &p : store) {
    const std::string key = "{\"" + p.first + "\", ";
    const std::size_t f = text.find(key, at);
    VF_REQUIRE("named", f != std::string::npos, p.first << " in " << text);
    const double v = std::strtod(text.c_str() + f + key.size(), nullptr);
    VF_CLOSE("value", v, p.second.value, 1e-11, 0.);
    at = f + 1;
  }
  const std::string priors = pretty_priors(store);
  const std::string details = pretty_param_details(store);
  for (const auto &p : store) {
    VF_CHECK("prior", priors.find("\"" + p.first + "\": " +
                                  p.second.prior.get_name()) != std::string::npos,
             priors);
    VF_CHECK("details", details.find(p.first) != std::string::npos, details);
  }
  const Handler h(store);
  VF_CHECK("pretty_string", h.pretty_string() == text, h.pretty_string());
}
