// C01: predictions with features of several types: variants, measurements and
// linear combinations, in any combination of training and requested type.
#include "gp_forms.h"

#include <albatross/Evaluation>

namespace {

template <typename T, typename FitModel>
void ask(vf::Case &c, const char *key, const World &w, const Seen &s,
         const FitModel &fit) {
  const std::vector<T> ts = make_all<T>(c.rng, c.rng.extent(1, 6, 40));
  const Post p = general(w, s, forms(ts));
  const auto pred = fit.predict(ts);
  const std::string k(key);
  const double amp = 4. * w.amp();
  compare_mean(c, (k + "_mean").c_str(), pred.mean(), p, amp);
  const auto marginal = pred.marginal();
  compare_mean(c, (k + "_marginal_mean").c_str(), marginal.mean, p, amp);
  compare_var(c, (k + "_variance").c_str(), marginal.covariance.diagonal(), p,
              amp);
  const auto joint = pred.joint();
  compare_mean(c, (k + "_joint_mean").c_str(), joint.mean, p, amp);
  compare_cov(c, (k + "_covariance").c_str(), joint.covariance, p, amp);
  // as measurements
  const auto ms = as_measurements(ts);
  const Post q = general(w, s, forms(ms));
  const auto noisy = fit.predict(ms);
  compare_mean(c, (k + "_measured_mean").c_str(), noisy.mean(), q, amp);
  compare_var(c, (k + "_measured_variance").c_str(),
              noisy.marginal().covariance.diagonal(), q, amp);
  compare_cov(c, (k + "_measured_covariance").c_str(), noisy.joint().covariance,
              q, amp);
  c.count("queries", 1);
}

template <typename X> void one_type(vf::Case &c, const char *name) {
  vf::Rng &g = c.rng;
  const World w = make_world(g);
  Seen s;
  const auto dataset = observe(g, w, make_all<X>(g, g.size(1, 10)), &s);
  c.desc << name << " n=" << s.y.size() << " gain=" << w.gain;
  c.reached();
  c.count(name, 1);
  const auto fit = w.gp().fit(dataset);
  ask<A>(c, "a", w, s, fit);
  ask<AB>(c, "variant", w, s, fit);
  ask<LinearCombination<AB>>(c, "combination", w, s, fit);
}

#if !defined(PART) || PART == 1
VF_SECTION("from_a", 40, 2000) { one_type<A>(c, "from_a"); }
VF_SECTION("from_b", 40, 2000) { one_type<B>(c, "from_b"); }
#endif
#if PART == 2
VF_SECTION("from_variants", 60, 3000) { one_type<AB>(c, "from_variants"); }
#endif
#if PART == 3
VF_SECTION("from_combinations", 60, 3000) {
  one_type<LinearCombination<AB>>(c, "from_combinations");
}
#endif
#if PART == 4
// two datasets of different types are one of the variant
VF_SECTION("two_datasets", 60, 3000) {
  vf::Rng &g = c.rng;
  const World w = make_world(g);
  Seen a, b;
  const auto da = observe(g, w, make_all<A>(g, g.size(1, 6)), &a);
  const auto db = observe(g, w, make_all<B>(g, g.size(1, 6)), &b);
  c.desc << "n=" << a.y.size() << "+" << b.y.size() << " gain=" << w.gain;
  c.reached();
  c.count("two_datasets", 1);
  Seen s = a;
  for (std::size_t i = 0; i < b.y.size(); ++i) {
    s.plain.push_back(b.plain[i]);
    s.measured.push_back(b.measured[i]);
    s.y.push_back(b.y[i]);
    s.var.push_back(b.var[i]);
  }
  const auto fit = w.gp().fit(da, db);
  ask<AB>(c, "variant", w, s, fit);
  ask<B>(c, "b", w, s, fit);
  // and the likelihood
  const auto both = concatenate_datasets(da, db);
  LM K(s.y.size(), s.y.size());
  LV d;
  for (std::size_t i = 0; i < s.y.size(); ++i) {
    for (std::size_t j = 0; j < s.y.size(); ++j)
      K(i, j) = w.k(s.measured[i], s.measured[j]);
    K(i, i) += s.var[i];
    d.push_back(static_cast<LD>(s.y[i]) - w.m(s.plain[i]));
  }
  const LV x = solve(K, d);
  LD q = log_det(K) +
         static_cast<LD>(d.size()) * logl(2.L * acosl(-1.L));
  for (std::size_t i = 0; i < d.size(); ++i)
    q += d[i] * x[i];
  const auto model = w.gp();
  VF_CLOSE("likelihood",
           model.log_likelihood(both) - model.prior_log_likelihood(),
           static_cast<double>(-0.5L * q), 1e-7, 1e-7);
}
#endif

} // namespace
