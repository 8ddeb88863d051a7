// C02: updates with features of another type than the fit has.
#include "gp_forms.h"

namespace {

// conditioning on batches one after the other: measurement only terms are not
// shared between batches
Post in_batches(const World &w, const std::vector<Seen> &batches,
                const std::vector<Form> &ts) {
  std::vector<const Form *> plain, measured;
  std::vector<std::size_t> id;
  std::vector<double> y, var;
  for (std::size_t b = 0; b < batches.size(); ++b)
    for (std::size_t i = 0; i < batches[b].y.size(); ++i) {
      plain.push_back(&batches[b].plain[i]);
      measured.push_back(&batches[b].measured[i]);
      id.push_back(b);
      y.push_back(batches[b].y[i]);
      var.push_back(batches[b].var[i]);
    }
  const std::size_t n = y.size(), m = ts.size();
  LM K(n, n), C(n, m);
  LV d;
  for (std::size_t i = 0; i < n; ++i) {
    for (std::size_t j = 0; j < n; ++j)
      K(i, j) = id[i] == id[j] ? w.k(*measured[i], *measured[j])
                               : w.k(*plain[i], *plain[j]);
    K(i, i) += var[i];
    for (std::size_t j = 0; j < m; ++j)
      C(i, j) = w.k(*plain[i], ts[j]);
    d.push_back(static_cast<LD>(y[i]) - w.m(*plain[i]));
  }
  Post p;
  p.cov = LM(m, m);
  const LM KiC = solve(K, C);
  const LM E = mul(transpose(C), KiC);
  p.mean = mul(transpose(KiC), d);
  for (std::size_t i = 0; i < m; ++i) {
    p.mean[i] += w.m(ts[i]);
    for (std::size_t j = 0; j < m; ++j)
      p.cov(i, j) = w.k(ts[i], ts[j]) - E(i, j);
  }
  return p;
}

template <typename T, typename FitModel>
void ask(vf::Case &c, const char *key, const World &w,
         const std::vector<Seen> &batches, const FitModel &fit) {
  const std::vector<T> ts = make_all<T>(c.rng, c.rng.extent(1, 6, 30));
  const Post p = in_batches(w, batches, forms(ts));
  const auto pred = fit.predict(ts);
  const std::string k(key);
  const double amp = 4. * w.amp();
  compare_mean(c, (k + "_mean").c_str(), pred.mean(), p, amp);
  compare_var(c, (k + "_variance").c_str(),
              pred.marginal().covariance.diagonal(), p, amp);
  compare_cov(c, (k + "_covariance").c_str(), pred.joint().covariance, p, amp);
  const auto ms = as_measurements(ts);
  const Post q = in_batches(w, batches, forms(ms));
  compare_cov(c, (k + "_measured").c_str(), fit.predict(ms).joint().covariance,
              q, amp);
}

template <typename X, typename Y, typename Z>
void three(vf::Case &c, const char *name) {
  vf::Rng &g = c.rng;
  const World w = make_world(g);
  std::vector<Seen> s(3);
  const auto d0 = observe(g, w, make_all<X>(g, g.extent(1, 5, 30)), &s[0]);
  const auto d1 = observe(g, w, make_all<Y>(g, g.extent(1, 5, 30)), &s[1]);
  const auto d2 = observe(g, w, make_all<Z>(g, g.size(1, 4)), &s[2]);
  c.desc << name << " " << s[0].y.size() << "+" << s[1].y.size() << "+"
         << s[2].y.size() << " gain=" << w.gain;
  c.reached();
  c.count("typed_updates", 1);
  const auto fit0 = w.gp().fit(d0);
  const auto fit1 = fit0.update(d1);
  ask<A>(c, "a", w, {s[0], s[1]}, fit1);
  ask<AB>(c, "variant", w, {s[0], s[1]}, fit1);
  const auto fit2 = fit1.update(d2);
  ask<AB>(c, "twice", w, s, fit2);
}

#if !defined(PART) || PART == 1
VF_SECTION("a_then_b", 40, 2000) { three<A, B, A>(c, "a+b+a"); }
#endif
#if PART == 2
VF_SECTION("variants", 40, 2000) { three<AB, A, AB>(c, "ab+a+ab"); }
#endif
#if PART == 3
VF_SECTION("combinations", 40, 2000) {
  three<LinearCombination<AB>, LinearCombination<AB>, LinearCombination<AB>>(
      c, "combinations");
}
#endif

} // namespace
