// C04: sparse Gaussian processes of variants, linear combinations and features
// seen through inducing points of another type; the shipped strategies.
#include "gp_forms.h"
#include "sparse_oracle.h"

namespace vfuser_c04 {

using vfuser::A;
using vfuser::B;

template <typename U> struct Points {
  std::vector<U> points;
  template <typename Cov, typename X>
  std::vector<U> operator()(const Cov &, const std::vector<X> &) const {
    return points;
  }
};

// groups by the number of what was added first, via a side table
template <typename X> struct Table {
  std::vector<X> known;
  std::vector<int> group;
  int operator()(const X &x) const {
    for (std::size_t i = 0; i < known.size(); ++i)
      if (known[i] == x)
        return group[i];
    return -1;
  }
};

} // namespace vfuser_c04

namespace {

using namespace vfuser_c04;

template <typename P>
void compare(vf::Case &c, const std::string &key, const P &pred, const Post &p,
             double amp) {
  compare_mean(c, (key + "_mean").c_str(), pred.mean(), p, amp);
  const MarginalDistribution marginal = pred.marginal();
  compare_var(c, (key + "_variance").c_str(), marginal.covariance.diagonal(), p,
              amp);
  const JointDistribution joint = pred.joint();
  compare_mean(c, (key + "_joint_mean").c_str(), joint.mean, p, amp);
  compare_cov(c, (key + "_covariance").c_str(), joint.covariance, p, amp);
}

LM gram(const World &w, const std::vector<Form> &a, const std::vector<Form> &b) {
  LM o(a.size(), b.size());
  for (std::size_t i = 0; i < a.size(); ++i)
    for (std::size_t j = 0; j < b.size(); ++j)
      o(i, j) = w.k(a[i], b[j]);
  return o;
}

// X observed through inducing points U, asked for T
template <typename QRImpl, typename X, typename U, typename T>
void typed(vf::Case &c) {
  vf::Rng &g = c.rng;
  const World w = make_world(g);
  std::vector<U> u;
  const std::size_t want = g.size(1, 6);
  for (std::size_t t = 0; u.size() < want && t < 40; ++t) {
    std::vector<U> v = u;
    v.push_back(make_all<U>(g, 1)[0]);
    if (least_pivot(gram(w, forms(v), forms(v))) > 1e-4L * w.amp() * w.amp())
      u = v;
  }
  if (u.empty())
    return;
  const std::vector<X> x = make_all<X>(g, g.size(1, 12));
  const std::vector<T> test = make_all<T>(g, g.size(1, 5));
  Seen seen;
  const auto dataset = observe(g, w, x, &seen);
  Table<X> table;
  const int n_groups = g.integer(1, 4);
  std::vector<long> group;
  for (const auto &v : x) {
    if (table(v) < 0) {
      table.known.push_back(v);
      table.group.push_back(g.integer(0, n_groups - 1));
    }
    group.push_back(table(v));
  }
  const LD nugget = 1e-8L;
  LM kuu = gram(w, forms(u), forms(u));
  for (std::size_t i = 0; i < u.size(); ++i)
    kuu(i, i) += nugget;
  const LM kfu = gram(w, seen.measured, forms(u));
  const LM A = block_noise(kuu, kfu, gram(w, seen.measured, seen.measured),
                           seen.var, group, nugget);
  if (!(least_pivot(A) > 1e-5L * w.amp() * w.amp()))
    return;
  c.desc << "n=" << x.size() << " u=" << u.size() << " sigma=" << w.sigma;
  c.reached();
  c.count("typed_sparse_fits", 1);
  SparseState s = sparse_prior(kuu);
  LV r;
  for (std::size_t i = 0; i < x.size(); ++i)
    r.push_back(static_cast<LD>(seen.y[i]) - w.m(seen.plain[i]));
  sparse_absorb(&s, A, kfu, r);
  LV mean;
  for (const auto &f : forms(test))
    mean.push_back(w.m(f));
  const Post expected = sparse_predict(s, gram(w, forms(test), forms(test)),
                                       gram(w, forms(test), forms(u)), mean);
  auto model = albatross::sparse_gp_from_covariance_and_mean(
      vfuser::Shared(w.sigma, w.length, w.gain) + vfuser::Drift(w.drift) +
          measurement_only(vfuser::ANoise(w.noise)),
      vfuser::ABMean(w.offset), table, Points<U>{u}, "typed", QRImpl{});
  const auto fit = model.fit(dataset);
  const double amp = 10. * w.amp();
  compare(c, "definition", fit.predict(test), expected, amp);
  // the same in two steps, cut between groups
  std::vector<std::size_t> first, second;
  for (std::size_t i = 0; i < x.size(); ++i)
    (group[i] % 2 ? first : second).push_back(i);
  if (!first.empty() && !second.empty()) {
    c.count("typed_sparse_updates", 1);
    const auto updated = model.fit(albatross::subset(dataset, first))
                             .update(albatross::subset(dataset, second));
    compare(c, "updated", updated.predict(test), expected, amp);
  }
}

typedef albatross::DenseQRImplementation Dense;
typedef albatross::SPQRImplementation Sparse;

VF_SECTION("a_through_a", 60, 3000) { typed<Dense, A, A, A>(c); }
VF_SECTION("b_through_a", 60, 3000) { typed<Sparse, B, A, B>(c); }
VF_SECTION("variants_through_a", 60, 3000) { typed<Dense, AB, A, AB>(c); }
VF_SECTION("variants_through_variants", 60, 3000) {
  typed<Dense, AB, AB, B>(c);
}
VF_SECTION("combinations_through_variants", 60, 3000) {
  typed<Sparse, LinearCombination<AB>, AB, LinearCombination<AB>>(c);
}
VF_SECTION("a_through_combinations", 60, 3000) {
  typed<Dense, A, LinearCombination<A>, A>(c);
}

} // namespace
