// C04: the strategies and groupers which come with the library, changing
// them, and inducing points which repeat each other.
#include "sparse_oracle.h"

namespace vfuser_c04s {
struct Many {
  std::vector<double> points;
  template <typename Cov>
  std::vector<double> operator()(const Cov &,
                                 const std::vector<double> &) const {
    return points;
  }
};
} // namespace vfuser_c04s

namespace {

using namespace vfgp;
using albatross::JointDistribution;
using albatross::MarginalDistribution;

template <typename P>
void compare(vf::Case &c, const std::string &key, const P &pred, const Post &p,
             double amp) {
  compare_mean(c, (key + "_mean").c_str(), pred.mean(), p, amp);
  const MarginalDistribution marginal = pred.marginal();
  compare_var(c, (key + "_variance").c_str(), marginal.covariance.diagonal(), p,
              amp);
  const JointDistribution joint = pred.joint();
  compare_mean(c, (key + "_joint_mean").c_str(), joint.mean, p, amp);
  compare_cov(c, (key + "_covariance").c_str(), joint.covariance, p, amp);
}

struct Answer {
  bool fine = false;
  SparseState s;
};

Answer solve_it(const Oracle &o, const Data &d, const std::vector<double> &u,
                const std::vector<long> &group, LD inducing_nugget,
                LD measurement_nugget) {
  Answer a;
  LM kuu = o.K(u, false, u, false);
  for (std::size_t i = 0; i < u.size(); ++i)
    kuu(i, i) += inducing_nugget;
  if (!(least_pivot(kuu) > 3e-6L * o.amplitude * o.amplitude))
    return a;
  const LM kfu = o.K(d.x, true, u, false);
  const LM A = block_noise(kuu, kfu, o.K(d.x, true, d.x, true), d.var, group,
                           measurement_nugget);
  if (!(least_pivot(A) > 1e-6L * o.amplitude * o.amplitude))
    return a;
  a.s = sparse_prior(kuu);
  LV r;
  for (std::size_t i = 0; i < d.x.size(); ++i)
    r.push_back(static_cast<LD>(d.y[i]) - o.m(d.x[i]));
  sparse_absorb(&a.s, A, kfu, r);
  a.fine = true;
  return a;
}

Post ask(const Oracle &o, const SparseState &s, const std::vector<double> &u,
         const std::vector<double> &test) {
  LV m;
  for (auto t : test)
    m.push_back(o.m(t));
  return sparse_predict(s, o.K(test, false, test, false),
                        o.K(test, false, u, false), m);
}

long cell(const double &x) { return static_cast<long>(std::floor(x / 4.)); }

std::string cell_name(const double &x) {
  return x < 0 ? "negative" : "positive";
}

std::vector<double> evenly(const std::vector<double> &x, std::size_t n) {
  const double lo = *std::min_element(x.begin(), x.end());
  const double hi = *std::max_element(x.begin(), x.end());
  std::vector<double> o;
  for (std::size_t i = 0; i < n; ++i)
    o.push_back(lo + (hi - lo) * static_cast<double>(i) /
                         static_cast<double>(n - 1));
  return o;
}

// nugget relative to the amplitude which keeps close points apart
template <typename M> void nuggets(M *model, const Oracle &o, double rel) {
  model->set_param_value(albatross::details::inducing_nugget_name(),
                         rel * o.amplitude * o.amplitude);
  model->set_param_value(albatross::details::measurement_nugget_name(), 1e-9);
}

VF_SECTION("evenly_spaced", 80, 4000) {
  vf::Rng &g = c.rng;
  auto setup = setup_b(g);
  const Oracle &o = setup.o;
  const Data data = make_data(g, o, g.extent(3, 20, 80));
  const std::vector<double> test = make_test(g, data, g.size(1, 5));
  const std::size_t n = g.coin(0.2) ? 10 : g.size(2, 12);
  const std::vector<double> u = evenly(data.x, n);
  const double rel = g.log_uniform(1e-5, 1e-3);
  c.desc << o.name << " n=" << data.x.size() << " u=" << n << " rel=" << rel
         << " x0=" << data.x[0];
  std::vector<long> group;
  for (std::size_t i = 0; i < data.x.size(); ++i)
    group.push_back(cell(data.x[i]));
  const Answer a = solve_it(o, data, u, group,
                            rel * o.amplitude * o.amplitude, 1e-9L);
  if (!a.fine)
    return;
  c.reached();
  c.count("evenly_spaced", 1);
  auto model = albatross::sparse_gp_from_covariance_and_mean(
      setup.cov, setup.mean, cell,
      n == 10 ? albatross::UniformlySpacedInducingPoints()
              : albatross::UniformlySpacedInducingPoints(n),
      "evenly");
  nuggets(&model, o, rel);
  const auto fit = model.fit(data.dataset());
  compare(c, "evenly", fit.predict(test), ask(o, a.s, u, test),
          3. * o.amplitude);
  // another strategy for the same model
  model.set_inducing_point_strategy(
      albatross::UniformlySpacedInducingPoints(n + 1));
  VF_CHECK("strategy_changed",
           model.get_inducing_point_strategy().num_points == n + 1, "");
  const std::vector<double> v = evenly(data.x, n + 1);
  const Answer b = solve_it(o, data, v, group,
                            rel * o.amplitude * o.amplitude, 1e-9L);
  if (b.fine)
    compare(c, "changed", model.fit(data.dataset()).predict(test),
            ask(o, b.s, v, test), 3. * o.amplitude);
}

VF_SECTION("state_space", 80, 4000) {
  vf::Rng &g = c.rng;
  auto setup = setup_a(g);
  const Oracle &o = setup.o;
  const Data data = make_data(g, o, g.extent(3, 16, 60));
  const std::vector<double> test = make_test(g, data, g.size(1, 5));
  const double rel = g.log_uniform(1e-5, 1e-3);
  c.desc << o.name << " n=" << data.x.size() << " rel=" << rel
         << " x0=" << data.x[0];
  c.reached();
  auto model =
      albatross::sparse_gp_from_covariance(setup.cov, cell_name, "state");
  nuggets(&model, o, rel);
  const auto fit = model.fit(data.dataset());
  const std::vector<double> u = fit.get_fit().train_features;
  VF_CHECK("some_points", !u.empty(), "");
  const std::vector<double> said =
      model.get_covariance().state_space_representation(data.x);
  VF_CHECK("points_of_covariance", said == u, "");
  std::vector<long> group;
  for (std::size_t i = 0; i < data.x.size(); ++i)
    group.push_back(data.x[i] < 0);
  if (u.size() > 60)
    return;
  const Answer a = solve_it(o, data, u, group,
                            rel * o.amplitude * o.amplitude, 1e-9L);
  if (!a.fine)
    return;
  c.count("state_space", 1);
  compare(c, "state_space", fit.predict(test), ask(o, a.s, u, test),
          3. * o.amplitude);
}

VF_SECTION("leave_one_out_grouper", 60, 3000) {
  vf::Rng &g = c.rng;
  auto setup = setup_e(g);
  const Oracle &o = setup.o;
  const Data data = make_data(g, o, g.size(2, 16));
  const std::vector<double> test = make_test(g, data, g.size(1, 5));
  std::vector<double> u;
  for (std::size_t t = 0; t < 20 && u.size() < 6; ++t) {
    std::vector<double> v = u;
    v.push_back(g.uniform(-10., 10.));
    if (least_pivot(o.K(v, false, v, false)) >
        1e-4L * o.amplitude * o.amplitude)
      u = v;
  }
  if (u.empty())
    return;
  std::vector<long> one(data.x.size()), folds(data.x.size());
  const std::size_t k = g.size(1, 5);
  for (std::size_t i = 0; i < data.x.size(); ++i) {
    one[i] = static_cast<long>(i);
    folds[i] = static_cast<long>(i % k);
  }
  const Answer a = solve_it(o, data, u, one, 1e-8L, 1e-8L);
  const Answer b = solve_it(o, data, u, folds, 1e-8L, 1e-8L);
  if (!a.fine || !b.fine)
    return;
  c.desc << o.name << " n=" << data.x.size() << " k=" << k
         << " x0=" << data.x[0];
  c.reached();
  c.count("library_groupers", 1);
  vfuser_c04s::Many strategy{u};
  auto fitc = albatross::sparse_gp_from_covariance_and_mean(
      setup.cov, setup.mean, albatross::LeaveOneOutGrouper(), strategy, "fitc");
  compare(c, "leave_one_out", fitc.fit(data.dataset()).predict(test),
          ask(o, a.s, u, test), 3. * o.amplitude);
  auto pitc = albatross::sparse_gp_from_covariance_and_mean(
      setup.cov, setup.mean, albatross::KFoldGrouper(k), strategy, "pitc");
  compare(c, "k_fold", pitc.fit(data.dataset()).predict(test),
          ask(o, b.s, u, test), 3. * o.amplitude);
  pitc.set_grouper_function(albatross::KFoldGrouper(k + 1));
  for (std::size_t i = 0; i < data.x.size(); ++i)
    folds[i] = static_cast<long>(i % (k + 1));
  const Answer d = solve_it(o, data, u, folds, 1e-8L, 1e-8L);
  if (d.fine)
    compare(c, "regrouped", pitc.fit(data.dataset()).predict(test),
            ask(o, d.s, u, test), 3. * o.amplitude);
}

// Repeated and nearly repeated inducing points carry no more information:
// the nugget has to keep the result close to that of the distinct ones.
template <typename QRImpl> void repeated(vf::Case &c) {
  vf::Rng &g = c.rng;
  auto setup = setup_a(g);
  const Oracle &o = setup.o;
  const Data data = make_data(g, o, g.size(2, 14));
  const std::vector<double> test = make_test(g, data, g.size(1, 5));
  std::vector<double> u;
  for (std::size_t t = 0; t < 20 && u.size() < 5; ++t) {
    std::vector<double> v = u;
    v.push_back(g.uniform(-10., 10.));
    if (least_pivot(o.K(v, false, v, false)) >
        1e-3L * o.amplitude * o.amplitude)
      u = v;
  }
  if (u.empty())
    return;
  std::vector<long> group;
  for (auto x : data.x)
    group.push_back(cell(x));
  const double rel = 1e-8;
  const LD nugget = rel * o.amplitude * o.amplitude;
  const Answer a = solve_it(o, data, u, group, nugget, 1e-9L);
  if (!a.fine)
    return;
  std::vector<double> many = u;
  for (auto v : u)
    if (g.coin())
      many.push_back(v + (g.coin() ? 0. : 1e-9));
  g.shuffle(many);
  c.desc << o.name << " n=" << data.x.size() << " u=" << u.size() << "/"
         << many.size() << " x0=" << data.x[0];
  c.reached();
  c.count("repeated_inducing", many.size() - u.size());
  vfuser_c04s::Many strategy{many};
  auto model = albatross::sparse_gp_from_covariance(setup.cov, cell, strategy,
                                                    "many", QRImpl{});
  nuggets(&model, o, rel);
  const auto fit = model.fit(data.dataset());
  const Post e = ask(o, a.s, u, test);
  const JointDistribution joint = fit.predict(test).joint();
  const MarginalDistribution marginal = fit.predict(test).marginal();
  const double amp = 3. * o.amplitude;
  for (std::size_t i = 0; i < test.size(); ++i) {
    const Eigen::Index ei = static_cast<Eigen::Index>(i);
    VF_CLOSE("mean", joint.mean[ei], static_cast<double>(e.mean[i]), 0.,
             1e-3 * amp);
    VF_CLOSE("variance", marginal.covariance.diagonal()[ei],
             static_cast<double>(e.cov(i, i)), 0., 1e-3 * amp * amp);
    for (std::size_t j = 0; j < test.size(); ++j)
      VF_CLOSE("covariance", joint.covariance(ei, static_cast<Eigen::Index>(j)),
               static_cast<double>(e.cov(i, j)), 0., 1e-3 * amp * amp);
  }
}

VF_SECTION("repeated_points_dense", 60, 3000) {
  repeated<albatross::DenseQRImplementation>(c);
}
VF_SECTION("repeated_points_sparse", 60, 3000) {
  repeated<albatross::SPQRImplementation>(c);
}

} // namespace
