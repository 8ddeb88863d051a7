// C04: sparse Gaussian processes equal the block diagonal approximation they
// are defined by.  Built once per setup: PART selects.
#include "sparse_oracle.h"

#ifndef PART
#define PART a
#endif
#define C04_CAT2(a, b) a##b
#define C04_CAT(a, b) C04_CAT2(a, b)
#define C04_STR2(a) #a
#define C04_STR(a) C04_STR2(a)
#define C04_SETUP C04_CAT(setup_, PART)
#ifndef C04_QR
#define C04_QR albatross::DenseQRImplementation
#endif

namespace C04_CAT(vfuser_c04_, PART) {

struct GivenPoints {
  std::vector<double> points;
  template <typename Cov>
  std::vector<double> operator()(const Cov &,
                                 const std::vector<double> &) const {
    return points;
  }
};

// contiguous cells, one group for all, or one each
struct Cells {
  int mode = 0;
  double width = 1.;
  long operator()(const double &x) const {
    return mode == 0   ? 0
           : mode == 1 ? static_cast<long>(std::floor(x / width))
           : mode == 2 ? static_cast<long>(std::lround(x * 1000.))
                       : static_cast<long>(
                             std::fabs(std::floor(x / width))) %
                             3; // scattered
  }
};

} // namespace C04_CAT(vfuser_c04_, PART)

namespace {

using namespace vfgp;
using namespace C04_CAT(vfuser_c04_, PART);
using albatross::JointDistribution;
using albatross::MarginalDistribution;

struct Problem {
  Data data;
  std::vector<double> u, test;
  Cells cells;
  double inducing_nugget, measurement_nugget;
  std::vector<long> group;
};

LM with_nugget(LM k, LD nugget) {
  for (std::size_t i = 0; i < k.r; ++i)
    k(i, i) += nugget;
  return k;
}

// Inducing points which the prior tells apart well enough for the comparison
// to be about the mathematics.
std::vector<double> pick_points(vf::Rng &g, const Oracle &o, std::size_t n,
                                const std::vector<double> &candidates,
                                std::vector<double> u = {},
                                double least = 1e-5) {
  for (std::size_t t = 0; u.size() < n && t < 4 * n; ++t) {
    std::vector<double> v = u;
    v.push_back(!candidates.empty() && g.coin(0.4)
                    ? candidates[g.size(0, candidates.size() - 1)]
                    : g.uniform(-11., 11.));
    if (least_pivot(o.K(v, false, v, false)) >
        least * o.amplitude * o.amplitude)
      u = v;
  }
  return u;
}

std::vector<long> groups_of(const Cells &cells, const std::vector<double> &x,
                            long batch = 0) {
  std::vector<long> o;
  for (auto v : x)
    o.push_back(cells(v) * 16 + batch);
  return o;
}

bool make_problem(vf::Case &c, const Oracle &o, Problem *p) {
  vf::Rng &g = c.rng;
  p->data = make_data(g, o, g.coin(0.1) ? 1 : g.extent(2, 20, 100));
  p->test = make_test(g, p->data, g.coin(0.1) ? 1 : g.extent(2, 7, 40));
  p->u = pick_points(g, o, g.coin(0.15) ? 1 : g.extent(2, 8, 16), p->data.x);
  p->cells.mode = g.integer(0, 3);
  p->cells.width = g.uniform(1., 8.);
  p->inducing_nugget = 1e-8;
  p->measurement_nugget = 1e-8;
  if (g.coin(0.4))
    p->inducing_nugget = o.amplitude * o.amplitude * g.log_uniform(1e-12, 0.1);
  if (g.coin(0.4))
    p->measurement_nugget =
        o.amplitude * o.amplitude * g.log_uniform(1e-12, 0.1);
  p->group = groups_of(p->cells, p->data.x);
  c.desc << o.name << " n=" << p->data.x.size() << " u=" << p->u.size()
         << " mode=" << p->cells.mode << " nuggets " << p->inducing_nugget
         << " " << p->measurement_nugget << " x0=" << p->data.x[0];
  return !p->u.empty();
}

LV residual(const Oracle &o, const Data &d) {
  LV r;
  for (std::size_t i = 0; i < d.x.size(); ++i)
    r.push_back(static_cast<LD>(d.y[i]) - o.m(d.x[i]));
  return r;
}

LV means(const Oracle &o, const std::vector<double> &x) {
  LV r;
  for (auto v : x)
    r.push_back(o.m(v));
  return r;
}

SparseState start(const Oracle &o, const Problem &p,
                  const std::vector<double> &u) {
  return sparse_prior(with_nugget(o.K(u, false, u, false), p.inducing_nugget));
}

// K_ff + errors - Q_ff; false when the problem is too close to singular
bool noise_of(const Oracle &o, const Problem &p, const std::vector<double> &u,
              const Data &d, const std::vector<long> &group, LM *A) {
  const LM kuu = with_nugget(o.K(u, false, u, false), p.inducing_nugget);
  const LM kfu = o.K(d.x, true, u, false);
  *A = block_noise(kuu, kfu, o.K(d.x, true, d.x, true), d.var, group,
                   p.measurement_nugget);
  return least_pivot(*A) > 3e-6L * o.amplitude * o.amplitude;
}

bool absorb(const Oracle &o, const Problem &p, const std::vector<double> &u,
            const Data &d, const std::vector<long> &group, SparseState *s,
            LM *A_out = nullptr) {
  LM A;
  if (!noise_of(o, p, u, d, group, &A))
    return false;
  sparse_absorb(s, A, o.K(d.x, true, u, false), residual(o, d));
  if (A_out)
    *A_out = A;
  return true;
}

Post ask(const Oracle &o, const SparseState &s, const std::vector<double> &u,
         const std::vector<double> &test, bool measured) {
  return sparse_predict(s, o.K(test, measured, test, measured),
                        o.K(test, measured, u, false), means(o, test));
}

Post ask(const Oracle &o, const JointState &s, const std::vector<double> &z,
         const std::vector<double> &test) {
  return joint_predict(s, o.K(test, false, test, false),
                       o.K(test, false, z, false), means(o, test));
}

template <typename P>
void compare(vf::Case &c, const std::string &key, const P &pred, const Post &p,
             double amp) {
  compare_mean(c, (key + "_mean").c_str(), pred.mean(), p, amp);
  const MarginalDistribution marginal = pred.marginal();
  compare_mean(c, (key + "_marginal_mean").c_str(), marginal.mean, p, amp);
  compare_var(c, (key + "_variance").c_str(), marginal.covariance.diagonal(), p,
              amp);
  const JointDistribution joint = pred.joint();
  compare_mean(c, (key + "_joint_mean").c_str(), joint.mean, p, amp);
  compare_cov(c, (key + "_covariance").c_str(), joint.covariance, p, amp);
}

template <typename S> auto sparse_model(const S &setup, const Problem &p) {
  auto model = albatross::sparse_gp_from_covariance_and_mean(
      setup.cov, setup.mean, p.cells, GivenPoints{p.u}, "sparse", C04_QR{});
  model.set_param_value(albatross::details::inducing_nugget_name(),
                        p.inducing_nugget);
  model.set_param_value(albatross::details::measurement_nugget_name(),
                        p.measurement_nugget);
  return model;
}

double spread(const Oracle &o) { return 3. * o.amplitude; }

VF_SECTION("definition_" C04_STR(PART), 80, 4000) {
  auto setup = C04_SETUP(c.rng);
  const Oracle &o = setup.o;
  Problem p;
  if (!make_problem(c, o, &p))
    return;
  SparseState s = start(o, p, p.u);
  LM A;
  if (!absorb(o, p, p.u, p.data, p.group, &s, &A))
    return;
  c.reached();
  c.count("sparse_fits", 1);
  if (p.u.size() > p.data.x.size())
    c.count("more_inducing_than_data", 1);
  if (p.cells.mode == 0)
    c.count("one_group", 1);
  if (p.cells.mode == 2)
    c.count("independent", 1);
  if (p.u.size() == 1)
    c.count("one_inducing", 1);
  auto model = sparse_model(setup, p);
  if (c.rng.coin(0.3))
    model.set_thread_pool(
        albatross::make_shared_thread_pool(c.rng.size(2, 4)));
  const auto dataset = p.data.dataset();
  const auto fit = model.fit(dataset);
  compare(c, "plain", fit.predict(p.test), ask(o, s, p.u, p.test, false),
          spread(o));
  compare(c, "noisy", fit.predict_with_measurement_noise(p.test),
          ask(o, s, p.u, p.test, true), spread(o));
  VF_CHECK("inducing_points", fit.get_fit().train_features == p.u,
           "the strategy was not used");

  // log likelihood of N(m, A + Q)
  {
    const LM kfu = o.K(p.data.x, true, p.u, false);
    LM K = A;
    add(&K, mul(kfu, solve(s.kuu, transpose(kfu))));
    const LV r = residual(o, p.data);
    const LV kr = solve(K, r);
    LD q = 0.L;
    for (std::size_t i = 0; i < r.size(); ++i)
      q += r[i] * kr[i];
    LD expected = -0.5L * (q + log_det(K) +
                           static_cast<LD>(r.size()) *
                               logl(2.L * acosl(-1.L)));
    LD prior = 0.L;
    for (const auto &param : model.get_params())
      prior += param.second.prior_log_likelihood();
    expected += prior;
    VF_CLOSE("log_likelihood", model.log_likelihood(dataset),
             static_cast<double>(expected), 1e-8,
             1e-7 * static_cast<double>(1.L + fabsl(q) + r.size() + fabsl(prior)));
  }

  // order of the data is irrelevant
  {
    std::vector<std::size_t> order(p.data.x.size());
    for (std::size_t i = 0; i < order.size(); ++i)
      order[i] = i;
    c.rng.shuffle(order);
    const auto shuffled = model.fit(p.data.pick(order).dataset());
    compare(c, "shuffled", shuffled.predict(p.test),
            ask(o, s, p.u, p.test, false), spread(o));
  }
  // shifting the mean at the inducing points
  if (least_pivot(s.kuu) > 1e-3L * o.amplitude * o.amplitude) {
    c.count("shifted_means", 1);
    Eigen::VectorXd shift(static_cast<Eigen::Index>(p.u.size()));
    LV ls;
    for (Eigen::Index i = 0; i < shift.size(); ++i) {
      shift[i] = o.amplitude * c.rng.normal();
      ls.push_back(shift[i]);
    }
    auto shifted = fit;
    shifted.get_fit().shift_mean(shift);
    Post e = ask(o, s, p.u, p.test, false);
    const LV w = mul(o.K(p.test, false, p.u, false), solve(s.kuu, ls));
    for (std::size_t i = 0; i < w.size(); ++i)
      e.mean[i] += w[i];
    compare(c, "shifted", shifted.predict(p.test), e, spread(o));
  }
}

VF_SECTION("reduces_to_exact_" C04_STR(PART), 40, 2000) {
  vf::Rng &g = c.rng;
  auto setup = C04_SETUP(g);
  const Oracle &o = setup.o;
  Problem p;
  const std::vector<double> x = pick_points(g, o, g.size(1, 14), {}, {}, 1e-4);
  p.data = make_data(g, o, x.size());
  p.data.x = x;
  // all of the training points are inducing points, perhaps with others
  p.u = pick_points(g, o, x.size() + g.size(0, 2), {}, x, 1e-4);
  g.shuffle(p.u);
  if (g.coin(0.3)) {
    const std::size_t i = g.size(0, x.size() - 1);
    p.data.x.push_back(x[i]); // one location observed twice
    p.data.y.push_back(p.data.y[i] + o.amplitude);
    p.data.var.push_back(p.data.var[i]);
  }
  p.test = make_test(g, p.data, g.size(1, 6));
  p.cells.mode = 0;
  p.inducing_nugget = 1e-14 * o.amplitude * o.amplitude;
  p.measurement_nugget = 1e-14 * o.amplitude * o.amplitude;
  c.desc << o.name << " n=" << p.data.x.size() << " u=" << p.u.size()
         << " x0=" << p.data.x[0];
  c.reached();
  c.count("exact", 1);
  const auto fit = sparse_model(setup, p).fit(p.data.dataset());
  compare(c, "plain", fit.predict(p.test),
          posterior(o, p.data.x, p.data.y, p.data.var, p.test, false),
          spread(o));
  compare(c, "noisy", fit.predict_with_measurement_noise(p.test),
          posterior(o, p.data.x, p.data.y, p.data.var, p.test, true),
          spread(o));
}

VF_SECTION("updates_" C04_STR(PART), 60, 3000) {
  vf::Rng &g = c.rng;
  auto setup = C04_SETUP(g);
  const Oracle &o = setup.o;
  Problem p;
  if (!make_problem(c, o, &p))
    return;
  const std::size_t n_batches = g.size(2, 4);
  std::vector<std::vector<std::size_t>> batch(n_batches);
  for (std::size_t i = 0; i < p.data.x.size(); ++i) {
    // whole groups when they are cells, so that the union is defined by them
    const long k = p.cells.mode == 0
                       ? g.integer(0, static_cast<int>(n_batches) - 1)
                       : ((p.group[i] / 16) % static_cast<long>(n_batches) +
                          static_cast<long>(n_batches)) %
                             static_cast<long>(n_batches);
    batch[static_cast<std::size_t>(k)].push_back(i);
  }
  batch.erase(std::remove_if(batch.begin(), batch.end(),
                             [](const std::vector<std::size_t> &b) {
                               return b.empty();
                             }),
              batch.end());
  SparseState s = start(o, p, p.u);
  for (std::size_t b = 0; b < batch.size(); ++b) {
    const Data d = p.data.pick(batch[b]);
    if (!absorb(o, p, p.u, d, groups_of(p.cells, d.x), &s))
      return;
  }
  c.reached();
  c.count("sparse_updates", batch.size() - 1);
  const auto model = sparse_model(setup, p);
  auto fit = model.fit(p.data.pick(batch[0]).dataset());
  for (std::size_t b = 1; b < batch.size(); ++b) {
    const auto d = p.data.pick(batch[b]).dataset();
    switch (g.integer(0, 2)) {
    case 0:
      fit = fit.update(d);
      break;
    case 1:
      fit.update_in_place(d);
      break;
    default:
      fit = albatross::update(fit, d);
    }
  }
  compare(c, "updated", fit.predict(p.test), ask(o, s, p.u, p.test, false),
          spread(o));
  compare(c, "updated_noisy", fit.predict_with_measurement_noise(p.test),
          ask(o, s, p.u, p.test, true), spread(o));
  if (p.cells.mode != 0 && batch.size() > 1) {
    // the batches hold whole groups: fitting everything at once is the same
    c.count("equal_to_union", 1);
    const auto once = model.fit(p.data.dataset());
    compare(c, "union", once.predict(p.test), ask(o, s, p.u, p.test, false),
            spread(o));
  }
}

VF_SECTION("rebase_" C04_STR(PART), 60, 3000) {
  vf::Rng &g = c.rng;
  auto setup = C04_SETUP(g);
  const Oracle &o = setup.o;
  Problem p;
  if (!make_problem(c, o, &p))
    return;
  p.inducing_nugget = 1e-13 * o.amplitude * o.amplitude;
  SparseState s = start(o, p, p.u);
  if (!absorb(o, p, p.u, p.data, p.group, &s))
    return;
  const bool contains = g.coin();
  const std::vector<double> z =
      pick_points(g, o, p.u.size() + g.size(0, 4), p.test,
                  contains ? p.u : std::vector<double>(), 1e-4);
  if (z.empty())
    return;
  // independently of the implementation's small nugget on the covariance
  const double slack =
      4. * static_cast<double>(z.size()) *
      std::sqrt(1e-8 / (1e-4 * o.amplitude * o.amplitude));
  if (slack > 30.)
    return;
  c.reached();
  c.count("rebased", 1);
  const double amp = spread(o);
  const auto fit = sparse_model(setup, p).fit(p.data.dataset());
  const auto rebased = albatross::rebase_inducing_points(fit, z);
  VF_CHECK("rebased_points", rebased.get_fit().train_features == z, "");
  const Post at_z = ask(o, s, p.u, z, false);
  const LM kzz = o.K(z, false, z, false);
  // the weights of z for the requested points bound the nugget's effect
  const LM kts = o.K(p.test, false, z, false);
  const LM w = solve(kzz, transpose(kts));
  LD gain = 1.L;
  for (std::size_t j = 0; j < w.c; ++j) {
    LD q = 0.L;
    for (std::size_t i = 0; i < w.r; ++i)
      q += w(i, j) * w(i, j);
    gain = std::max(gain, q);
  }
  const double tol = static_cast<double>(1e-7L * gain / (static_cast<LD>(amp) * amp)) + 1e-6;
  if (tol > 1e-3)
    return;
  LV centered = at_z.mean;
  for (std::size_t i = 0; i < z.size(); ++i)
    centered[i] -= o.m(z[i]);
  auto close = [&](const char *key, const JointDistribution &j, const Post &e) {
    VF_REQUIRE(key, static_cast<std::size_t>(j.mean.size()) == e.mean.size(),
               "size");
    LD scale = amp;
    for (auto v : e.mean)
      scale = std::max(scale, fabsl(v));
    for (std::size_t a = 0; a < e.mean.size(); ++a) {
      const Eigen::Index ea = static_cast<Eigen::Index>(a);
      VF_CLOSE(key, j.mean[ea], static_cast<double>(e.mean[a]), 0.,
               static_cast<double>(scale) * 1e-6);
      for (std::size_t b = 0; b < e.mean.size(); ++b)
        VF_CLOSE(key, j.covariance(ea, static_cast<Eigen::Index>(b)),
                 static_cast<double>(e.cov(a, b)), 0., amp * amp * tol);
    }
  };
  close("at_the_new_points", rebased.predict(z).joint(), at_z);
  // The covariance at the new points may be singular; queries elsewhere are
  // pushed through the prior.
  Post e;
  e.mean = mul(transpose(w), centered);
  for (std::size_t i = 0; i < p.test.size(); ++i)
    e.mean[i] += o.m(p.test[i]);
  e.cov = o.K(p.test, false, p.test, false);
  add(&e.cov, mul(transpose(w), mul(kzz, w)), -1.L);
  add(&e.cov, mul(transpose(w), mul(at_z.cov, w)));
  close("elsewhere", rebased.predict(p.test).joint(), e);
  const MarginalDistribution marginal = rebased.predict(p.test).marginal();
  for (std::size_t i = 0; i < p.test.size(); ++i)
    VF_CLOSE("marginal",
             marginal.covariance.diagonal()[static_cast<Eigen::Index>(i)],
             static_cast<double>(e.cov(i, i)), 0., amp * amp * tol);
  if (contains) {
    c.count("rebased_onto_superset", 1);
    close("preserved", rebased.predict(p.test).joint(),
          ask(o, s, p.u, p.test, false));
  }
  // and the rebased fit can be updated
  if (g.coin(0.5) &&
      least_pivot(at_z.cov) > 1e-6L * o.amplitude * o.amplitude) {
    const Data more = make_data(g, o, g.size(1, 5));
    // how far a nugget of that order on the covariance moves the answer
    JointState t{kzz, centered, at_z.cov};
    JointState moved{kzz, centered, with_nugget(at_z.cov, 1e-8L)};
    LM A;
    if (noise_of(o, p, z, more, groups_of(p.cells, more.x), &A)) {
      const LM kfz = o.K(more.x, true, z, false);
      joint_absorb(&t, A, kfz, residual(o, more));
      joint_absorb(&moved, A, kfz, residual(o, more));
      c.count("updated_after_rebase", 1);
      const Post u0 = ask(o, t, z, p.test);
      const Post u1 = ask(o, moved, z, p.test);
      const JointDistribution j =
          rebased.update(more.dataset()).predict(p.test).joint();
      for (std::size_t a = 0; a < u0.mean.size(); ++a) {
        const Eigen::Index ea = static_cast<Eigen::Index>(a);
        VF_CLOSE("updated_mean", j.mean[ea], static_cast<double>(u0.mean[a]),
                 0.,
                 static_cast<double>(1e-6L * (amp + fabsl(u0.mean[a])) +
                                     5.L * fabsl(u0.mean[a] - u1.mean[a])));
        for (std::size_t b = 0; b < u0.mean.size(); ++b)
          VF_CLOSE("updated_covariance",
                   j.covariance(ea, static_cast<Eigen::Index>(b)),
                   static_cast<double>(u0.cov(a, b)), 0.,
                   static_cast<double>(1e-6L * amp * amp +
                                       5.L * fabsl(u0.cov(a, b) -
                                                   u1.cov(a, b))));
      }
    }
  }
}

VF_SECTION("from_prediction_" C04_STR(PART), 40, 2000) {
  vf::Rng &g = c.rng;
  auto setup = C04_SETUP(g);
  const Oracle &o = setup.o;
  Problem p;
  if (!make_problem(c, o, &p))
    return;
  const std::vector<double> z = pick_points(g, o, g.size(1, 6), {}, {}, 1e-4);
  if (z.empty())
    return;
  const std::size_t n = z.size();
  const Eigen::Index en = static_cast<Eigen::Index>(n);
  const double amp = spread(o);
  Eigen::MatrixXd r(en, en);
  for (Eigen::Index i = 0; i < r.size(); ++i)
    r.data()[i] = g.normal();
  const Eigen::MatrixXd cov =
      o.amplitude * o.amplitude *
      (0.3 * r * r.transpose() + 0.1 * Eigen::MatrixXd::Identity(en, en));
  Eigen::VectorXd mean(en);
  for (Eigen::Index i = 0; i < en; ++i)
    mean[i] = static_cast<double>(o.m(z[static_cast<std::size_t>(i)])) +
              o.amplitude * g.normal();
  c.reached();
  c.count("foreign_sparse_predictions", 1);
  const auto model = sparse_model(setup, p);
  const auto fit = model.fit_from_prediction(z, JointDistribution(mean, cov));
  LV centered;
  for (std::size_t i = 0; i < n; ++i)
    centered.push_back(static_cast<LD>(mean[static_cast<Eigen::Index>(i)]) -
                       o.m(z[i]));
  const LM kzz = o.K(z, false, z, false);
  const JointState s{kzz, centered, from_eigen(cov)};
  const LM w = solve(kzz, o.K(z, false, p.test, false));
  LD gain = 1.L;
  for (auto v : w.a)
    gain += v * v;
  if (gain > 1e4L)
    return;
  const Post e = ask(o, s, z, p.test);
  LD big = amp;
  for (auto v : e.mean)
    big = std::max(big, fabsl(v));
  for (std::size_t i = 0; i < e.cov.a.size(); ++i)
    big = std::max(big, sqrtl(fabsl(e.cov.a[i])));
  const double scale =
      static_cast<double>(std::max(big, sqrtl(gain)));
  const JointDistribution got = fit.predict(p.test).joint();
  for (std::size_t i = 0; i < p.test.size(); ++i) {
    const Eigen::Index ei = static_cast<Eigen::Index>(i);
    VF_CLOSE("mean", got.mean[ei], static_cast<double>(e.mean[i]), 0.,
             1e-6 * scale);
    for (std::size_t j = 0; j < p.test.size(); ++j)
      VF_CLOSE("covariance", got.covariance(ei, static_cast<Eigen::Index>(j)),
               static_cast<double>(e.cov(i, j)), 0., 1e-6 * scale * scale);
  }
  const JointDistribution back = fit.predict(z).joint();
  for (Eigen::Index i = 0; i < en; ++i) {
    VF_CLOSE("mean_back", back.mean[i], mean[i], 0., 1e-6 * scale);
    for (Eigen::Index j = 0; j < en; ++j)
      VF_CLOSE("covariance_back", back.covariance(i, j), cov(i, j), 0.,
               1e-6 * scale * scale);
  }
}

} // namespace
