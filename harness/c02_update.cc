// C02: updating a Gaussian process equals refitting, and a fit built from a
// prediction carries that information.  Built once per setup: PART selects.
#define VFGP_UNITS
#include "gp_oracle.h"

#ifndef PART
#define PART a
#endif
#define C02_CAT2(a, b) a##b
#define C02_CAT(a, b) C02_CAT2(a, b)
#define C02_STR2(a) #a
#define C02_STR(a) C02_STR2(a)
#define C02_SETUP C02_CAT(setup_, PART)

namespace {

using namespace vfgp;
using albatross::JointDistribution;
using albatross::MarginalDistribution;

// Conditioning on several batches: terms which only exist between measurements
// are shared within a batch.
Post batches_posterior(const Oracle &o, const Data &d,
                       const std::vector<std::size_t> &batch,
                       const std::vector<double> &ts, bool t_meas) {
  const std::size_t n = d.x.size(), m = ts.size();
  LM A(n, n), C(n, m);
  LV r;
  for (std::size_t i = 0; i < n; ++i) {
    for (std::size_t j = 0; j < n; ++j) {
      const bool same = batch[i] == batch[j];
      A(i, j) = o.k(d.x[i], same, d.x[j], same);
    }
    A(i, i) += d.var[i];
    for (std::size_t j = 0; j < m; ++j)
      C(i, j) = o.k(d.x[i], false, ts[j], t_meas);
    r.push_back(static_cast<LD>(d.y[i]) - o.m(d.x[i]));
  }
  Post p;
  p.cov = o.K(ts, t_meas, ts, t_meas);
  const LM AiC = solve(A, C);
  const LM E = mul(transpose(C), AiC);
  for (std::size_t i = 0; i < p.cov.a.size(); ++i)
    p.cov.a[i] -= E.a[i];
  p.mean = mul(transpose(AiC), r);
  for (std::size_t i = 0; i < m; ++i)
    p.mean[i] += o.m(ts[i]);
  return p;
}

template <typename P>
void compare(vf::Case &c, const std::string &key, const P &pred, const Post &p,
             double amp) {
  compare_mean(c, (key + "_mean").c_str(), pred.mean(), p, amp);
  const MarginalDistribution marginal = pred.marginal();
  compare_mean(c, (key + "_marginal_mean").c_str(), marginal.mean, p, amp);
  compare_var(c, (key + "_variance").c_str(), marginal.covariance.diagonal(), p,
              amp);
  const JointDistribution joint = pred.joint();
  compare_mean(c, (key + "_joint_mean").c_str(), joint.mean, p, amp);
  compare_cov(c, (key + "_covariance").c_str(), joint.covariance, p, amp);
}

VF_SECTION("update_" C02_STR(PART), 60, 3000) {
  vf::Rng &g = c.rng;
  auto setup = C02_SETUP(g);
  const Oracle &o = setup.o;
  const double amp = 3. * o.amplitude;
  const std::size_t n_batches = g.extent(2, 4, 15);
  std::vector<std::size_t> sizes;
  std::size_t n = 0;
  for (std::size_t i = 0; i < n_batches; ++i) {
    sizes.push_back(g.coin(0.25) ? 1 : g.extent(1, 6, 50));
    n += sizes.back();
  }
  const Data data = make_data(g, o, n);
  const std::vector<double> test = make_test(g, data, g.extent(1, 6, 40));
  c.desc << o.name << " sizes";
  for (auto s : sizes)
    c.desc << " " << s;
  c.desc << " x0=" << data.x[0];
  c.reached();
  c.count("updates", n_batches - 1);

  std::vector<std::size_t> batch;
  std::vector<Data> parts;
  for (std::size_t b = 0, k = 0; b < n_batches; ++b) {
    std::vector<std::size_t> ids;
    for (std::size_t i = 0; i < sizes[b]; ++i, ++k) {
      ids.push_back(k);
      batch.push_back(b);
    }
    parts.push_back(data.pick(ids));
  }
  const auto model = setup.gp();
  const auto fit0 = model.fit(parts[0].dataset());
  const auto before = fit0.predict(test).joint();
  const auto fit1 = fit0.update(parts[1].dataset());
  auto upto = [&](std::size_t k, bool noisy) {
    std::size_t m = 0;
    for (std::size_t i = 0; i < k; ++i)
      m += sizes[i];
    std::vector<std::size_t> ids;
    for (std::size_t i = 0; i < m; ++i)
      ids.push_back(i);
    return batches_posterior(o, data.pick(ids), batch, test, noisy);
  };
  compare(c, "once", fit1.predict(test), upto(2, false), amp);
  compare(c, "once_noisy", fit1.predict_with_measurement_noise(test),
          upto(2, true), amp);
  // the fit which was updated is unchanged
  const auto after = fit0.predict(test).joint();
  VF_CHECK("original_unchanged",
           before.mean == after.mean && before.covariance == after.covariance,
           "");
  // other ways of saying the same
  const auto d1 = parts[1].dataset();
  VF_CHECK("spellings",
           fit0.update(d1.features, d1.targets).predict(test).mean() ==
                   fit1.predict(test).mean() &&
               albatross::update(fit0, d1).predict(test).mean() ==
                   fit1.predict(test).mean(),
           "");
  if (n_batches >= 3) {
    const auto fit2 = fit1.update(parts[2].dataset());
    compare(c, "twice", fit2.predict(test), upto(3, false), amp);
    c.count("chained", 1);
    if (n_batches >= 4) {
      const auto fit3 = fit2.update(parts[3].dataset());
      compare(c, "thrice", fit3.predict(test), upto(4, false), amp);
      compare(c, "thrice_noisy", fit3.predict_with_measurement_noise(test),
              upto(4, true), amp);
      c.count("chained_three", 1);
      // a copy and what was moved behave the same
      auto copy = fit3;
      const auto moved = std::move(copy);
      VF_CHECK("moved",
               moved.predict(test).joint().covariance ==
                   fit3.predict(test).joint().covariance,
               "");
    }
  }
  // against refitting, when no measurement only term connects the batches
  bool shared = o.name.find("meas[se") != std::string::npos;
  for (std::size_t i = 0; i < n; ++i)
    for (std::size_t j = 0; j < i; ++j)
      shared = shared || (batch[i] != batch[j] && data.x[i] == data.x[j]);
  if (!shared) {
    const Data two = [&] {
      std::vector<std::size_t> ids;
      for (std::size_t i = 0; i < sizes[0] + sizes[1]; ++i)
        ids.push_back(i);
      return data.pick(ids);
    }();
    const auto refit = model.fit(two.dataset());
    const auto a = fit1.predict(test).joint(), b = refit.predict(test).joint();
    for (Eigen::Index i = 0; i < a.mean.size(); ++i) {
      VF_CLOSE("refit_mean", a.mean[i], b.mean[i], 1e-7, 1e-7 * amp);
      for (Eigen::Index j = 0; j < a.mean.size(); ++j)
        VF_CLOSE("refit_covariance", a.covariance(i, j), b.covariance(i, j), 0.,
                 1e-8 * amp * amp);
    }
    c.count("refits", 1);
  }
}

bool spread_out(const LM &K, double amp) {
  LM L;
  if (!cholesky(K, &L))
    return false;
  for (std::size_t i = 0; i < K.r; ++i)
    if (L(i, i) < 0.05L * amp)
      return false;
  return true;
}

Eigen::MatrixXd random_spd(vf::Rng &g, Eigen::Index n, double scale) {
  Eigen::MatrixXd a(n, n);
  for (Eigen::Index i = 0; i < n; ++i)
    for (Eigen::Index j = 0; j < n; ++j)
      a(i, j) = g.normal();
  const Eigen::MatrixXd s =
      a * a.transpose() / static_cast<double>(n) +
      0.1 * Eigen::MatrixXd::Identity(n, n);
  return scale * scale * 0.5 * (s + s.transpose());
}

// The distribution of f(ts) when all that is known is f(us) ~ N(mu, P).
Post informed(const Oracle &o, const std::vector<double> &us, const LV &mu,
              const LM &P, const std::vector<double> &ts, bool t_meas) {
  const LM K = o.K(us, false, us, false);
  const LM C = o.K(us, false, ts, t_meas);
  const LM W = solve(K, C);
  Post p;
  p.cov = o.K(ts, t_meas, ts, t_meas);
  LM D = K;
  for (std::size_t i = 0; i < D.a.size(); ++i)
    D.a[i] -= P.a[i];
  const LM E = mul(transpose(W), mul(D, W));
  for (std::size_t i = 0; i < p.cov.a.size(); ++i)
    p.cov.a[i] -= E.a[i];
  LV d;
  for (std::size_t i = 0; i < us.size(); ++i)
    d.push_back(mu[i] - o.m(us[i]));
  p.mean = mul(transpose(W), d);
  for (std::size_t i = 0; i < ts.size(); ++i)
    p.mean[i] += o.m(ts[i]);
  return p;
}

VF_SECTION("from_prediction_" C02_STR(PART), 60, 3000) {
  vf::Rng &g = c.rng;
  auto setup = C02_SETUP(g);
  const Oracle &o = setup.o;
  const std::size_t nu = g.size(1, 5);
  std::vector<double> us;
  for (std::size_t i = 0; i < nu; ++i)
    us.push_back(-10. + 20. * (static_cast<double>(i) + g.uniform(0.2, 0.8)) /
                            static_cast<double>(nu));
  g.shuffle(us);
  const LM K = o.K(us, false, us, false);
  LD least = HUGE_VALL;
  for (std::size_t i = 0; i < nu; ++i)
    least = std::min(least, sqrtl(K(i, i)));
  if (!spread_out(K, static_cast<double>(least)))
    return;
  const double amp = 5. * o.amplitude;
  const auto model = setup.gp();
  JointDistribution joint;
  const bool own = g.coin();
  const Data data = make_data(g, o, g.extent(1, 8, 60));
  const std::vector<double> test = make_test(g, data, g.extent(1, 6, 40));
  c.desc << o.name << " nu=" << nu << " own=" << own << " u0=" << us[0];
  c.reached();
  c.count(own ? "own_predictions" : "foreign_predictions", 1);
  if (own) {
    joint = model.fit(data.dataset()).predict(us).joint();
  } else {
    Eigen::VectorXd mu(static_cast<Eigen::Index>(nu));
    for (std::size_t i = 0; i < nu; ++i)
      mu[static_cast<Eigen::Index>(i)] =
          static_cast<double>(o.m(us[i])) + o.amplitude * g.normal();
    joint = JointDistribution(
        mu, random_spd(g, static_cast<Eigen::Index>(nu),
                       o.amplitude * g.log_uniform(0.1, 2.)));
  }
  const LV mu = from_eigen_vector(joint.mean);
  const LM P = from_eigen(joint.covariance);
  const auto fit = model.fit_from_prediction(us, joint);
  const auto again = fit.predict(us);
  const JointDistribution back = again.joint();
  const double scale = amp * static_cast<double>(o.amplitude / least) * 4.;
  for (std::size_t i = 0; i < nu; ++i) {
    const Eigen::Index e = static_cast<Eigen::Index>(i);
    VF_CLOSE("reproduced_mean", back.mean[e], joint.mean[e], 1e-7,
             1e-7 * scale);
    VF_CLOSE("reproduced_marginal_mean", again.marginal().mean[e],
             joint.mean[e], 1e-7, 1e-7 * scale);
    VF_CLOSE("reproduced_variance", again.marginal().covariance.diagonal()[e],
             joint.covariance(e, e), 0., 1e-8 * scale * scale);
    for (std::size_t j = 0; j < nu; ++j)
      VF_CLOSE("reproduced_covariance",
               back.covariance(e, static_cast<Eigen::Index>(j)),
               joint.covariance(e, static_cast<Eigen::Index>(j)), 0.,
               1e-8 * scale * scale);
  }
  compare(c, "elsewhere", fit.predict(test),
          informed(o, us, mu, P, test, false), scale);
  compare(c, "elsewhere_noisy", fit.predict_with_measurement_noise(test),
          informed(o, us, mu, P, test, true), scale);

  // further measurements: condition the informed distribution
  const Data more = make_data(g, o, g.size(1, 5));
  const auto updated = fit.update(more.dataset());
  std::vector<double> both = more.x;
  both.insert(both.end(), test.begin(), test.end());
  // joint of (measurements, test)
  const Post plain = informed(o, us, mu, P, both, false);
  const Post noisy = informed(o, us, mu, P, more.x, true);
  const std::size_t k = more.x.size(), m = test.size();
  LM A(k, k), C(k, m);
  LV d;
  for (std::size_t i = 0; i < k; ++i) {
    for (std::size_t j = 0; j < k; ++j)
      A(i, j) = noisy.cov(i, j);
    A(i, i) += more.var[i];
    for (std::size_t j = 0; j < m; ++j)
      C(i, j) = plain.cov(i, k + j);
    d.push_back(static_cast<LD>(more.y[i]) - plain.mean[i]);
  }
  Post p;
  const LM AiC = solve(A, C);
  const LM E = mul(transpose(C), AiC);
  const LV s = mul(transpose(AiC), d);
  p.cov = LM(m, m);
  for (std::size_t i = 0; i < m; ++i) {
    p.mean.push_back(plain.mean[k + i] + s[i]);
    for (std::size_t j = 0; j < m; ++j)
      p.cov(i, j) = plain.cov(k + i, k + j) - E(i, j);
  }
  compare(c, "updated", updated.predict(test), p, scale);
  c.count("informed_updates", 1);
}

} // namespace
