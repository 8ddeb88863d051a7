// C22: tuning stays in bounds and never returns worse than it found.
//
// Monitor: the objective handed to the tuner logs every parameter set it is
// asked about.  Oracle: bounds, fixed values and names from the initial store,
// the minimum over the log, and closed form minimisers and gradients.
#include "vf.h"

#include <albatross/Tune>
#include <atomic>
#include <chrono>
#include <mutex>
#include <thread>

using namespace albatross;

namespace {

struct CoutCapture {
  std::ostringstream text;
  std::streambuf *old;
  CoutCapture() : old(std::cout.rdbuf(text.rdbuf())) {}
  ~CoutCapture() { std::cout.rdbuf(old); }
};

struct Event {
  ParameterStore params;
  double value;
};

// A store together with a target for each parameter.
struct Problem {
  ParameterStore start;
  std::map<std::string, double> target; // in tuning coordinates
  std::map<std::string, double> weight;
  int kind = 0;
  std::uint64_t salt = 0;

  static double coordinate(const Parameter &p) {
    return p.prior.is_log_scale() ? std::log(p.value) : p.value;
  }

  double operator()(const ParameterStore &p) const {
    double s = 0.;
    std::uint64_t h = salt;
    for (const auto &pair : p) {
      const double d = coordinate(pair.second) - target.at(pair.first);
      s += weight.at(pair.first) * d * d;
      h = vf::hash_bytes(&pair.second.value, 8, h + 1);
    }
    switch (kind) {
    case 1: // flat
      return 7.;
    case 2: // rugged, any value anywhere
      return static_cast<double>(vf::mix(h) >> 11) * 0x1.0p-53;
    case 3: // not a number in places
      return (vf::mix(h) % 3) == 0 ? std::nan("") : s;
    case 4: // infinite in places
      return (vf::mix(h) % 3) == 0 ? HUGE_VAL : s;
    case 5: // never a number
      return std::nan("");
    case 6: // negative values
      return s - 1e6;
    default:
      return s;
    }
  }

  // gradient in tuning coordinates
  double gradient(const std::string &name) const {
    return 2. * weight.at(name) * (coordinate(start.at(name)) - target.at(name));
  }
};

// at: 0 interior, 1 lower bound, 2 upper bound, 3 anywhere
Parameter random_param(vf::Rng &g, int at) {
  double lo, hi, v;
  const bool low = at == 1 || (at == 3 && g.coin(0.15));
  const bool high = at == 2 || (at == 3 && g.coin(0.15));
  switch (g.size(0, 5)) {
  case 0:
  case 1:
    lo = g.uniform(-10., 10.);
    hi = lo + g.log_uniform(0.5, 50.);
    v = low ? lo : high ? hi : lo + (hi - lo) * g.uniform(0.05, 0.95);
    return Parameter(v, UniformPrior(lo, hi));
  case 2:
    lo = g.log_uniform(1e-4, 1.);
    hi = lo * g.log_uniform(3., 1e5);
    v = low ? lo : high ? hi : std::exp(std::log(lo) + std::log(hi / lo) * g.uniform(0.05, 0.95));
    return Parameter(v, LogScaleUniformPrior(lo, hi));
  case 3:
    return Parameter(low ? 0. : g.log_uniform(0.01, 10.), NonNegativePrior());
  case 4:
    return Parameter(g.normal() * 3., GaussianPrior(0., 3.));
  default:
    return Parameter(g.normal() * 3., UninformativePrior());
  }
}

Problem make(vf::Case &c, std::size_t n, int at, int kind) {
  auto &g = c.rng;
  Problem p;
  p.kind = kind;
  p.salt = g.next();
  for (std::size_t i = 0; i < n; ++i) {
    const std::string name = std::string(1, static_cast<char>('a' + g.size(0, 25))) +
                             std::to_string(g.size(0, 99)) + "_" + std::to_string(i);
    const bool fixed = g.coin(0.2);
    const Parameter q =
        fixed ? Parameter(g.normal(), FixedPrior()) : random_param(g, at);
    p.start[name] = q;
    p.weight[name] = g.log_uniform(0.1, 10.);
    p.target[name] = Problem::coordinate(q) + g.normal() * (g.coin(0.3) ? 10. : 1.);
    c.desc << name << "=" << q.value << " " << q.prior.get_name() << "->"
           << p.target[name] << "; ";
  }
  c.desc << "kind " << kind;
  return p;
}

void check_params(vf::Case &c, const Problem &p, const ParameterStore &x,
                  const char *what) {
  VF_REQUIRE(std::string(what) + "_names", x.size() == p.start.size(), x.size());
  for (const auto &s : p.start) {
    VF_REQUIRE(std::string(what) + "_names", x.count(s.first) == 1, s.first);
    const Parameter &q = x.at(s.first);
    VF_CHECK(std::string(what) + "_prior", q.prior == s.second.prior, s.first);
    if (s.second.prior.is_fixed()) {
      VF_CHECK(std::string(what) + "_fixed",
               std::memcmp(&q.value, &s.second.value, 8) == 0,
               s.first << " moved from " << s.second.value << " to " << q.value);
    } else {
      VF_CHECK(std::string(what) + "_bounds",
               q.value >= s.second.prior.lower_bound() &&
                   q.value <= s.second.prior.upper_bound(),
               s.first << " = " << q.value << " outside "
                       << s.second.prior.get_name());
    }
  }
}

bool close_store(const ParameterStore &a, const ParameterStore &b, double tol) {
  for (const auto &p : a)
    if (!vf::close(p.second.value, b.at(p.first).value, tol, 1e-300))
      return false;
  return a.size() == b.size();
}

std::string show(const ParameterStore &s) {
  std::ostringstream o;
  o.precision(17);
  for (const auto &p : s)
    o << p.first << "=" << p.second.value << " ";
  return o.str();
}

} // namespace

VF_SECTION("greedy", 400, 8000) {
  auto &g = c.rng;
  const int kind = static_cast<int>(g.size(0, 6));
  const Problem p = make(c, g.extent(1, 5, 15), 3, kind);
  std::size_t n_tunable = 0;
  for (const auto &s : p.start)
    n_tunable += !s.second.prior.is_fixed();
  const std::size_t queries = g.size(1, 5), iterations = g.size(0, 4);
  const std::size_t n_threads = g.size(0, 4);
  c.desc << " q" << queries << " i" << iterations << " t" << n_threads;
  c.count("kind_" + std::to_string(kind));
  std::vector<Event> log;
  std::mutex m;
  const auto objective = [&](const ParameterStore &x) {
    const double v = p(x);
    std::lock_guard<std::mutex> lock(m);
    log.push_back({x, v});
    return v;
  };
  std::ostringstream os;
  const bool quiet = g.coin(0.3);
  CoutCapture cout;
  const ParameterStore serial = greedy_tune(objective, p.start, queries,
                                            iterations, nullptr,
                                            quiet ? nullptr : &os);
  const std::vector<Event> serial_log = log;
  log.clear();
  ParameterStore threaded = serial;
  if (n_threads > 0) {
    ThreadPool pool(n_threads);
    threaded = greedy_tune(objective, p.start, queries, iterations, &pool,
                           nullptr);
    c.count("threaded");
    // same questions, in any order
    auto hashes = [](const std::vector<Event> &l) {
      std::multiset<std::string> s;
      for (const auto &e : l)
        s.insert(show(e.params));
      return s;
    };
    VF_CHECK("threaded_questions", hashes(serial_log) == hashes(log),
             serial_log.size() << " and " << log.size());
  }
  VF_CHECK("silent", cout.text.str().empty(), cout.text.str());
  if (!quiet)
    VF_CHECK("reported", !os.str().empty(), "");
  check_params(c, p, serial, "result");
  VF_CHECK("threads_agree", show(serial) == show(threaded),
           show(serial) << " vs " << show(threaded));
  double best = HUGE_VAL;
  bool start_seen = false;
  for (const auto &e : serial_log) {
    check_params(c, p, e.params, "question");
    if (e.value < best)
      best = e.value;
    start_seen = start_seen || close_store(e.params, p.start, 1e-12);
  }
  c.count("evaluations", serial_log.size());
  if (iterations > 0 && n_tunable > 0) {
    c.reached();
    VF_CHECK("asked", !serial_log.empty(), "");
    VF_CHECK("start_evaluated", start_seen, "the starting point was not tried");
    // every parameter is explored
    for (const auto &s : p.start) {
      if (s.second.prior.is_fixed())
        continue;
      std::set<double> values;
      for (const auto &e : serial_log)
        values.insert(e.params.at(s.first).value);
      VF_CHECK("explored", values.size() >= 2, s.first);
    }
  }
  if (best < HUGE_VAL) {
    VF_CHECK("best", p(serial) == best,
             "result scores " << p(serial) << ", best seen " << best);
  } else {
    VF_CHECK("start_returned", close_store(serial, p.start, 1e-12),
             show(serial) << " vs " << show(p.start));
  }
  // not worse than the start (up to the rounding of a log scale parameter)
  const double f0 = p(p.start);
  if (std::isfinite(f0) && kind != 2 && kind != 3 && kind != 4)
    VF_CHECK("no_worse", p(serial) <= f0 + 1e-9 * (1. + std::fabs(f0)),
             p(serial) << " after " << f0);
}

VF_SECTION("generic_store", 240, 6000) {
  auto &g = c.rng;
  const int kinds[] = {0, 0, 0, 1, 6, 3, 4};
  const int kind = kinds[g.size(0, 6)];
  Problem p = make(c, g.size(1, 4), 3, kind);
  std::size_t n_tunable = 0;
  for (const auto &s : p.start)
    n_tunable += !s.second.prior.is_fixed();
  if (n_tunable == 0)
    return;
  c.reached();
  std::vector<Event> log;
  auto objective = [&](const ParameterStore &x) {
    const double v = p(x);
    log.push_back({x, v});
    return v;
  };
  std::ostringstream os;
  CoutCapture cout;
  GenericTuner tuner(p.start, os);
  const bool gradient = (kind == 0 || kind == 6) && g.coin(0.4);
  if (gradient) {
    tuner.optimizer = default_gradient_optimizer(p.start);
    if (g.coin())
      tuner.threads = nullptr;
    c.count("gradient_runs");
  }
  tuner.optimizer.set_maxeval(2000);
  c.desc << (gradient ? " slsqp" : " sbplx");
  ParameterStore result;
  try {
    result = tuner.tune(objective);
  } catch (const nlopt::roundoff_limited &) {
    c.count("roundoff_limited");
    return;
  } catch (const std::runtime_error &e) {
    // nlopt gives up with a message (never on a well behaved objective)
    VF_CHECK("gave_up", kind == 3 || kind == 4, e.what());
    return;
  }
  VF_CHECK("silent", cout.text.str().empty(), cout.text.str());
  VF_CHECK("reported", os.str().find("TUNED PARAMS") != std::string::npos, "");
  check_params(c, p, result, "result");
  for (const auto &e : log)
    check_params(c, p, e.params, "question");
  VF_REQUIRE("asked", !log.empty(), "");
  VF_CHECK("starts_at_start", close_store(log.front().params, p.start, 1e-12),
           show(log.front().params) << " vs " << show(p.start));
  c.count("evaluations", log.size());
  const double f0 = log.front().value, f1 = p(result);
  if (kind == 0 || kind == 6 || kind == 1)
    VF_CHECK("no_worse", f1 <= f0 + 1e-9 * (1. + std::fabs(f0)),
             f1 << " after starting at " << f0);
  double best = HUGE_VAL;
  for (const auto &e : log)
    if (e.value < best)
      best = e.value;
  if (!gradient && best < HUGE_VAL && (kind == 0 || kind == 6))
    VF_CHECK("best_seen", f1 <= best + 1e-6 * (1. + std::fabs(best)),
             f1 << " but saw " << best);
  if (kind == 0) {
    // convex and separable: the constrained minimum is known
    double fmin = 0.;
    for (const auto &s : p.start) {
      double t = p.target.at(s.first), at = t;
      if (s.second.prior.is_fixed()) {
        at = s.second.value;
      } else {
        double lo = s.second.prior.lower_bound(), hi = s.second.prior.upper_bound();
        if (s.second.prior.is_log_scale()) {
          lo = std::log(lo);
          hi = std::log(hi);
        }
        at = std::min(hi, std::max(lo, t));
      }
      fmin += p.weight.at(s.first) * (at - t) * (at - t);
    }
    c.observe_max("distance_to_minimum", (f1 - fmin) / (1. + f0 - fmin));
    // (observed, not demanded: the simplex optimizer may stop early when it
    // starts on a bound)
    if (f1 - fmin <= 0.02 * (f0 - fmin) + 0.02)
      c.count("converged");
    VF_CHECK("below_minimum", f1 >= fmin - 1e-9 * (1. + std::fabs(fmin)),
             f1 << " where " << fmin << " is the least");
  }
}

// A plain vector of any length keeps its order, from the first question to the
// returned value.
VF_SECTION("generic_vector", 200, 4000) {
  auto &g = c.rng;
  const std::size_t n = g.coin(0.4) ? g.size(11, 25) : g.size(1, 10);
  std::vector<double> start, target;
  for (std::size_t i = 0; i < n; ++i) {
    start.push_back(g.normal() * 3.);
    target.push_back(start.back() + g.normal());
  }
  const bool eigen = g.coin(), gradient = n > 10 || g.coin(0.3);
  c.desc << "n " << n << " eigen " << eigen << " grad " << gradient << " "
         << vf::hash_bytes(start.data(), 8 * n);
  c.reached();
  if (n > 10)
    c.count("more_than_ten");
  std::vector<std::vector<double>> log;
  auto f = [&](const std::vector<double> &x) {
    double s = 0.;
    for (std::size_t i = 0; i < x.size(); ++i)
      s += (1. + static_cast<double>(i)) * (x[i] - target[i]) * (x[i] - target[i]);
    return s;
  };
  std::ostringstream os;
  CoutCapture cout;
  GenericTuner tuner(start, os);
  if (gradient)
    tuner.optimizer = default_gradient_optimizer(tuner.initial_params);
  tuner.optimizer.set_maxeval(600);
  std::vector<double> result;
  if (eigen) {
    auto objective = [&](const Eigen::VectorXd &x) {
      const std::vector<double> v(x.data(), x.data() + x.size());
      log.push_back(v);
      return f(v);
    };
    const Eigen::VectorXd r = tuner.tune(objective);
    result.assign(r.data(), r.data() + r.size());
  } else {
    auto objective = [&](const std::vector<double> &x) {
      log.push_back(x);
      return f(x);
    };
    result = tuner.tune(objective);
  }
  VF_CHECK("silent", cout.text.str().empty(), cout.text.str());
  VF_REQUIRE("size", result.size() == n, result.size());
  VF_REQUIRE("asked", !log.empty(), "");
  VF_CHECK("starts_at_start", log.front() == start, "first question differs");
  VF_CHECK("no_worse", f(result) <= f(start) * (1. + 1e-9), f(result));
  c.count("evaluations", log.size());
  if (gradient) {
    VF_CHECK("converged", f(result) <= 0.02 * f(start) + 0.02,
             f(result) << " from " << f(start));
    for (std::size_t i = 0; i < n; ++i)
      VF_CLOSE("minimiser", result[i], target[i], 0., 0.3);
  }
}

VF_SECTION("gradient", 1200, 30000) {
  auto &g = c.rng;
  const Problem p = make(c, g.extent(1, 5, 40), static_cast<int>(c.index % 4), 0);
  const std::size_t n_threads = g.size(0, 3);
  std::vector<Event> log;
  std::mutex m;
  const auto objective = [&](const ParameterStore &x) {
    const double v = p(x);
    std::lock_guard<std::mutex> lock(m);
    log.push_back({x, v});
    return v;
  };
  const double f0 = p(p.start);
  std::vector<double> grad;
  if (n_threads > 0) {
    ThreadPool pool(n_threads);
    grad = compute_gradient(objective, p.start, f0, &pool);
  } else {
    grad = compute_gradient(objective, p.start, f0);
  }
  for (const auto &e : log)
    check_params(c, p, e.params, "question");
  std::vector<std::string> names;
  for (const auto &s : p.start)
    if (!s.second.prior.is_fixed())
      names.push_back(s.first);
  VF_REQUIRE("size", grad.size() == names.size(), grad.size());
  c.reached();
  for (std::size_t i = 0; i < names.size(); ++i) {
    const Parameter &q = p.start.at(names[i]);
    double e = p.gradient(names[i]);
    const double lo = q.prior.lower_bound(), hi = q.prior.upper_bound();
    double tol = 2e-5 * p.weight.at(names[i]) + 1e-6 * std::fabs(e) + 1e-8 * f0;
    double range = q.prior.is_log_scale() ? std::log(hi / lo) : hi - lo;
    if (std::isfinite(range))
      tol += 1e-7 * f0 / range + 1e-7 * range * p.weight.at(names[i]);
    if (q.value >= hi) {
      c.count("at_upper_bound");
      e = std::max(e, 0.);
    } else if (q.value <= lo) {
      c.count("at_lower_bound");
      e = std::min(e, 0.);
    } else {
      c.count("interior");
    }
    VF_CLOSE("gradient", grad[i], e, 0., tol);
  }
  // of a function of a vector
  std::vector<double> x, t, w;
  const std::size_t n = g.extent(1, 6, 40);
  for (std::size_t i = 0; i < n; ++i) {
    x.push_back(g.normal() * 5.);
    t.push_back(g.normal() * 5.);
    w.push_back(g.log_uniform(0.1, 10.));
  }
  const auto f = [&](const std::vector<double> &z) {
    double s = 0.;
    for (std::size_t i = 0; i < z.size(); ++i)
      s += w[i] * (z[i] - t[i]) * (z[i] - t[i]);
    return s;
  };
  const auto gv = compute_gradient(f, x, f(x));
  VF_REQUIRE("vector_size", gv.size() == n, gv.size());
  for (std::size_t i = 0; i < n; ++i)
    VF_CLOSE("vector_gradient", gv[i], 2. * w[i] * (x[i] - t[i]), 1e-6,
             2e-5 * w[i] + 1e-8 * f(x));
  // and with threads: the same numbers, and every question moves one value
  std::atomic<std::size_t> mixed{0}, asked{0};
  const std::uint64_t salt = g.next();
  const auto slow = [&](const std::vector<double> &z) {
    std::size_t moved = 0;
    for (std::size_t i = 0; i < n; ++i)
      moved += z[i] != x[i];
    std::this_thread::sleep_for(std::chrono::microseconds(
        vf::mix(salt ^ static_cast<std::uint64_t>(asked++)) % 30));
    const std::vector<double> held(z);
    std::this_thread::yield();
    mixed += moved > 1 || held != z;
    return f(z);
  };
  {
    ThreadPool pool(g.size(1, 4));
    const auto threaded = compute_gradient(slow, x, f(x), &pool);
    VF_CHECK("threaded_vector_gradient", threaded == gv, "");
    VF_CHECK("one_value_at_a_time", mixed == 0, mixed.load());
    c.count("threaded_vector_gradients");
  }
}

// Bounds which are close to each other or far apart, the function varies over
// the range between them.
VF_SECTION("gradient_over_ranges", 300, 6000) {
  auto &g = c.rng;
  const std::size_t n = g.size(1, 6);
  ParameterStore start;
  std::map<std::string, double> lower, range, at, target, weight;
  for (std::size_t i = 0; i < n; ++i) {
    const std::string name = "p" + std::to_string(i);
    range[name] = g.log_uniform(1e-12, 1e12);
    lower[name] = g.coin() ? 0. : range[name] * g.uniform(-3., 3.);
    const double u = g.coin(0.15) ? 0. : g.coin(0.15) ? 1. : g.uniform(0.01, 0.99);
    const double hi = lower[name] + range[name];
    const double v = u == 0. ? lower[name] : u == 1. ? hi : lower[name] + u * range[name];
    target[name] = g.uniform(-0.5, 1.5);
    weight[name] = g.log_uniform(0.1, 10.);
    start[name] = Parameter(v, UniformPrior(lower[name], hi));
    at[name] = (v - lower[name]) / range[name];
    c.desc << name << " " << v << " in " << lower[name] << " + " << range[name] << "; ";
  }
  std::mutex m;
  bool outside = false;
  const auto f = [&](const ParameterStore &x) {
    double s = 0.;
    for (const auto &p : x) {
      const double d = (p.second.value - lower.at(p.first)) / range.at(p.first) - target.at(p.first);
      s += weight.at(p.first) * d * d;
      if (!p.second.is_valid()) {
        std::lock_guard<std::mutex> lock(m);
        outside = true;
      }
    }
    return s;
  };
  const double f0 = f(start);
  const auto grad = compute_gradient(f, start, f0);
  VF_CHECK("question", !outside, "asked outside of the bounds");
  VF_REQUIRE("size", grad.size() == n, grad.size());
  c.reached();
  std::size_t i = 0;
  for (const auto &p : start) {
    const std::string &name = p.first;
    double e = 2. * weight[name] * (at[name] - target[name]);
    if (p.second.value >= p.second.prior.upper_bound())
      e = std::max(e, 0.);
    else if (p.second.value <= p.second.prior.lower_bound())
      e = std::min(e, 0.);
    VF_CLOSE("gradient", grad[i] * range[name], e, 0., 1e-5 * weight[name] + 1e-6 * f0);
    if (range[name] < 1e-6)
      c.count("narrow_bounds");
    ++i;
  }
}

namespace vf_c22 {

struct Line;

} // namespace vf_c22

namespace albatross {
template <> struct Fit<vf_c22::Line> {
  double level;
};
} // namespace albatross

namespace vf_c22 {

// A model whose predictions are its parameters.
struct Line : public ModelBase<Line> {
  Line() {
    params_["level"] = {1., UniformPrior(-5., 5.)};
    params_["slope"] = {0., GaussianPrior(0., 100.)};
    params_["scale"] = {2., LogScaleUniformPrior(1e-2, 1e2)};
    params_["constant"] = {3., FixedPrior()};
  }
  std::string get_name() const { return "line"; }
  Fit<Line> _fit_impl(const std::vector<double> &,
                      const MarginalDistribution &) const {
    return {get_param_value("level")};
  }
  Eigen::VectorXd _predict_impl(const std::vector<double> &f, const Fit<Line> &fit,
                                PredictTypeIdentity<Eigen::VectorXd> &&) const {
    return Eigen::VectorXd::Constant(static_cast<Eigen::Index>(f.size()), fit.level);
  }
};

struct Call {
  std::size_t dataset;
  ParameterStore params;
  double value;
};

struct Metric {
  std::vector<Call> *calls;
  double operator()(const RegressionDataset<double> &d, const Line &m) const {
    calls->push_back({d.features.size(), m.get_params(), 0.});
    double s = 0.;
    for (std::size_t i = 0; i < d.features.size(); ++i) {
      const double r = d.targets.mean[static_cast<Eigen::Index>(i)] -
                       m.get_param_value("level") -
                       m.get_param_value("slope") * d.features[i];
      s += r * r;
    }
    const double l = std::log(m.get_param_value("scale"));
    const double value = s / static_cast<double>(d.features.size()) + l * l;
    calls->back().value = value;
    return value;
  }
};

double largest(const std::vector<double> &v) {
  return *std::max_element(v.begin(), v.end());
}

// what was handed to be combined
std::vector<std::vector<double>> combined;
double recorded_largest(const std::vector<double> &v) {
  combined.push_back(v);
  return largest(v);
}
double recorded_mean(const std::vector<double> &v) {
  combined.push_back(v);
  return mean_aggregator(v);
}

} // namespace vf_c22

VF_SECTION("model_tuner", 60, 1500) {
  using namespace vf_c22;
  auto &g = c.rng;
  std::vector<RegressionDataset<double>> datasets;
  const std::size_t n = g.size(1, 3);
  for (std::size_t k = 0; k < n; ++k) {
    std::vector<double> x;
    Eigen::VectorXd y(static_cast<Eigen::Index>(4 + k));
    const double level = g.uniform(-8., 8.), slope = g.normal();
    for (std::size_t i = 0; i < 4 + k; ++i) {
      x.push_back(g.uniform(-2., 2.));
      y[static_cast<Eigen::Index>(i)] = level + slope * x.back() + 0.1 * g.normal();
    }
    datasets.emplace_back(x, y);
    c.desc << k << " level " << level << " slope " << slope << "; ";
  }
  Line model;
  model.set_param_value("level", g.uniform(-5., 5.));
  model.set_param_value("scale", g.log_uniform(0.02, 50.));
  const ParameterStore start = model.get_params();
  std::vector<Call> calls;
  const Metric metric{&calls};
  const bool max_of = g.coin(0.3);
  const bool recorded = g.coin(0.7);
  combined.clear();
  const TuningMetricAggregator agg =
      recorded ? (max_of ? recorded_largest : recorded_mean)
               : (max_of ? largest : mean_aggregator);
  std::ostringstream os;
  CoutCapture cout;
  ParameterStore result;
  if (n == 1 && g.coin()) {
    auto tuner = get_tuner(model, metric, datasets[0], agg, os);
    if (g.coin())
      tuner.initialize_optimizer(nlopt::LN_COBYLA);
    tuner.optimizer.set_maxeval(1500);
    result = tuner.tune();
  } else {
    auto tuner = get_tuner(model, metric, datasets, agg, os);
    tuner.optimizer.set_maxeval(1500);
    result = tuner.tune();
  }
  c.reached();
  VF_CHECK("silent", cout.text.str().empty(), cout.text.str());
  VF_CHECK("model_untouched", show(model.get_params()) == show(start), "");
  Problem p;
  p.start = start;
  check_params(c, p, result, "result");
  VF_REQUIRE("whole_rounds", calls.size() % n == 0 && !calls.empty(), calls.size());
  for (std::size_t i = 0; i < calls.size(); ++i) {
    VF_CHECK("each_dataset", calls[i].dataset == 4 + i % n, i);
    check_params(c, p, calls[i].params, "question");
  }
  VF_CHECK("start", close_store(calls[0].params, start, 1e-12), show(calls[0].params));
  c.count("metric_calls", calls.size());
  if (recorded) {
    VF_REQUIRE("combined_each_round", combined.size() * n == calls.size(),
               combined.size() << " for " << calls.size());
    for (std::size_t r = 0; r < combined.size(); ++r) {
      VF_REQUIRE("combined_whole", combined[r].size() == n, combined[r].size());
      for (std::size_t k = 0; k < n; ++k)
        VF_CHECK("combined_values", combined[r][k] == calls[r * n + k].value, r);
    }
    c.count("combined_rounds", combined.size());
  }
  const auto score = [&](const ParameterStore &x) {
    Line m;
    m.set_params(x);
    std::vector<double> v;
    for (const auto &d : datasets)
      v.push_back(metric(d, m));
    return max_of ? *std::max_element(v.begin(), v.end())
                  : std::accumulate(v.begin(), v.end(), 0.) /
                        static_cast<double>(v.size());
  };
  VF_CHECK("no_worse", score(result) <= score(start) * (1. + 1e-9) + 1e-12,
           score(result) << " after " << score(start));
  std::vector<double> some;
  double sum = 0.;
  for (std::size_t i = 0; i < g.size(1, 9); ++i) {
    some.push_back(g.normal());
    sum += some.back();
  }
  if (!some.empty())
    VF_CLOSE("mean_aggregator", mean_aggregator(some),
             sum / static_cast<double>(some.size()), 1e-12, 1e-14);
}
