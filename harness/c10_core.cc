// C10: archives of parameters, distributions, datasets, variants, pools.
#include "c10_util.h"

namespace vfuser_c10 {

using namespace albatross;

// A feature of the user, with nothing special about it.
struct Point {
  double x = 0.;
  std::string tag;
  std::vector<int> counts;
  bool operator==(const Point &o) const {
    return vfser::same_bits(x, o.x) && tag == o.tag && counts == o.counts;
  }
  bool operator<(const Point &o) const { return x < o.x; }
  template <typename Archive> void serialize(Archive &ar) {
    ar(cereal::make_nvp("x", x), cereal::make_nvp("tag", tag),
       cereal::make_nvp("counts", counts));
  }
};

// Serialized with a version of its own.
struct Versioned {
  static const std::uint32_t serialization_version = 7;
  double x = 0.;
  std::uint32_t seen = 0;
  bool operator==(const Versioned &o) const { return x == o.x; }
  template <typename Archive> void save(Archive &ar, std::uint32_t v) const {
    ar(cereal::make_nvp("x", x), cereal::make_nvp("v", v));
  }
  template <typename Archive> void load(Archive &ar, std::uint32_t v) {
    std::uint32_t saved = 0;
    ar(cereal::make_nvp("x", x), cereal::make_nvp("v", saved));
    seen = v == saved ? v : 0;
  }
};

} // namespace vfuser_c10

namespace {
using namespace vfser;
using namespace albatross;
using vfuser_c10::Point;
using vfuser_c10::Versioned;

double ordered_low(vf::Rng &g) { return -g.log_uniform(1e-6, 1e6); }

PriorContainer random_prior(vf::Rng &g, std::size_t kind) {
  const double a = g.coin() ? g.normal() : 1. / 3. * g.normal();
  const double s = g.log_uniform(1e-8, 1e8);
  switch (kind % 9) {
  case 0:
    return UninformativePrior();
  case 1:
    return FixedPrior();
  case 2:
    return NonNegativePrior();
  case 3:
    return PositivePrior();
  case 4:
    return UniformPrior(ordered_low(g), s);
  case 5: {
    const double lower = g.log_uniform(1e-12, 1.);
    return LogScaleUniformPrior(lower, lower + s);
  }
  case 6:
    return GaussianPrior(a, s);
  case 7:
    return LogNormalPrior(a, s);
  default:
    return PositiveGaussianPrior(a, s);
  }
}

void check_prior(vf::Case &c, const PriorContainer &a, const PriorContainer &b,
                 const char *format) {
  VF_CHECK("prior_equal", a == b, format);
  VF_CHECK("prior_name", a.get_name() == b.get_name(),
           format << " " << a.get_name() << " " << b.get_name());
  VF_CHECK("prior_bounds",
           same_bits(a.lower_bound(), b.lower_bound()) &&
               same_bits(a.upper_bound(), b.upper_bound()),
           format << " " << a.get_name());
  VF_CHECK("prior_flags",
           a.is_log_scale() == b.is_log_scale() && a.is_fixed() == b.is_fixed(),
           format << " " << a.get_name());
  for (const double x : {-3., -1e-9, 0., 1e-9, 0.3, 1., 2.5, 1e3, 1e9}) {
    VF_CHECK("prior_density", same_bits(a.log_pdf(x), b.log_pdf(x)),
             format << " " << a.get_name() << " at " << x);
  }
}

VF_SECTION("priors", 54, 900) {
  const auto kind = c.index % 9;
  const PriorContainer prior = random_prior(c.rng, kind);
  c.desc << prior.get_name() << "; ";
  trip_all(
      c, prior, [&]() { return random_prior(c.rng, c.rng.size(0, 8)); },
      [&](const PriorContainer &a, const PriorContainer &b, const char *f) {
        check_prior(c, a, b, f);
      });
  // Alone as well.
  const GaussianPrior gaussian(c.rng.normal(), c.rng.log_uniform(1e-9, 1e9));
  trip_equal(c, gaussian, []() { return GaussianPrior(7., 7.); });
  const UniformPrior uniform(ordered_low(c.rng), c.rng.log_uniform(1e-9, 1e9));
  trip_equal(c, uniform, []() { return UniformPrior(7., 8.); });
  const LogNormalPrior log_normal(c.rng.normal(),
                                  c.rng.log_uniform(1e-9, 1e9));
  trip_equal(c, log_normal, []() { return LogNormalPrior(7., 8.); });
  const PositiveGaussianPrior positive(c.rng.normal(),
                                       c.rng.log_uniform(1e-9, 1e9));
  trip_equal(c, positive, []() { return PositiveGaussianPrior(7., 8.); });
  const double lower = c.rng.log_uniform(1e-9, 1.);
  const LogScaleUniformPrior log_scale(lower,
                                       lower + c.rng.log_uniform(1e-6, 1e6));
  trip_all(
      c, log_scale, []() { return LogScaleUniformPrior(7., 8.); },
      [&](const LogScaleUniformPrior &a, const LogScaleUniformPrior &b,
          const char *f) {
        VF_CHECK("log_scale", a == b && b.is_log_scale(), f);
      });
  c.count("priors");
  c.reached();
}

ParameterStore random_store(vf::Rng &g, std::size_t n) {
  ParameterStore store;
  for (std::size_t i = 0; i < n; ++i) {
    std::string name = random_text(g);
    while (store.count(name)) {
      name += "x";
    }
    store[name] = Parameter(finite(g), random_prior(g, g.size(0, 8)));
  }
  return store;
}

VF_SECTION("parameters", 40, 600) {
  const std::size_t n = c.index % 5 == 0 ? 0 : c.rng.extent(1, 8, 60);
  const ParameterStore store = random_store(c.rng, n);
  c.desc << n << " parameters; ";
  trip_all(
      c, store, [&]() { return random_store(c.rng, c.rng.size(0, 3)); },
      [&](const ParameterStore &a, const ParameterStore &b, const char *f) {
        VF_REQUIRE("store_size", a.size() == b.size(), f);
        for (const auto &pair : a) {
          VF_REQUIRE("store_names", b.count(pair.first) == 1,
                     f << " " << pair.first);
          const auto &other = b.at(pair.first);
          VF_CHECK("parameter_value",
                   same_bits(pair.second.value, other.value),
                   f << " " << pair.first << " " << pair.second.value << " "
                     << other.value);
          check_prior(c, pair.second.prior, other.prior, f);
        }
      });
  Parameter p(special(c.rng), random_prior(c.rng, c.rng.size(0, 8)));
  trip_all(
      c, p, []() { return Parameter(3., FixedPrior()); },
      [&](const Parameter &a, const Parameter &b, const char *f) {
        VF_CHECK("special_parameter_value", same_bits(a.value, b.value),
                 f << " " << a.value << " " << b.value);
        check_prior(c, a.prior, b.prior, f);
      },
      std::isfinite(p.value));
  c.count("parameters", n);
  c.reached();
}

std::map<std::string, std::string> random_metadata(vf::Rng &g) {
  std::map<std::string, std::string> m;
  const std::size_t n = g.size(0, 3);
  for (std::size_t i = 0; i < n; ++i) {
    m[random_text(g)] = random_text(g);
  }
  return m;
}

MarginalDistribution random_marginal(vf::Rng &g, Eigen::Index n,
                                     bool with_special) {
  Eigen::VectorXd mean(n);
  Eigen::VectorXd variance(n);
  for (Eigen::Index i = 0; i < n; ++i) {
    mean[i] = with_special ? special(g) : g.normal();
    variance[i] = with_special ? std::fabs(special(g)) : g.log_uniform(1e-6, 1e6);
  }
  MarginalDistribution d(mean, variance.asDiagonal());
  d.metadata = random_metadata(g);
  return d;
}

void check_marginal(vf::Case &c, const MarginalDistribution &a,
                    const MarginalDistribution &b, const char *f) {
  VF_CHECK("marginal_mean", same(a.mean, b.mean), f);
  VF_CHECK("marginal_variance",
           same(Eigen::VectorXd(a.covariance.diagonal()),
                Eigen::VectorXd(b.covariance.diagonal())),
           f);
  VF_CHECK("marginal_metadata", a.metadata == b.metadata, f);
  VF_CHECK("marginal_size", a.size() == b.size(), f);
}

VF_SECTION("distributions", 40, 600) {
  const auto n = static_cast<Eigen::Index>(
      c.index % 7 == 0 ? 0 : c.rng.wide(1, 20, 600));
  c.desc << "n=" << n << "; ";
  const bool with_special = c.rng.coin();
  const auto marginal = random_marginal(c.rng, n, with_special);
  const auto other_n = static_cast<Eigen::Index>(c.rng.integer(0, 5));
  trip_all(
      c, marginal, [&]() { return random_marginal(c.rng, other_n, false); },
      [&](const auto &a, const auto &b, const char *f) {
        check_marginal(c, a, b, f);
        VF_CHECK("marginal_equal", with_special || a == b, f);
      });
  // Without a variance.
  const MarginalDistribution no_variance(random_vector(c.rng, n));
  trip_all(
      c, no_variance,
      [&]() { return random_marginal(c.rng, other_n, false); },
      [&](const auto &a, const auto &b, const char *f) {
        check_marginal(c, a, b, f);
        VF_CHECK("mean_only_equal", a == b, f);
      });
  // Not symmetric: nothing may be mirrored or averaged.
  JointDistribution joint(random_vector(c.rng, n),
                          random_matrix(c.rng, n, n));
  if (with_special) {
    for (Eigen::Index i = 0; i < joint.covariance.size(); ++i) {
      joint.covariance.data()[i] = special(c.rng);
    }
  }
  joint.metadata = random_metadata(c.rng);
  trip_all(
      c, joint,
      [&]() {
        JointDistribution d(random_vector(c.rng, other_n),
                            random_matrix(c.rng, other_n, other_n));
        d.metadata["left"] = "over";
        return d;
      },
      [&](const JointDistribution &a, const JointDistribution &b,
          const char *f) {
        VF_CHECK("joint_mean", same(a.mean, b.mean), f);
        VF_CHECK("joint_covariance", same(a.covariance, b.covariance), f);
        VF_CHECK("joint_metadata", a.metadata == b.metadata, f);
        VF_CHECK("joint_equal", with_special || a == b, f);
      });
  c.count("distributions", 3);
  c.reached();
}

Point random_point(vf::Rng &g) {
  Point p;
  p.x = finite(g);
  p.tag = random_text(g);
  const auto n = g.size(0, 3);
  for (std::size_t i = 0; i < n; ++i) {
    p.counts.push_back(static_cast<int>(g.integer(-5, 5)));
  }
  return p;
}

template <typename F, typename Make>
void dataset(vf::Case &c, Make &&make, std::size_t n) {
  const auto build = [&](std::size_t k) {
    std::vector<F> features;
    for (std::size_t i = 0; i < k; ++i) {
      features.push_back(make());
    }
    RegressionDataset<F> d(
        features, random_marginal(c.rng, static_cast<Eigen::Index>(k), false));
    d.metadata = random_metadata(c.rng);
    return d;
  };
  const auto data = build(n);
  trip_all(
      c, data, [&]() { return build(c.rng.size(0, 3)); },
      [&](const RegressionDataset<F> &a, const RegressionDataset<F> &b,
          const char *f) {
        VF_CHECK("dataset_features", a.features == b.features, f);
        check_marginal(c, a.targets, b.targets, f);
        VF_CHECK("dataset_metadata", a.metadata == b.metadata, f);
        VF_CHECK("dataset_equal", a == b, f);
      });
  c.count("datasets");
}

LinearCombination<double> random_combination(vf::Rng &g) {
  const auto n = g.size(1, 5);
  std::vector<double> values;
  for (std::size_t i = 0; i < n; ++i) {
    values.push_back(finite(g));
  }
  return LinearCombination<double>(
      values, random_vector(g, static_cast<Eigen::Index>(n)));
}

VF_SECTION("datasets", 48, 600) {
  const std::size_t n = c.index % 8 == 0 ? 0 : c.rng.extent(1, 12, 150);
  c.desc << "n=" << n << "; ";
  using V = variant<double, Point, std::string>;
  switch (c.index % 6) {
  case 0:
    dataset<double>(c, [&]() { return finite(c.rng); }, n);
    break;
  case 1:
    dataset<std::string>(c, [&]() { return random_text(c.rng); }, n);
    break;
  case 2:
    dataset<Point>(c, [&]() { return random_point(c.rng); }, n);
    break;
  case 3:
    dataset<V>(
        c,
        [&]() {
          V v;
          switch (c.rng.integer(0, 2)) {
          case 0:
            v = finite(c.rng);
            break;
          case 1:
            v = random_point(c.rng);
            break;
          default:
            v = random_text(c.rng);
          }
          return v;
        },
        n);
    break;
  case 4:
    dataset<LinearCombination<double>>(
        c, [&]() { return random_combination(c.rng); }, n);
    break;
  case 5:
    dataset<LinearCombination<Point>>(
        c,
        [&]() {
          return LinearCombination<Point>(
              std::vector<Point>{random_point(c.rng), random_point(c.rng)},
              random_vector(c.rng, 2));
        },
        n);
    break;
  }
  c.reached();
}

VF_SECTION("variants", 40, 400) {
  using V = variant<int, double, std::string, Point, std::vector<double>,
                    Eigen::VectorXd, variant<int, std::string>>;
  const auto make = [&](std::size_t which) {
    V v;
    switch (which) {
    case 0:
      v = static_cast<int>(c.rng.integer(-1000, 1000));
      break;
    case 1:
      v = finite(c.rng);
      break;
    case 2:
      v = random_text(c.rng);
      break;
    case 3:
      v = random_point(c.rng);
      break;
    case 4:
      v = std::vector<double>(c.rng.size(0, 4), finite(c.rng));
      break;
    case 5:
      v = random_vector(c.rng, c.rng.integer(0, 5));
      break;
    default: {
      variant<int, std::string> inner;
      if (c.rng.coin()) {
        inner = random_text(c.rng);
      } else {
        inner = 5;
      }
      v = inner;
    }
    }
    return v;
  };
  const auto which = c.index % 7;
  const V v = make(which);
  c.desc << "alternative " << which << "; ";
  trip_all(
      c, v, [&]() { return make(c.rng.size(0, 6)); },
      [&](const V &a, const V &b, const char *f) {
        VF_REQUIRE("alternative", a.which() == b.which(), f);
        VF_CHECK("variant_equal", a == b, f);
      });
  // Many of them.
  std::vector<V> many;
  const auto n = c.rng.size(0, 10);
  for (std::size_t i = 0; i < n; ++i) {
    many.push_back(make(c.rng.size(0, 6)));
  }
  trip_equal(c, many, [&]() { return std::vector<V>{make(2)}; });
  c.count("variants", n + 1);
  c.reached();
}

VF_SECTION("thread_pools", 10, 60) {
  for (const std::size_t threads : {0u, 1u, 2u, 3u, 7u}) {
    const auto pool = threads == 0 ? serial_thread_pool
                                   : make_shared_thread_pool(threads);
    const std::size_t expected = pool ? pool->thread_count() : 0;
    trip_all(
        c, pool,
        [&]() {
          return c.rng.coin() ? make_shared_thread_pool(2) : serial_thread_pool;
        },
        [&](const auto &, const std::shared_ptr<ThreadPool> &b,
            const char *f) {
          VF_CHECK("same_pool",
                   expected < 2 ? b == nullptr
                                : (b && b->thread_count() == expected),
                   f << " " << threads << " "
                     << (b ? b->thread_count() : 0));
          // It works.
          std::vector<int> xs = {1, 2, 3, 4, 5};
          const auto doubled =
              albatross::apply(xs, [](int x) { return 2 * x; }, b.get());
          VF_CHECK("pool_works",
                   doubled == (std::vector<int>{2, 4, 6, 8, 10}), f);
        });
    c.count("pools");
  }
  c.reached();
}

VF_SECTION("versions", 10, 40) {
  Versioned v;
  v.x = c.rng.normal();
  trip_all(
      c, v, []() { return Versioned(); },
      [&](const Versioned &a, const Versioned &b, const char *f) {
        VF_CHECK("class_version", a.x == b.x && b.seen == 7u,
                 f << " " << b.seen);
      });
  std::vector<Versioned> several(c.rng.size(0, 4), v);
  trip_all(
      c, several, []() { return std::vector<Versioned>(); },
      [&](const auto &a, const auto &b, const char *f) {
        VF_REQUIRE("several", a == b, f);
        for (const auto &x : b) {
          VF_CHECK("several_versions", x.seen == 7u, f);
        }
      });
  c.count("versioned", several.size() + 1);
  c.reached();
}

} // namespace
