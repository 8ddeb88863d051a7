// C10: archives of sparse Gaussian processes and of features of other types.
#include "c10_gp.h"

namespace {
using namespace vfser;
using namespace vfgp;
using namespace albatross;

template <typename Model, typename S>
void sparse_case(vf::Case &c, Model model, const S &setup) {
  decorate(c, &model);
  const std::size_t n = c.rng.size(4, 20);
  c.desc << setup.o.name << " n=" << n << "; ";
  const auto data = make_data(c.rng, setup.o, n);
  const auto other_data = make_data(c.rng, setup.o, c.rng.size(4, 9));
  const auto test = make_test(c.rng, data, 4);
  trip_all(
      c, model, [&]() { return other_model(c, model); },
      [&](const Model &a, const Model &b, const char *f) {
        same_model(c, a, b, f);
      });
  const auto fm = model.fit(data.dataset());
  const auto other_fm = model.fit(other_data.dataset());
  using FM = std::decay_t<decltype(fm)>;
  const auto rank = fm.get_fit().numerical_rank;
  const auto check = [&](const FM &a, const FM &b, const char *f) {
    VF_CHECK("fit_equal", a.get_fit() == b.get_fit(), f);
    VF_CHECK("fit_model_equal", a == b, f);
    VF_CHECK("numerical_rank",
             b.get_fit().numerical_rank == a.get_fit().numerical_rank,
             f << " " << b.get_fit().numerical_rank);
    same_model(c, a.get_model(), b.get_model(), f);
    same_predictions(c, a.predict(test), b.predict(test), f);
  };
  const auto into = [&]() { return c.rng.coin() ? FM() : FM(other_fm); };
  trip_all(c, fm, into, check);
  VF_CHECK("saving_keeps_the_rank", fm.get_fit().numerical_rank == rank,
           fm.get_fit().numerical_rank << " was " << rank);
  VF_CHECK("rank_is_known", rank > 0, rank);
  const auto more = make_data(c.rng, setup.o, c.rng.size(1, 6));
  const auto updated = fm.update(more.dataset());
  trip_all(
      c, updated, [&]() { return std::decay_t<decltype(updated)>(); }, check);
  // What was loaded can be updated and rebased.
  auto blank = other_fm;
  VF_REQUIRE("complete", load_one<Binary>(save_one<Binary>(fm), &blank),
             "binary");
  same_predictions(c, blank.update(more.dataset()).predict(test),
                   updated.predict(test), "update of a loaded fit");
  const std::vector<double> nodes = {-11., -5., 0., 5., 11.};
  same_predictions(c, rebase_inducing_points(blank, nodes).predict(test),
                   rebase_inducing_points(fm, nodes).predict(test),
                   "rebase of a loaded fit");
  const auto from =
      model.fit_from_prediction(nodes, fm.predict(nodes).joint());
  trip_all(
      c, from, [&]() { return std::decay_t<decltype(from)>(); }, check);
  c.count("sparse_fits", 3);
}

VF_SECTION("sparse_gp", 12, 150) {
  auto setup = setup_a(c.rng);
  const UniformlySpacedInducingPoints points(c.rng.size(3, 6));
  if (c.index % 2 == 0) {
    auto model = sparse_gp_from_covariance(setup.cov, LeaveOneOutGrouper(),
                                           points, "dense_qr");
    sparse_case(c, model, setup);
  } else {
    auto model = sparse_gp_from_covariance(setup.cov, LeaveOneOutGrouper(),
                                           points, "sparse_qr",
                                           SPQRImplementation{});
    sparse_case(c, model, setup);
    c.count("sparse_qr_backend");
  }
  c.reached();
}

// Fits which were saved before the rank was.
VF_SECTION("sparse_fit_versions", 6, 40) {
  auto setup = setup_a(c.rng);
  const auto data = make_data(c.rng, setup.o, 9);
  auto model =
      sparse_gp_from_covariance(setup.cov, LeaveOneOutGrouper(),
                                UniformlySpacedInducingPoints(4), "old");
  const auto fm = model.fit(data.dataset());
  auto fit = fm.get_fit();
  for (const std::uint32_t version : {0u, 1u}) {
    std::ostringstream os;
    {
      cereal::BinaryOutputArchive ar(os);
      ar(fit.information, fit.train_covariance, fit.train_features, fit.R,
         fit.P);
    }
    auto loaded = decltype(fit)();
    {
      std::istringstream is(os.str());
      cereal::BinaryInputArchive ar(is);
      serialize(ar, loaded, version);
    }
    VF_CHECK("old_rank", loaded.numerical_rank < 0, loaded.numerical_rank);
    loaded.numerical_rank = fit.numerical_rank;
    VF_CHECK("old_fit", loaded == fit, version);
  }
  c.count("old_sparse_fits", 2);
  c.reached();
}

// Features of several types and combinations of them.
VF_SECTION("feature_types", 10, 120) {
  using V = variant<double, LinearCombination<double>>;
  auto cov = SE(c.rng.uniform(1., 5.), c.rng.uniform(0.5, 2.)) +
             measurement_only(IN(c.rng.uniform(0.1, 0.5)));
  const auto model = gp_from_covariance(cov, "combos");
  const std::size_t n = c.rng.size(2, 6);
  std::vector<V> features;
  std::vector<LinearCombination<double>> combos;
  for (std::size_t i = 0; i < n; ++i) {
    const LinearCombination<double> combo(
        std::vector<double>{c.rng.uniform(-5., 5.), c.rng.uniform(-5., 5.)},
        random_vector(c.rng, 2));
    combos.push_back(combo);
    V v;
    if (c.rng.coin()) {
      v = c.rng.uniform(-5., 5.);
    } else {
      v = combo;
    }
    features.push_back(v);
  }
  c.desc << "n=" << n << "; ";
  const Eigen::Index k = static_cast<Eigen::Index>(n);
  const MarginalDistribution targets(random_vector(c.rng, k),
                                     Eigen::VectorXd::Constant(k, 0.2));
  const std::vector<double> test = {-3., 0., 4.};
  const auto run = [&](const auto &fs) {
    const auto fm = model.fit(fs, targets);
    using FM = std::decay_t<decltype(fm)>;
    trip_all(
        c, fm, [&]() { return FM(); },
        [&](const FM &a, const FM &b, const char *f) {
          VF_CHECK("fit_equal", a.get_fit() == b.get_fit(), f);
          same_predictions(c, a.predict(test), b.predict(test), f);
          same_predictions(c, a.predict(fs), b.predict(fs), f);
        });
    c.count("fit_models");
  };
  run(features);
  run(combos);
  // Updates with features of another type.
  const auto mixed = model.fit(combos, targets)
                         .update(std::vector<double>{1.5, 2.5},
                                 MarginalDistribution(random_vector(c.rng, 2)));
  using Mixed = std::decay_t<decltype(mixed)>;
  trip_all(
      c, mixed, [&]() { return Mixed(); },
      [&](const Mixed &a, const Mixed &b, const char *f) {
        VF_CHECK("mixed_equal", a == b, f);
        same_predictions(c, a.predict(test), b.predict(test), f);
      });
  c.count("mixed_updates");
  c.reached();
}

// Names came with version 1.
VF_SECTION("gp_version_0", 6, 40) {
  auto setup = setup_b(c.rng);
  auto model = gp_from_covariance_and_mean(setup.cov, setup.mean, "mine");
  decorate(c, &model);
  std::ostringstream os;
  {
    cereal::BinaryOutputArchive ar(os);
    ar(model.get_params(), model.insights);
  }
  auto loaded = other_model(c, model);
  loaded.set_name("kept");
  {
    std::istringstream is(os.str());
    cereal::BinaryInputArchive ar(is);
    load(ar, loaded, 0);
  }
  VF_CHECK("params", loaded.get_params() == model.get_params(), "version 0");
  VF_CHECK("insights", loaded.insights == model.insights, "version 0");
  VF_CHECK("name", loaded.get_name() == "kept", loaded.get_name());
  c.count("version_0_models");
  c.reached();
}

} // namespace
