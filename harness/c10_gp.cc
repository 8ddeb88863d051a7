// C10: archives of Gaussian processes and what they were fitted to.
#include "c10_gp.h"

namespace {
using namespace vfser;
using namespace vfgp;
using namespace albatross;

template <typename FM, typename F>
void fit_trip(vf::Case &c, const FM &fm, const FM &another,
              const std::vector<F> &test, bool with_xml = true) {
  trip_all(
      c, fm, [&]() { return c.rng.coin() ? FM() : FM(another); },
      [&](const FM &a, const FM &b, const char *f) {
        VF_CHECK("fit_equal", a.get_fit() == b.get_fit(), f);
        VF_CHECK("fit_model_equal", a == b, f);
        same_model(c, a.get_model(), b.get_model(), f);
        same_predictions(c, a.predict(test), b.predict(test), f);
        same_predictions(c, a.predict_with_measurement_noise(test),
                         b.predict_with_measurement_noise(test), f);
      },
      with_xml);
  c.count("fit_models");
}

template <typename S>
void gp_case(vf::Case &c, const S &setup, const char *title) {
  auto model = gp_from_covariance_and_mean(setup.cov, setup.mean,
                                           random_text(c.rng));
  decorate(c, &model);
  const std::size_t n = c.rng.extent(1, 12, 60);
  c.desc << title << " " << setup.o.name << " n=" << n << "; ";
  const auto data = make_data(c.rng, setup.o, n);
  const auto other_data = make_data(c.rng, setup.o, c.rng.size(1, 5));
  const auto test = make_test(c.rng, data, 4);
  trip_all(
      c, model, [&]() { return other_model(c, model); },
      [&](const auto &a, const auto &b, const char *f) {
        same_model(c, a, b, f);
        VF_CHECK("log_likelihood",
                 same_bits(a.log_likelihood(data.dataset()),
                           b.log_likelihood(data.dataset())),
                 f);
        VF_CHECK("prior",
                 same(a.prior(test).covariance, b.prior(test).covariance) &&
                     same(a.prior(test).mean, b.prior(test).mean),
                 f);
      });
  c.count("models");
  const auto fm = model.fit(data.dataset());
  const auto other_fm = other_model(c, model).fit(other_data.dataset());
  fit_trip(c, fm, decltype(fm)(other_fm), test);

  // Updated.
  const auto more = make_data(c.rng, setup.o, c.rng.size(1, 4));
  const auto updated = fm.update(more.dataset());
  const auto updated_other = other_fm.update(more.dataset());
  fit_trip(c, updated, decltype(updated)(updated_other), test);
  c.count("updated_fits");

  // A loaded fit can be updated in the same way.
  {
    auto loaded = fm;
    const auto saved = save_one<Binary>(fm);
    auto blank = other_fm;
    VF_REQUIRE("complete", load_one<Binary>(saved, &blank), "binary");
    same_predictions(c, blank.update(more.dataset()).predict(test),
                     updated.predict(test), "update of a loaded fit");
  }
  // And from a prediction.
  std::vector<double> nodes = {-9., -4., 0.5, 5., 9.};
  const auto joint = fm.predict(nodes).joint();
  const auto from_prediction = model.fit_from_prediction(nodes, joint);
  const auto other_from = model.fit_from_prediction(
      nodes, other_fm.predict(nodes).joint());
  fit_trip(c, from_prediction, decltype(from_prediction)(other_from), test);
  c.count("fits_from_predictions");
}

VF_SECTION("gp_a", 10, 120) { gp_case(c, setup_a(c.rng), "a"); c.reached(); }
VF_SECTION("gp_b", 10, 120) { gp_case(c, setup_b(c.rng), "b"); c.reached(); }
VF_SECTION("gp_c", 10, 120) { gp_case(c, setup_c(c.rng), "c"); c.reached(); }

} // namespace
