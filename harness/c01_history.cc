// C01: predictions do not depend on earlier ones, nor on the units of features.
#include "history_gp.h"

namespace {
using namespace vfhist_model;

VF_SECTION("history", 40, 1500) {
  walk_states(c, [](const State &s) {
    vfhist::Values o;
    const auto model = s.gp();
    const auto fit = model.fit(s.dataset());
    put_all(&o, fit.predict(s.test));
    put_all(&o, fit.predict_with_measurement_noise(s.test));
    vfhist::put(&o, model.prior(s.test));
    return o;
  });
}

// One model object all along, whose parameters are set.
VF_SECTION("history_of_one_model", 40, 1500) {
  auto kept = std::make_shared<decltype(std::declval<State>().gp())>(State().gp());
  walk_states(c, [kept](const State &s) {
    vfhist::Values o;
    kept->set_params(s.gp().get_params());
    const auto fit = kept->fit(s.dataset());
    put_all(&o, fit.predict(s.test));
    put_all(&o, fit.predict_with_measurement_noise(s.test));
    vfhist::put(&o, kept->prior(s.test));
    return o;
  });
}

VF_SECTION("mixed_units", 80, 4000) {
  in_units(c, [&](const State &s, const State &t) {
    const auto a = s.gp().fit(s.dataset());
    const auto b = t.gp().fit(t.dataset());
    same_prediction(c, "plain", t, s.test, b.predict(s.test), a.predict(s.test));
    same_prediction(c, "noisy", t, s.test, b.predict_with_measurement_noise(s.test),
                    a.predict_with_measurement_noise(s.test));
    same_prediction(c, "at_data", t, s.x, b.predict(s.x), a.predict(s.x));
  });
}
} // namespace
