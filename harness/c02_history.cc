// C02: updates do not depend on earlier ones, nor on the units of features.
#include "history_gp.h"

namespace {
using namespace vfhist_model;

State part(const State &s, std::size_t from, std::size_t to) {
  State p = s;
  const auto cut = [&](std::vector<double> *v) {
    *v = std::vector<double>(v->begin() + static_cast<long>(from), v->begin() + static_cast<long>(to));
  };
  cut(&p.x);
  cut(&p.y);
  cut(&p.var);
  return p;
}

// distinct features, so that the prior tells them apart
std::vector<double> distinct(const std::vector<double> &x) {
  const std::set<double> o(x.begin(), x.end());
  return std::vector<double>(o.begin(), o.end());
}

VF_SECTION("history", 40, 1500) {
  walk_states(c, [](const State &s) {
    vfhist::Values o;
    const auto model = s.gp();
    const std::size_t n = s.x.size(), a = n / 2, b = (3 * n + 3) / 4;
    const auto first = model.fit(part(s, 0, a).dataset());
    const auto second = first.update(part(s, a, b).dataset());
    put_all(&o, second.predict(s.test));
    const auto third = second.update(part(s, b, n).dataset());
    put_all(&o, third.predict(s.test));
    const auto z = distinct(s.test);
    const auto from = model.fit_from_prediction(z, third.predict(z).joint());
    put_all(&o, from.predict(s.x));
    return o;
  });
}

VF_SECTION("mixed_units", 60, 3000) {
  in_units(c, [&](const State &s, const State &t) {
    const std::size_t n = s.x.size(), a = n / 2, b = (3 * n + 3) / 4;
    const auto run = [&](const State &w) {
      return w.gp().fit(part(w, 0, a).dataset()).update(part(w, a, b).dataset()).update(part(w, b, n).dataset());
    };
    const auto p = run(s);
    const auto q = run(t);
    same_prediction(c, "updated", t, s.test, q.predict(s.test), p.predict(s.test));
    same_prediction(c, "updated_at_data", t, s.x, q.predict(s.x), p.predict(s.x));
    const auto z = distinct(s.test);
    const auto f = s.gp().fit_from_prediction(z, p.predict(z).joint());
    const auto h = t.gp().fit_from_prediction(z, q.predict(z).joint());
    same_prediction(c, "from_prediction", t, s.x, h.predict(s.x), f.predict(s.x));
  });
}
} // namespace
