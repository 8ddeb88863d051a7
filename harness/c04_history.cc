// C04: sparse fits do not depend on earlier ones.
#include <albatross/SparseGP>

#include "history_gp.h"

namespace vfuser_c04_history {
struct Points {
  std::vector<double> points;
  template <typename Cov>
  std::vector<double> operator()(const Cov &, const std::vector<double> &) const { return points; }
};
struct Cells {
  double width = 1.;
  long operator()(const double &x) const { return static_cast<long>(std::floor(x / width)); }
};
} // namespace vfuser_c04_history

namespace {
using namespace vfhist_model;

template <typename QRType> vfhist::Values sparse(const State &s) {
  vfhist::Values o;
  auto model = sparse_gp_from_covariance_and_mean(
      s.covariance(), s.mean(), vfuser_c04_history::Cells{s.width},
      vfuser_c04_history::Points{s.u}, "sparse", QRType{});
  model.set_param_value(details::inducing_nugget_name(), s.inducing);
  model.set_param_value(details::measurement_nugget_name(), s.nugget);
  const auto data = s.dataset();
  const auto fit = model.fit(data);
  put_all(&o, fit.predict(s.test));
  put_all(&o, fit.predict_with_measurement_noise(s.test));
  vfhist::put(&o, model.log_likelihood(data));
  State more = s;
  for (auto &x : more.x)
    x += 0.5;
  const auto updated = fit.update(more.dataset());
  put_all(&o, updated.predict(s.test));
  auto z = s.u;
  z.push_back(9.5);
  put_all(&o, rebase_inducing_points(updated, z).predict(s.test));
  return o;
}

VF_SECTION("history_dense", 25, 1000) {
  walk_states(c, sparse<DenseQRImplementation>, true);
}
VF_SECTION("history_sparse", 25, 1000) {
  walk_states(c, sparse<SPQRImplementation>, true);
}
} // namespace
