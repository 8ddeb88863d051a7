// C10: archives the original code wrote can still be read.
#include "c10_golden_objects.h"
#include "c10_golden.h"
#include "c10_util.h"

namespace {
using namespace albatross;
using namespace vfgolden;
using vfser::same;

bool near(const Eigen::MatrixXd &a, const Eigen::MatrixXd &b,
          double tol = 1e-9) {
  return a.rows() == b.rows() && a.cols() == b.cols() &&
         (a.size() == 0 ||
          (a - b).cwiseAbs().maxCoeff() <= tol * (1. + b.cwiseAbs().maxCoeff()));
}

// Loads both archives of an object over `into` and lets `check` judge.
template <typename X, typename Check>
void golden(vf::Case &c, const std::string &name, const char *json,
            const char *binary, X into, Check &&check) {
  const auto once = [&](auto &archive, const char *format) {
    X loaded = into;
    try {
      archive(cereal::make_nvp("object", loaded));
    } catch (const std::exception &e) {
      VF_CHECK("old_archive_loads", false,
               name << " (" << format << ") threw " << e.what());
      return;
    }
    check(static_cast<const X &>(loaded), name + " " + format);
    c.count("old_archives");
  };
  {
    std::istringstream is{std::string(json)};
    cereal::JSONInputArchive archive(is);
    once(archive, "json");
  }
  {
    std::istringstream is{cereal::base64::decode(binary)};
    cereal::PortableBinaryInputArchive archive(is);
    once(archive, "binary");
    VF_CHECK("old_archive_consumed",
             is.peek() == std::istringstream::traits_type::eof(), name);
  }
}

#define GOLDEN(NAME, INTO, ...)                                              \
  golden(c, #NAME, json_##NAME, binary_##NAME, INTO, __VA_ARGS__)

template <typename A, typename B>
void same_predictions(vf::Case &c, const A &a, const B &b,
                      const std::string &what) {
  const std::vector<double> at = {-1., 0.1, 2.25, 3., 9.};
  const auto pa = a.predict(at).joint();
  const auto pb = b.predict(at).joint();
  VF_CHECK("old_fit_predicts", near(pa.mean, pb.mean, 1e-8) &&
                                   near(pa.covariance, pb.covariance, 1e-8),
           what << "\n" << pa.mean.transpose() << "\n" << pb.mean.transpose());
}

template <typename A, typename B>
void same_models(vf::Case &c, const A &a, const B &b, const std::string &what) {
  VF_CHECK("old_model_params", a.get_params() == b.get_params(), what);
  VF_CHECK("old_model_insights", a.insights == b.insights, what);
}

VF_SECTION("golden", 2, 4) {
  // What is loaded over (nothing, or something else).
  const bool over = c.index % 2 == 1;
  c.desc << "over=" << over << "; ";

  GOLDEN(matrix_4x3, over ? matrix(2, 7) : Eigen::MatrixXd(),
         [&](const Eigen::MatrixXd &x, const std::string &what) {
           VF_CHECK("old_matrix", same(x, matrix(4, 3)), what);
         });
  GOLDEN(vector_i, over ? Eigen::VectorXi(ints().head(2)) : Eigen::VectorXi(),
         [&](const Eigen::VectorXi &x, const std::string &what) {
           VF_CHECK("old_vector", same(x, ints()), what);
         });
  GOLDEN(decomposition,
         over ? Eigen::SerializableLDLT(spd(3)) : Eigen::SerializableLDLT(),
         [&](const Eigen::SerializableLDLT &x, const std::string &what) {
           VF_CHECK("old_ldlt_solve",
                    near(x.solve(matrix(4, 3)),
                         spd(4).inverse() * matrix(4, 3)),
                    what);
           VF_CHECK("old_ldlt_log_det",
                    near(Eigen::MatrixXd::Constant(1, 1, x.log_determinant()),
                         Eigen::MatrixXd::Constant(
                             1, 1, std::log(spd(4).determinant()))),
                    what);
           VF_CHECK("old_ldlt_matrix",
                    near(x.reconstructedMatrix(), spd(4)), what);
         });
  GOLDEN(explained_covariance,
         over ? ExplainedCovariance(spd(2), spd(2)) : ExplainedCovariance(),
         [&](const ExplainedCovariance &x, const std::string &what) {
           const Eigen::MatrixXd inv = spd(3).inverse();
           VF_CHECK("old_explained",
                    near(x.solve(matrix(3, 2)),
                         inv * matrix(3, 3) * inv * matrix(3, 2)),
                    what);
         });
  GOLDEN(block_symmetric,
         over ? block() : BlockSymmetric<Eigen::SerializableLDLT>(),
         [&](const BlockSymmetric<Eigen::SerializableLDLT> &x,
             const std::string &what) {
           VF_CHECK("old_block",
                    near(x.solve(matrix(5, 2)),
                         spd(5).inverse() * matrix(5, 2)),
                    what);
         });
  GOLDEN(parameter_store,
         (over ? ParameterStore{{"x", {1., FixedPrior()}}} : ParameterStore()),
         [&](const ParameterStore &x, const std::string &what) {
           VF_CHECK("old_params", x == store(), what << pretty_params(x));
         });
  GOLDEN(marginal_distribution,
         over ? MarginalDistribution(matrix(5, 1).col(0))
              : MarginalDistribution(),
         [&](const MarginalDistribution &x, const std::string &what) {
           VF_CHECK("old_marginal", x == marginal(), what);
         });
  GOLDEN(joint_distribution,
         over ? JointDistribution(matrix(2, 1).col(0), spd(2))
              : JointDistribution(),
         [&](const JointDistribution &x, const std::string &what) {
           VF_CHECK("old_joint", x == joint(), what);
         });
  GOLDEN(regression_dataset, over ? dataset() : RegressionDataset<Site>(),
         [&](const RegressionDataset<Site> &x, const std::string &what) {
           VF_CHECK("old_dataset",
                    x.features == dataset().features &&
                        x.targets == dataset().targets &&
                        x.metadata == dataset().metadata,
                    what);
         });
  GOLDEN(variant_vector, std::vector<V>(over ? 5 : 0),
         [&](const std::vector<V> &x, const std::string &what) {
           VF_CHECK("old_variants", x == variants(), what);
         });
  GOLDEN(linear_combination,
         over ? LinearCombination<double>(std::vector<double>{1.})
              : LinearCombination<double>(),
         [&](const LinearCombination<double> &x, const std::string &what) {
           VF_CHECK("old_combination", x == combination(), what);
         });
  GOLDEN(gp_model, gp_from_covariance_and_mean(covariance(), LinearMean()),
         [&](const auto &x, const std::string &what) {
           same_models(c, x, gp(), what);
           VF_CHECK("old_name", x.get_name() == gp().get_name(), what);
         });
  using GPFit = std::decay_t<decltype(gp_fit())>;
  GOLDEN(gp_fit_model, over ? gp_fit() : GPFit(),
         [&](const GPFit &x, const std::string &what) {
           same_models(c, x.get_model(), gp(), what);
           same_predictions(c, x, gp_fit(), what);
         });
  using FromFit = std::decay_t<decltype(gp_prediction_fit())>;
  GOLDEN(gp_from_prediction, over ? gp_prediction_fit() : FromFit(),
         [&](const FromFit &x, const std::string &what) {
           same_models(c, x.get_model(), gp(), what);
           same_predictions(c, x, gp_prediction_fit(), what);
         });
  using SparseFit = std::decay_t<decltype(sparse_fit())>;
  GOLDEN(sparse_fit_model, over ? sparse_fit() : SparseFit(),
         [&](const SparseFit &x, const std::string &what) {
           same_predictions(c, x, sparse_fit(), what);
           VF_CHECK("old_sparse_rank", x.get_fit().numerical_rank == -1,
                    what << x.get_fit().numerical_rank);
         });
  using LineFit = std::decay_t<decltype(line_fit())>;
  GOLDEN(least_squares_fit, over ? line_fit() : LineFit(),
         [&](const LineFit &x, const std::string &what) {
           VF_CHECK("old_coefs",
                    near(x.get_fit().coefs, line_fit().get_fit().coefs), what);
         });
  using NullFit = std::decay_t<decltype(null_fit())>;
  GOLDEN(null_model_fit, over ? null_fit() : NullFit(),
         [&](const NullFit &x, const std::string &what) {
           const std::vector<double> at = {1., 2.};
           VF_CHECK("old_null",
                    near(x.predict(at).mean(), Eigen::VectorXd::Zero(2)), what);
         });
  using RansacFit = std::decay_t<decltype(ransac_fit())>;
  GOLDEN(ransac_fit_model, over ? ransac_fit() : RansacFit(),
         [&](const RansacFit &x, const std::string &what) {
           same_predictions(c, x, ransac_fit(), what);
           const auto now = ransac_fit().get_fit().ransac_output;
           const auto &then = x.get_fit().ransac_output;
           VF_CHECK("old_ransac_output",
                    then.return_code == now.return_code &&
                        then.best.inliers == now.best.inliers &&
                        then.best.outliers == now.best.outliers &&
                        then.best.candidates == now.best.candidates,
                    what);
         });
  c.reached();
}

} // namespace
