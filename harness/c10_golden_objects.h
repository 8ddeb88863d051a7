// The objects whose archives, as the original code wrote them, are kept in
// c10_golden.h (written by tools/make_golden.cc).  Sparse matrices are not
// among them: it stored half of their entries and nothing can read those.
#ifndef VERIF_C10_GOLDEN_OBJECTS_H
#define VERIF_C10_GOLDEN_OBJECTS_H

#include <albatross/SparseGP>
#include <albatross/LeastSquares>
#include <albatross/NullModel>
#include <albatross/Ransac>
#include <albatross/Evaluation>
#include <albatross/serialize/Core>
#include <albatross/serialize/GP>
#include <albatross/serialize/LeastSquares>
#include <albatross/serialize/Ransac>

namespace vfgolden {
using namespace albatross;

inline Eigen::MatrixXd matrix(Eigen::Index r, Eigen::Index k) {
  Eigen::MatrixXd m(r, k);
  for (Eigen::Index i = 0; i < r; ++i)
    for (Eigen::Index j = 0; j < k; ++j)
      m(i, j) = 10. * static_cast<double>(i) + static_cast<double>(j) + 0.125;
  return m;
}

inline Eigen::MatrixXd spd(Eigen::Index n) {
  Eigen::MatrixXd m(n, n);
  for (Eigen::Index i = 0; i < n; ++i)
    for (Eigen::Index j = 0; j < n; ++j)
      m(i, j) = (i == j ? 4. + static_cast<double>(i * i) : 0.) +
                1. / (1. + static_cast<double>(i + j));
  return m;
}

inline Eigen::VectorXi ints() {
  Eigen::VectorXi v(4);
  v << 3, -1, 4, -159;
  return v;
}

inline Eigen::SerializableLDLT ldlt() { return Eigen::SerializableLDLT(spd(4)); }

inline ExplainedCovariance explained() {
  return ExplainedCovariance(spd(3), matrix(3, 3));
}

inline BlockSymmetric<Eigen::SerializableLDLT> block() {
  const Eigen::MatrixXd x = spd(5);
  return BlockSymmetric<Eigen::SerializableLDLT>(
      Eigen::SerializableLDLT(x.topLeftCorner(3, 3)), x.topRightCorner(3, 2),
      Eigen::MatrixXd(x.bottomRightCorner(2, 2)));
}

inline ParameterStore store() {
  return {{"1", {1., UninformativePrior()}},
          {"2", {2., FixedPrior()}},
          {"3", {3., NonNegativePrior()}},
          {"4", {4., PositivePrior()}},
          {"5", {5., UniformPrior(2., 50.)}},
          {"6", {6., LogScaleUniformPrior(0.25, 60.)}},
          {"7", {7., GaussianPrior(3., 0.5)}},
          {"8", {8., LogNormalPrior(1.5, 2.5)}},
          {"9", {9., PositiveGaussianPrior(4., 5.)}}};
}

inline MarginalDistribution marginal() {
  MarginalDistribution d(matrix(3, 1).col(0), matrix(3, 2).col(1).asDiagonal());
  d.metadata["when"] = "then";
  return d;
}

inline JointDistribution joint() {
  JointDistribution d(matrix(3, 1).col(0), matrix(3, 3));
  d.metadata["where"] = "there";
  return d;
}

struct Site {
  double x = 0.;
  int id = 0;
  template <typename Archive> void serialize(Archive &archive) {
    archive(cereal::make_nvp("x", x), cereal::make_nvp("id", id));
  }
  bool operator==(const Site &o) const { return x == o.x && id == o.id; }
};

inline RegressionDataset<Site> dataset() {
  RegressionDataset<Site> d({Site{0.5, 3}, Site{-2., 7}, Site{8.25, -1}},
                            marginal());
  d.metadata["k"] = "v";
  return d;
}

using V = variant<int, double, std::string>;
inline std::vector<V> variants() {
  V a, b, d;
  a = 3;
  b = 2.5;
  d = std::string("text");
  return {a, b, d};
}

inline LinearCombination<double> combination() {
  return LinearCombination<double>(std::vector<double>{1., 2., 5.},
                                   matrix(3, 1).col(0));
}

inline RegressionDataset<double> data() {
  std::vector<double> x;
  Eigen::VectorXd y(8);
  for (int i = 0; i < 8; ++i) {
    x.push_back(i * 0.75);
    y[i] = std::sin(0.3 * i) + (i == 5 ? 30. : 0.);
  }
  return RegressionDataset<double>(
      x, MarginalDistribution(y, Eigen::VectorXd::Constant(8, 0.01)));
}

inline auto covariance() {
  return SquaredExponential<EuclideanDistance>(2., 1.5) +
         measurement_only(IndependentNoise<double>(0.2));
}

inline auto gp() {
  LinearMean mean;
  mean.slope.value = 0.5;
  mean.offset.value = -1.;
  auto m = gp_from_covariance_and_mean(covariance(), mean, "golden");
  m.insights["deep"] = "thought";
  return m;
}

inline auto gp_fit() { return gp().fit(data()); }

inline auto gp_prediction_fit() {
  const std::vector<double> at = {0., 2., 4.};
  return gp().fit_from_prediction(at, gp_fit().predict(at).joint());
}

inline auto sparse_gp() {
  return sparse_gp_from_covariance(covariance(), LeaveOneOutGrouper(),
                                   UniformlySpacedInducingPoints(4), "sparse");
}

inline auto sparse_fit() { return sparse_gp().fit(data()); }

inline auto line_fit() { return LinearRegression().fit(data()); }

inline auto null_fit() { return NullModel().fit(data()); }

inline auto ransac_fit() {
  return gp_from_covariance(covariance())
      .ransac(DefaultGPRansacStrategy(), RansacConfig(5., 2, 3, 6, 6))
      .fit(data());
}

#define VFGOLDEN_ALL(X)                                                        \
  X(matrix_4x3, matrix(4, 3))                                                  \
  X(vector_i, ints())                                                          \
  X(decomposition, ldlt())                                                     \
  X(explained_covariance, explained())                                         \
  X(block_symmetric, block())                                                  \
  X(parameter_store, store())                                                  \
  X(marginal_distribution, marginal())                                         \
  X(joint_distribution, joint())                                               \
  X(regression_dataset, dataset())                                             \
  X(variant_vector, variants())                                                \
  X(linear_combination, combination())                                         \
  X(gp_model, gp())                                                            \
  X(gp_fit_model, gp_fit())                                                    \
  X(gp_from_prediction, gp_prediction_fit())                                   \
  X(sparse_fit_model, sparse_fit())                                            \
  X(least_squares_fit, line_fit())                                             \
  X(null_model_fit, null_fit())                                                \
  X(ransac_fit_model, ransac_fit())

} // namespace vfgolden

#endif
