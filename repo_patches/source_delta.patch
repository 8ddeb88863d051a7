From 5c2be3bd604765bf3097f259fac5a66a691cf945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:21 +0000
Subject: [PATCH 01/59] fix: normalise the Gaussian and log normal prior
 densities

---
 include/albatross/src/core/priors.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/albatross/src/core/priors.hpp b/include/albatross/src/core/priors.hpp
index 978aa34..ed2004b 100644
--- a/include/albatross/src/core/priors.hpp
+++ b/include/albatross/src/core/priors.hpp
@@ -134,7 +134,7 @@ public:
 
   double log_pdf(double x) const override {
     double deviation = (x - mu_) / sigma_;
-    return -0.5 * (LOG_2PI_ * 2 * log(sigma_) + deviation * deviation);
+    return -0.5 * (LOG_2PI_ + 2 * log(sigma_) + deviation * deviation);
   }
 
   double mu_;
@@ -162,7 +162,7 @@ public:
 
   double log_pdf(double x) const override {
     double deviation = (x - mu_) / sigma_;
-    return -0.5 * (LOG_2PI_ * 2 * log(sigma_) + deviation * deviation) + LOG_2_;
+    return -0.5 * (LOG_2PI_ + 2 * log(sigma_) + deviation * deviation) + LOG_2_;
   }
 
   double mu_;
@@ -185,7 +185,7 @@ public:
 
   double log_pdf(double x) const override {
     double deviation = (log(x) - mu_) / sigma_;
-    return -0.5 * LOG_2PI_ - log(sigma_) - log(x) - deviation * deviation;
+    return -0.5 * (LOG_2PI_ + deviation * deviation) - log(sigma_) - log(x);
   }
 
   double mu_;
-- 
2.43.0


From e432e1f880a3cf951c1f8ef3aca152c58802868e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 02/59] fix: differential entropy must not scale the log
 determinant by the dimension

---
 include/albatross/src/evaluation/differential_entropy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/evaluation/differential_entropy.hpp b/include/albatross/src/evaluation/differential_entropy.hpp
index 2f184c8..d393c7e 100644
--- a/include/albatross/src/evaluation/differential_entropy.hpp
+++ b/include/albatross/src/evaluation/differential_entropy.hpp
@@ -38,7 +38,7 @@ inline double
 differential_entropy(const Eigen::LDLT<Eigen::MatrixXd> &cov_ldlt) {
   double k = cast::to_double(cov_ldlt.rows());
   double log_det = log_determinant_of_symmetric(cov_ldlt);
-  return 0.5 * (k * (1 + log(2 * M_PI) + log_det));
+  return 0.5 * (k * (1 + log(2 * M_PI)) + log_det);
 }
 
 inline double differential_entropy(const Eigen::MatrixXd &cov) {
-- 
2.43.0


From 58fd8e5006b32e75bddefbe3f34f7d432bc5bd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 03/59] fix: undo the pivoting of the decomposition when
 drawing normal samples

---
 include/albatross/src/evaluation/prediction_metrics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/evaluation/prediction_metrics.hpp b/include/albatross/src/evaluation/prediction_metrics.hpp
index b2a7437..5af6486 100644
--- a/include/albatross/src/evaluation/prediction_metrics.hpp
+++ b/include/albatross/src/evaluation/prediction_metrics.hpp
@@ -206,7 +206,7 @@ Eigen::MatrixXd draw_mvn(const Eigen::LDLT<Eigen::MatrixXd> &decomp,
   ALBATROSS_ASSERT((decomp.vectorD().array() > 0.).all() &&
                    "Please pass a positive definite covariance!");
   std::normal_distribution<double> standard_normal{0.0, 1.0};
-  return (decomp.transpositionsP() *
+  return (decomp.transpositionsP().transpose() *
           (decomp.matrixL() *
            (decomp.vectorD().array().sqrt().matrix().asDiagonal() *
             Eigen::MatrixXd::NullaryExpr(
-- 
2.43.0


From 90f693e4ff57f2b5c00f7b8b1055effb2b8c3c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 04/59] fix: weight both terms of the energy score in the same
 way

---
 include/albatross/src/evaluation/prediction_metrics.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/albatross/src/evaluation/prediction_metrics.hpp b/include/albatross/src/evaluation/prediction_metrics.hpp
index 5af6486..a17cd9d 100644
--- a/include/albatross/src/evaluation/prediction_metrics.hpp
+++ b/include/albatross/src/evaluation/prediction_metrics.hpp
@@ -225,11 +225,10 @@ inline double mean_err_norms(const Eigen::MatrixXd &samples,
                    "invalid sampling distribution");
   ALBATROSS_ASSERT(samples.rows() == weights.size() &&
                    "invalid sampling weights");
-  return (((samples.colwise() - truth).array().square().colwise() *
-           weights.array())
-              .colwise()
-              .sum())
-      .sqrt()
+  return ((samples.colwise() - truth).array().colwise() * weights.array())
+      .matrix()
+      .colwise()
+      .norm()
       .mean();
 }
 
-- 
2.43.0


From 8ca249795740aeb35cda831089d4eb807394e5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 05/59] fix: variogram score of matching shapes and of
 perfectly correlated entries

---
 include/albatross/src/evaluation/prediction_metrics.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/albatross/src/evaluation/prediction_metrics.hpp b/include/albatross/src/evaluation/prediction_metrics.hpp
index a17cd9d..b3d232f 100644
--- a/include/albatross/src/evaluation/prediction_metrics.hpp
+++ b/include/albatross/src/evaluation/prediction_metrics.hpp
@@ -489,7 +489,8 @@ inline double variogram_score(
     Eigen::VectorXd sigma =
         (prediction.get_diagonal(row) +
          prediction.covariance.diagonal().tail(rest).array() -
-         2. * prediction.covariance.row(row).tail(rest).array())
+         2. * prediction.covariance.col(row).tail(rest).array())
+            .max(0.)
             .sqrt();
     Eigen::VectorXd expectation =
         mean_err.binaryExpr(sigma, [order](double mean, double std) {
@@ -498,8 +499,8 @@ inline double variogram_score(
     Eigen::VectorXd truth_err =
         (truth(row) - truth.tail(rest).array()).abs().pow(p);
     Eigen::VectorXd diff = truth_err - expectation;
-    sum += (weight_matrix.row(row).tail(rest).array() * diff.array() *
-            diff.array())
+    sum += (weight_matrix.row(row).tail(rest).transpose().array() *
+            diff.array() * diff.array())
                .sum();
   }
 
-- 
2.43.0


From 938aa36e620be7a70e4924c5796ebd648aa67dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 06/59] fix: print a graph to the stream it was given

---
 include/albatross/src/graph/minimum_spanning_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/graph/minimum_spanning_tree.hpp b/include/albatross/src/graph/minimum_spanning_tree.hpp
index d074abd..c188f87 100644
--- a/include/albatross/src/graph/minimum_spanning_tree.hpp
+++ b/include/albatross/src/graph/minimum_spanning_tree.hpp
@@ -277,7 +277,7 @@ template <typename VertexType>
 inline std::ostream &operator<<(std::ostream &os,
                                 const Graph<VertexType> &graph) {
   for (const auto &edge : graph.edges) {
-    std::cout << edge << std::endl;
+    os << edge << std::endl;
   }
   return os;
 }
-- 
2.43.0


From 144c3b17046c8fa1c8d49ff064365a93d315113f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 07/59] fix: print a joint distribution to the stream it was
 given

---
 include/albatross/src/core/distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/core/distribution.hpp b/include/albatross/src/core/distribution.hpp
index 7fc7d26..f090580 100644
--- a/include/albatross/src/core/distribution.hpp
+++ b/include/albatross/src/core/distribution.hpp
@@ -299,7 +299,7 @@ inline std::ostream &operator<<(std::ostream &os,
                            joint.covariance.cols() + 1);
   combined.rightCols(joint.covariance.cols()) = joint.covariance;
   combined.col(0) = joint.mean;
-  std::cout << combined;
+  os << combined;
   return os;
 }
 
-- 
2.43.0


From f9b2febb9efee349e1b604cc58a6ba177e95a838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 08/59] fix: a self loop can not be part of a spanning tree

---
 include/albatross/src/graph/minimum_spanning_tree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/albatross/src/graph/minimum_spanning_tree.hpp b/include/albatross/src/graph/minimum_spanning_tree.hpp
index c188f87..152c9a7 100644
--- a/include/albatross/src/graph/minimum_spanning_tree.hpp
+++ b/include/albatross/src/graph/minimum_spanning_tree.hpp
@@ -132,6 +132,7 @@ Graph<VertexType> maximum_spanning_tree(const Graph<VertexType> &graph) {
   const Edge<VertexType> first_edge =
       *std::max_element(graph.edges.begin(), graph.edges.end());
 
+  output.vertices.insert(first_edge.a);
   for (const auto &edge : adjacency.at(first_edge.a)) {
     if (!contains_vertex(output, edge.b)) {
       queue.push(edge);
-- 
2.43.0


From 0928e499bdcef8d30abdb45eccd5e1b4d64ed063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 09/59] fix: pretty print an empty set of parameters

---
 include/albatross/src/core/parameters.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/albatross/src/core/parameters.hpp b/include/albatross/src/core/parameters.hpp
index 8db0bab..559da0c 100644
--- a/include/albatross/src/core/parameters.hpp
+++ b/include/albatross/src/core/parameters.hpp
@@ -92,6 +92,9 @@ inline std::string pretty_priors(const ParameterStore &params) {
 
 inline std::string pretty_param_details(const ParameterStore &params) {
   std::ostringstream ss;
+  if (params.empty()) {
+    return ss.str();
+  }
 
   auto compare_size = [](const auto &x, const auto &y) {
     return x.first.size() < y.first.size();
-- 
2.43.0


From aeae3b5954a2e4fc28c9d5ac41cc5891c85996c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 10/59] fix: compare the best iteration of two ransac outputs

---
 include/albatross/src/models/ransac.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/models/ransac.hpp b/include/albatross/src/models/ransac.hpp
index 52d2421..6efad39 100644
--- a/include/albatross/src/models/ransac.hpp
+++ b/include/albatross/src/models/ransac.hpp
@@ -125,7 +125,7 @@ template <typename GroupKey> struct RansacOutput {
   std::vector<RansacIteration<GroupKey>> iterations;
 
   bool operator==(const RansacOutput &other) const {
-    return (return_code == other.return_code && best == best &&
+    return (return_code == other.return_code && best == other.best &&
             iterations == other.iterations);
   }
 };
-- 
2.43.0


From 871eeb35265cff4100ff876b6ad462f290b274c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 11/59] fix: archive all of a sparse matrix, with its rows and
 columns in order

---
 include/albatross/src/cereal/eigen.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/albatross/src/cereal/eigen.hpp b/include/albatross/src/cereal/eigen.hpp
index 188b24a..81c6b22 100644
--- a/include/albatross/src/cereal/eigen.hpp
+++ b/include/albatross/src/cereal/eigen.hpp
@@ -169,7 +169,7 @@ inline void save(Archive &ar,
   const _StorageIndex rows = m.rows();
   const _StorageIndex cols = m.cols();
   const std::size_t nnz = albatross::cast::to_size(m.nonZeros());
-  const std::size_t size_bytes = nnz * sizeof(_Scalar);
+  const std::size_t size_bytes = nnz * sizeof(Eigen::Triplet<_Scalar>);
 
   std::vector<Eigen::Triplet<_Scalar>> elems;
   elems.reserve(nnz);
@@ -177,7 +177,7 @@ inline void save(Archive &ar,
     for (typename Eigen::SparseMatrix<_Scalar, _Options,
                                       _StorageIndex>::InnerIterator it(m, col);
          it; ++it) {
-      elems.emplace_back(it.col(), it.row(), it.value());
+      elems.emplace_back(it.row(), it.col(), it.value());
     }
   }
 
@@ -207,7 +207,7 @@ inline void load(Archive &ar,
   ar(CEREAL_NVP(cols));
   ar(CEREAL_NVP(nnz));
   ar(CEREAL_NVP(payload));
-  const std::size_t size_bytes = nnz * sizeof(_Scalar);
+  const std::size_t size_bytes = nnz * sizeof(Eigen::Triplet<_Scalar>);
 
   if (::cereal::traits::is_text_archive<Archive>::value) {
     payload = base64::decode(payload);
-- 
2.43.0


From ec74e67992095b44eb8d895cc80a82fefcd1f684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 12/59] fix: make block symmetric construction from a
 decomposition unambiguous

---
 include/albatross/src/linalg/block_symmetric.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/albatross/src/linalg/block_symmetric.hpp b/include/albatross/src/linalg/block_symmetric.hpp
index e89170c..6bd12cb 100644
--- a/include/albatross/src/linalg/block_symmetric.hpp
+++ b/include/albatross/src/linalg/block_symmetric.hpp
@@ -125,6 +125,15 @@ BlockSymmetric<Solver> build_block_symmetric(const Solver &A,
   return BlockSymmetric<Solver>(A, B, S);
 }
 
+// A decomposition is also convertible to a dense matrix, without this the call
+// would be ambiguous.
+template <typename Solver>
+BlockSymmetric<Solver>
+build_block_symmetric(const Solver &A, const Eigen::MatrixXd &B,
+                      const Eigen::LDLT<Eigen::MatrixXd> &S) {
+  return BlockSymmetric<Solver>(A, B, Eigen::SerializableLDLT(S));
+}
+
 template <typename Solver>
 BlockSymmetric<Solver> build_block_symmetric(const Solver &A,
                                              const Eigen::MatrixXd &B,
-- 
2.43.0


From 60c1e89be196578084c22c786a73a02185e06adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 13/59] fix: treat the observations a fit is updated with as
 measurements

---
 include/albatross/src/models/gp.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/models/gp.hpp b/include/albatross/src/models/gp.hpp
index c10da0d..ddb8203 100644
--- a/include/albatross/src/models/gp.hpp
+++ b/include/albatross/src/models/gp.hpp
@@ -388,7 +388,9 @@ public:
                             const MarginalDistribution &targets) const {
     const auto new_features = concatenate(fit_.train_features, features);
 
-    auto pred = this->_predict_impl(features, fit_,
+    // New observations are measurements, as they are when fitting.
+    const auto measurement_features = as_measurements(features);
+    auto pred = this->_predict_impl(measurement_features, fit_,
                                     PredictTypeIdentity<JointDistribution>());
 
     Eigen::VectorXd delta = targets.mean - pred.mean;
@@ -396,7 +398,7 @@ public:
     const auto S_ldlt = pred.covariance.ldlt();
 
     const Eigen::MatrixXd cross =
-        covariance_function_(fit_.train_features, features);
+        covariance_function_(fit_.train_features, measurement_features);
 
     const auto new_covariance =
         build_block_symmetric(fit_.train_covariance, cross, S_ldlt);
-- 
2.43.0


From d43296c4ed632c13b6649312c706f08a9334a1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 14/59] fix: include the target covariance in the log
 likelihood of a GP

---
 include/albatross/src/models/gp.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/albatross/src/models/gp.hpp b/include/albatross/src/models/gp.hpp
index ddb8203..ed2ffc1 100644
--- a/include/albatross/src/models/gp.hpp
+++ b/include/albatross/src/models/gp.hpp
@@ -446,7 +446,8 @@ public:
     Eigen::VectorXd zero_mean(dataset.targets.mean);
     const auto measurement_features = as_measurements(dataset.features);
     mean_function_.remove_from(measurement_features, &zero_mean);
-    const Eigen::MatrixXd cov = covariance_function_(measurement_features);
+    Eigen::MatrixXd cov = covariance_function_(measurement_features);
+    cov += dataset.targets.covariance;
     double ll = -negative_log_likelihood(zero_mean, cov);
     ll += this->prior_log_likelihood();
     return ll;
-- 
2.43.0


From e1a5ca0ee8da186c4dc00f6b4b91229e2e2a927a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 15/59] fix: remove the mean function from the targets of a
 sparse GP

---
 include/albatross/src/models/sparse_gp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/models/sparse_gp.hpp b/include/albatross/src/models/sparse_gp.hpp
index 8927f08..867469c 100644
--- a/include/albatross/src/models/sparse_gp.hpp
+++ b/include/albatross/src/models/sparse_gp.hpp
@@ -662,10 +662,10 @@ private:
     const auto features =
         subset(out_of_order_measurement_features, reordered_inds);
     auto targets = subset(out_of_order_targets, reordered_inds);
-    *y = targets.mean;
 
     this->mean_function_.remove_from(
         subset(out_of_order_features, reordered_inds), &targets.mean);
+    *y = targets.mean;
 
     *K_fu = this->covariance_function_(features, inducing_features,
                                        Base::threads_.get());
-- 
2.43.0


From c5f74ebedfad80b5958b5f921d25f390c8e76557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 16/59] fix: remove the mean function when building a sparse GP
 from a prediction

---
 include/albatross/src/models/sparse_gp.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/albatross/src/models/sparse_gp.hpp b/include/albatross/src/models/sparse_gp.hpp
index 867469c..b4fdbc1 100644
--- a/include/albatross/src/models/sparse_gp.hpp
+++ b/include/albatross/src/models/sparse_gp.hpp
@@ -420,6 +420,7 @@ public:
     // could be extremely small, so here we add a small nugget to avoid
     // numerical instability
     JointDistribution prediction(prediction_);
+    this->mean_function_.remove_from(new_inducing_points, &prediction.mean);
     prediction.covariance.diagonal() += Eigen::VectorXd::Constant(
         cast::to_index(prediction.size()), 1, details::DEFAULT_NUGGET);
     new_fit.information = new_fit.train_covariance.solve(prediction.mean);
-- 
2.43.0


From 938c9fbfd28b7aeda31c7ac64ef2139c3ad9ecf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 17/59] fix: store the inducing point strategy which was set

---
 include/albatross/src/models/sparse_gp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/models/sparse_gp.hpp b/include/albatross/src/models/sparse_gp.hpp
index b4fdbc1..8755f63 100644
--- a/include/albatross/src/models/sparse_gp.hpp
+++ b/include/albatross/src/models/sparse_gp.hpp
@@ -609,7 +609,7 @@ public:
 
   void
   set_inducing_point_strategy(InducingPointStrategy &&inducing_point_strategy) {
-    inducing_point_strategy =
+    inducing_point_strategy_ =
         std::forward<InducingPointStrategy>(inducing_point_strategy);
   }
 
-- 
2.43.0


From 370da1a18e3fc25a375d573aec55cf6d1dbd5559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:05 +0000
Subject: [PATCH 18/59] fix: normalise a positive Gaussian prior which is not
 centered on zero

---
 include/albatross/src/core/priors.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/albatross/src/core/priors.hpp b/include/albatross/src/core/priors.hpp
index ed2004b..2d9dca7 100644
--- a/include/albatross/src/core/priors.hpp
+++ b/include/albatross/src/core/priors.hpp
@@ -162,7 +162,8 @@ public:
 
   double log_pdf(double x) const override {
     double deviation = (x - mu_) / sigma_;
-    return -0.5 * (LOG_2PI_ + 2 * log(sigma_) + deviation * deviation) + LOG_2_;
+    return -0.5 * (LOG_2PI_ + 2 * log(sigma_) + deviation * deviation) -
+           log(0.5 * std::erfc(-mu_ / (sigma_ * M_SQRT2)));
   }
 
   double mu_;
-- 
2.43.0


From 81bca8c0851e4eeb2dd4bd56f278bcb1bfef74d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:05 +0000
Subject: [PATCH 19/59] fix: do not allocate what a corrupted zstd header
 claims

---
 include/albatross/src/utils/compress.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/albatross/src/utils/compress.hpp b/include/albatross/src/utils/compress.hpp
index cb6cf4b..c8031df 100644
--- a/include/albatross/src/utils/compress.hpp
+++ b/include/albatross/src/utils/compress.hpp
@@ -186,6 +186,12 @@ maybe_decompress(const std::string &input, std::string *output) {
     return false;
   }
 
+  // A corrupted header can claim any size, a block of at most
+  // `ZSTD_BLOCKSIZE_MAX` bytes takes at least four bytes of the input.
+  if (decompressed_size / ZSTD_BLOCKSIZE_MAX > input.size() / 4) {
+    return false;
+  }
+
   output->resize(decompressed_size);
   const auto result = internal::maybe_decompress(
       input, const_cast<void *>(static_cast<const void *>(output->data())),
-- 
2.43.0


From 8fdb093a63de106add40ba7f5497bd4d12c1952e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:12 +0000
Subject: [PATCH 20/59] fix: keep the comparator of a map when it is combined
 with another

---
 include/albatross/src/utils/map_utils.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/albatross/src/utils/map_utils.hpp b/include/albatross/src/utils/map_utils.hpp
index 7c52f93..5ca9fc5 100644
--- a/include/albatross/src/utils/map_utils.hpp
+++ b/include/albatross/src/utils/map_utils.hpp
@@ -283,7 +283,7 @@ void map_union(const Map1 &a, const Map2 &b, AddA &&add_a, AddB &&add_b,
 template <typename Map1, typename Map2,
           typename = std::enable_if_t<has_same_key_compare_v<Map1, Map2>, void>>
 [[nodiscard]] Map1 map_difference(const Map1 &a, const Map2 &b) {
-  Map1 diff;
+  Map1 diff(a.key_comp());
   const auto only_a = [&diff](const auto &k, const auto &v) {
     diff.emplace_hint(diff.end(), k, v);
   };
@@ -322,7 +322,7 @@ template <typename Map1, typename Map2,
                                  typename Map2::mapped_type>,
               void>>
 [[nodiscard]] Map1 map_symmetric_difference(const Map1 &a, const Map2 &b) {
-  Map1 diff;
+  Map1 diff(a.key_comp());
   const auto either = [&diff](const auto &k, const auto &v) {
     diff.emplace_hint(diff.end(), k, v);
   };
@@ -418,7 +418,7 @@ template <typename Map1, typename Map2, typename Merge = ReturnLeft,
               void>>
 [[nodiscard]] Map1 map_union(const Map1 &a, const Map2 &b,
                              Merge &&merge = ReturnLeft{}) {
-  Map1 result;
+  Map1 result(a.key_comp());
   const auto add_a = [&result](const auto &k, const auto &av) {
     result.emplace_hint(result.end(), k, av);
   };
@@ -495,7 +495,7 @@ template <template <typename...> typename Map, typename K, typename V,
 map_intersect(const Map<K, V, Compare> &a, const Map2 &b,
               Merge &&merge = MakePair{}) {
   IntersectedMapType<Map, K, V, typename Map2::mapped_type, Merge, Compare>
-      intersection;
+      intersection(a.key_comp());
   const auto on_both = [&intersection, merge = std::forward<Merge>(merge)](
                            const auto &k, const auto &av, const auto &bv) {
     intersection.emplace_hint(intersection.end(), k,
@@ -598,7 +598,7 @@ template <
     typename Map, typename Sequence,
     typename = std::enable_if_t<has_same_key_compare_v<Map, Sequence>, void>>
 [[nodiscard]] Map map_subset(const Map &m, const Sequence &keys) {
-  Map results;
+  Map results(m.key_comp());
   const auto on_match = [&results](const auto &k, const auto &v) {
     results.emplace_hint(results.end(), k, v);
   };
@@ -635,7 +635,7 @@ template <typename Map, typename Sequence>
   ALBATROSS_ASSERT(std::is_sorted(keys.begin(), keys.end(), m.key_comp()) &&
                    "You promised when you called this function that the `keys` "
                    "would be sorted!");
-  Map results;
+  Map results(m.key_comp());
   const auto on_match = [&results](const auto &k, const auto &v) {
     results.emplace_hint(results.end(), k, v);
   };
-- 
2.43.0


From 8ae6550712de68a9ae643d0363e4cd43034596f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 21/59] fix: write csv to streams which can not seek

---
 include/albatross/src/utils/csv_utils.hpp | 31 ++++++++++-------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/include/albatross/src/utils/csv_utils.hpp b/include/albatross/src/utils/csv_utils.hpp
index 39b8a71..e2a6ee8 100644
--- a/include/albatross/src/utils/csv_utils.hpp
+++ b/include/albatross/src/utils/csv_utils.hpp
@@ -162,16 +162,6 @@ to_map(const RegressionDataset<FeatureType> &dataset,
   return row;
 }
 
-/*
- * This helper function makes it easier to use range based
- * for loops that append a delimeter which can be followed
- * by this function to turn the last delimeter into a new line
- */
-inline void replace_last_character_with_newline(std::ostream &stream) {
-  stream.seekp(-1, std::ios_base::end);
-  stream << std::endl;
-}
-
 template <typename FeatureType, typename DistributionType>
 inline std::vector<std::string>
 get_column_names(const RegressionDataset<FeatureType> &dataset,
@@ -187,21 +177,26 @@ get_column_names(const RegressionDataset<FeatureType> &dataset,
 inline void write_row(std::ostream &stream,
                       const std::map<std::string, std::string> &row,
                       const std::vector<std::string> &columns) {
-  for (const auto &col : columns) {
-    if (map_contains(row, col)) {
-      stream << row.at(col);
+  for (std::size_t i = 0; i < columns.size(); ++i) {
+    if (i > 0) {
+      stream << ",";
+    }
+    if (map_contains(row, columns[i])) {
+      stream << row.at(columns[i]);
     }
-    stream << ",";
   }
-  replace_last_character_with_newline(stream);
+  stream << std::endl;
 }
 
 inline void write_header(std::ostream &stream,
                          const std::vector<std::string> &columns) {
-  for (const auto &col : columns) {
-    stream << col << ",";
+  for (std::size_t i = 0; i < columns.size(); ++i) {
+    if (i > 0) {
+      stream << ",";
+    }
+    stream << columns[i];
   }
-  replace_last_character_with_newline(stream);
+  stream << std::endl;
 }
 
 template <typename FeatureType, typename DistributionType>
-- 
2.43.0


From cb44a0ffb15a6afd2f255bb0034271366b0af256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 22/59] fix: write the columns of every dataset to csv

---
 include/albatross/src/utils/csv_utils.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/utils/csv_utils.hpp b/include/albatross/src/utils/csv_utils.hpp
index e2a6ee8..67744dd 100644
--- a/include/albatross/src/utils/csv_utils.hpp
+++ b/include/albatross/src/utils/csv_utils.hpp
@@ -241,9 +241,14 @@ inline void
 write_to_csv(std::ostream &stream,
              const std::vector<RegressionDataset<FeatureType>> &datasets,
              const std::vector<DistributionType> &predictions) {
-  const auto columns = get_column_names(datasets[0], predictions[0]);
-  write_header(stream, columns);
   ALBATROSS_ASSERT(datasets.size() == predictions.size());
+  std::set<std::string> keys;
+  for (std::size_t i = 0; i < datasets.size(); i++) {
+    const auto names = get_column_names(datasets[i], predictions[i]);
+    keys.insert(names.begin(), names.end());
+  }
+  const std::vector<std::string> columns(keys.begin(), keys.end());
+  write_header(stream, columns);
   for (std::size_t i = 0; i < datasets.size(); i++) {
     write_to_csv(stream, datasets[i], predictions[i], columns);
   }
-- 
2.43.0


From 3e553904ce7d0f571b544c8c8903fd295dc3426b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:17 +0000
Subject: [PATCH 23/59] fix: compare uniform priors by their bounds, not their
 printed names

---
 include/albatross/src/core/priors.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/albatross/src/core/priors.hpp b/include/albatross/src/core/priors.hpp
index 2d9dca7..3042a0a 100644
--- a/include/albatross/src/core/priors.hpp
+++ b/include/albatross/src/core/priors.hpp
@@ -80,6 +80,10 @@ public:
     ALBATROSS_ASSERT(upper_ > lower_);
   };
 
+  bool operator==(const UniformPrior &other) const {
+    return other.lower_ == lower_ && other.upper_ == upper_;
+  }
+
   std::string get_name() const override {
     std::ostringstream oss;
     oss << "uniform[" << lower_ << "," << upper_ << "]";
@@ -246,6 +250,10 @@ public:
     return priors_ == other.priors_;
   }
 
+  bool operator!=(const PriorContainer &other) const {
+    return !operator==(other);
+  }
+
   template <typename PriorType> void operator=(const PriorType &prior) {
     priors_ = prior;
   }
-- 
2.43.0


From e4b55b00d963d2eac0008601ca7f31150da8a766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:17 +0000
Subject: [PATCH 24/59] fix: no density for negative values of log normal and
 positive Gaussian priors

---
 include/albatross/src/core/priors.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/albatross/src/core/priors.hpp b/include/albatross/src/core/priors.hpp
index 3042a0a..9e026f1 100644
--- a/include/albatross/src/core/priors.hpp
+++ b/include/albatross/src/core/priors.hpp
@@ -165,6 +165,9 @@ public:
   }
 
   double log_pdf(double x) const override {
+    if (x < 0.) {
+      return -LARGE_VAL;
+    }
     double deviation = (x - mu_) / sigma_;
     return -0.5 * (LOG_2PI_ + 2 * log(sigma_) + deviation * deviation) -
            log(0.5 * std::erfc(-mu_ / (sigma_ * M_SQRT2)));
@@ -188,7 +191,12 @@ public:
     return oss.str();
   }
 
+  double lower_bound() const override { return 0.; }
+
   double log_pdf(double x) const override {
+    if (x <= 0.) {
+      return -LARGE_VAL;
+    }
     double deviation = (log(x) - mu_) / sigma_;
     return -0.5 * (LOG_2PI_ + deviation * deviation) - log(sigma_) - log(x);
   }
-- 
2.43.0


From 497c59f5fc07489da8dec3c28a2870886b0fff4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:17 +0000
Subject: [PATCH 25/59] fix: bound a positive Gaussian prior relative to its
 mean

---
 include/albatross/src/core/priors.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/albatross/src/core/priors.hpp b/include/albatross/src/core/priors.hpp
index 9e026f1..9c19f7c 100644
--- a/include/albatross/src/core/priors.hpp
+++ b/include/albatross/src/core/priors.hpp
@@ -156,7 +156,9 @@ public:
 
   double lower_bound() const override { return 0.; }
 
-  double upper_bound() const override { return 10. * sigma_; }
+  double upper_bound() const override {
+    return std::max(mu_, 0.) + 10. * sigma_;
+  }
 
   std::string get_name() const override {
     std::ostringstream oss;
-- 
2.43.0


From 3b53166ece39c087b73aa7803535372a77ce7df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:06 +0000
Subject: [PATCH 26/59] fix: perturb inwards when computing a gradient at an
 upper bound

---
 include/albatross/src/tune/finite_difference.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/albatross/src/tune/finite_difference.hpp b/include/albatross/src/tune/finite_difference.hpp
index 586aac3..d854ac1 100644
--- a/include/albatross/src/tune/finite_difference.hpp
+++ b/include/albatross/src/tune/finite_difference.hpp
@@ -55,12 +55,12 @@ compute_gradient(Function f, const ParameterStore &params, double f_val,
     if (std::isfinite(range)) {
       epsilon = 1e-8 * range;
     }
-    auto perturbed_params = get_perturbed(i, epsilon);
-
-    if (!params_are_valid(perturbed_params)) {
+    // perturbed values get forced into their bounds, so the direction needs
+    // to be decided before perturbing.
+    if (tunable_params.values[i] + epsilon > tunable_params.upper_bounds[i]) {
       epsilon *= -1;
-      perturbed_params = get_perturbed(i, epsilon);
     }
+    const auto perturbed_params = get_perturbed(i, epsilon);
 
     double grad_i = (f(perturbed_params) - f_val) / epsilon;
 
-- 
2.43.0


From 45706ca9f92ad94aef2b67fea83fcebbceb8b630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:06 +0000
Subject: [PATCH 27/59] fix: start tuning a vector of more than ten values in
 its order

---
 include/albatross/src/tune/tune.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/albatross/src/tune/tune.hpp b/include/albatross/src/tune/tune.hpp
index 1135cae..1e59870 100644
--- a/include/albatross/src/tune/tune.hpp
+++ b/include/albatross/src/tune/tune.hpp
@@ -82,8 +82,13 @@ inline nlopt::opt default_gradient_optimizer(
 
 inline ParameterStore uninformative_params(const std::vector<double> &values) {
   ParameterStore params;
+  // Parameters are sorted by name, so the indices are padded to keep the order.
+  const std::size_t width =
+      values.empty() ? 0 : std::to_string(values.size() - 1).size();
   for (std::size_t i = 0; i < values.size(); ++i) {
-    params[std::to_string(i)] = {values[i], UninformativePrior()};
+    const std::string index = std::to_string(i);
+    params[std::string(width - index.size(), '0') + index] = {
+        values[i], UninformativePrior()};
   }
   return params;
 }
-- 
2.43.0


From 016e4625f25e3e0a4cd31ff0e7d1728939929e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:42 +0000
Subject: [PATCH 28/59] fix: keep the parameters a null model is constructed
 with

---
 include/albatross/src/models/null_model.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/albatross/src/models/null_model.hpp b/include/albatross/src/models/null_model.hpp
index f8086e4..4153b15 100644
--- a/include/albatross/src/models/null_model.hpp
+++ b/include/albatross/src/models/null_model.hpp
@@ -29,7 +29,7 @@ template <> struct Fit<NullModel> {
 class NullModel : public ModelBase<NullModel> {
 public:
   NullModel() {}
-  NullModel(const ParameterStore &param_store) : params_(param_store) {}
+  NullModel(const ParameterStore &param_store) { params_ = param_store; }
 
   std::string get_name() const { return "null_model"; };
 
@@ -72,9 +72,6 @@ public:
     const Eigen::VectorXd diag = 1.e4 * Eigen::VectorXd::Ones(en);
     return MarginalDistribution(mean, diag.asDiagonal());
   }
-
-private:
-  ParameterStore params_;
 };
 
 } // namespace albatross
-- 
2.43.0


From 44fbc0d7a7ada92a676b5e8088937d255bc5c960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 29/59] fix: incomplete gamma of arguments below machine
 epsilon, and never above one

---
 include/albatross/src/stats/incomplete_gamma.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/stats/incomplete_gamma.hpp b/include/albatross/src/stats/incomplete_gamma.hpp
index 861a3a3..3cc095d 100644
--- a/include/albatross/src/stats/incomplete_gamma.hpp
+++ b/include/albatross/src/stats/incomplete_gamma.hpp
@@ -140,7 +140,7 @@ inline double incomplete_gamma(double a, double z) {
     return NAN;
   }
 
-  if (std::numeric_limits<decltype(z)>::epsilon() > z) {
+  if (z <= 0.) {
     return 0.;
   }
 
@@ -151,7 +151,8 @@ inline double incomplete_gamma(double a, double z) {
   if (a < 10) {
     return details::incomplete_gamma_continuous_fraction(a, z);
   } else {
-    return details::incomplete_gamma_quadrature(a, z);
+    // round off in the quadrature may exceed one
+    return std::min(1., details::incomplete_gamma_quadrature(a, z));
   }
 }
 
-- 
2.43.0


From 9e7b3578135922abdfd9d984e600d1c9bff89b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 30/59] fix: chi squared distribution of arguments below
 machine epsilon

---
 include/albatross/src/stats/chi_squared.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/stats/chi_squared.hpp b/include/albatross/src/stats/chi_squared.hpp
index ccf263d..bed904d 100644
--- a/include/albatross/src/stats/chi_squared.hpp
+++ b/include/albatross/src/stats/chi_squared.hpp
@@ -40,7 +40,7 @@ inline double chi_squared_cdf_safe(double x, double degrees_of_freedom) {
     return 1.;
   }
 
-  if (std::numeric_limits<double>::epsilon() > x) {
+  if (x == 0.) {
     return 0.;
   }
 
-- 
2.43.0


From 95016f02a06b20e72d7aaacba6ce8824238456a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:44 +0000
Subject: [PATCH 31/59] fix: Wasserstein distance of singular distributions

---
 .../src/evaluation/prediction_metrics.hpp     | 25 ++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/include/albatross/src/evaluation/prediction_metrics.hpp b/include/albatross/src/evaluation/prediction_metrics.hpp
index b3d232f..5732481 100644
--- a/include/albatross/src/evaluation/prediction_metrics.hpp
+++ b/include/albatross/src/evaluation/prediction_metrics.hpp
@@ -165,8 +165,15 @@ inline Eigen::MatrixXd principal_sqrt(const Eigen::MatrixXd &input) {
             .select(eigenvalues.array(),
                     std::numeric_limits<double>::infinity())
             .minCoeff();
+    // When the argument is singular the smallest positive eigenvalue
+    // is itself round off, in which case negative eigenvalues should
+    // be judged by what the largest one can be resolved to.
+    const double round_off = 10 * std::numeric_limits<double>::epsilon() *
+                             cast::to_double(eigenvalues.size()) *
+                             eigenvalues.cwiseAbs().maxCoeff();
+    const double threshold = -std::max(10 * min_positive, round_off);
     eigenvalues =
-        (eigenvalues.array() < 0 && eigenvalues.array() > -10 * min_positive)
+        (eigenvalues.array() < 0 && eigenvalues.array() > threshold)
             .select(0, eigenvalues.array());
   }
 
@@ -179,11 +186,17 @@ inline Eigen::MatrixXd principal_sqrt(const Eigen::MatrixXd &input) {
 
 inline double wasserstein_2(const JointDistribution &a,
                             const JointDistribution &b) {
-  auto b_sqrt{detail::principal_sqrt(b.covariance)};
-  return (a.mean - b.mean).squaredNorm() +
-         (a.covariance + b.covariance -
-          2 * detail::principal_sqrt(b_sqrt * a.covariance * b_sqrt))
-             .trace();
+  // The trace of sqrt(sqrt(B) A sqrt(B)) is the sum of the singular
+  // values of sqrt(A) sqrt(B), which can not turn out negative when
+  // the product is (nearly) singular.
+  const Eigen::MatrixXd a_sqrt{detail::principal_sqrt(a.covariance)};
+  const Eigen::MatrixXd b_sqrt{detail::principal_sqrt(b.covariance)};
+  const Eigen::JacobiSVD<Eigen::MatrixXd> svd(a_sqrt * b_sqrt);
+  const double distance = (a.mean - b.mean).squaredNorm() +
+                          a.covariance.trace() + b.covariance.trace() -
+                          2 * svd.singularValues().sum();
+  // round off may make the distance between similar arguments negative
+  return std::max(distance, 0.);
 }
 
 } // namespace distance
-- 
2.43.0


From f58db335294062ce355ae9f47b01c3b83cbdb651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:01 +0000
Subject: [PATCH 32/59] fix: judge the round off of an energy score relative to
 its terms

---
 include/albatross/src/evaluation/prediction_metrics.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/albatross/src/evaluation/prediction_metrics.hpp b/include/albatross/src/evaluation/prediction_metrics.hpp
index 5732481..8101b67 100644
--- a/include/albatross/src/evaluation/prediction_metrics.hpp
+++ b/include/albatross/src/evaluation/prediction_metrics.hpp
@@ -424,11 +424,14 @@ inline double energy_score(
   Eigen::MatrixXd samples_b =
       detail::antithetic_sample(num_samples, prediction.mean, cov_decomp, rng);
 
-  const double es =
+  const double mean_error =
       0.5 * (detail::mean_err_norms(samples, truth, weight_vector) +
-             detail::mean_err_norms(samples_b, truth, weight_vector)) -
+             detail::mean_err_norms(samples_b, truth, weight_vector));
+  const double es =
+      mean_error -
       0.5 * detail::pairwise_errors_paired(samples, samples_b, weight_vector);
-  ALBATROSS_ASSERT(es >= -1.e-12 &&
+  // round off is relative to the terms
+  ALBATROSS_ASSERT(es >= -1.e-12 * std::max(1., mean_error) &&
                    "Energy score should never be significantly negative!");
   return std::max(0.0, es);
 }
-- 
2.43.0


From c5014c97656e842760009628aca8d700e7c5ce15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:51 +0000
Subject: [PATCH 33/59] fix: let block_product be called without naming a
 template argument

---
 include/albatross/src/linalg/block_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/linalg/block_utils.hpp b/include/albatross/src/linalg/block_utils.hpp
index 77fa09c..b40e4fc 100644
--- a/include/albatross/src/linalg/block_utils.hpp
+++ b/include/albatross/src/linalg/block_utils.hpp
@@ -68,7 +68,7 @@ inline Eigen::MatrixXd block_accumulate(const Grouped<GroupKey, X> &lhs,
   return block_sum(apply(lhs.keys(), one_group));
 }
 
-template <typename GroupKey, typename ApplyFunction>
+template <typename GroupKey>
 inline Eigen::MatrixXd
 block_product(const Grouped<GroupKey, Eigen::MatrixXd> &lhs,
               const Grouped<GroupKey, Eigen::MatrixXd> &rhs) {
-- 
2.43.0


From d3c906bbe751962760c0cf0ad2b0ea0e7438891b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:13 +0000
Subject: [PATCH 34/59] fix: let the free set_subset assign part of a
 distribution

---
 include/albatross/src/core/distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/core/distribution.hpp b/include/albatross/src/core/distribution.hpp
index f090580..5a95804 100644
--- a/include/albatross/src/core/distribution.hpp
+++ b/include/albatross/src/core/distribution.hpp
@@ -243,7 +243,7 @@ template <typename SizeType, typename DistributionType>
 inline void set_subset(const DistributionBase<DistributionType> &from,
                        const std::vector<SizeType> &indices,
                        DistributionBase<DistributionType> *to) {
-  to->derived().set_subset(from, indices);
+  to->derived().set_subset(from.derived(), indices);
 }
 
 template <typename Derived>
-- 
2.43.0


From 957e8ce09dfb06ccd1d38278452859d598ccbc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:52 +0000
Subject: [PATCH 35/59] fix: accumulate blocks without colliding with
 std::apply

---
 include/albatross/src/linalg/block_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/linalg/block_utils.hpp b/include/albatross/src/linalg/block_utils.hpp
index b40e4fc..60efe37 100644
--- a/include/albatross/src/linalg/block_utils.hpp
+++ b/include/albatross/src/linalg/block_utils.hpp
@@ -65,7 +65,7 @@ inline Eigen::MatrixXd block_accumulate(const Grouped<GroupKey, X> &lhs,
     return apply_function(lhs.at(key), rhs.at(key));
   };
 
-  return block_sum(apply(lhs.keys(), one_group));
+  return block_sum(albatross::apply(lhs.keys(), one_group));
 }
 
 template <typename GroupKey>
-- 
2.43.0


From 032d54ad9610d26762937ca9b00c382d9a032e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:05 +0000
Subject: [PATCH 36/59] fix: block diagonal solves of sparse right hand sides
 did not compile

---
 include/albatross/src/linalg/block_diagonal.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/linalg/block_diagonal.hpp b/include/albatross/src/linalg/block_diagonal.hpp
index 2932187..429d068 100644
--- a/include/albatross/src/linalg/block_diagonal.hpp
+++ b/include/albatross/src/linalg/block_diagonal.hpp
@@ -130,7 +130,8 @@ BlockDiagonalLDLT::solve(
   Eigen::Matrix<_Scalar, Eigen::Dynamic, Eigen::Dynamic> output(rows(),
                                                                 rhs.cols());
   for (const auto &b : blocks) {
-    const auto rhs_chunk = rhs.block(i, 0, b.rows(), rhs.cols());
+    // Eigen's dense decompositions only solve for dense right hand sides.
+    const Eigen::MatrixXd rhs_chunk = rhs.block(i, 0, b.rows(), rhs.cols());
     output.block(i, 0, b.rows(), rhs.cols()) = b.solve(rhs_chunk);
     i += b.rows();
   }
@@ -155,7 +156,7 @@ BlockDiagonalLDLT::sqrt_solve(
   Eigen::Matrix<_Scalar, Eigen::Dynamic, Eigen::Dynamic> output(rows(),
                                                                 rhs.cols());
   for (const auto &b : blocks) {
-    const auto rhs_chunk = rhs.block(i, 0, b.rows(), rhs.cols());
+    const Eigen::MatrixXd rhs_chunk = rhs.block(i, 0, b.rows(), rhs.cols());
     output.block(i, 0, b.rows(), rhs.cols()) = b.sqrt_solve(rhs_chunk);
     i += b.rows();
   }
-- 
2.43.0


From 836f7a7ce88bfaa0edfafc5eabfba66f753f7ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:05 +0000
Subject: [PATCH 37/59] fix: compare an LDLT with an empty one

---
 include/albatross/src/eigen/serializable_ldlt.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/eigen/serializable_ldlt.hpp b/include/albatross/src/eigen/serializable_ldlt.hpp
index 5e9eace..963c813 100644
--- a/include/albatross/src/eigen/serializable_ldlt.hpp
+++ b/include/albatross/src/eigen/serializable_ldlt.hpp
@@ -204,13 +204,16 @@ public:
     if (!this->m_isInitialized && !rhs.m_isInitialized) {
       return true;
     }
+    // An empty decomposition has no factors to compare.
+    if (this->m_isInitialized != rhs.m_isInitialized) {
+      return false;
+    }
     auto this_lower =
         MatrixXd(MatrixXd(this->matrixLDLT()).triangularView<Eigen::Lower>());
     auto rhs_lower =
         MatrixXd(MatrixXd(rhs.matrixLDLT()).triangularView<Eigen::Lower>());
 
-    return (this->m_isInitialized == rhs.m_isInitialized &&
-            this_lower == rhs_lower &&
+    return (this_lower == rhs_lower &&
             this->transpositionsP().indices() ==
                 rhs.transpositionsP().indices());
   }
-- 
2.43.0


From 4e0b9ceeed470409a27d23e6a434dfed0f9d629b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:40 +0000
Subject: [PATCH 38/59] fix: scale measurements in covariances with plain
 features

---
 .../covariance_functions/scaling_function.hpp | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/albatross/src/covariance_functions/scaling_function.hpp b/include/albatross/src/covariance_functions/scaling_function.hpp
index 62351ec..fd7a4c5 100644
--- a/include/albatross/src/covariance_functions/scaling_function.hpp
+++ b/include/albatross/src/covariance_functions/scaling_function.hpp
@@ -78,12 +78,12 @@ public:
    */
   template <typename X, typename Y,
             typename std::enable_if<
-                (has_valid_call_impl<ScalingFunction, X &>::value &&
-                 has_valid_call_impl<ScalingFunction, Y &>::value),
+                (has_equivalent_caller<ScalingFunction, X>::value &&
+                 has_equivalent_caller<ScalingFunction, Y>::value),
                 int>::type = 0>
   double _call_impl(const X &x, const Y &y) const {
-    return this->scaling_function_._call_impl(x) *
-           this->scaling_function_._call_impl(y);
+    return EquivalentCaller::call(this->scaling_function_, x) *
+           EquivalentCaller::call(this->scaling_function_, y);
   }
 
   /*
@@ -91,20 +91,20 @@ public:
    */
   template <typename X, typename Y,
             typename std::enable_if<
-                (!has_valid_call_impl<ScalingFunction, X &>::value &&
-                 has_valid_call_impl<ScalingFunction, Y &>::value),
+                (!has_equivalent_caller<ScalingFunction, X>::value &&
+                 has_equivalent_caller<ScalingFunction, Y>::value),
                 int>::type = 0>
   double _call_impl(const X &, const Y &y) const {
-    return this->scaling_function_._call_impl(y);
+    return EquivalentCaller::call(this->scaling_function_, y);
   }
 
   template <typename X, typename Y,
             typename std::enable_if<
-                (has_valid_call_impl<ScalingFunction, X &>::value &&
-                 !has_valid_call_impl<ScalingFunction, Y &>::value),
+                (has_equivalent_caller<ScalingFunction, X>::value &&
+                 !has_equivalent_caller<ScalingFunction, Y>::value),
                 int>::type = 0>
   double _call_impl(const X &x, const Y &) const {
-    return this->scaling_function_._call_impl(x);
+    return EquivalentCaller::call(this->scaling_function_, x);
   }
 
 private:
-- 
2.43.0


From 9576766dc9dacdee095bf72b4cea897897c2087f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:50 +0000
Subject: [PATCH 39/59] fix: constant covariance of measurements of linear
 combinations

---
 include/albatross/src/covariance_functions/polynomials.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/albatross/src/covariance_functions/polynomials.hpp b/include/albatross/src/covariance_functions/polynomials.hpp
index 1c39d63..3087481 100644
--- a/include/albatross/src/covariance_functions/polynomials.hpp
+++ b/include/albatross/src/covariance_functions/polynomials.hpp
@@ -52,8 +52,13 @@ public:
    *     sigma_mean^2 * ones(m, n)
    * which is saying all observations are perfectly correlated,
    * so you can move one if you move the rest the same amount.
+   *
+   * As with Nugget this is only defined for basic types, composite types
+   * (such as a measurement of a LinearCombination) get unpacked first.
    */
-  template <typename X, typename Y>
+  template <typename X, typename Y,
+            typename std::enable_if_t<
+                is_basic_type<X>::value && is_basic_type<Y>::value, int> = 0>
   double _call_impl(const X &x __attribute__((unused)),
                     const Y &y __attribute__((unused))) const {
     return sigma_constant.value * sigma_constant.value;
-- 
2.43.0


From a15c7ec240b0e7fc3789a99bfe5530d53c1b4b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:22 +0000
Subject: [PATCH 40/59] fix: derive a length scale from a tiny increase in
 standard deviation

---
 include/albatross/src/covariance_functions/radial.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/covariance_functions/radial.hpp b/include/albatross/src/covariance_functions/radial.hpp
index a129b3e..aa110f6 100644
--- a/include/albatross/src/covariance_functions/radial.hpp
+++ b/include/albatross/src/covariance_functions/radial.hpp
@@ -121,7 +121,7 @@ inline double derive_squared_exponential_length_scale(double reference_distance,
   const double ratio = std_dev_increase / prior_sigma;
   assert(ratio > 0.);
   assert(ratio < 1.);
-  return sqrt(2.0) * reference_distance / sqrt(-log(1. - ratio * ratio));
+  return sqrt(2.0) * reference_distance / sqrt(-log1p(-ratio * ratio));
 }
 
 /*
@@ -229,7 +229,7 @@ inline double derive_exponential_length_scale(double reference_distance,
   const double ratio = std_dev_increase / prior_sigma;
   assert(ratio > 0.);
   assert(ratio < 1.);
-  return -2.0 * reference_distance / log(1. - ratio * ratio);
+  return -2.0 * reference_distance / log1p(-ratio * ratio);
 }
 
 /*
-- 
2.43.0


From e9f928cac5c1a034f63138ffff45ac14e6c12a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:52 +0000
Subject: [PATCH 41/59] fix: keep the root bracketed when deriving Matern
 length scales

---
 .../src/covariance_functions/radial.hpp        | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/albatross/src/covariance_functions/radial.hpp b/include/albatross/src/covariance_functions/radial.hpp
index aa110f6..6e4fcca 100644
--- a/include/albatross/src/covariance_functions/radial.hpp
+++ b/include/albatross/src/covariance_functions/radial.hpp
@@ -317,14 +317,20 @@ inline double newton_solve(double guess, double target, Func func, Grad grad,
       break;
     }
 
-    if (guess - delta <= lower_bound) {
-      guess = 0.5 * (guess + lower_bound);
-    } else if (guess - delta >= upper_bound) {
-      guess = 0.5 * (guess + upper_bound);
+    // func decreases (from above the target to below it), so every evaluation
+    // tightens the interval which holds the solution.
+    if (error > 0.) {
+      upper_bound = guess;
     } else {
-      guess -= delta;
+      lower_bound = guess;
+    }
+
+    const double next = guess - delta;
+    if (next > lower_bound && next < upper_bound) {
+      guess = next;
+    } else {
+      guess = sqrt(lower_bound * upper_bound);
     }
-    guess = std::min(upper_bound, std::max(lower_bound, guess));
   }
   return guess;
 }
-- 
2.43.0


From a9e8973306e8c3dc1e9e247964a7c89b3077dcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:12 +0000
Subject: [PATCH 42/59] fix: process noise over very small distances was not a
 number

---
 include/albatross/src/covariance_functions/radial.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/albatross/src/covariance_functions/radial.hpp b/include/albatross/src/covariance_functions/radial.hpp
index 6e4fcca..6b01955 100644
--- a/include/albatross/src/covariance_functions/radial.hpp
+++ b/include/albatross/src/covariance_functions/radial.hpp
@@ -45,7 +45,8 @@ inline double process_noise_equivalent(RadialFunction func, double distance) {
   //   STD[f_d|f_0] = sqrt(k(0) - k(d)^2/ k(0))
   const double k0 = func(0);
   const double kd = func(distance);
-  return sqrt(k0 - kd * kd / k0);
+  // rounding could otherwise make this negative for very small distances.
+  return sqrt(std::max(0., k0 - kd * kd / k0));
 }
 
 namespace detail {
-- 
2.43.0


From 7ba23263fa209d181311b1f47bab8112f8c71837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:03 +0000
Subject: [PATCH 43/59] fix: products of mean functions of measured linear
 combinations

---
 .../covariance_functions/mean_function.hpp    | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/albatross/src/covariance_functions/mean_function.hpp b/include/albatross/src/covariance_functions/mean_function.hpp
index ea0f541..42db741 100644
--- a/include/albatross/src/covariance_functions/mean_function.hpp
+++ b/include/albatross/src/covariance_functions/mean_function.hpp
@@ -167,8 +167,8 @@ public:
    * this will return the sum of the two.
    */
   template <typename X,
-            typename std::enable_if<(has_valid_caller<LHS, X>::value &&
-                                     has_valid_caller<RHS, X>::value),
+            typename std::enable_if<(has_equivalent_caller<LHS, X>::value &&
+                                     has_equivalent_caller<RHS, X>::value),
                                     int>::type = 0>
   double _call_impl(const X &x) const {
     return this->lhs_(x) + this->rhs_(x);
@@ -178,8 +178,8 @@ public:
    * If only LHS has a valid call method we ignore R.
    */
   template <typename X,
-            typename std::enable_if<(has_valid_caller<LHS, X>::value &&
-                                     !has_valid_caller<RHS, X>::value),
+            typename std::enable_if<(has_equivalent_caller<LHS, X>::value &&
+                                     !has_equivalent_caller<RHS, X>::value),
                                     int>::type = 0>
   double _call_impl(const X &x) const {
     return this->lhs_(x);
@@ -189,8 +189,8 @@ public:
    * If only RHS has a valid call method we ignore L.
    */
   template <typename X,
-            typename std::enable_if<(!has_valid_caller<LHS, X>::value &&
-                                     has_valid_caller<RHS, X>::value),
+            typename std::enable_if<(!has_equivalent_caller<LHS, X>::value &&
+                                     has_equivalent_caller<RHS, X>::value),
                                     int>::type = 0>
   double _call_impl(const X &x) const {
     return this->rhs_(x);
@@ -232,8 +232,8 @@ public:
    * this will return the product of the two.
    */
   template <typename X,
-            typename std::enable_if<(has_valid_caller<LHS, X>::value &&
-                                     has_valid_caller<RHS, X>::value),
+            typename std::enable_if<(has_equivalent_caller<LHS, X>::value &&
+                                     has_equivalent_caller<RHS, X>::value),
                                     int>::type = 0>
   double _call_impl(const X &x) const {
     double output = this->lhs_(x);
@@ -247,8 +247,8 @@ public:
    * If only LHS has a valid call method we ignore R.
    */
   template <typename X,
-            typename std::enable_if<(has_valid_caller<LHS, X>::value &&
-                                     !has_valid_caller<RHS, X>::value),
+            typename std::enable_if<(has_equivalent_caller<LHS, X>::value &&
+                                     !has_equivalent_caller<RHS, X>::value),
                                     int>::type = 0>
   double _call_impl(const X &x) const {
     return this->lhs_(x);
@@ -258,8 +258,8 @@ public:
    * If only RHS has a valid call method we ignore L.
    */
   template <typename X,
-            typename std::enable_if<(!has_valid_caller<LHS, X>::value &&
-                                     has_valid_caller<RHS, X>::value),
+            typename std::enable_if<(!has_equivalent_caller<LHS, X>::value &&
+                                     has_equivalent_caller<RHS, X>::value),
                                     int>::type = 0>
   double _call_impl(const X &x) const {
     return this->rhs_(x);
-- 
2.43.0


From 792bf2f188d86340ed6d6e13ab5b57f2062a775a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:34 +0000
Subject: [PATCH 44/59] fix: use the least squares solver an implementation
 provides

---
 include/albatross/src/models/least_squares.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/albatross/src/models/least_squares.hpp b/include/albatross/src/models/least_squares.hpp
index bb62fa4..d726cca 100644
--- a/include/albatross/src/models/least_squares.hpp
+++ b/include/albatross/src/models/least_squares.hpp
@@ -64,7 +64,8 @@ public:
       A.row(i) = features[cast::to_size(i)];
     }
 
-    FitType model_fit = {least_squares_solver(A, targets.mean)};
+    FitType model_fit = {
+        this->derived().least_squares_solver(A, targets.mean)};
     return model_fit;
   }
 
-- 
2.43.0


From 54cf1996fff9b0a2ae6b836ef12b17393220a655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:38 +0000
Subject: [PATCH 45/59] fix: predictions with measurement noise of a temporary
 fit model

---
 include/albatross/src/core/fit_model.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/albatross/src/core/fit_model.hpp b/include/albatross/src/core/fit_model.hpp
index c0da05c..75f5c2d 100644
--- a/include/albatross/src/core/fit_model.hpp
+++ b/include/albatross/src/core/fit_model.hpp
@@ -51,9 +51,10 @@ public:
         std::move(model_), std::move(fit_), features);
   }
 
+  // As with predict, the fit of a temporary is moved into the prediction.
   template <typename PredictFeatureType>
   auto predict_with_measurement_noise(
-      const std::vector<PredictFeatureType> &features) const {
+      const std::vector<PredictFeatureType> &features) const & {
     std::vector<Measurement<PredictFeatureType>> measurements;
     for (const auto &f : features) {
       measurements.emplace_back(Measurement<PredictFeatureType>(f));
@@ -61,6 +62,16 @@ public:
     return predict(measurements);
   }
 
+  template <typename PredictFeatureType>
+  auto predict_with_measurement_noise(
+      const std::vector<PredictFeatureType> &features) && {
+    std::vector<Measurement<PredictFeatureType>> measurements;
+    for (const auto &f : features) {
+      measurements.emplace_back(Measurement<PredictFeatureType>(f));
+    }
+    return std::move(*this).predict(measurements);
+  }
+
   template <
       typename FeatureType,
       typename std::enable_if<
-- 
2.43.0


From 1e332b7b2f227986a95776dc693af096e5a4d6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:26 +0000
Subject: [PATCH 46/59] fix: group indexer and dataset size of regression folds

---
 include/albatross/src/evaluation/folds.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/albatross/src/evaluation/folds.hpp b/include/albatross/src/evaluation/folds.hpp
index 7c30949..1b26b51 100644
--- a/include/albatross/src/evaluation/folds.hpp
+++ b/include/albatross/src/evaluation/folds.hpp
@@ -89,6 +89,12 @@ group_indexer_from_folds(const std::map<GroupKey, FeatureType> &folds) {
   return output;
 }
 
+template <typename GroupKey, typename FeatureType>
+inline GroupIndexer<GroupKey> group_indexer_from_folds(
+    const RegressionFolds<GroupKey, FeatureType> &folds) {
+  return group_indexer_from_folds(folds.get_map());
+}
+
 template <typename FeatureType, typename GrouperFunction>
 inline auto folds_from_grouper(const RegressionDataset<FeatureType> &dataset,
                                GrouperFunction grouper) {
-- 
2.43.0


From 86c53809ec24452d16c1034d292ed44ccade2845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 47/59] fix: saving a sparse gaussian process fit discarded its
 numerical rank

---
 include/albatross/src/models/sparse_gp.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/albatross/src/models/sparse_gp.hpp b/include/albatross/src/models/sparse_gp.hpp
index 8755f63..069e298 100644
--- a/include/albatross/src/models/sparse_gp.hpp
+++ b/include/albatross/src/models/sparse_gp.hpp
@@ -93,6 +93,9 @@ template <typename FeatureType> struct SparseGPFit {};
 template <typename FeatureType> struct Fit<SparseGPFit<FeatureType>> {
   using PermutationIndices = Eigen::Matrix<Eigen::Index, Eigen::Dynamic, 1>;
 
+  // The numerical rank is serialized since version 2.
+  static const std::uint32_t serialization_version = 2;
+
   std::vector<FeatureType> train_features;
   Eigen::SerializableLDLT train_covariance;
   Eigen::MatrixXd R;
-- 
2.43.0


From 42eb0c6a4b0550e62cf9535a0270174d14792636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:41 +0000
Subject: [PATCH 48/59] fix: norm, sign and status of loaded decompositions

---
 .../src/cereal/serializable_ldlt.hpp          | 40 +++++++++++++++++--
 .../albatross/src/eigen/serializable_ldlt.hpp | 15 +++++++
 2 files changed, 51 insertions(+), 4 deletions(-)

diff --git a/include/albatross/src/cereal/serializable_ldlt.hpp b/include/albatross/src/cereal/serializable_ldlt.hpp
index a6b6fe6..b10a9af 100644
--- a/include/albatross/src/cereal/serializable_ldlt.hpp
+++ b/include/albatross/src/cereal/serializable_ldlt.hpp
@@ -17,18 +17,50 @@ namespace cereal {
 
 template <typename Archive>
 inline void save(Archive &archive, const Eigen::SerializableLDLT &ldlt,
-                 const std::uint32_t) {
+                 const std::uint32_t version) {
   save_lower_triangle(archive, ldlt.matrix());
-  archive(cereal::make_nvp("transpositions", ldlt.transpositionsP()),
-          cereal::make_nvp("is_initialized", ldlt.is_initialized()));
+  const bool is_initialized = ldlt.is_initialized();
+  archive(cereal::make_nvp("transpositions", ldlt.transpositions()),
+          cereal::make_nvp("is_initialized", is_initialized));
+  if (version > 0 && is_initialized) {
+    const int sign = static_cast<int>(ldlt.sign());
+    const int info = static_cast<int>(ldlt.info());
+    archive(cereal::make_nvp("l1_norm", ldlt.l1_norm()),
+            cereal::make_nvp("sign", sign), cereal::make_nvp("info", info));
+  }
 }
 
 template <typename Archive>
 inline void load(Archive &archive, Eigen::SerializableLDLT &ldlt,
-                 const std::uint32_t) {
+                 const std::uint32_t version) {
   load_lower_triangle(archive, ldlt.mutable_matrix());
   archive(cereal::make_nvp("transpositions", ldlt.mutable_transpositions()),
           cereal::make_nvp("is_initialized", ldlt.mutable_is_initialized()));
+  if (!ldlt.is_initialized()) {
+    return;
+  }
+
+  if (version > 0) {
+    int sign;
+    int info;
+    archive(cereal::make_nvp("l1_norm", ldlt.mutable_l1_norm()),
+            cereal::make_nvp("sign", sign), cereal::make_nvp("info", info));
+    ldlt.mutable_sign() = static_cast<Eigen::internal::SignMatrix>(sign);
+    ldlt.mutable_info() = static_cast<Eigen::ComputationInfo>(info);
+  } else {
+    // The norm of the original matrix was not stored, make it clear that it
+    // is not available.  The sign can be found from the decomposition.
+    const Eigen::VectorXd diagonal = ldlt.vectorD();
+    const bool any_positive = (diagonal.array() > 0.).any();
+    const bool any_negative = (diagonal.array() < 0.).any();
+    ldlt.mutable_l1_norm() = NAN;
+    ldlt.mutable_sign() =
+        any_positive ? (any_negative ? Eigen::internal::Indefinite
+                                     : Eigen::internal::PositiveSemiDef)
+                     : (any_negative ? Eigen::internal::NegativeSemiDef
+                                     : Eigen::internal::ZeroSign);
+    ldlt.mutable_info() = Eigen::Success;
+  }
 }
 
 } // namespace cereal
diff --git a/include/albatross/src/eigen/serializable_ldlt.hpp b/include/albatross/src/eigen/serializable_ldlt.hpp
index 963c813..2460a2a 100644
--- a/include/albatross/src/eigen/serializable_ldlt.hpp
+++ b/include/albatross/src/eigen/serializable_ldlt.hpp
@@ -22,6 +22,9 @@ public:
   using Scalar = double;
   using MatrixType = MatrixXd;
 
+  // The norm, sign and info are serialized since version 1.
+  static const std::uint32_t serialization_version = 1;
+
   SerializableLDLT() : LDLT<MatrixXd, Lower>() {}
 
   SerializableLDLT(const MatrixXd &x) : LDLT<MatrixXd, Lower>(x.ldlt()) {}
@@ -39,6 +42,10 @@ public:
     return this->m_transpositions;
   }
 
+  const LDLT<MatrixXd, Lower>::TranspositionType &transpositions() const {
+    return this->m_transpositions;
+  }
+
   LDLT<MatrixXd, Lower>::MatrixType &mutable_matrix() { return this->m_matrix; }
 
   LDLT<MatrixXd, Lower>::MatrixType matrix() const { return this->m_matrix; }
@@ -52,6 +59,14 @@ public:
     return this->m_l1_norm;
   }
 
+  double &mutable_l1_norm() { return this->m_l1_norm; }
+
+  internal::SignMatrix sign() const { return this->m_sign; }
+
+  internal::SignMatrix &mutable_sign() { return this->m_sign; }
+
+  ComputationInfo &mutable_info() { return this->m_info; }
+
   /*
    * Computes the inverse of the square root of the diagonal, D^{-1/2}
    */
-- 
2.43.0


From a8a39e828801192ccad81ff6edcd55ddd83f8bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:21 +0000
Subject: [PATCH 49/59] fix: archives of datasets with features cereal
 serializes itself

---
 include/albatross/src/cereal/dataset.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/albatross/src/cereal/dataset.hpp b/include/albatross/src/cereal/dataset.hpp
index a76c829..f77440d 100644
--- a/include/albatross/src/cereal/dataset.hpp
+++ b/include/albatross/src/cereal/dataset.hpp
@@ -20,8 +20,10 @@ using albatross::valid_in_out_serializer;
 namespace cereal {
 
 template <class Archive, class FeatureType>
-typename std::enable_if<valid_in_out_serializer<FeatureType, Archive>::value,
-                        void>::type
+typename std::enable_if<
+    albatross::valid_input_serializer<FeatureType, Archive>::value ||
+        albatross::valid_output_serializer<FeatureType, Archive>::value,
+    void>::type
 serialize(Archive &archive, RegressionDataset<FeatureType> &dataset,
           const std::uint32_t) {
   archive(cereal::make_nvp("features", dataset.features));
@@ -30,8 +32,10 @@ serialize(Archive &archive, RegressionDataset<FeatureType> &dataset,
 }
 
 template <class Archive, class FeatureType>
-typename std::enable_if<!valid_in_out_serializer<FeatureType, Archive>::value,
-                        void>::type
+typename std::enable_if<
+    !albatross::valid_input_serializer<FeatureType, Archive>::value &&
+        !albatross::valid_output_serializer<FeatureType, Archive>::value,
+    void>::type
 serialize(Archive &archive ALBATROSS_UNUSED, RegressionDataset<FeatureType> &,
           const std::uint32_t) {
   static_assert(delay_static_assert<Archive>::value,
-- 
2.43.0


From e23c97c9b87815d44855355bbf9da373636dfa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:51 +0000
Subject: [PATCH 50/59] fix: name of the model inside a loaded ransac model

---
 include/albatross/src/cereal/ransac.hpp | 21 +++++++++++++++++++++
 include/albatross/src/models/ransac.hpp |  3 +++
 2 files changed, 24 insertions(+)

diff --git a/include/albatross/src/cereal/ransac.hpp b/include/albatross/src/cereal/ransac.hpp
index df16721..8c2d54e 100644
--- a/include/albatross/src/cereal/ransac.hpp
+++ b/include/albatross/src/cereal/ransac.hpp
@@ -77,6 +77,27 @@ serialize(Archive &archive,
   archive(cereal::make_nvp("grouper_function", strategy.grouper_function_));
 }
 
+template <typename Archive, typename ModelType, typename StrategyType>
+inline void save(Archive &archive,
+                 const Ransac<ModelType, StrategyType> &ransac,
+                 const std::uint32_t) {
+  archive(cereal::make_nvp("sub_model", ransac.sub_model_));
+  archive(cereal::make_nvp("insights", ransac.insights));
+}
+
+template <typename Archive, typename ModelType, typename StrategyType>
+inline void load(Archive &archive, Ransac<ModelType, StrategyType> &ransac,
+                 const std::uint32_t version) {
+  if (version > 0) {
+    archive(cereal::make_nvp("sub_model", ransac.sub_model_));
+  } else {
+    albatross::ParameterStore params;
+    archive(cereal::make_nvp("params", params));
+    ransac.set_params(params);
+  }
+  archive(cereal::make_nvp("insights", ransac.insights));
+}
+
 } // namespace cereal
 
 #endif /* THIRD_PARTY_ALBATROSS_INCLUDE_ALBATROSS_SRC_CEREAL_RANSAC_HPP_ */
diff --git a/include/albatross/src/models/ransac.hpp b/include/albatross/src/models/ransac.hpp
index 6efad39..688b48c 100644
--- a/include/albatross/src/models/ransac.hpp
+++ b/include/albatross/src/models/ransac.hpp
@@ -427,6 +427,9 @@ struct Fit<RansacFit<ModelType, StrategyType, FeatureType, GroupKey>> {
 template <typename ModelType, typename StrategyType>
 class Ransac : public ModelBase<Ransac<ModelType, StrategyType>> {
 public:
+  // The model itself (not only its parameters) is serialized since version 1.
+  static const std::uint32_t serialization_version = 1;
+
   Ransac() {}
 
   Ransac(const ModelType &sub_model, const StrategyType &strategy,
-- 
2.43.0


From ce678c7b037061e2b93e0fa7a8c4e967f27146bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:17 +0000
Subject: [PATCH 51/59] fix: ransac functions kept references to temporary
 metrics

---
 include/albatross/src/models/ransac.hpp    | 7 ++++---
 include/albatross/src/models/ransac_gp.hpp | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/albatross/src/models/ransac.hpp b/include/albatross/src/models/ransac.hpp
index 688b48c..5498fd1 100644
--- a/include/albatross/src/models/ransac.hpp
+++ b/include/albatross/src/models/ransac.hpp
@@ -296,8 +296,9 @@ inline RansacFunctions<FitModelType, GroupKey> get_generic_ransac_functions(
         return model.fit(subset(dataset, inds));
       };
 
-  auto inlier_metric_from_group = [&, indexer](const GroupKey &group,
-                                               const FitModelType &fit) {
+  auto inlier_metric_from_group = [&, indexer,
+                                   inlier_metric](const GroupKey &group,
+                                                  const FitModelType &fit) {
     GroupIndices inds = indexer.at(group);
     const auto pred = fit.predict(subset(dataset.features, inds));
     const auto target = subset(dataset.targets, inds);
@@ -305,7 +306,7 @@ inline RansacFunctions<FitModelType, GroupKey> get_generic_ransac_functions(
   };
 
   auto consensus_metric_from_group =
-      [&, indexer](const std::vector<GroupKey> &groups) {
+      [&, indexer, consensus_metric](const std::vector<GroupKey> &groups) {
         auto inds = indices_from_groups(indexer, groups);
         RegressionDataset<FeatureType> inlier_dataset = subset(dataset, inds);
         return consensus_metric(inlier_dataset, model);
diff --git a/include/albatross/src/models/ransac_gp.hpp b/include/albatross/src/models/ransac_gp.hpp
index fadb2a2..269194a 100644
--- a/include/albatross/src/models/ransac_gp.hpp
+++ b/include/albatross/src/models/ransac_gp.hpp
@@ -32,7 +32,7 @@ inline typename RansacFunctions<ConditionalFit, GroupKey>::IsValidCandidate
 get_gp_ransac_is_valid_candidate(const ConditionalGaussian &model,
                                  const GroupIndexer<GroupKey> &indexer,
                                  const IsValidCandidateMetric &metric) {
-  return [&, model, indexer](const std::vector<GroupKey> &groups) {
+  return [model, indexer, metric](const std::vector<GroupKey> &groups) {
     const auto indices = indices_from_groups(indexer, groups);
     const auto prior = model.get_prior(indices);
     const auto truth = model.get_truth(indices);
@@ -45,7 +45,8 @@ inline typename RansacFunctions<ConditionalFit, GroupKey>::InlierMetric
 get_gp_ransac_inlier_metric(const ConditionalGaussian &model,
                             const GroupIndexer<GroupKey> &indexer,
                             const InlierMetricType &metric) {
-  return [&, indexer, model](const GroupKey &group, const ConditionalFit &fit) {
+  return [indexer, model, metric](const GroupKey &group,
+                                  const ConditionalFit &fit) {
     const auto indices = indexer.at(group);
     const auto pred = get_prediction_reference(model, fit, indices);
     const auto truth = model.get_truth(indices);
@@ -58,7 +59,7 @@ inline typename RansacFunctions<ConditionalFit, GroupKey>::ConsensusMetric
 get_gp_ransac_consensus_metric(const ConditionalGaussian &model,
                                const GroupIndexer<GroupKey> &indexer,
                                const ConsensusMetric &metric) {
-  return [&, model, indexer](const std::vector<GroupKey> &groups) {
+  return [model, indexer, metric](const std::vector<GroupKey> &groups) {
     const auto indices = indices_from_groups(indexer, groups);
     const auto prior = model.get_prior(indices);
     const auto truth = model.get_truth(indices);
-- 
2.43.0


From eddd99488db0b6f6d6b8f94de8bc9ec51700f56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 52/59] fix: ensemble sampler moved from its objective on every
 iteration

---
 include/albatross/src/samplers/ensemble.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/albatross/src/samplers/ensemble.hpp b/include/albatross/src/samplers/ensemble.hpp
index 6cbded4..c9552a3 100644
--- a/include/albatross/src/samplers/ensemble.hpp
+++ b/include/albatross/src/samplers/ensemble.hpp
@@ -129,16 +129,16 @@ ensemble_sampler(ComputeLogProb &&compute_log_prob,
                  std::size_t max_iterations, std::default_random_engine &gen,
                  CallbackFunc &&callback = NullCallback()) {
 
-  EnsembleSamplerState state = ensure_finite_initial_state(
-      std::forward<ComputeLogProb>(compute_log_prob), initial_state, gen);
+  EnsembleSamplerState state =
+      ensure_finite_initial_state(compute_log_prob, initial_state, gen);
 
   std::vector<EnsembleSamplerState> output;
   output.push_back(state);
   callback(0, state);
 
   for (std::size_t iter = 1; iter <= max_iterations; ++iter) {
-    const auto next_state = stretch_move_step<ComputeLogProb>(
-        state, std::forward<ComputeLogProb>(compute_log_prob), gen);
+    const auto next_state =
+        stretch_move_step<ComputeLogProb &>(state, compute_log_prob, gen);
     output.push_back(next_state);
     callback(iter, next_state);
     state = next_state;
-- 
2.43.0


From 84124c79ff326c39fffc79a09e6494c5e39c78e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 53/59] fix: samplers headers defined functions which were not
 inline

---
 include/albatross/src/samplers/ensemble.hpp       | 2 +-
 include/albatross/src/samplers/initialization.hpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/albatross/src/samplers/ensemble.hpp b/include/albatross/src/samplers/ensemble.hpp
index c9552a3..028b081 100644
--- a/include/albatross/src/samplers/ensemble.hpp
+++ b/include/albatross/src/samplers/ensemble.hpp
@@ -35,7 +35,7 @@ inline std::size_t random_complement(std::size_t n, std::size_t i,
   }
 }
 
-void assert_valid_states(const EnsembleSamplerState &ensembles) {
+inline void assert_valid_states(const EnsembleSamplerState &ensembles) {
   for (std::size_t i = 0; i < ensembles.size(); ++i) {
     ALBATROSS_ASSERT(std::isfinite(ensembles[i].log_prob));
   }
diff --git a/include/albatross/src/samplers/initialization.hpp b/include/albatross/src/samplers/initialization.hpp
index 5eeb0b9..9271151 100644
--- a/include/albatross/src/samplers/initialization.hpp
+++ b/include/albatross/src/samplers/initialization.hpp
@@ -26,7 +26,7 @@ inline std::vector<std::string> split_string(const std::string &s,
   return tokens;
 }
 
-std::vector<double> parse_line(const std::string &line) {
+inline std::vector<double> parse_line(const std::string &line) {
   std::vector<double> output;
   for (const auto &s : split_string(line, ',')) {
     try {
@@ -39,7 +39,7 @@ std::vector<double> parse_line(const std::string &line) {
   return output;
 }
 
-std::vector<std::map<std::string, double>>
+inline std::vector<std::map<std::string, double>>
 initial_params_from_csv(std::istream &ss) {
 
   std::vector<std::map<std::string, double>> output;
@@ -76,7 +76,7 @@ initial_params_from_csv(std::istream &ss) {
   return output;
 }
 
-std::vector<std::vector<double>>
+inline std::vector<std::vector<double>>
 initial_params_from_csv(const ParameterStore &param_store, std::istream &ss) {
 
   const auto all_params = initial_params_from_csv(ss);
-- 
2.43.0


From e1393ab672e92acc82521db5ac83aac95c55bbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:33 +0000
Subject: [PATCH 54/59] fix: ensemble sampler left the bounds of the parameters
 of a model

---
 include/albatross/src/samplers/ensemble.hpp       | 10 ++++++++++
 include/albatross/src/samplers/initialization.hpp |  9 ++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/albatross/src/samplers/ensemble.hpp b/include/albatross/src/samplers/ensemble.hpp
index 028b081..77c4900 100644
--- a/include/albatross/src/samplers/ensemble.hpp
+++ b/include/albatross/src/samplers/ensemble.hpp
@@ -175,7 +175,17 @@ std::vector<EnsembleSamplerState> ensemble_sampler(
   const auto initial_params =
       initial_params_from_jitter(model.get_params(), jitter, gen, n_walkers);
 
+  const TunableParameters tunable = model.get_tunable_parameters();
+
   auto compute_ll = [&](const std::vector<double> &param_values) {
+    // Parameters outside of their bounds have zero probability, without this
+    // check they would be assigned the density found at the bound.
+    for (std::size_t i = 0; i < param_values.size(); ++i) {
+      if (param_values[i] < tunable.lower_bounds[i] ||
+          param_values[i] > tunable.upper_bounds[i]) {
+        return -LARGE_VAL;
+      }
+    }
     ModelType m(model);
     m.set_tunable_params_values(param_values);
     return m.log_likelihood(dataset);
diff --git a/include/albatross/src/samplers/initialization.hpp b/include/albatross/src/samplers/initialization.hpp
index 9271151..bafd568 100644
--- a/include/albatross/src/samplers/initialization.hpp
+++ b/include/albatross/src/samplers/initialization.hpp
@@ -105,13 +105,16 @@ initial_params_from_jitter(const ParameterStore &params,
   n = std::max(n, 2 * params.size() + 1);
 
   std::vector<std::vector<double>> output;
-  std::vector<double> double_params = get_tunable_parameters(params).values;
+  const TunableParameters tunable = get_tunable_parameters(params);
+  const std::vector<double> &double_params = tunable.values;
   output.push_back(double_params);
   for (std::size_t i = 0; i < n - 1; ++i) {
 
     std::vector<double> perturbed(double_params);
-    for (auto &d : perturbed) {
-      d += jitter_distribution(gen);
+    for (std::size_t j = 0; j < perturbed.size(); ++j) {
+      const double value = perturbed[j] + jitter_distribution(gen);
+      perturbed[j] = std::min(std::max(value, tunable.lower_bounds[j]),
+                              tunable.upper_bounds[j]);
     };
 
     output.push_back(perturbed);
-- 
2.43.0


From e0112bc45879e7f28278dd8835ab2b24e5a86af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:21 +0000
Subject: [PATCH 55/59] fix: apply with a thread pool left tasks running when
 one of them threw

---
 include/albatross/src/utils/async_utils.hpp | 22 +++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/include/albatross/src/utils/async_utils.hpp b/include/albatross/src/utils/async_utils.hpp
index 3239325..d59e734 100644
--- a/include/albatross/src/utils/async_utils.hpp
+++ b/include/albatross/src/utils/async_utils.hpp
@@ -21,6 +21,22 @@ inline bool should_serial_apply(ThreadPool *pool) {
   return (nullptr == pool) || (pool->thread_count() <= 1);
 }
 
+// Tasks may refer to variables which belong to the caller, so none of them can
+// be left running when the exception thrown by another one is passed on.
+template <typename T>
+inline void wait_for_all(const std::vector<std::future<T>> &futures) {
+  for (const auto &f : futures) {
+    f.wait();
+  }
+}
+
+template <typename KeyType, typename T>
+inline void wait_for_all(const Grouped<KeyType, std::future<T>> &futures) {
+  for (const auto &f : futures) {
+    f.second.wait();
+  }
+}
+
 } // namespace detail
 
 template <typename ValueType, typename ApplyFunction,
@@ -41,6 +57,7 @@ inline void apply(const std::vector<ValueType> &xs, const ApplyFunction &func,
   for (const auto &x : xs) {
     futures.emplace_back(pool->enqueue(func, x));
   }
+  detail::wait_for_all(futures);
   for (auto &f : futures) {
     f.get();
   }
@@ -64,6 +81,7 @@ inline auto apply(const std::vector<ValueType> &xs, const ApplyFunction &func,
     futures.emplace_back(pool->enqueue(func, x));
   }
 
+  detail::wait_for_all(futures);
   std::vector<ApplyType> output;
   for (auto &f : futures) {
     output.emplace_back(f.get());
@@ -90,6 +108,7 @@ inline void apply_map(const Map<KeyType, ValueType> &xs,
   for (const auto &x : xs) {
     futures.emplace_back(pool->enqueue(func, x.second));
   }
+  detail::wait_for_all(futures);
   for (auto &f : futures) {
     f.get();
   }
@@ -115,6 +134,7 @@ inline Grouped<KeyType, ApplyType> apply_map(const Map<KeyType, ValueType> &xs,
     futures[x.first] = pool->enqueue(func, x.second);
   }
 
+  detail::wait_for_all(futures);
   Grouped<KeyType, ApplyType> output;
   for (auto &f : futures) {
     output[f.first] = f.second.get();
@@ -142,6 +162,7 @@ inline void apply_map(const Map<KeyType, ValueType> &xs,
   for (const auto &x : xs) {
     futures.emplace_back(pool->enqueue(func, x.first, x.second));
   }
+  detail::wait_for_all(futures);
   for (auto &f : futures) {
     f.get();
   }
@@ -168,6 +189,7 @@ inline Grouped<KeyType, ApplyType> apply_map(const Map<KeyType, ValueType> &xs,
     futures[x.first] = pool->enqueue(func, x.first, x.second);
   }
 
+  detail::wait_for_all(futures);
   Grouped<KeyType, ApplyType> output;
   for (auto &f : futures) {
     output[f.first] = f.second.get();
-- 
2.43.0


From 4426f3963e1bb62049ce5e77e45f380b4978d0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:21 +0000
Subject: [PATCH 56/59] fix: printing more eigen directions than there are read
 out of range

---
 include/albatross/src/linalg/print_eigen_directions.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/albatross/src/linalg/print_eigen_directions.hpp b/include/albatross/src/linalg/print_eigen_directions.hpp
index 1bd3aba..3c25734 100644
--- a/include/albatross/src/linalg/print_eigen_directions.hpp
+++ b/include/albatross/src/linalg/print_eigen_directions.hpp
@@ -50,6 +50,7 @@ inline void _print_eigen_directions(const Eigen::MatrixXd &matrix,
 
   stream->flags(f);
 
+  count = std::min(count, values_and_vectors.size());
   for (std::size_t i = 0; i < count; ++i) {
     const double value = std::get<0>(values_and_vectors[i]);
     const auto vector = std::get<1>(values_and_vectors[i]);
-- 
2.43.0


From a91e28fd9f4fa2ad1b67d52bfc3f0548469393ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:21 +0000
Subject: [PATCH 57/59] fix: too few tunable values were read past their end

---
 include/albatross/src/core/parameters.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/albatross/src/core/parameters.hpp b/include/albatross/src/core/parameters.hpp
index 559da0c..8b02368 100644
--- a/include/albatross/src/core/parameters.hpp
+++ b/include/albatross/src/core/parameters.hpp
@@ -179,6 +179,7 @@ set_tunable_params_values(const ParameterStore &params,
   std::size_t i = 0;
   for (const auto &pair : params) {
     if (!pair.second.is_fixed()) {
+      ALBATROSS_ASSERT(i < x.size());
       double v = x[i];
       const bool use_log_scale = pair.second.prior.is_log_scale();
       if (use_log_scale) {
-- 
2.43.0


From dcb5c44047361e8f52640c1556c9c6b5fbec824d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:21 +0000
Subject: [PATCH 58/59] fix: state space representation of no features
 dereferenced their end

---
 include/albatross/src/covariance_functions/radial.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/albatross/src/covariance_functions/radial.hpp b/include/albatross/src/covariance_functions/radial.hpp
index 6b01955..93d9e8e 100644
--- a/include/albatross/src/covariance_functions/radial.hpp
+++ b/include/albatross/src/covariance_functions/radial.hpp
@@ -157,6 +157,9 @@ public:
   }
 
   std::vector<double> _ssr_impl(const std::vector<double> &xs) const {
+    if (xs.empty()) {
+      return xs;
+    }
     double min = *std::min_element(xs.begin(), xs.end());
     double max = *std::max_element(xs.begin(), xs.end());
 
@@ -256,6 +259,9 @@ public:
   ~Exponential() {}
 
   std::vector<double> _ssr_impl(const std::vector<double> &xs) const {
+    if (xs.empty()) {
+      return xs;
+    }
     double min = *std::min_element(xs.begin(), xs.end());
     double max = *std::max_element(xs.begin(), xs.end());
 
-- 
2.43.0


From 75e7e76a2aaee7b131ad9068c9a3d9592ca354be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:51 +0000
Subject: [PATCH 59/59] fix: get the joint predictions of a cross validation as
 a map

---
 include/albatross/src/evaluation/cross_validation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/evaluation/cross_validation.hpp b/include/albatross/src/evaluation/cross_validation.hpp
index b0e6cbe..aeedbef 100644
--- a/include/albatross/src/evaluation/cross_validation.hpp
+++ b/include/albatross/src/evaluation/cross_validation.hpp
@@ -234,11 +234,11 @@ private:
   auto get(get_type<JointDistribution>) const { return this->joint(); }
 
   auto get(get_type<std::map<GroupKey, JointDistribution>>) const {
-    return this->joints();
+    return this->joints().get_map();
   }
 
   auto get(get_type<Grouped<GroupKey, JointDistribution>>) const {
-    return this->joints().get_map();
+    return this->joints();
   }
 
   const ModelType model_;
-- 
2.43.0

