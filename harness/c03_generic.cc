// C03: cross validation of models without a shortcut, folds and the helpers
// which put predictions back together.
#include "gp_oracle.h"

#include <albatross/Evaluation>
#include <albatross/LeastSquares>
#include <albatross/NullModel>

namespace vfuser_c03 {

using namespace albatross;

// A feature which knows who it is.
struct Item {
  std::uint64_t id = 0;
  long group = 0;
  bool operator==(const Item &o) const { return id == o.id; }
};

inline double hash_value(std::uint64_t id) {
  return static_cast<double>(vf::mix(id) % 1000003u);
}

struct MeanOnly;
struct MarginalOnly;
struct Everything;

struct Counters {
  std::size_t fits = 0;
};
inline Counters &counters() {
  static Counters c;
  return c;
}

} // namespace vfuser_c03

namespace albatross {
template <> struct Fit<vfuser_c03::MeanOnly> {
  double sum = 0.;
  std::size_t n = 0;
};
template <> struct Fit<vfuser_c03::MarginalOnly> {
  double sum = 0.;
  std::size_t n = 0;
};
template <> struct Fit<vfuser_c03::Everything> {
  double sum = 0.;
  std::size_t n = 0;
};
} // namespace albatross

namespace vfuser_c03 {

// Its predictions encode exactly what it was fitted to (sums of whole numbers,
// so independent of order and rounding).
inline double digest(const std::vector<Item> &items,
                     const MarginalDistribution &targets) {
  double s = 0.;
  for (std::size_t i = 0; i < items.size(); ++i) {
    const Eigen::Index e = static_cast<Eigen::Index>(i);
    s += hash_value(items[i].id) +
         hash_value(static_cast<std::uint64_t>(targets.mean[e]) + 77u) +
         hash_value(
             static_cast<std::uint64_t>(targets.covariance.diagonal()[e]) +
             1234567u);
  }
  return s;
}

inline double expected_mean(double sum, std::size_t n, const Item &t) {
  return sum + 3. * static_cast<double>(n) + hash_value(t.id + 31u);
}
inline double expected_variance(double sum, const Item &t) {
  return 1. + sum + hash_value(t.id + 5u);
}
inline double expected_covariance(const Item &a, const Item &b) {
  return hash_value(a.id + b.id + 17u) * 1e-9;
}

struct MeanOnly : public ModelBase<MeanOnly> {
  std::string get_name() const { return "mean_only"; }
  Fit<MeanOnly> _fit_impl(const std::vector<Item> &f,
                          const MarginalDistribution &t) const {
    ++counters().fits;
    return {digest(f, t), f.size()};
  }
  Eigen::VectorXd _predict_impl(const std::vector<Item> &f,
                                const Fit<MeanOnly> &fit,
                                PredictTypeIdentity<Eigen::VectorXd> &&) const {
    Eigen::VectorXd m(static_cast<Eigen::Index>(f.size()));
    for (std::size_t i = 0; i < f.size(); ++i)
      m[static_cast<Eigen::Index>(i)] = expected_mean(fit.sum, fit.n, f[i]);
    return m;
  }
};

struct MarginalOnly : public ModelBase<MarginalOnly> {
  std::string get_name() const { return "marginal_only"; }
  Fit<MarginalOnly> _fit_impl(const std::vector<Item> &f,
                              const MarginalDistribution &t) const {
    return {digest(f, t), f.size()};
  }
  MarginalDistribution
  _predict_impl(const std::vector<Item> &f, const Fit<MarginalOnly> &fit,
                PredictTypeIdentity<MarginalDistribution> &&) const {
    Eigen::VectorXd m(static_cast<Eigen::Index>(f.size()));
    Eigen::VectorXd v = m;
    for (std::size_t i = 0; i < f.size(); ++i) {
      m[static_cast<Eigen::Index>(i)] = expected_mean(fit.sum, fit.n, f[i]);
      v[static_cast<Eigen::Index>(i)] = expected_variance(fit.sum, f[i]);
    }
    return MarginalDistribution(m, v);
  }
};

struct Everything : public ModelBase<Everything> {
  std::string get_name() const { return "everything"; }
  Fit<Everything> _fit_impl(const std::vector<Item> &f,
                            const MarginalDistribution &t) const {
    return {digest(f, t), f.size()};
  }
  JointDistribution
  _predict_impl(const std::vector<Item> &f, const Fit<Everything> &fit,
                PredictTypeIdentity<JointDistribution> &&) const {
    const Eigen::Index n = static_cast<Eigen::Index>(f.size());
    JointDistribution j(Eigen::VectorXd(n), Eigen::MatrixXd(n, n));
    for (Eigen::Index i = 0; i < n; ++i) {
      const Item &a = f[static_cast<std::size_t>(i)];
      j.mean[i] = expected_mean(fit.sum, fit.n, a);
      for (Eigen::Index k = 0; k < n; ++k)
        j.covariance(i, k) =
            expected_covariance(a, f[static_cast<std::size_t>(k)]);
      j.covariance(i, i) = expected_variance(fit.sum, a);
    }
    return j;
  }
};

// what a metric was given
inline double seen_all(const MarginalDistribution &p,
                       const MarginalDistribution &truth) {
  double s = 0.;
  for (Eigen::Index i = 0; i < p.mean.size(); ++i)
    s += p.mean[i] + 2. * p.covariance.diagonal()[i] + 3. * truth.mean[i] +
         5. * truth.covariance.diagonal()[i];
  return s + 0.5 * static_cast<double>(p.size());
}

inline double seen_mean_only(const Eigen::VectorXd &p,
                             const MarginalDistribution &truth) {
  return p.sum() + 3. * truth.mean.sum() + 0.5 * static_cast<double>(p.size());
}

typedef albatross::PredictionMetric<MarginalDistribution> Seen;
typedef albatross::PredictionMetric<Eigen::VectorXd> SeenMean;

inline long group_of(const Item &i) { return i.group; }
inline std::string name_of(const Item &i) {
  return "g" + std::to_string(i.group % 3);
}

} // namespace vfuser_c03

namespace {

using namespace vfgp;
using namespace vfuser_c03;
using albatross::Grouped;
using albatross::GroupIndexer;
using albatross::RegressionDataset;

RegressionDataset<Item> make_items(vf::Rng &g, std::size_t n) {
  std::vector<Item> items;
  Eigen::VectorXd m(static_cast<Eigen::Index>(n)), v = m;
  const long groups = g.wide(1, 6, 60);
  for (std::size_t i = 0; i < n; ++i) {
    items.push_back(Item{g.next() % 100000u, g.integer(0, static_cast<int>(groups) - 1) - 2});
    m[static_cast<Eigen::Index>(i)] = g.integer(0, 1000);
    v[static_cast<Eigen::Index>(i)] = g.integer(1, 1000);
  }
  return RegressionDataset<Item>(items, albatross::MarginalDistribution(m, v));
}

struct Fold {
  double sum = 0.;
  std::size_t n = 0;
};

Fold rest_of(const RegressionDataset<Item> &d,
             const std::vector<std::size_t> &ids) {
  Fold f;
  for (std::size_t i = 0; i < d.features.size(); ++i) {
    if (std::find(ids.begin(), ids.end(), i) != ids.end())
      continue;
    const Eigen::Index e = static_cast<Eigen::Index>(i);
    f.sum += hash_value(d.features[i].id) +
             hash_value(static_cast<std::uint64_t>(d.targets.mean[e]) + 77u) +
             hash_value(static_cast<std::uint64_t>(
                            d.targets.covariance.diagonal()[e]) +
                        1234567u);
    ++f.n;
  }
  return f;
}

template <typename K>
void check(vf::Case &c, const RegressionDataset<Item> &d,
           const GroupIndexer<K> &indexer, bool partition) {
  const MeanOnly m1;
  const MarginalOnly m2;
  const Everything m3;
  const auto p1 = m1.cross_validate().predict(d, indexer);
  const auto p2 = m2.cross_validate().predict(d, indexer);
  const auto p3 = m3.cross_validate().predict(d, indexer);
  const auto means1 = p1.means();
  const auto means2 = p2.means();
  const auto marginals2 = p2.marginals();
  const auto means3 = p3.means();
  const auto marginals3 = p3.marginals();
  const auto joints3 = p3.joints();
  const auto folds = albatross::folds_from_group_indexer(d, indexer);
  const auto from_folds = m3.cross_validate().predictions(folds);
  const auto by_model = albatross::get_predictions(m3, folds);
  const auto by_model_joints = albatross::get_joints(by_model);
  VF_REQUIRE("counts",
             means1.size() == indexer.size() && means2.size() == indexer.size() &&
                 marginals2.size() == indexer.size() &&
                 means3.size() == indexer.size() &&
                 marginals3.size() == indexer.size() &&
                 joints3.size() == indexer.size() &&
                 folds.size() == indexer.size() &&
                 from_folds.size() == indexer.size() &&
                 by_model.size() == indexer.size(),
             means1.size() << " for " << indexer.size());
  const std::size_t n = d.features.size();
  Eigen::VectorXd all_mean = Eigen::VectorXd::Zero(static_cast<Eigen::Index>(n));
  Eigen::VectorXd all_var = all_mean;
  std::vector<double> score_marginal, score_mean;
  for (const auto &kv : indexer) {
    const Fold f = rest_of(d, kv.second);
    const std::size_t size = kv.second.size();
    VF_REQUIRE("sizes",
               static_cast<std::size_t>(means1.at(kv.first).size()) == size &&
                   static_cast<std::size_t>(means3.at(kv.first).size()) ==
                       size &&
                   marginals2.at(kv.first).size() == size &&
                   marginals3.at(kv.first).size() == size &&
                   joints3.at(kv.first).size() == size &&
                   from_folds.at(kv.first).size() == size,
               size);
    double sm = 0.5 * static_cast<double>(size), sv = sm;
    const auto &fold = folds.at(kv.first);
    VF_CHECK("fold_indices", fold.test_indices == kv.second, "");
    VF_CHECK("fold_test", fold.test_dataset == albatross::subset(d, kv.second),
             "");
    VF_REQUIRE("fold_train_size",
               fold.train_dataset.size() == f.n &&
                   fold.train_dataset.features.size() == f.n,
               fold.train_dataset.size() << " for " << f.n);
    VF_CHECK("fold_train",
             digest(fold.train_dataset.features, fold.train_dataset.targets) ==
                 f.sum,
             "");
    const JointDistribution folded = from_folds.at(kv.first).joint();
    for (std::size_t i = 0; i < size; ++i) {
      const Eigen::Index ei = static_cast<Eigen::Index>(i);
      const Item &t = d.features[kv.second[i]];
      const double m = expected_mean(f.sum, f.n, t);
      const double v = expected_variance(f.sum, t);
      VF_CHECK("means", means1.at(kv.first)[ei] == m, means1.at(kv.first)[ei]);
      VF_CHECK("means_of_marginals", means2.at(kv.first)[ei] == m, "");
      VF_CHECK("means_of_joints", means3.at(kv.first)[ei] == m, "");
      VF_CHECK("marginals", marginals2.at(kv.first).mean[ei] == m &&
                                marginals2.at(kv.first)
                                        .covariance.diagonal()[ei] == v,
               "");
      VF_CHECK("marginals_of_joints",
               marginals3.at(kv.first).mean[ei] == m &&
                   marginals3.at(kv.first).covariance.diagonal()[ei] == v,
               "");
      VF_CHECK("joints", joints3.at(kv.first).mean[ei] == m &&
                             joints3.at(kv.first).covariance(ei, ei) == v,
               "");
      VF_CHECK("from_folds",
               folded.mean[ei] == m && folded.covariance(ei, ei) == v, "");
      VF_CHECK("by_model",
               by_model_joints.at(kv.first).mean[ei] == m &&
                   by_model_joints.at(kv.first).covariance(ei, ei) == v,
               "");
      for (std::size_t j = 0; j < size; ++j)
        if (i != j)
          VF_CHECK("joint_covariance",
                   joints3.at(kv.first).covariance(
                       ei, static_cast<Eigen::Index>(j)) ==
                       expected_covariance(t, d.features[kv.second[j]]),
                   "");
      all_mean[static_cast<Eigen::Index>(kv.second[i])] = m;
      all_var[static_cast<Eigen::Index>(kv.second[i])] = v;
      const Eigen::Index src = static_cast<Eigen::Index>(kv.second[i]);
      sv += m + 2. * v + 3. * d.targets.mean[src] +
            5. * d.targets.covariance.diagonal()[src];
      sm += m + 3. * d.targets.mean[src];
    }
    score_marginal.push_back(sv);
    score_mean.push_back(sm);
  }
  const Seen seen(seen_all);
  const SeenMean seen_mean(seen_mean_only);
  const Eigen::VectorXd scores[] = {
      m2.cross_validate().scores(seen, d, indexer),
      m3.cross_validate().scores(seen, d, indexer),
      m3.cross_validate().scores(seen, folds),
      m2.cross_validate().scores(seen, folds),
  };
  const Eigen::VectorXd mean_scores[] = {
      m1.cross_validate().scores(seen_mean, d, indexer),
      m2.cross_validate().scores(seen_mean, d, indexer),
      m3.cross_validate().scores(seen_mean, folds),
      m1.cross_validate().scores(seen_mean, folds),
      albatross::cross_validated_scores(seen_mean, folds, means1),
      albatross::cross_validated_scores(seen_mean, folds, marginals3),
      albatross::cross_validated_scores(seen_mean, folds, joints3),
  };
  for (const auto &s : scores) {
    VF_REQUIRE("score_size",
               static_cast<std::size_t>(s.size()) == score_marginal.size(),
               s.size());
    for (std::size_t i = 0; i < score_marginal.size(); ++i)
      VF_CLOSE("scores", s[static_cast<Eigen::Index>(i)], score_marginal[i],
               1e-12, 0.);
  }
  for (const auto &s : mean_scores) {
    VF_REQUIRE("mean_score_size",
               static_cast<std::size_t>(s.size()) == score_mean.size(),
               s.size());
    for (std::size_t i = 0; i < score_mean.size(); ++i)
      VF_CLOSE("mean_scores", s[static_cast<Eigen::Index>(i)], score_mean[i],
               1e-12, 0.);
  }
  VF_CHECK("indexer_back", albatross::group_indexer_from_folds(
                               folds.get_map()) == indexer,
           "");
  VF_CHECK("indexer_of_folds",
           albatross::group_indexer_from_folds(folds) == indexer, "");
  if (!partition)
    return;
  VF_CHECK("size_of_indexer",
           albatross::dataset_size_from_indexer(indexer) == n, "");
  VF_CHECK("size_of_folds", albatross::dataset_size_from_folds(folds) == n, "");
  VF_CHECK("mean", p1.mean() == all_mean && p2.mean() == all_mean &&
                       p3.mean() == all_mean,
           "");
  const auto a = p2.marginal(), b = p3.marginal();
  VF_CHECK("marginal",
           a.mean == all_mean && b.mean == all_mean &&
               a.covariance.diagonal() == all_var &&
               b.covariance.diagonal() == all_var,
           "");
  VF_CHECK("get", p3.template get<Eigen::VectorXd>() == all_mean &&
                      p3.template get<albatross::MarginalDistribution>() == b,
           "");
  VF_CHECK("concatenate",
           albatross::concatenate_mean_predictions(indexer, means3) ==
                   all_mean &&
               albatross::concatenate_marginal_predictions(indexer,
                                                           marginals3) == b &&
               albatross::concatenate_marginal_predictions(indexer, joints3)
                       .mean == all_mean,
           "");
}

VF_SECTION("tagged", 300, 20000) {
  vf::Rng &g = c.rng;
  const std::size_t n = g.coin(0.1) ? 1 : g.extent(2, 25, 150);
  const auto d = make_items(g, n);
  const int kind = g.integer(0, 4);
  c.desc << "n=" << n << " kind=" << kind << " id=" << d.features[0].id;
  c.reached();
  c.count("tagged_items", n);
  if (n == 1)
    c.count("one_item", 1);
  if (kind == 0) {
    GroupIndexer<long> indexer;
    for (std::size_t i = 0; i < n; ++i)
      indexer[d.features[i].group].push_back(i);
    check(c, d, indexer, true);
    const Everything m;
    VF_CHECK("by_grouper",
             m.cross_validate().predict(d, group_of).marginal() ==
                 m.cross_validate().predict(d, indexer).marginal(),
             "");
    const Seen seen(seen_all);
    VF_CHECK("scores_by_grouper",
             m.cross_validate().scores(seen, d, group_of) ==
                 m.cross_validate().scores(seen, d, indexer),
             "");
    const auto folds = albatross::folds_from_grouper(d, group_of);
    VF_CHECK("folds_by_grouper",
             albatross::group_indexer_from_folds(folds.get_map()) == indexer,
             "");
    const auto preds = m.cross_validate().predictions(d, group_of);
    VF_CHECK("predictions_by_grouper", preds.size() == indexer.size(), "");
    for (const auto &kv : indexer) {
      const Fold f = rest_of(d, kv.second);
      const Eigen::VectorXd mean = preds.at(kv.first).mean();
      for (std::size_t i = 0; i < kv.second.size(); ++i)
        VF_CHECK("prediction_by_grouper",
                 mean[static_cast<Eigen::Index>(i)] ==
                     expected_mean(f.sum, f.n, d.features[kv.second[i]]),
                 "");
    }
  } else if (kind == 1) {
    GroupIndexer<std::string> indexer;
    for (std::size_t i = 0; i < n; ++i)
      indexer[name_of(d.features[i])].push_back(i);
    check(c, d, indexer, true);
  } else if (kind == 2) {
    std::vector<std::size_t> order(n);
    for (std::size_t i = 0; i < n; ++i)
      order[i] = i;
    g.shuffle(order);
    GroupIndexer<int> indexer;
    const int groups = g.wide(1, 6, 60);
    for (auto i : order)
      indexer[(g.integer(1, groups) * 5) % 7].push_back(i);
    check(c, d, indexer, true);
  } else if (kind == 3) {
    check(c, d, d.group_by(albatross::LeaveOneOutGrouper()).indexers(), true);
    const Everything m;
    VF_CHECK("leave_one_out",
             m.cross_validate()
                     .predict(d, albatross::LeaveOneOutGrouper())
                     .means()
                     .size() == n,
             "");
  } else {
    GroupIndexer<int> indexer;
    const int groups = g.integer(1, 4);
    for (int k = 0; k < groups; ++k)
      indexer[k] = g.choose(n, g.size(1, n));
    check(c, d, indexer, false);
  }
}

VF_SECTION("library_models", 150, 10000) {
  vf::Rng &g = c.rng;
  const std::size_t n = g.size(4, 20);
  std::vector<double> x;
  Eigen::VectorXd y(static_cast<Eigen::Index>(n));
  for (std::size_t i = 0; i < n; ++i) {
    x.push_back(static_cast<double>(i) + g.uniform(-0.3, 0.3));
    y[static_cast<Eigen::Index>(i)] = 3. * g.normal();
  }
  const RegressionDataset<double> d(x, y);
  const std::size_t k = g.size(2, n);
  c.desc << "n=" << n << " k=" << k << " x0=" << x[0];
  c.reached();
  c.count("library_models", 1);
  const albatross::LinearRegression line;
  const auto cv = line.cross_validate().predict(d, albatross::KFoldGrouper(k));
  const Eigen::VectorXd means = cv.mean();
  VF_REQUIRE("size", static_cast<std::size_t>(means.size()) == n, means.size());
  const albatross::NullModel null;
  const auto nulls = null.cross_validate()
                         .predict(d, albatross::KFoldGrouper(k))
                         .marginal();
  for (std::size_t i = 0; i < n; ++i) {
    std::vector<std::size_t> rest;
    for (std::size_t j = 0; j < n; ++j)
      if (j % k != i % k)
        rest.push_back(j);
    const Eigen::Index ei = static_cast<Eigen::Index>(i);
    if (rest.size() >= 2) {
      LD sx = 0, sy = 0, sxx = 0, sxy = 0;
      for (auto j : rest) {
        const LD xj = x[j], yj = y[static_cast<Eigen::Index>(j)];
        sx += xj;
        sy += yj;
        sxx += xj * xj;
        sxy += xj * yj;
      }
      const LD m = static_cast<LD>(rest.size());
      const LD slope = (m * sxy - sx * sy) / (m * sxx - sx * sx);
      const LD expected = sy / m + slope * (x[i] - sx / m);
      VF_CLOSE("line", means[ei], static_cast<double>(expected), 1e-8, 1e-8);
    }
    const auto fold = null.fit(albatross::subset(d, rest))
                          .predict(std::vector<double>{x[i]})
                          .marginal();
    VF_CHECK("null", nulls.mean[ei] == fold.mean[0] &&
                         nulls.covariance.diagonal()[ei] ==
                             fold.covariance.diagonal()[0],
             "");
  }
}

} // namespace
