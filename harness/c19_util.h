// What a RANSAC output claims, judged against an oracle for the metrics.
#ifndef VERIF_C19_UTIL_H
#define VERIF_C19_UTIL_H

#include "gp_oracle.h"

#include <albatross/Evaluation>
#include <albatross/Ransac>
#include <boost/math/special_functions/gamma.hpp>

namespace vfransac {
using namespace albatross;
using vfgp::LD;
using vfgp::LM;
using vfgp::LV;

inline bool close(double a, LD b, double tol) {
  if (std::isnan(a) || std::isnan(b)) {
    return std::isnan(a) && std::isnan(b);
  }
  if (std::isinf(a) || std::isinf(b)) {
    return a == static_cast<double>(b);
  }
  return fabsl(a - b) <= tol * (1.L + fabsl(b));
}

// Data is (y - mean), cov the full covariance.
inline LD mahalanobis(const LV &d, const LM &cov) {
  const LV s = vfgp::solve(cov, d);
  LD q = 0.L;
  for (std::size_t i = 0; i < d.size(); ++i) {
    q += d[i] * s[i];
  }
  return q;
}

inline LD nll(const LV &d, const LM &cov) {
  return 0.5L * (mahalanobis(d, cov) + vfgp::log_det(cov) +
                 static_cast<LD>(d.size()) * logl(2.L * acosl(-1.L)));
}

inline LD chi_squared(const LV &d, const LM &cov) {
  if (d.empty()) {
    return 1.L;
  }
  return boost::math::gamma_p(0.5L * static_cast<LD>(d.size()),
                              0.5L * mahalanobis(d, cov));
}

template <typename Key> struct Judge {
  // of a group given the candidates
  std::function<LD(const std::vector<Key> &, const Key &)> inlier;
  // of a consensus
  std::function<LD(const std::vector<Key> &)> consensus;
  // 1 valid, 0 invalid, -1 too close to tell
  std::function<int(const std::vector<Key> &)> valid;
  double inlier_tol = 1e-6;
  double consensus_tol = 1e-6;
};

template <typename Key>
void judge(vf::Case &c, const RansacOutput<Key> &out,
           const std::vector<Key> &keys, const RansacConfig &config,
           const Judge<Key> &oracle) {
  const std::set<Key> all(keys.begin(), keys.end());
  const bool sizes_ok =
      config.random_sample_size >= 1 && config.random_sample_size < keys.size() &&
      config.min_consensus_size >= config.random_sample_size &&
      config.min_consensus_size < keys.size() && config.max_iterations >= 1;
  if (!sizes_ok) {
    VF_CHECK("invalid_arguments_reported",
             out.return_code == RANSAC_RETURN_CODE_INVALID_ARGUMENTS,
             to_string(out.return_code));
    c.count("invalid_arguments");
    return;
  }
  std::size_t used = 0, failed = 0;
  bool any = false;
  double best = NAN;
  for (const auto &it : out.iterations) {
    c.count("iterations");
    const std::set<Key> cands(it.candidates.begin(), it.candidates.end());
    VF_CHECK("candidates", cands.size() == it.candidates.size() &&
                               cands.size() == config.random_sample_size,
             cands.size());
    const int valid = oracle.valid ? oracle.valid(it.candidates) : 1;
    // Only a single group could leave nothing to be judged.
    const bool was_used = !it.inliers.empty() || !it.outliers.empty();
    if (!was_used) {
      ++failed;
      VF_CHECK("valid_candidates_are_used", valid != 1, "");
      c.count("invalid_candidates");
      continue;
    }
    VF_CHECK("invalid_candidates_are_not_used", valid != 0, "");
    ++used;
    std::set<Key> seen = cands;
    for (const auto &p : it.inliers) {
      seen.insert(p.first);
      VF_CHECK("inlier_within_threshold", p.second <= config.inlier_threshold,
               p.second);
      const LD expected = oracle.inlier(it.candidates, p.first);
      VF_CHECK("inlier_metric", close(p.second, expected, oracle.inlier_tol),
               p.second << " expected " << static_cast<double>(expected));
    }
    for (const auto &p : it.outliers) {
      seen.insert(p.first);
      VF_CHECK("outlier_beyond_threshold",
               !(p.second <= config.inlier_threshold), p.second);
      const LD expected = oracle.inlier(it.candidates, p.first);
      VF_CHECK("outlier_metric", close(p.second, expected, oracle.inlier_tol),
               p.second << " expected " << static_cast<double>(expected));
    }
    VF_CHECK("groups_partitioned",
             seen == all && cands.size() + it.inliers.size() +
                                    it.outliers.size() ==
                                all.size(),
             seen.size() << " of " << all.size());
    const auto consensus = it.consensus();
    if (consensus.size() >= config.min_consensus_size) {
      const LD expected = oracle.consensus(consensus);
      VF_CHECK("consensus_metric",
               close(it.consensus_metric_value, expected, oracle.consensus_tol),
               it.consensus_metric_value << " expected "
                                         << static_cast<double>(expected));
      if (!any || std::isnan(best) || it.consensus_metric_value < best) {
        best = it.consensus_metric_value;
      }
      any = true;
      c.count("consensus_found");
    }
  }
  VF_CHECK("iteration_limit", used <= config.max_iterations, used);
  if (out.return_code == RANSAC_RETURN_CODE_EXCEEDED_MAX_FAILED_CANDIDATES) {
    VF_CHECK("truly_exceeded",
             failed > 0 && failed >= config.max_failed_candidates, failed);
    c.count("exceeded");
    return;
  }
  VF_CHECK("all_iterations_run", used == config.max_iterations, used);
  VF_CHECK("success_iff_consensus",
           any ? out.return_code == RANSAC_RETURN_CODE_SUCCESS
               : out.return_code == RANSAC_RETURN_CODE_NO_CONSENSUS,
           to_string(out.return_code));
  if (any) {
    VF_CHECK("best_metric", out.best.consensus_metric_value == best ||
                                (std::isnan(best) &&
                                 std::isnan(out.best.consensus_metric_value)),
             out.best.consensus_metric_value << " instead of " << best);
    bool found = false;
    for (const auto &it : out.iterations) {
      found = found || (it.candidates == out.best.candidates &&
                        it.inliers == out.best.inliers &&
                        it.outliers.size() == out.best.outliers.size());
    }
    VF_CHECK("best_is_an_iteration", found, "");
    c.count("successes");
  } else {
    VF_CHECK("nothing_claimed", out.best.consensus().empty(), "");
    c.count("no_consensus");
  }
}

inline RansacConfig random_config(vf::Rng &g, std::size_t n_groups,
                                  double threshold) {
  const std::size_t sample =
      n_groups >= 2 ? g.size(1, std::min<std::size_t>(n_groups - 1, 4)) : 1;
  const std::size_t min_size =
      n_groups >= 2 ? g.size(sample, n_groups - 1) : 1;
  return RansacConfig(threshold, sample,
                      g.coin(0.5) ? sample : min_size, g.size(1, 8),
                      g.size(1, 12));
}

// The items of some groups in the order of the dataset.
template <typename Key>
std::vector<std::size_t> items_of(const GroupIndexer<Key> &indexer,
                                  const std::vector<Key> &keys) {
  std::vector<std::size_t> out;
  for (const auto &k : keys) {
    for (auto i : indexer.at(k)) {
      out.push_back(i);
    }
  }
  std::sort(out.begin(), out.end());
  return out;
}

} // namespace vfransac

#endif
