// C19: the RANSAC loop itself, driven by recorded callbacks and judged by an
// offline checker over what was called and what was reported.
#include "vf.h"

#include <albatross/GP>
#include <albatross/Evaluation>
#include <albatross/Ransac>

namespace {
using namespace albatross;

template <typename Key> Key make_key(std::size_t i);
template <> std::size_t make_key(std::size_t i) { return 3 * i + 1; }
template <> int make_key(std::size_t i) {
  return (i % 2 ? -1 : 1) * static_cast<int>(7 * i + 2);
}
template <> std::string make_key(std::size_t i) {
  return std::string(1 + i % 3, static_cast<char>('a' + i % 26)) +
         std::to_string(i);
}

template <typename Key> std::uint64_t hash_key(const Key &k) {
  std::ostringstream os;
  os << k;
  return vf::hash_str(os.str());
}

// Order independent.
template <typename Key> std::uint64_t hash_keys(const std::vector<Key> &ks) {
  std::uint64_t h = 0x9e37;
  for (const auto &k : ks) {
    h += vf::mix(hash_key(k) + 17);
  }
  return h;
}

double unit(std::uint64_t h) {
  return static_cast<double>(vf::mix(h + 5) >> 11) /
         static_cast<double>(1ull << 53);
}

template <typename Key> struct LoopFit {
  std::vector<Key> candidates;
  std::size_t id;
};

template <typename Key> struct Call {
  std::vector<Key> candidates; // asked about (is_valid_candidate)
  bool valid = true;
  std::vector<std::vector<Key>> fitted;
  std::vector<std::pair<Key, double>> scored;
  std::vector<std::pair<std::vector<Key>, double>> consensus;
};

// Equality for which a NaN metric is the same as another.
template <typename Key>
bool alike(const RansacIteration<Key> &a, const RansacIteration<Key> &b) {
  const auto value = [](double x, double y) {
    return x == y || (std::isnan(x) && std::isnan(y));
  };
  const auto metrics = [&](const std::map<Key, double> &x,
                           const std::map<Key, double> &y) {
    return x.size() == y.size() &&
           std::equal(x.begin(), x.end(), y.begin(),
                      [&](const auto &p, const auto &q) {
                        return p.first == q.first && value(p.second, q.second);
                      });
  };
  return a.candidates == b.candidates && metrics(a.inliers, b.inliers) &&
         metrics(a.outliers, b.outliers) &&
         value(a.consensus_metric_value, b.consensus_metric_value);
}
template <typename Key>
bool alike(const RansacOutput<Key> &a, const RansacOutput<Key> &b) {
  return a.return_code == b.return_code && alike(a.best, b.best) &&
         a.iterations.size() == b.iterations.size() &&
         std::equal(a.iterations.begin(), a.iterations.end(),
                    b.iterations.begin(),
                    [](const auto &x, const auto &y) { return alike(x, y); });
}

struct Behaviour {
  std::uint64_t salt;
  double p_invalid;  // of candidates
  double spread;     // of the inlier metric
  double threshold;
  int consensus_mode;
};

template <typename Key> void loop_case(vf::Case &c, const char *type) {
  auto &g = c.rng;
  const std::size_t n = g.extent(1, 14, 80);
  std::vector<Key> keys;
  GroupIndexer<Key> indexer;
  for (std::size_t i = 0; i < n; ++i) {
    const Key k = make_key<Key>(i);
    indexer[k] = {i};
  }
  for (const auto &pair : indexer) {
    keys.push_back(pair.first);
  }
  const bool sensible = n >= 2 && g.coin(0.9);
  const std::size_t sample =
      sensible ? g.size(1, std::min<std::size_t>(n - 1, 5)) : g.size(0, n + 1);
  const std::size_t min_consensus =
      sensible ? g.size(sample, n - 1) : g.size(0, n + 1);
  const std::size_t iterations = sensible ? g.size(1, 25) : g.size(0, 5);
  const std::size_t max_failed = g.coin(0.2) ? g.size(0, 2) : g.size(1, 40);

  Behaviour b;
  b.salt = g.next();
  b.p_invalid = g.coin(0.4) ? 0. : g.pick(std::vector<double>{0.1, 0.5, 0.95, 1.});
  b.spread = g.pick(std::vector<double>{1., 1., 2., 10.});
  b.threshold = g.pick(std::vector<double>{
      0.5, 0.5, 0.25, 1., -1., 0., std::numeric_limits<double>::infinity(),
      -std::numeric_limits<double>::infinity()});
  b.consensus_mode = static_cast<int>(g.size(0, 4));
  c.desc << type << " n=" << n << " sample=" << sample
         << " min=" << min_consensus << " iterations=" << iterations
         << " failed=" << max_failed << " invalid=" << b.p_invalid
         << " threshold=" << b.threshold << " mode=" << b.consensus_mode
         << "; ";

  const auto is_valid = [b](const std::vector<Key> &ks) {
    return unit(hash_keys(ks) ^ b.salt ^ 1) >= b.p_invalid;
  };
  const auto metric_of = [b](const Key &k, const std::vector<Key> &cands) {
    const std::uint64_t h = hash_keys(cands) ^ vf::mix(hash_key(k) ^ b.salt);
    const double u = unit(h);
    if (u < 0.05)
      return b.threshold; // exactly on the threshold
    if (u < 0.08)
      return static_cast<double>(NAN);
    if (u < 0.1)
      return std::numeric_limits<double>::infinity();
    return b.spread * unit(h ^ 99);
  };
  const auto quality = [b](const std::vector<Key> &ks) {
    const std::uint64_t h = hash_keys(ks) ^ b.salt ^ 77;
    switch (b.consensus_mode) {
    case 0:
      return -static_cast<double>(ks.size()); // many ties
    case 1:
      return unit(h) < 0.3 ? static_cast<double>(NAN) : unit(h ^ 3);
    case 2:
      return static_cast<double>(NAN);
    case 3:
      return unit(h) < 0.5 ? std::numeric_limits<double>::infinity()
                           : -unit(h ^ 3);
    default:
      return 200. * unit(h ^ 3) - 100.;
    }
  };

  std::vector<Call<Key>> log;
  std::size_t next_id = 0;
  std::size_t stray = 0; // calls which belong to no candidates
  RansacFunctions<LoopFit<Key>, Key> functions(
      [&](const std::vector<Key> &ks) {
        if (log.empty())
          ++stray;
        else
          log.back().fitted.push_back(ks);
        return LoopFit<Key>{ks, next_id++};
      },
      [&](const Key &k, const LoopFit<Key> &fit) {
        const double v = metric_of(k, fit.candidates);
        if (log.empty() || fit.id + 1 != next_id)
          ++stray;
        else
          log.back().scored.push_back({k, v});
        return v;
      },
      [&](const std::vector<Key> &ks) {
        const double v = quality(ks);
        if (log.empty())
          ++stray;
        else
          log.back().consensus.push_back({ks, v});
        return v;
      },
      [&](const std::vector<Key> &ks) {
        Call<Key> call;
        call.candidates = ks;
        call.valid = is_valid(ks);
        log.push_back(call);
        return call.valid;
      });

  const auto out = ransac(functions, keys, b.threshold, sample, min_consensus,
                          iterations, max_failed);
  const auto calls = log;
  c.count("loops");
  VF_CHECK("no_stray_calls", stray == 0, stray);

  const bool sizes_ok = sample >= 1 && sample < n && min_consensus >= sample &&
                        min_consensus < n && iterations >= 1;
  if (!sizes_ok) {
    VF_CHECK("invalid_arguments_reported",
             out.return_code == RANSAC_RETURN_CODE_INVALID_ARGUMENTS,
             to_string(out.return_code));
    VF_CHECK("invalid_arguments_do_nothing",
             calls.empty() && out.iterations.empty() &&
                 out.best.consensus().empty(),
             calls.size() << " calls");
    VF_CHECK("not_success", !ransac_success(out.return_code), "");
    c.count("invalid_arguments");
    c.reached();
    return;
  }
  VF_CHECK("arguments_accepted",
           out.return_code != RANSAC_RETURN_CODE_INVALID_ARGUMENTS &&
               out.return_code != RANSAC_RETURN_CODE_INVALID &&
               out.return_code != RANSAC_RETURN_CODE_FAILURE,
           to_string(out.return_code));

  // Each iteration.
  VF_REQUIRE("one_iteration_per_candidates",
             out.iterations.size() == calls.size(),
             out.iterations.size() << " iterations of " << calls.size());
  const std::set<Key> all(keys.begin(), keys.end());
  std::size_t used = 0, failed = 0;
  bool any = false;
  double best = NAN;
  std::size_t best_at = 0;
  bool best_is_number = false;
  for (std::size_t i = 0; i < calls.size(); ++i) {
    const auto &it = out.iterations[i];
    const auto &call = calls[i];
    c.count("iterations");
    VF_CHECK("candidates_recorded", it.candidates == call.candidates, i);
    const std::set<Key> cands(it.candidates.begin(), it.candidates.end());
    VF_CHECK("candidates_distinct", cands.size() == it.candidates.size(), i);
    VF_CHECK("candidates_count", it.candidates.size() == sample,
             it.candidates.size());
    bool known = true;
    for (const auto &k : cands) {
      known = known && all.count(k);
    }
    VF_CHECK("candidates_from_dataset", known, i);
    if (!call.valid) {
      ++failed;
      VF_CHECK("invalid_candidates_unused",
               call.fitted.empty() && call.scored.empty() &&
                   call.consensus.empty() && it.inliers.empty() &&
                   it.outliers.empty() &&
                   std::isnan(it.consensus_metric_value),
               i);
      c.count("invalid_candidates");
      continue;
    }
    ++used;
    VF_CHECK("fitted_to_candidates",
             call.fitted.size() == 1 && call.fitted[0] == it.candidates, i);
    std::set<Key> scored;
    for (const auto &s : call.scored) {
      scored.insert(s.first);
    }
    VF_CHECK("each_group_scored_once", scored.size() == call.scored.size(), i);
    // The partition.
    std::set<Key> seen = cands;
    std::size_t total = cands.size();
    for (const auto &in : it.inliers) {
      seen.insert(in.first);
      ++total;
      VF_CHECK("inlier_within_threshold", in.second <= b.threshold,
               in.second << " > " << b.threshold);
      VF_CHECK("inlier_metric_is_what_was_computed",
               in.second == metric_of(in.first, it.candidates), in.second);
    }
    for (const auto &o : it.outliers) {
      seen.insert(o.first);
      ++total;
      const double m = metric_of(o.first, it.candidates);
      VF_CHECK("outlier_beyond_threshold", !(o.second <= b.threshold),
               o.second << " <= " << b.threshold);
      VF_CHECK("outlier_metric_is_what_was_computed",
               o.second == m || (std::isnan(o.second) && std::isnan(m)),
               o.second);
    }
    VF_CHECK("groups_partitioned", total == n && seen == all,
             "iteration " << i << ": " << total << " of " << n);
    // The consensus.
    const auto consensus = it.consensus();
    std::set<Key> expected = cands;
    for (const auto &in : it.inliers) {
      expected.insert(in.first);
    }
    VF_CHECK("consensus_is_candidates_and_inliers",
             consensus.size() == expected.size() &&
                 std::set<Key>(consensus.begin(), consensus.end()) == expected,
             i);
    if (consensus.size() >= min_consensus) {
      c.count("consensus_found");
      VF_REQUIRE("consensus_evaluated", call.consensus.size() == 1, i);
      const auto &asked = call.consensus[0];
      VF_CHECK("consensus_evaluated_with_its_groups",
               std::set<Key>(asked.first.begin(), asked.first.end()) ==
                       expected &&
                   asked.first.size() == expected.size(),
               i);
      const double v = quality(consensus);
      VF_CHECK("consensus_metric_recorded",
               it.consensus_metric_value == v ||
                   (std::isnan(v) && std::isnan(it.consensus_metric_value)),
               it.consensus_metric_value << " " << v);
      if (!any || (!best_is_number && !std::isnan(v)) || v < best) {
        best = v;
        best_at = i;
        best_is_number = !std::isnan(v);
      }
      any = true;
    } else {
      c.count("consensus_too_small");
      VF_CHECK("small_consensus_has_no_metric",
               std::isnan(it.consensus_metric_value), i);
    }
  }

  // The limits and the return code.
  VF_CHECK("iteration_limit", used <= iterations,
           used << " of " << iterations);
  if (out.return_code == RANSAC_RETURN_CODE_EXCEEDED_MAX_FAILED_CANDIDATES) {
    VF_CHECK("truly_exceeded",
             failed > 0 && failed >= max_failed && !calls.back().valid,
             failed << " of " << max_failed);
    c.count("exceeded");
  } else {
    VF_CHECK("all_iterations_run", used == iterations,
             used << " of " << iterations);
    VF_CHECK("failed_candidates_within_limit",
             failed == 0 || failed < max_failed,
             failed << " of " << max_failed);
    VF_CHECK("success_iff_consensus",
             ransac_success(out.return_code) == any &&
                 (any || out.return_code == RANSAC_RETURN_CODE_NO_CONSENSUS),
             to_string(out.return_code));
    if (any) {
      const double got = out.best.consensus_metric_value;
      VF_CHECK("best_metric_is_the_lowest",
               got == best || (std::isnan(got) && std::isnan(best)),
               got << " instead of " << best);
      const bool is_one_of_them =
          std::any_of(out.iterations.begin(), out.iterations.end(),
                      [&](const auto &it) { return alike(it, out.best); });
      VF_CHECK("best_is_one_of_the_iterations", is_one_of_them, best_at);
      VF_CHECK("best_is_large_enough",
               out.best.consensus().size() >= min_consensus,
               out.best.consensus().size());
      c.count("successes");
    } else {
      VF_CHECK("no_best_without_consensus", out.best.consensus().empty(), "");
      c.count("no_consensus");
    }
  }

  // The other ways to call it, and once more.
  {
    log.clear();
    RansacConfig config(b.threshold, sample, min_consensus, iterations,
                        max_failed);
    const auto again = ransac(functions, indexer, config);
    VF_CHECK("reproducible_with_config", alike(again, out), "");
    if (max_failed == iterations || failed == 0) {
      log.clear();
      const auto third = ransac(functions, indexer, b.threshold, sample,
                                min_consensus, iterations);
      VF_CHECK("reproducible_with_indexer", alike(third, out), "");
    }
    if (b.p_invalid == 0.) {
      log.clear();
      Call<Key> only;
      log.push_back(only);
      RansacFunctions<LoopFit<Key>, Key> accepts(
          functions.fitter, functions.inlier_metric,
          functions.consensus_metric);
      const auto fourth = ransac(accepts, keys, b.threshold, sample,
                                 min_consensus, iterations, 0);
      VF_CHECK("candidates_accepted_by_default", alike(fourth, out), "");
    }
  }
  // Printing goes to the stream.
  std::ostringstream os;
  os << out;
  VF_CHECK("printed", os.str().find(to_string(out.return_code)) !=
                          std::string::npos,
           "");
  c.reached();
}

VF_SECTION("loop_size_t", 250, 6000) {
  loop_case<std::size_t>(c, "size_t");
}
VF_SECTION("loop_int", 150, 4000) { loop_case<int>(c, "int"); }
VF_SECTION("loop_string", 150, 4000) { loop_case<std::string>(c, "string"); }

// Which groups are drawn as candidates.
VF_SECTION("uniform_candidates", 12, 120) {
  auto &g = c.rng;
  const std::size_t n = g.size(2, 7);
  const std::size_t k = g.size(1, n - 1);
  const std::size_t draws = 20000;
  c.desc << "n=" << n << " k=" << k << "; ";
  std::vector<std::size_t> groups;
  for (std::size_t i = 0; i < n; ++i) {
    groups.push_back(10 * i);
  }
  std::map<std::vector<std::size_t>, std::size_t> seen;
  std::vector<std::vector<std::size_t>> asked;
  RansacFunctions<int, std::size_t> functions(
      [&](const std::vector<std::size_t> &ks) {
        asked.push_back(ks);
        return 0;
      },
      [](const std::size_t &, const int &) { return 1.; },
      [](const std::vector<std::size_t> &) { return 0.; });
  ransac(functions, groups, 0., k, k, draws, 0);
  VF_REQUIRE("draws", asked.size() == draws, asked.size());
  for (auto ks : asked) {
    std::sort(ks.begin(), ks.end());
    seen[ks]++;
  }
  double subsets = 1.;
  for (std::size_t i = 0; i < k; ++i) {
    subsets = subsets * static_cast<double>(n - i) / static_cast<double>(i + 1);
  }
  subsets = std::round(subsets);
  VF_CHECK("every_subset_is_drawn", static_cast<double>(seen.size()) == subsets,
           seen.size() << " of " << subsets);
  const double expected = static_cast<double>(draws) / subsets;
  for (const auto &pair : seen) {
    const double z = (static_cast<double>(pair.second) - expected) /
                     std::sqrt(expected);
    c.observe_max("subset_frequency_sigma", std::abs(z));
    VF_CHECK("subsets_equally_likely", std::abs(z) < 8.,
             pair.second << " instead of " << expected);
  }
  c.count("uniform_draws", draws);
  c.reached();
}

VF_SECTION("sampling_without_replacement", 60, 1500) {
  auto &g = c.rng;
  const std::size_t low = g.coin() ? 0 : g.size(1, 50);
  const std::size_t n = g.extent(1, 40, 500);
  const std::size_t high = low + n - 1;
  const std::size_t k = g.coin(0.2) ? (g.coin() ? n : 0) : g.size(0, n);
  c.desc << "k=" << k << " of [" << low << ", " << high << "]; ";
  std::default_random_engine gen(
      static_cast<std::default_random_engine::result_type>(g.next() % 100000));
  for (int r = 0; r < 20; ++r) {
    const auto x = randint_without_replacement(k, low, high, gen);
    const std::set<std::size_t> s(x.begin(), x.end());
    VF_CHECK("count", x.size() == k, x.size());
    VF_CHECK("distinct", s.size() == x.size(), s.size());
    VF_CHECK("in_range",
             s.empty() || (*s.begin() >= low && *s.rbegin() <= high),
             *s.begin());
    std::vector<std::string> names;
    for (std::size_t i = 0; i < n; ++i) {
      names.push_back("x" + std::to_string(i));
    }
    const auto y = random_without_replacement(names, k, gen);
    const std::set<std::string> t(y.begin(), y.end());
    VF_CHECK("elements_count", y.size() == k, y.size());
    VF_CHECK("elements_distinct", t.size() == y.size(), t.size());
    bool known = true;
    for (const auto &name : y) {
      known = known &&
              std::find(names.begin(), names.end(), name) != names.end();
    }
    VF_CHECK("elements_known", known, "");
  }
  c.count("samples");
  c.reached();
}

} // namespace
