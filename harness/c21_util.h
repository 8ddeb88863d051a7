// Trace checker for the ensemble sampler.
#ifndef VERIF_C21_UTIL_H
#define VERIF_C21_UTIL_H

#include "vf.h"

#include <albatross/GP>
#include <albatross/Samplers>

namespace vfsample {
using namespace albatross;

inline bool same(const SamplerState &a, const SamplerState &b) {
  return a.params == b.params && a.log_prob == b.log_prob;
}

inline bool same_states(const EnsembleSamplerState &a,
                        const EnsembleSamplerState &b) {
  return a.size() == b.size() &&
         std::equal(a.begin(), a.end(), b.begin(),
                    [](const auto &x, const auto &y) {
                      return same(x, y) && x.accepted == y.accepted;
                    });
}

// What is recorded of the callbacks.
struct Recorder {
  std::vector<std::size_t> iterations;
  std::vector<EnsembleSamplerState> states;
  void operator()(std::size_t i, const EnsembleSamplerState &s) {
    iterations.push_back(i);
    states.push_back(s);
  }
};

// The density of a state, independent of the one which is sampled; inside
// tells whether the parameters are in the support.
template <typename Density, typename Inside>
void check_history(vf::Case &c, const std::vector<EnsembleSamplerState> &chain,
                   std::size_t walkers, std::size_t dims,
                   std::size_t iterations, Density &&density, Inside &&inside,
                   double tol = 0.) {
  VF_REQUIRE("history_length", chain.size() == iterations + 1,
             chain.size() << " for " << iterations);
  for (std::size_t t = 0; t < chain.size(); ++t) {
    VF_REQUIRE("one_state_per_walker", chain[t].size() == walkers,
               chain[t].size() << " of " << walkers);
    for (std::size_t k = 0; k < walkers; ++k) {
      const auto &s = chain[t][k];
      c.count("states");
      VF_REQUIRE("dimensions", s.params.size() == dims, s.params.size());
      VF_CHECK("finite_log_prob", std::isfinite(s.log_prob), s.log_prob);
      const double expected = density(s.params);
      VF_CHECK("log_prob_of_the_params",
               tol == 0. ? s.log_prob == expected
                         : std::abs(s.log_prob - expected) <=
                               tol * (1. + std::abs(expected)),
               s.log_prob << " instead of " << expected);
      VF_CHECK("within_support", inside(s.params), "iteration " << t);
      if (t > 0) {
        const auto &before = chain[t - 1][k];
        if (!s.accepted) {
          VF_CHECK("rejected_keeps_its_state", same(s, before),
                   "iteration " << t << " walker " << k);
          c.count("rejected");
        } else {
          VF_CHECK("accepted_has_moved", s.params != before.params,
                   "iteration " << t << " walker " << k);
          c.count("accepted");
        }
      }
    }
  }
}

inline void check_callbacks(vf::Case &c, const Recorder &r,
                            const std::vector<EnsembleSamplerState> &chain) {
  VF_REQUIRE("callback_per_iteration", r.iterations.size() == chain.size(),
             r.iterations.size());
  for (std::size_t t = 0; t < chain.size(); ++t) {
    VF_CHECK("callbacks_in_order", r.iterations[t] == t, r.iterations[t]);
    VF_CHECK("callback_gets_the_state", same_states(r.states[t], chain[t]), t);
  }
}

} // namespace vfsample

#endif
