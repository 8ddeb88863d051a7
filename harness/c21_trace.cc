// C21: histories of the ensemble sampler over all kinds of objectives.
#include "c21_util.h"

namespace {
using namespace vfsample;

// An objective with holes, walls and values which are no numbers.
struct Landscape {
  int kind = 0;
  std::vector<double> center, scale;
  double operator()(const std::vector<double> &x) const {
    double q = 0.;
    for (std::size_t i = 0; i < x.size(); ++i) {
      const double d = (x[i] - center[i]) / scale[i];
      q += d * d;
    }
    switch (kind) {
    case 1: // a wall
      return x[0] > center[0] + 0.5 * scale[0]
                 ? -std::numeric_limits<double>::infinity()
                 : -0.5 * q;
    case 2: // not a number
      return x[0] > center[0] + 0.5 * scale[0]
                 ? std::numeric_limits<double>::quiet_NaN()
                 : -0.5 * q;
    case 3: // infinitely good somewhere
      return std::abs(x[0] - center[0]) > 0.7 * scale[0]
                 ? std::numeric_limits<double>::infinity()
                 : -0.5 * q;
    case 4: // flat in a box
      for (std::size_t i = 0; i < x.size(); ++i) {
        if (std::abs(x[i] - center[i]) > scale[i]) {
          return -LARGE_VAL;
        }
      }
      return 3.;
    case 5: // heavy tails
      return -static_cast<double>(x.size()) * std::log1p(q);
    case 6: // holes
      return !(std::abs(std::remainder(x[0] / scale[0], 1.)) < 0.4)
                 ? std::numeric_limits<double>::quiet_NaN()
                 : -0.5 * q;
    case 7: // large values
      return 1e8 - 50. * q;
    default:
      return -0.5 * q;
    }
  }
};

VF_SECTION("histories", 150, 3000) {
  auto &g = c.rng;
  Landscape f;
  const std::size_t dims = g.extent(1, 5, 20);
  f.kind = static_cast<int>(g.size(0, 7));
  for (std::size_t i = 0; i < dims; ++i) {
    f.center.push_back(g.coin(0.3) ? 0. : 10. * g.normal());
    f.scale.push_back(g.log_uniform(1e-3, 1e3));
  }
  const std::size_t walkers = g.extent(3, 24, 120);
  const std::size_t iterations = g.coin(0.15) ? g.size(0, 1) : g.size(2, 40);
  c.desc << "kind=" << f.kind << " dims=" << dims << " walkers=" << walkers
         << " iterations=" << iterations << "; ";
  std::vector<std::vector<double>> initial;
  std::size_t good = 0, bad = 0;
  const double p_bad = g.pick(std::vector<double>{0., 0.3, 0.7});
  // Different states which are equally good.
  const bool ties = g.coin(0.35);
  if (ties) {
    for (auto &x : f.center) {
      x = 0.;
    }
    c.desc << "tied; ";
  }
  std::vector<double> last_good;
  for (std::size_t k = 0; k < walkers; ++k) {
    std::vector<double> x;
    // three good ones to start from
    const bool want_bad = k >= 3 && g.coin(p_bad);
    for (int attempt = 0;; ++attempt) {
      x.clear();
      for (std::size_t i = 0; i < dims; ++i) {
        x.push_back(f.center[i] +
                    f.scale[i] * (want_bad ? 4. : 0.3) * g.normal());
      }
      if (want_bad && g.coin(0.3)) {
        x[g.size(0, dims - 1)] =
            g.coin() ? NAN : std::numeric_limits<double>::infinity();
      }
      if (ties && !want_bad && !last_good.empty() && attempt < 4) {
        x = last_good;
        for (auto &v : x) {
          v = g.coin(0.7) ? -v : v;
        }
      }
      if (want_bad || std::isfinite(f(x))) {
        break;
      }
    }
    if (!want_bad) {
      last_good = x;
    }
    bool finite = std::isfinite(f(x));
    for (auto v : x) {
      finite = finite && std::isfinite(v);
    }
    (finite ? good : bad) += 1;
    initial.push_back(x);
  }
  g.shuffle(initial);
  const auto inside = [&](const std::vector<double> &x) {
    for (auto v : x) {
      if (!std::isfinite(v))
        return false;
    }
    return std::isfinite(f(x));
  };

  const auto seed =
      static_cast<std::default_random_engine::result_type>(g.next() % 1000000);
  std::default_random_engine gen(seed);
  Recorder recorder;
  std::size_t evaluations = 0;
  const auto counted = [&](const std::vector<double> &x) {
    ++evaluations;
    return f(x);
  };
  const auto chain =
      ensemble_sampler(counted, initial, iterations, gen, recorder);
  check_history(c, chain, walkers, dims, iterations, f, inside);
  check_callbacks(c, recorder, chain);
  c.count("evaluations", evaluations);
  // The finite initial states are all among the first ones.
  for (const auto &x : initial) {
    if (inside(x)) {
      bool found = false;
      for (const auto &s : chain[0]) {
        found = found || s.params == x;
      }
      VF_CHECK("finite_initial_states_are_kept", found, "");
    }
  }
  if (bad > 0) {
    c.count("bad_initial_states", bad);
    std::size_t tied = 0;
    for (std::size_t i = 0; i < initial.size(); ++i) {
      for (std::size_t j = 0; j < i; ++j) {
        tied += inside(initial[i]) && inside(initial[j]) &&
                initial[i] != initial[j] && f(initial[i]) == f(initial[j]);
      }
    }
    c.count("tied_initial_states", tied);
  }

  // Again: with the same seed, from the states, with objectives of other
  // kinds (references, temporaries, function objects).
  {
    std::default_random_engine again(seed);
    EnsembleSamplerState states;
    for (const auto &x : initial) {
      states.push_back(SamplerState{x, f(x), true});
    }
    const auto other = ensemble_sampler(f, states, iterations, again);
    VF_REQUIRE("same_length", other.size() == chain.size(), other.size());
    bool equal = true;
    for (std::size_t t = 0; t < chain.size(); ++t) {
      equal = equal && same_states(chain[t], other[t]);
    }
    VF_CHECK("reproducible_from_states", equal, "");
    VF_CHECK("same_generator_state", gen == again, "");
  }
  {
    std::default_random_engine again(seed);
    const auto other =
        ensemble_sampler(Landscape(f), initial, iterations, again, Recorder());
    bool equal = other.size() == chain.size();
    for (std::size_t t = 0; equal && t < chain.size(); ++t) {
      equal = same_states(chain[t], other[t]);
    }
    VF_CHECK("same_with_temporary_objective", equal, "");
  }
  {
    std::default_random_engine again(seed);
    using F = std::function<double(const std::vector<double> &)>;
    const auto other =
        ensemble_sampler(F(f), initial, iterations, again, NullCallback());
    bool equal = other.size() == chain.size();
    for (std::size_t t = 0; equal && t < chain.size(); ++t) {
      equal = same_states(chain[t], other[t]);
    }
    VF_CHECK("same_with_temporary_function", equal, "");
  }
  // The level of the log probability makes no difference.
  if (f.kind != 7) {
    const double level = (g.coin() ? -1. : 1.) * g.log_uniform(10., 1e5);
    std::default_random_engine again(seed);
    const auto moved = [&](const std::vector<double> &x) {
      return f(x) + level;
    };
    const auto other = ensemble_sampler(moved, initial, iterations, again);
    VF_REQUIRE("levels/length", other.size() == chain.size(), other.size());
    bool equal = true;
    for (std::size_t t = 0; t < chain.size(); ++t) {
      equal = equal && other[t].size() == chain[t].size();
      for (std::size_t k = 0; equal && k < chain[t].size(); ++k) {
        equal = other[t][k].params == chain[t][k].params &&
                other[t][k].accepted == chain[t][k].accepted;
      }
    }
    VF_CHECK("levels", equal, "level " << level);
    c.count("levels_compared");
  }
  // One step by hand.
  if (!chain.empty()) {
    std::default_random_engine one(seed + 1);
    const std::size_t splits = g.size(2, std::min<std::size_t>(walkers, 4));
    const auto next = stretch_move_step(chain.back(), f, one, splits,
                                        g.uniform(1.2, 4.));
    check_history(c, {chain.back(), next}, walkers, dims, 1, f, inside);
    c.count("single_steps");
  }
  c.reached();
}

// Which walker k moved along the line through which other walker j, and how
// far: proposal = x_j + z (x_k - x_j).
struct Move {
  std::size_t k, j;
  double z;
};

std::vector<Move> explain(const std::vector<double> &p,
                          const std::vector<std::vector<double>> &now,
                          const std::vector<bool> &may_move, double a) {
  std::vector<Move> moves;
  for (std::size_t k = 0; k < now.size(); ++k) {
    if (!may_move[k]) {
      continue;
    }
    for (std::size_t j = 0; j < now.size(); ++j) {
      if (j == k) {
        continue;
      }
      double dd = 0., dp = 0.;
      for (std::size_t i = 0; i < p.size(); ++i) {
        dd += (now[k][i] - now[j][i]) * (now[k][i] - now[j][i]);
        dp += (now[k][i] - now[j][i]) * (p[i] - now[j][i]);
      }
      if (dd == 0.) {
        continue;
      }
      const double z = dp / dd;
      bool on_line = z >= 1. / a - 1e-7 && z <= a + 1e-7;
      for (std::size_t i = 0; on_line && i < p.size(); ++i) {
        const double there = now[j][i] + z * (now[k][i] - now[j][i]);
        on_line = std::abs(there - p[i]) <= 1e-8 * std::sqrt(dd) + 1e-13 * std::abs(p[i]);
      }
      if (on_line) {
        moves.push_back({k, j, z});
      }
    }
  }
  return moves;
}

// Every proposal is a stretch of one walker along the line through the present
// state of another one, the stretches are drawn from 1 / sqrt(z) on
// [1 / a, a], partners are drawn evenly, and a proposal is accepted as often
// as z^(d - 1) p(new) / p(old) says.
VF_SECTION("moves", 16, 160) {
  auto &g = c.rng;
  const std::size_t dims = g.size(2, 5);
  const std::size_t walkers = g.size(6, 12);
  const std::size_t splits = g.size(2, 3);
  const double a = g.coin() ? 2. : g.uniform(1.3, 4.);
  const int steps = 200;
  c.desc << "dims=" << dims << " walkers=" << walkers << " splits=" << splits
         << " a=" << a;
  std::vector<double> spread;
  for (std::size_t i = 0; i < dims; ++i) {
    spread.push_back(g.log_uniform(0.1, 10.));
  }
  const bool heavy = g.coin();
  const auto density = [&](const std::vector<double> &x) {
    double q = 0.;
    for (std::size_t i = 0; i < dims; ++i) {
      const double d = x[i] / spread[i] - (i ? 0.5 * x[i - 1] / spread[i - 1] : 0.);
      q += d * d;
    }
    return heavy ? -static_cast<double>(dims) * std::log1p(q) : -0.5 * q;
  };
  EnsembleSamplerState state;
  for (std::size_t k = 0; k < walkers; ++k) {
    std::vector<double> x;
    for (std::size_t i = 0; i < dims; ++i) {
      x.push_back(2. * spread[i] * g.normal());
    }
    state.push_back(SamplerState{x, density(x), true});
  }
  std::default_random_engine gen(
      static_cast<std::default_random_engine::result_type>(g.next() % 1000000));
  std::vector<double> stretches;
  std::vector<std::vector<std::size_t>> partners(
      walkers, std::vector<std::size_t>(walkers, 0));
  double expected = 0., variance = 0.;
  std::size_t accepted = 0, unique = 0;
  for (int step = 0; step < steps; ++step) {
    std::vector<std::vector<double>> proposals;
    const auto recorded = [&](const std::vector<double> &x) {
      proposals.push_back(x);
      return density(x);
    };
    const auto next =
        a == 2. && splits == 2
            ? stretch_move_step(state, recorded, gen)
            : stretch_move_step(state, recorded, gen, splits, a);
    VF_REQUIRE("one_proposal_per_walker",
               proposals.size() == walkers && next.size() == walkers,
               proposals.size());
    std::vector<std::vector<double>> now;
    std::vector<bool> may_move(walkers, true);
    for (const auto &s : state) {
      now.push_back(s.params);
    }
    for (const auto &p : proposals) {
      std::vector<bool> candidates = may_move;
      bool was_accepted = false;
      std::size_t owner = walkers;
      for (std::size_t k = 0; k < walkers; ++k) {
        if (next[k].accepted && next[k].params == p) {
          owner = k;
          was_accepted = true;
        }
      }
      for (std::size_t k = 0; k < walkers; ++k) {
        candidates[k] = may_move[k] && (was_accepted ? k == owner : !next[k].accepted);
      }
      const auto moves = explain(p, now, candidates, a);
      VF_REQUIRE("is_a_stretch", !moves.empty(),
                 "step " << step << (was_accepted ? " accepted" : " rejected")
                         << " proposal " << vf::str(p.empty() ? 0. : p[0]));
      if (moves.size() == 1) {
        ++unique;
        const Move &m = moves[0];
        may_move[m.k] = false;
        stretches.push_back(m.z);
        partners[m.k][m.j] += 1;
        const double log_ratio =
            (static_cast<double>(dims) - 1.) * std::log(m.z) + density(p) -
            density(now[m.k]);
        const double probability = std::exp(std::min(0., log_ratio));
        expected += probability;
        variance += probability * (1. - probability);
        accepted += was_accepted;
        VF_CHECK("surely_accepted", was_accepted || log_ratio < 0., log_ratio);
      }
      if (was_accepted) {
        now[owner] = p;
        may_move[owner] = false;
      }
    }
    for (std::size_t k = 0; k < walkers; ++k) {
      VF_CHECK("in_place", next[k].params == now[k], k);
      VF_CHECK("kept_or_moved",
               next[k].accepted == (next[k].params != state[k].params), k);
    }
    state = next;
    c.count("moves", walkers);
  }
  const double all = static_cast<double>(walkers) * steps;
  VF_CHECK("mostly_identified", static_cast<double>(unique) > 0.9 * all, unique);
  VF_CHECK("acceptance_rate",
           std::abs(static_cast<double>(accepted) - expected) <=
               7. * std::sqrt(variance + 1.) + (all - static_cast<double>(unique)),
           accepted << " of an expected " << expected);
  std::sort(stretches.begin(), stretches.end());
  double ks = 0.;
  const double n = static_cast<double>(stretches.size());
  for (std::size_t i = 0; i < stretches.size(); ++i) {
    const double lo = std::sqrt(1. / a), hi = std::sqrt(a);
    const double u = (std::sqrt(stretches[i]) - lo) / (hi - lo);
    ks = std::max({ks, std::abs(u - static_cast<double>(i) / n),
                   std::abs(u - static_cast<double>(i + 1) / n)});
  }
  VF_CHECK("law_of_the_stretch",
           ks * std::sqrt(n) <= 3.6 + (all - static_cast<double>(unique)) / std::sqrt(n), ks * std::sqrt(n));
  for (std::size_t k = 0; k < walkers; ++k) {
    double total = 0., choices = 0.;
    for (auto v : partners[k]) {
      total += static_cast<double>(v);
      choices += v > 0 ? 1. : 0.;
    }
    VF_CHECK("enough_partners", choices >= static_cast<double>(walkers / 2),
             choices);
    for (auto v : partners[k]) {
      const double even = total / choices;
      VF_CHECK("even_partners",
               v == 0 || std::abs(static_cast<double>(v) - even) <=
                             7.5 * std::sqrt(even) + 10.,
               v << " of " << even);
    }
  }
  c.reached();
}

// Too few states to start from are refused.
VF_SECTION("refused", 12, 40) {
  auto &g = c.rng;
  const std::size_t n = g.size(1, 2);
  std::vector<std::vector<double>> initial;
  for (std::size_t i = 0; i < n; ++i) {
    initial.push_back({g.normal()});
  }
  if (g.coin()) {
    initial.push_back({NAN});
  }
  c.desc << initial.size() << "; ";
  const auto f = [](const std::vector<double> &x) { return -x[0] * x[0]; };
  std::default_random_engine gen(3);
  VF_ABORTS("two_states_are_not_enough", ensemble_sampler(f, initial, 2, gen));
  c.count("refused");
  c.reached();
}

VF_SECTION("random_indices", 40, 600) {
  auto &g = c.rng;
  const std::size_t n = g.extent(2, 12, 200);
  const std::size_t i = g.size(0, n - 1);
  std::default_random_engine gen(
      static_cast<std::default_random_engine::result_type>(g.next() % 100000));
  std::vector<std::size_t> seen(n, 0);
  const std::size_t draws = 2000;
  for (std::size_t d = 0; d < draws; ++d) {
    const std::size_t j = random_complement(n, i, gen);
    VF_REQUIRE("in_range", j < n, j);
    seen[j]++;
  }
  VF_CHECK("never_itself", seen[i] == 0, seen[i]);
  const double expected =
      static_cast<double>(draws) / static_cast<double>(n - 1);
  for (std::size_t j = 0; j < n; ++j) {
    if (j != i) {
      VF_CHECK("uniform", std::abs(static_cast<double>(seen[j]) - expected) <
                              8. * std::sqrt(expected),
               seen[j] << " of " << expected);
    }
  }
  const std::size_t k = g.size(1, n);
  std::set<std::size_t> all;
  std::size_t total = 0;
  const auto splits = split_indices(n, k);
  for (const auto &s : splits) {
    VF_CHECK("split_sizes",
             s.size() == n / k || s.size() == n / k + 1, s.size());
    total += s.size();
    all.insert(s.begin(), s.end());
  }
  VF_CHECK("split_count", splits.size() == k, splits.size());
  VF_CHECK("splits_partition",
           total == n && all.size() == n && *all.rbegin() == n - 1, total);
  c.count("random_indices");
  c.reached();
}

} // namespace
