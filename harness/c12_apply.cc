// C12: apply() with a thread pool.
#include "c12_util.h"

namespace {
using namespace vfpool;

struct MoveOnly {
  std::unique_ptr<std::size_t> value;
};

VF_SECTION("vectors", 250, 6000) {
  auto &g = c.rng;
  Pool pool(c);
  const std::size_t n = g.coin(0.1) ? g.size(0, 1) : g.extent(1, 60, 3000);
  c.desc << "n=" << n << " ";
  std::vector<double> xs;
  for (std::size_t i = 0; i < n; ++i) {
    // with duplicates
    xs.push_back(g.coin(0.2) && i > 0 ? xs[g.size(0, i - 1)] : g.normal());
  }
  const std::vector<double> before = xs;
  const std::uint64_t work = g.pick(std::vector<std::uint64_t>{0, 0, 5, 50});
  std::map<double, std::size_t> expected_calls;
  for (double x : xs) {
    expected_calls[x]++;
  }
  {
    CallLog<double> log;
    const auto f = [&](const double &x) {
      pause(work);
      log.add(x);
      return std::vector<double>(2, 3. * x + 1.);
    };
    const auto actual = albatross::apply(xs, f, pool.get());
    log.closed = true;
    const auto logged = log.calls;
    VF_CHECK("called_once_each", logged == expected_calls, logged.size());
    VF_REQUIRE("as_many_results", actual.size() == n, actual.size());
    for (std::size_t i = 0; i < n; ++i) {
      VF_CHECK("result_in_order",
               actual[i] == std::vector<double>(2, 3. * xs[i] + 1.), i);
    }
    VF_CHECK("same_as_serial", actual == albatross::apply(xs, f), n);
    pause(g.coin(0.1) ? 300 : 0);
  }
  {
    // void
    CallLog<double> log;
    const auto f = [&](double x) {
      pause(work);
      log.add(x);
    };
    albatross::apply(xs, f, pool.get());
    log.closed = true;
    VF_CHECK("void_called_once_each", log.calls == expected_calls, n);
  }
  {
    // flags and strings and things which can only be moved
    const auto flags = albatross::apply(
        xs, [](const double &x) { return x > 0.; }, pool.get());
    const auto names = albatross::apply(
        xs, [](const double &x) { return std::to_string(x); }, pool.get());
    std::vector<std::size_t> inds(n);
    std::iota(inds.begin(), inds.end(), 0);
    const auto owners = albatross::apply(
        inds,
        [](const std::size_t &i) {
          return MoveOnly{std::make_unique<std::size_t>(i)};
        },
        pool.get());
    VF_REQUIRE("sizes",
               flags.size() == n && names.size() == n && owners.size() == n, n);
    for (std::size_t i = 0; i < n; ++i) {
      VF_CHECK("flag", flags[i] == (xs[i] > 0.), i);
      VF_CHECK("name", names[i] == std::to_string(xs[i]), i);
      VF_CHECK("owner", owners[i].value && *owners[i].value == i, i);
    }
  }
  {
    // filling shared storage
    Eigen::VectorXd out = Eigen::VectorXd::Constant(Eigen::Index(n), NAN);
    std::vector<Eigen::Index> inds(n);
    std::iota(inds.begin(), inds.end(), 0);
    albatross::apply(
        inds,
        [&](const Eigen::Index &i) {
          out[i] = 2. * xs[static_cast<std::size_t>(i)];
        },
        pool.get());
    for (std::size_t i = 0; i < n; ++i) {
      VF_CHECK("filled", out[Eigen::Index(i)] == 2. * xs[i], i);
    }
  }
  VF_CHECK("arguments_are_left_alone", xs == before, "");
  pool.done();
  c.count("vectors");
  c.reached();
}

template <typename Map> Map random_map(vf::Rng &g, std::size_t n) {
  Map out;
  for (std::size_t i = 0; i < n; ++i) {
    out[static_cast<int>(g.integer(-40, 40))] =
        std::vector<double>(g.size(0, 3), g.normal());
  }
  return out;
}

double total(const std::vector<double> &v) {
  double s = 0.5;
  for (double x : v) {
    s += x;
  }
  return s;
}

template <typename Map>
void check_map(vf::Case &c, Pool &pool, const Map &xs, std::uint64_t work) {
  std::map<int, std::size_t> expected;
  for (const auto &p : xs) {
    expected[p.first] = 1;
  }
  {
    std::atomic<std::size_t> calls{0};
    const auto f = [&](const std::vector<double> &v) {
      pause(work);
      calls++;
      return total(v);
    };
    const auto actual = albatross::apply(xs, f, pool.get());
    VF_CHECK("map_value_calls", calls == xs.size(), calls);
    VF_REQUIRE("map_value_size", actual.size() == xs.size(), actual.size());
    const auto serial = albatross::apply(xs, f);
    auto it = serial.begin();
    for (const auto &p : actual) {
      VF_CHECK("map_value_result",
               p.second == total(xs.at(p.first)) && p.first == it->first &&
                   p.second == it->second,
               p.first);
      ++it;
    }
  }
  {
    CallLog<int> log;
    const auto f = [&](const int &key, const std::vector<double> &v) {
      pause(work);
      log.add(key);
      return std::make_pair(key, total(v));
    };
    const auto actual = albatross::apply(xs, f, pool.get());
    log.closed = true;
    VF_CHECK("map_key_value_calls", log.calls == expected, log.calls.size());
    VF_REQUIRE("map_key_value_size", actual.size() == xs.size(), actual.size());
    for (const auto &p : actual) {
      VF_CHECK("map_key_value_result",
               p.second.first == p.first &&
                   p.second.second == total(xs.at(p.first)),
               p.first);
    }
  }
  {
    CallLog<int> log;
    albatross::apply(
        xs,
        [&](const int &key, const std::vector<double> &) {
          pause(work);
          log.add(key);
        },
        pool.get());
    log.closed = true;
    VF_CHECK("map_void_key_value_calls", log.calls == expected,
             log.calls.size());
  }
  {
    std::atomic<std::size_t> calls{0};
    std::mutex mutex;
    double sum = 0., want = 0.;
    albatross::apply(
        xs,
        [&](const std::vector<double> &v) {
          pause(work);
          calls++;
          std::lock_guard<std::mutex> lock(mutex);
          sum += total(v);
        },
        pool.get());
    for (const auto &p : xs) {
      want += total(p.second);
    }
    VF_CHECK("map_void_value_calls", calls == xs.size(), calls);
    VF_CLOSE("map_void_value_sum", sum, want, 1e-9, 1e-9);
  }
  {
    const auto flags = albatross::apply(
        xs, [](const std::vector<double> &v) { return v.size() > 1; },
        pool.get());
    for (const auto &p : flags) {
      VF_CHECK("map_flags", p.second == (xs.at(p.first).size() > 1), p.first);
    }
    VF_CHECK("map_flags_size", flags.size() == xs.size(), flags.size());
  }
}

VF_SECTION("maps", 150, 4000) {
  auto &g = c.rng;
  Pool pool(c);
  const std::size_t n = g.coin(0.1) ? g.size(0, 1) : g.extent(1, 30, 500);
  c.desc << "n=" << n << " ";
  const std::uint64_t work = g.pick(std::vector<std::uint64_t>{0, 0, 5, 50});
  const auto map = random_map<std::map<int, std::vector<double>>>(g, n);
  check_map(c, pool, map, work);
  Grouped<int, std::vector<double>> grouped;
  for (const auto &p : map) {
    grouped[p.first] = p.second;
  }
  check_map(c, pool, grouped, work);
  pool.done();
  c.count("maps");
  c.reached();
}

VF_SECTION("groups", 120, 3000) {
  auto &g = c.rng;
  Pool pool(c);
  const std::size_t n = g.extent(1, 40, 500);
  const int k = static_cast<int>(g.integer(1, 8));
  std::vector<double> xs;
  Eigen::VectorXd ys(static_cast<Eigen::Index>(n));
  for (std::size_t i = 0; i < n; ++i) {
    xs.push_back(static_cast<double>(g.integer(-30, 30)));
    ys[static_cast<Eigen::Index>(i)] = g.normal();
  }
  const RegressionDataset<double> data(xs, ys);
  const auto grouper = [k](const double &x) {
    return static_cast<int>(std::llround(x)) % k;
  };
  c.desc << "n=" << n << " k=" << k << " ";
  const auto sums = [](const int &key, const RegressionDataset<double> &d) {
    return std::make_pair(key, d.targets.mean.sum() + double(d.size()));
  };
  const auto serial = data.group_by(grouper).apply(sums);
  const auto threaded = data.group_by(grouper).apply(sums, pool.get());
  VF_REQUIRE("groups_size", serial.size() == threaded.size(), threaded.size());
  auto it = serial.begin();
  for (const auto &p : threaded) {
    VF_CHECK("groups_result", p == *it, p.first);
    double want = 0.;
    for (std::size_t i = 0; i < n; ++i) {
      if (grouper(xs[i]) == p.first) {
        want += ys[static_cast<Eigen::Index>(i)] + 1.;
      }
    }
    VF_CLOSE("groups_sum", p.second.second, want, 1e-9, 1e-9);
    ++it;
  }
  const auto groups = group_by(xs, grouper).groups();
  const auto sizes = groups.apply(
      [](const std::vector<double> &v) { return v.size(); }, pool.get());
  std::size_t sum = 0;
  for (const auto &p : sizes) {
    sum += p.second;
    VF_CHECK("group_size", p.second == groups.at(p.first).size(), p.first);
  }
  VF_CHECK("group_sizes", sum == n && sizes.size() == groups.size(), sum);
  // with a nested apply inside of other workers
  auto inner = std::make_shared<ThreadPool>(3);
  const auto nested = groups.apply(
      [&](const std::vector<double> &v) {
        return albatross::apply(
            v, [](const double &x) { return x * x; }, inner.get());
      },
      pool.get());
  for (const auto &p : nested) {
    const auto &v = groups.at(p.first);
    VF_REQUIRE("nested_size", p.second.size() == v.size(), p.second.size());
    for (std::size_t i = 0; i < v.size(); ++i) {
      VF_CHECK("nested", p.second[i] == v[i] * v[i], i);
    }
  }
  pool.done();
  c.count("groups");
  c.reached();
}

// What a worker throws reaches the caller, and only once no worker can touch
// what belongs to the caller any more.
struct Thrown : std::runtime_error {
  std::size_t index;
  explicit Thrown(std::size_t i)
      : std::runtime_error("task " + std::to_string(i)), index(i) {}
};

VF_SECTION("exceptions", 200, 4000) {
  auto &g = c.rng;
  Pool pool(c);
  const std::size_t n = g.extent(1, 24, 500);
  std::set<std::size_t> bad;
  const std::size_t n_bad = g.size(1, std::min<std::size_t>(n, 3));
  while (bad.size() < n_bad) {
    bad.insert(g.coin(0.4) ? 0 : g.size(0, n - 1));
    if (bad.size() < n_bad && n_bad > n) {
      break;
    }
  }
  const int kind = static_cast<int>(g.integer(0, 6));
  const std::uint64_t work =
      g.pick(std::vector<std::uint64_t>{0, 20, 200, 1000});
  c.desc << "n=" << n << " bad=" << bad.size() << " first=" << *bad.begin()
         << " kind=" << kind << " ";
  auto log = std::make_shared<CallLog<std::size_t>>();
  bool caught = false;
  std::size_t who = n;
  {
    // belongs to the caller
    std::vector<double> storage(n, 0.);
    std::vector<std::size_t> inds(n);
    std::iota(inds.begin(), inds.end(), 0);
    std::map<std::size_t, std::size_t> map;
    Grouped<std::size_t, std::size_t> grouped;
    for (auto i : inds) {
      map[i] = i;
      grouped[i] = i;
    }
    const auto task = [&storage, &bad, log, work](std::size_t i) {
      log->running++;
      if (bad.count(i)) {
        log->running--;
        throw Thrown(i);
      }
      pause(work);
      log->add(i);
      storage[i] += 1.;
      log->running--;
      return storage[i];
    };
    try {
      switch (kind) {
      case 0:
        albatross::apply(inds, task, pool.get());
        break;
      case 1:
        albatross::apply(
            inds, [task](const std::size_t &i) { task(i); }, pool.get());
        break;
      case 2:
        albatross::apply(map, task, pool.get());
        break;
      case 3:
        albatross::apply(
            map, [task](const std::size_t &i) { task(i); }, pool.get());
        break;
      case 4:
        albatross::apply(
            grouped,
            [task](const std::size_t &, const std::size_t &i) {
              return task(i);
            },
            pool.get());
        break;
      case 5:
        albatross::apply(
            map,
            [task](const std::size_t &, const std::size_t &i) { task(i); },
            pool.get());
        break;
      default: {
        // in a matrix
        IndependentNoise<double> unused(1.);
        Eigen::MatrixXd out = Eigen::MatrixXd::Zero(Eigen::Index(n), 2);
        albatross::apply(
            inds,
            [&out, task](const std::size_t &i) {
              out(Eigen::Index(i), 1) = task(i);
            },
            pool.get());
      }
      }
    } catch (const Thrown &e) {
      caught = true;
      who = e.index;
      log->closed = true;
      VF_CHECK("nothing_runs_after_the_exception", log->running == 0,
               log->running);
    }
    log->closed = true;
  }
  VF_CHECK("exception_reaches_the_caller", caught, kind);
  VF_CHECK("exception_of_a_failing_task", bad.count(who) == 1, who);
  // Let whatever was left behind show itself.
  pool.pool.reset();
  VF_CHECK("no_task_after_the_exception", log->after_close == 0,
           log->after_close);
  for (const auto &p : log->calls) {
    VF_CHECK("at_most_once", p.second == 1 && bad.count(p.first) == 0, p.first);
  }
  pool.done();
  c.count("exceptions");
  c.reached();
}

VF_SECTION("pools", 10, 60) {
  auto &g = c.rng;
  VF_CHECK("one_thread_is_no_pool", make_shared_thread_pool(1) == nullptr, "");
  const auto def = make_shared_thread_pool();
  VF_CHECK("default_pool",
           get_thread_count(def) == get_default_thread_count() ||
               get_default_thread_count() == 1,
           get_thread_count(def));
  const std::size_t n = g.size(2, 9);
  VF_CHECK("pool_size", get_thread_count(make_shared_thread_pool(n)) == n, n);
  VF_CHECK("no_pool_is_one_thread", get_thread_count(nullptr) == 1, "");
  VF_CHECK("at_least_one", get_default_thread_count() >= 1, "");
  c.count("pools");
  c.reached();
}

} // namespace
