// Pools, delays and call logs for the checks of threaded evaluation.
#ifndef VERIF_C12_UTIL_H
#define VERIF_C12_UTIL_H

#include "vf.h"

#include <atomic>
#include <mutex>
#include <thread>

#include <albatross/Evaluation>
#include <albatross/GP>
#include <albatross/Indexing>
#include <albatross/SparseGP>
#include <albatross/Tune>
#include <albatross/utils/AsyncUtils>

namespace vfpool {
using namespace albatross;

// A pool of some size with seeded delays before the tasks; what the workers
// did while it existed is added to the record of the case.
struct Pool {
  vf::Case &c;
  std::shared_ptr<ThreadPool> pool;
  std::uint64_t started = 0;
  explicit Pool(vf::Case &case_, int min_workers = 0) : c(case_) {
    auto &h = ThreadPool::hooks();
    auto &g = c.rng;
    const int n = static_cast<int>(
        g.coin(0.1) ? g.size(static_cast<std::size_t>(min_workers), 1)
                    : g.size(2, g.coin(0.2) ? 16 : 8));
    if (n >= 1) {
      pool = g.coin() ? make_shared_thread_pool(static_cast<std::size_t>(n))
                      : std::make_shared<ThreadPool>(n);
    }
    h.jitter_state = g.next();
    h.jitter_max_us = g.pick(std::vector<std::uint64_t>{0, 20, 200, 1000});
    h.order_hash = 1469598103934665603ULL;
    h.max_concurrent = 0;
    started = h.tasks_started;
    c.desc << "pool=" << n << " ";
  }
  ThreadPool *get() { return pool.get(); }
  std::size_t workers() const { return get_thread_count(pool); }
  // Called once everything asked for has returned.
  void done() {
    auto &h = ThreadPool::hooks();
    if (h.tasks_started > started) {
      c.count("tasks", h.tasks_started - started);
      c.desc << "order=" << h.order_hash << " ";
      c.observe_max("concurrent_tasks", double(h.max_concurrent.load()));
      if (h.max_concurrent > 1) {
        c.count("overlapping_runs");
      }
    }
    h.jitter_max_us = 0;
  }
};

// Calls per key; may be used from any thread.
template <typename Key> struct CallLog {
  mutable std::mutex mutex;
  std::map<Key, std::size_t> calls;
  std::atomic<bool> closed{false};
  std::atomic<std::size_t> after_close{0};
  std::atomic<std::size_t> running{0};
  void add(const Key &key) {
    if (closed) {
      after_close++;
    }
    std::lock_guard<std::mutex> lock(mutex);
    calls[key]++;
  }
};

inline void pause(std::uint64_t us) {
  if (us > 0) {
    std::this_thread::sleep_for(std::chrono::microseconds(us));
  }
}

inline double max_difference(const Eigen::MatrixXd &a,
                             const Eigen::MatrixXd &b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) {
    return INFINITY;
  }
  if (a.size() == 0) {
    return 0.;
  }
  const double d = (a - b).cwiseAbs().maxCoeff();
  return std::isnan(d) || !a.allFinite() ? INFINITY : d;
}

} // namespace vfpool

#endif
