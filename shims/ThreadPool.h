// Stand-in for the ThreadPool submodule (third_party/ThreadPool is empty in
// this sandbox), API compatible with how albatross uses it: a fixed set of
// workers, a FIFO queue and enqueue() returning a std::future.
//
// VERIF_POOL_JITTER: when defined (at run time via set_jitter), every task is
// preceded by a seeded, bounded delay so that completion orders vary.
#ifndef VERIF_SHIM_THREAD_POOL_H
#define VERIF_SHIM_THREAD_POOL_H

#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <future>
#include <memory>
#include <mutex>
#include <queue>
#include <stdexcept>
#include <thread>
#include <type_traits>
#include <vector>

class ThreadPool {
public:
  struct Hooks {
    std::atomic<std::uint64_t> jitter_state{0};
    std::atomic<std::uint64_t> jitter_max_us{0};
    std::atomic<std::uint64_t> tasks_started{0};
    std::atomic<std::uint64_t> tasks_finished{0};
    std::atomic<std::uint64_t> running{0};
    std::atomic<std::uint64_t> max_concurrent{0};
    std::atomic<std::uint64_t> order_hash{1469598103934665603ULL};
  };

  static Hooks &hooks() {
    static Hooks h;
    return h;
  }

  explicit ThreadPool(std::size_t n) : ThreadPool(n, [] {}, 0) {}

  template <typename Init>
  ThreadPool(std::size_t n, Init init, std::size_t /*stack_size*/) {
    for (std::size_t i = 0; i < n; ++i) {
      workers_.emplace_back([this, init]() {
        init();
        run();
      });
    }
  }

  ThreadPool(const ThreadPool &) = delete;
  ThreadPool &operator=(const ThreadPool &) = delete;

  ~ThreadPool() {
    {
      std::unique_lock<std::mutex> lock(mutex_);
      stop_ = true;
    }
    condition_.notify_all();
    for (auto &w : workers_) {
      w.join();
    }
  }

  std::size_t thread_count() const { return workers_.size(); }

  template <typename F, typename... Args>
  auto enqueue(F &&f, Args &&... args)
      -> std::future<std::invoke_result_t<std::decay_t<F>,
                                          std::decay_t<Args>...>> {
    using R =
        std::invoke_result_t<std::decay_t<F>, std::decay_t<Args>...>;
    auto task = std::make_shared<std::packaged_task<R()>>(
        std::bind(std::forward<F>(f), std::forward<Args>(args)...));
    std::future<R> result = task->get_future();
    {
      std::unique_lock<std::mutex> lock(mutex_);
      if (stop_) {
        throw std::runtime_error("enqueue on stopped ThreadPool");
      }
      const std::uint64_t id = next_id_++;
      tasks_.emplace([task, id]() {
        Hooks &h = hooks();
        const auto max_us = h.jitter_max_us.load(std::memory_order_relaxed);
        if (max_us > 0) {
          auto x = h.jitter_state.fetch_add(0x9E3779B97F4A7C15ULL,
                                            std::memory_order_relaxed);
          x ^= x >> 30;
          x *= 0xBF58476D1CE4E5B9ULL;
          x ^= x >> 27;
          std::this_thread::sleep_for(std::chrono::microseconds(x % max_us));
        }
        h.tasks_started.fetch_add(1, std::memory_order_relaxed);
        const auto now = h.running.fetch_add(1, std::memory_order_relaxed) + 1;
        auto prev = h.max_concurrent.load(std::memory_order_relaxed);
        while (prev < now &&
               !h.max_concurrent.compare_exchange_weak(
                   prev, now, std::memory_order_relaxed)) {
        }
        auto old = h.order_hash.load(std::memory_order_relaxed);
        while (!h.order_hash.compare_exchange_weak(
            old, (old ^ (id + 1)) * 1099511628211ULL,
            std::memory_order_relaxed)) {
        }
        (*task)();
        h.running.fetch_sub(1, std::memory_order_relaxed);
        h.tasks_finished.fetch_add(1, std::memory_order_relaxed);
      });
    }
    condition_.notify_one();
    return result;
  }

private:
  void run() {
    for (;;) {
      std::function<void()> task;
      {
        std::unique_lock<std::mutex> lock(mutex_);
        condition_.wait(lock, [this] { return stop_ || !tasks_.empty(); });
        if (stop_ && tasks_.empty()) {
          return;
        }
        task = std::move(tasks_.front());
        tasks_.pop();
      }
      task();
    }
  }

  std::vector<std::thread> workers_;
  std::queue<std::function<void()>> tasks_;
  std::mutex mutex_;
  std::condition_variable condition_;
  std::uint64_t next_id_ = 0;
  bool stop_ = false;
};

#endif
