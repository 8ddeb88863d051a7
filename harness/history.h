// What an operation returns depends on its arguments, not on what was computed
// before.  A walk is a list of closely related inputs, neighbours differing in
// one thing only.  Each is evaluated in a process of its own which has done
// nothing else, then all of them one after another (and the first once more)
// in this one: a value kept from an earlier call shows as a difference.
#ifndef VERIF_HISTORY_H
#define VERIF_HISTORY_H

#include "vf.h"

#include <Eigen/Core>
#include <fcntl.h>
#include <functional>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace vfhist {

typedef std::vector<double> Values;

inline void put(Values *o, double v) { o->push_back(v); }
template <typename D> void put(Values *o, const Eigen::MatrixBase<D> &m) {
  o->push_back(static_cast<double>(m.rows()));
  o->push_back(static_cast<double>(m.cols()));
  for (Eigen::Index i = 0; i < m.rows(); ++i)
    for (Eigen::Index j = 0; j < m.cols(); ++j)
      o->push_back(m(i, j));
}
template <typename D> auto put(Values *o, const D &d) -> decltype(d.get_diagonal(0), void()) {
  put(o, d.mean);
  put(o, Eigen::MatrixXd(d.covariance));
}

struct Step {
  std::string what;
  std::function<Values()> run;
};

// empty when the process died
inline Values alone(const std::function<Values()> &f) {
  std::fflush(nullptr);
  int ends[2];
  if (pipe(ends) != 0)
    std::abort();
  const pid_t pid = fork();
  if (pid == 0) {
    close(ends[0]);
    const int null = open("/dev/null", O_WRONLY);
    dup2(null, 1);
    dup2(null, 2);
    try {
      const Values v = f();
      const char *at = reinterpret_cast<const char *>(v.data());
      std::size_t left = v.size() * sizeof(double);
      while (left > 0) {
        const ssize_t n = write(ends[1], at, left);
        if (n <= 0)
          break;
        at += n;
        left -= static_cast<std::size_t>(n);
      }
    } catch (...) {
    }
    _exit(0);
  }
  close(ends[1]);
  std::vector<char> bytes;
  char buffer[65536];
  for (;;) {
    const ssize_t n = read(ends[0], buffer, sizeof(buffer));
    if (n <= 0)
      break;
    bytes.insert(bytes.end(), buffer, buffer + n);
  }
  close(ends[0]);
  int status = 0;
  waitpid(pid, &status, 0);
  Values v(bytes.size() / sizeof(double));
  std::memcpy(v.data(), bytes.data(), v.size() * sizeof(double));
  return v;
}

inline void same(vf::Case &c, const std::string &key, const Values &got, const Values &expected,
                 const std::string &what) {
  VF_REQUIRE(key + "_size", got.size() == expected.size(),
             got.size() << " values instead of " << expected.size() << " after " << what);
  double big = 0.;
  for (double v : expected)
    if (std::isfinite(v))
      big = std::max(big, std::fabs(v));
  for (std::size_t i = 0; i < got.size(); ++i) {
    const bool both_nan = std::isnan(got[i]) && std::isnan(expected[i]);
    VF_CHECK(key, both_nan || got[i] == expected[i] ||
                      std::fabs(got[i] - expected[i]) <=
                          1e-8 * std::fabs(expected[i]) + 1e-10 * std::min(big, 1.),
             "value " << i << " is " << got[i] << " instead of " << expected[i] << " after " << what);
  }
}

inline void walk(vf::Case &c, const std::vector<Step> &steps) {
  std::vector<Values> expected;
  for (const auto &s : steps)
    expected.push_back(alone(s.run));
  std::string trail;
  for (std::size_t k = 0; k <= steps.size(); ++k) {
    const std::size_t i = k % steps.size();
    trail += (k ? ", " : "") + steps[i].what;
    same(c, "history", steps[i].run(), expected[i], trail);
    c.count("steps");
    if (i > 0 && expected[i] != expected[i - 1])
      c.count("steps_which_change_something");
  }
}

// A walk over the numbers an operation depends on: every step changes one of
// them, exchanges two, or leaves them alone.
inline void walk_numbers(vf::Case &c, std::vector<double> v,
                         const std::function<Values(const std::vector<double> &)> &eval,
                         int length = 7) {
  c.reached();
  c.count("walks");
  std::vector<Step> steps;
  std::string what = "start";
  for (int k = 0; k < length; ++k) {
    steps.push_back({what, [v, eval]() { return eval(v); }});
    const std::size_t i = c.rng.size(0, v.size() - 1), j = c.rng.size(0, v.size() - 1);
    switch (c.rng.integer(0, 3)) {
    case 0:
      std::swap(v[i], v[j]);
      what = "swap " + std::to_string(i) + " and " + std::to_string(j);
      break;
    case 1:
      v[i] *= 1. + c.rng.log_uniform(1e-4, 1.);
      what = "scale " + std::to_string(i);
      break;
    default:
      v[i] *= c.rng.uniform(1.3, 2.);
      what = "change " + std::to_string(i);
    }
  }
  walk(c, steps);
}

} // namespace vfhist

#endif
