// Degenerate sizes, lifetimes and where the output goes.
#ifndef VERIF_C25_UTIL_H
#define VERIF_C25_UTIL_H

#include "vf.h"

#include <fcntl.h>
#include <unistd.h>

#include <cmath>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <memory>
#include <sstream>

#include <albatross/CovarianceFunctions>
#include <albatross/Dataset>
#include <albatross/Evaluation>
#include <albatross/GP>
#include <albatross/Graph>
#include <albatross/LeastSquares>
#include <albatross/NullModel>
#include <albatross/Ransac>
#include <albatross/SparseGP>
#include <albatross/Tune>
#include <albatross/linalg/Block>

namespace vflife {
using namespace albatross;

// Reads every number, so that one which was never written is noticed, and
// gives a description which is the same for equal objects only.
struct Text {
  std::ostringstream os;
  Text() { os << std::setprecision(17); }
  void num(double x) {
    if (std::isnan(x)) {
      os << "nan ";
    } else if (x > 0.) {
      os << "+" << x << " ";
    } else {
      os << x << " ";
    }
  }
};

inline void put(Text &t, double x) { t.num(x); }
inline void put(Text &t, int x) { t.os << x << " "; }
inline void put(Text &t, long x) { t.os << x << " "; }
inline void put(Text &t, bool x) { t.os << (x ? "yes " : "no "); }
inline void put(Text &t, std::size_t x) { t.os << x << " "; }
inline void put(Text &t, const std::string &x) { t.os << x << " "; }
template <typename X> void put(Text &t, const Measurement<X> &x) {
  t.os << "m ";
  put(t, x.value);
}
template <typename D> void put(Text &t, const Eigen::DenseBase<D> &m) {
  t.os << m.rows() << "x" << m.cols() << " ";
  for (Eigen::Index j = 0; j < m.cols(); ++j)
    for (Eigen::Index i = 0; i < m.rows(); ++i)
      t.num(m.derived()(i, j));
}
inline void put(Text &t, const DiagonalMatrixXd &m) { put(t, m.diagonal()); }
template <typename A, typename B> void put(Text &t, const std::pair<A, B> &x);
template <typename X> void put(Text &t, const std::vector<X> &xs) {
  t.os << "[" << xs.size() << " ";
  for (const auto &x : xs)
    put(t, X(x));
  t.os << "] ";
}
template <typename X> void put(Text &t, const std::set<X> &xs) {
  t.os << "{" << xs.size() << " ";
  for (const auto &x : xs)
    put(t, x);
  t.os << "} ";
}
template <typename A, typename B> void put(Text &t, const std::map<A, B> &xs) {
  t.os << "{" << xs.size() << " ";
  for (const auto &x : xs) {
    put(t, x.first);
    put(t, x.second);
  }
  t.os << "} ";
}
template <typename A, typename B> void put(Text &t, const Grouped<A, B> &xs) {
  t.os << "{" << xs.size() << " ";
  for (const auto &x : xs) {
    put(t, x.first);
    put(t, x.second);
  }
  t.os << "} ";
}
template <typename A, typename B> void put(Text &t, const std::pair<A, B> &x) {
  put(t, x.first);
  put(t, x.second);
}
inline void put(Text &t, const MarginalDistribution &d) {
  put(t, d.mean);
  put(t, d.covariance.diagonal());
  put(t, d.metadata);
}
inline void put(Text &t, const JointDistribution &d) {
  put(t, d.mean);
  put(t, d.covariance);
  put(t, d.metadata);
}
template <typename X> void put(Text &t, const RegressionDataset<X> &d) {
  put(t, d.features);
  put(t, d.targets);
  put(t, d.metadata);
}
inline void put(Text &t, const Parameter &p) {
  put(t, p.value);
  put(t, p.prior.get_name());
  put(t, p.is_valid());
}
template <typename M, typename X, typename F>
void put(Text &t, const Prediction<M, X, F> &p) {
  put(t, p.mean());
  put(t, p.marginal());
  put(t, p.joint());
}

template <typename X> std::string text(const X &x) {
  Text t;
  put(t, x);
  return t.os.str();
}

// Everything written to the standard streams while it lives.
struct Captured {
  int saved_out, saved_err, fd;
  std::string path;
  Captured() {
    std::cout.flush();
    std::cerr.flush();
    fflush(stdout);
    fflush(stderr);
    char name[] = "vf_captured_XXXXXX";
    fd = mkstemp(name);
    path = name;
    unlink(name);
    saved_out = dup(1);
    saved_err = dup(2);
    dup2(fd, 1);
  }
  std::string stop() {
    if (fd < 0) {
      return "";
    }
    std::cout.flush();
    fflush(stdout);
    dup2(saved_out, 1);
    close(saved_out);
    close(saved_err);
    std::string out;
    char buffer[4096];
    lseek(fd, 0, SEEK_SET);
    ssize_t n;
    while ((n = read(fd, buffer, sizeof(buffer))) > 0) {
      out.append(buffer, static_cast<std::size_t>(n));
    }
    close(fd);
    fd = -1;
    return out;
  }
  ~Captured() { stop(); }
};

// An object survives being copied, moved and assigned; show() describes what
// it does.
template <typename T, typename Show>
void check_values(vf::Case &c, const char *what, const T &original,
                  Show &&show) {
  const std::string expected = show(original);
  const auto same = [&](const T &x, const char *how) {
    const std::string actual = show(x);
    VF_CHECK(std::string("value_") + how, actual == expected,
             what << ": " << actual.substr(0, 200) << " instead of "
                  << expected.substr(0, 200));
  };
  {
    auto heap = std::make_unique<T>(original);
    T copy(*heap);
    same(copy, "copied");
    heap.reset();
    same(copy, "copied_from_a_deleted_one");
    T moved(std::move(copy));
    same(moved, "moved");
    copy = moved;
    same(copy, "assigned_to_a_moved_one");
    same(moved, "assigned_from");
    T other(original);
    other = std::move(moved);
    same(other, "move_assigned");
    moved = other;
    same(moved, "assigned_again");
    const T &alias = other;
    other = alias;
    same(other, "assigned_to_itself");
    std::swap(other, copy);
    same(other, "swapped");
    same(copy, "swapped");
  }
  {
    std::vector<T> many;
    for (int i = 0; i < 5; ++i) {
      many.push_back(original);
    }
    many.erase(many.begin());
    same(many.front(), "in_a_vector");
    same(many.back(), "in_a_vector");
  }
  {
    const auto pass = [](T x) { return x; };
    same(pass(pass(original)), "returned");
  }
  same(original, "left_alone");
  c.count("values");
}

template <typename T> void check_values(vf::Case &c, const char *what,
                                        const T &original) {
  check_values(c, what, original, [](const T &x) { return text(x); });
}

inline std::size_t small_size(vf::Rng &g) {
  static const std::vector<std::size_t> sizes = {0, 0, 1, 1, 1, 2, 2, 3, 5, 9};
  return g.pick(sizes);
}

inline double some_value(vf::Rng &g) {
  switch (g.integer(0, 9)) {
  case 0:
    return 0.;
  case 1:
    return -0.;
  case 2:
    return 1e12 * g.normal();
  case 3:
    return 1e-12 * g.normal();
  case 4:
    return static_cast<double>(g.integer(-2, 2));
  default:
    return g.normal();
  }
}

inline std::vector<double> some_values(vf::Rng &g, std::size_t n) {
  std::vector<double> out;
  for (std::size_t i = 0; i < n; ++i)
    out.push_back(i > 0 && g.coin(0.2) ? out[g.size(0, i - 1)]
                                       : some_value(g));
  return out;
}

inline Eigen::VectorXd some_vector(vf::Rng &g, std::size_t n) {
  Eigen::VectorXd out(static_cast<Eigen::Index>(n));
  for (Eigen::Index i = 0; i < out.size(); ++i)
    out[i] = some_value(g);
  return out;
}

inline Eigen::MatrixXd some_matrix(vf::Rng &g, Eigen::Index n,
                                   Eigen::Index m) {
  Eigen::MatrixXd out(n, m);
  for (Eigen::Index i = 0; i < out.size(); ++i)
    out.data()[i] = g.normal();
  return out;
}

inline Eigen::VectorXd some_variance(vf::Rng &g, std::size_t n) {
  Eigen::VectorXd out(static_cast<Eigen::Index>(n));
  for (Eigen::Index i = 0; i < out.size(); ++i)
    out[i] = g.log_uniform(1e-3, 10.);
  return out;
}

inline Eigen::MatrixXd some_psd(vf::Rng &g, std::size_t n) {
  const auto e = static_cast<Eigen::Index>(n);
  Eigen::MatrixXd a(e, e);
  for (Eigen::Index i = 0; i < a.size(); ++i)
    a.data()[i] = g.normal();
  Eigen::MatrixXd out = a * a.transpose();
  out.diagonal().array() += 1.;
  return out;
}

inline RegressionDataset<double> some_dataset(vf::Rng &g, std::size_t n) {
  RegressionDataset<double> out(
      some_values(g, n),
      g.coin() ? MarginalDistribution(some_vector(g, n), some_variance(g, n))
               : MarginalDistribution(some_vector(g, n)));
  if (g.coin(0.3)) {
    out.metadata["where"] = "here";
  }
  return out;
}

} // namespace vflife

#endif
