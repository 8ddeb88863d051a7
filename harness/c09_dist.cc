// C09: arithmetic of distributions against the laws of Gaussian vectors.
#include <albatross/Common>
#include <albatross/Dataset>
#include <albatross/Distribution>
#include <albatross/Indexing>

#include "vf.h"

using namespace albatross;

namespace {

typedef long double LD;

// The model: mean and covariance of a random vector in long double.
struct Model {
  std::vector<LD> m;
  std::vector<std::vector<LD>> s;
  std::size_t n() const { return m.size(); }
};

Model model_of(const Eigen::VectorXd &mean, const Eigen::MatrixXd &cov) {
  Model o;
  for (Eigen::Index i = 0; i < mean.size(); ++i) {
    o.m.push_back(mean[i]);
    o.s.emplace_back();
    for (Eigen::Index j = 0; j < mean.size(); ++j)
      o.s.back().push_back(cov(i, j));
  }
  return o;
}

// sum or difference of independent vectors
Model plus(const Model &a, const Model &b, LD sign) {
  Model o = a;
  for (std::size_t i = 0; i < a.n(); ++i) {
    o.m[i] += sign * b.m[i];
    for (std::size_t j = 0; j < a.n(); ++j)
      o.s[i][j] += b.s[i][j];
  }
  return o;
}

Model scaled(const Model &a, LD k) {
  Model o = a;
  for (std::size_t i = 0; i < a.n(); ++i) {
    o.m[i] *= k;
    for (std::size_t j = 0; j < a.n(); ++j)
      o.s[i][j] *= k * k;
  }
  return o;
}

Model picked(const Model &a, const std::vector<std::size_t> &ids) {
  Model o;
  for (auto i : ids) {
    o.m.push_back(a.m[i]);
    o.s.emplace_back();
    for (auto j : ids)
      o.s.back().push_back(a.s[i][j]);
  }
  return o;
}

Model moved(const Eigen::MatrixXd &a, const Model &x) {
  Model o;
  const std::size_t r = static_cast<std::size_t>(a.rows());
  o.m.assign(r, 0.L);
  o.s.assign(r, std::vector<LD>(r, 0.L));
  for (std::size_t i = 0; i < r; ++i) {
    std::vector<LD> row(x.n(), 0.L);
    for (std::size_t k = 0; k < x.n(); ++k) {
      const LD aik = a(Eigen::Index(i), Eigen::Index(k));
      o.m[i] += aik * x.m[k];
      for (std::size_t l = 0; l < x.n(); ++l)
        row[l] += aik * x.s[k][l];
    }
    for (std::size_t j = 0; j < r; ++j)
      for (std::size_t l = 0; l < x.n(); ++l)
        o.s[i][j] += row[l] * LD(a(Eigen::Index(j), Eigen::Index(l)));
  }
  return o;
}

Model independent(const Model &a) {
  Model o = a;
  for (std::size_t i = 0; i < a.n(); ++i)
    for (std::size_t j = 0; j < a.n(); ++j)
      if (i != j)
        o.s[i][j] = 0.L;
  return o;
}

LD magnitude(const Model &a) {
  LD x = 0.L;
  for (const auto &r : a.s)
    for (auto v : r)
      x = std::max(x, fabsl(v));
  return x;
}

LD mean_magnitude(const Model &a) {
  LD x = 0.L;
  for (auto v : a.m)
    x = std::max(x, fabsl(v));
  return x;
}

void same(vf::Case &c, const std::string &key, const Eigen::VectorXd &mean,
          const std::vector<LD> &expected, double tol, double extra) {
  VF_REQUIRE(key + "_size", std::size_t(mean.size()) == expected.size(),
             mean.size() << " entries instead of " << expected.size());
  LD big = extra;
  for (auto v : expected)
    big = std::max(big, fabsl(v));
  for (std::size_t i = 0; i < expected.size(); ++i)
    VF_CLOSE(key, mean[Eigen::Index(i)], double(expected[i]), 0., tol * double(big));
}

void same_joint(vf::Case &c, const std::string &key, const JointDistribution &d,
                const Model &m, double tol, double extra_mean = 0., double extra_cov = 0.) {
  same(c, key + "_mean", d.mean, m.m, std::min(tol, 1e-10), extra_mean);
  VF_REQUIRE(key + "_shape",
             std::size_t(d.covariance.rows()) == m.n() && d.covariance.cols() == d.covariance.rows(),
             d.covariance.rows() << " by " << d.covariance.cols() << " for " << m.n());
  VF_CHECK(key + "_size", d.size() == m.n(), d.size());
  const double t = tol * std::max(double(magnitude(m)), extra_cov);
  for (std::size_t i = 0; i < m.n(); ++i)
    for (std::size_t j = 0; j < m.n(); ++j)
      VF_CLOSE(key + "_covariance", d.covariance(Eigen::Index(i), Eigen::Index(j)),
               double(m.s[i][j]), 0., t);
}

void same_marginal(vf::Case &c, const std::string &key, const MarginalDistribution &d,
                   const Model &m, double tol, double extra_mean = 0., double extra_cov = 0.) {
  same(c, key + "_mean", d.mean, m.m, std::min(tol, 1e-10), extra_mean);
  VF_CHECK(key + "_size", d.size() == m.n(), d.size());
  VF_REQUIRE(key + "_shape", std::size_t(d.covariance.diagonal().size()) == m.n(),
             d.covariance.diagonal().size());
  const double t = tol * std::max(double(magnitude(m)), extra_cov);
  for (std::size_t i = 0; i < m.n(); ++i) {
    VF_CLOSE(key + "_variance", d.covariance.diagonal()[Eigen::Index(i)], double(m.s[i][i]), 0., t);
    VF_CHECK(key + "_get_diagonal",
             d.get_diagonal(Eigen::Index(i)) == d.covariance.diagonal()[Eigen::Index(i)], i);
  }
}

Eigen::VectorXd some_mean(vf::Rng &g, Eigen::Index n) {
  Eigen::VectorXd m(n);
  const double k = g.log_uniform(1e-3, 1e3);
  for (Eigen::Index i = 0; i < n; ++i)
    m[i] = k * g.normal();
  return m;
}

// rank: how many directions have any variance
Eigen::MatrixXd some_cov(vf::Rng &g, Eigen::Index n, Eigen::Index rank) {
  Eigen::MatrixXd l(n, std::max<Eigen::Index>(rank, 1));
  const double k = g.log_uniform(1e-2, 1e2);
  for (Eigen::Index i = 0; i < l.rows(); ++i)
    for (Eigen::Index j = 0; j < l.cols(); ++j)
      l(i, j) = rank == 0 ? 0. : k * g.normal();
  if (n > 1 && g.coin(0.2)) // two copies of the same entry
    l.row(g.integer(0, n - 1)) = l.row(0).eval();
  Eigen::MatrixXd s = l * l.transpose();
  for (Eigen::Index i = 0; i < n; ++i)
    for (Eigen::Index j = 0; j < i; ++j)
      s(i, j) = s(j, i);
  return s;
}

Eigen::VectorXd some_var(vf::Rng &g, Eigen::Index n) {
  Eigen::VectorXd v(n);
  for (Eigen::Index i = 0; i < n; ++i)
    v[i] = g.coin(0.1) ? 0. : g.log_uniform(1e-4, 1e4);
  return v;
}

Eigen::Index some_size(vf::Rng &g, int at_most) {
  return at_most < 1 || g.coin(0.05) ? 0 : g.integer(1, at_most);
}

template <typename T> std::vector<T> cast_ids(const std::vector<std::size_t> &ids) {
  std::vector<T> o;
  for (auto i : ids)
    o.push_back(static_cast<T>(i));
  return o;
}

std::vector<std::size_t> some_ids(vf::Rng &g, std::size_t n) {
  std::vector<std::size_t> ids;
  if (n == 0)
    return ids;
  if (g.coin(0.5)) {
    ids = g.choose(n, std::size_t(g.integer(0, int(n))));
    g.shuffle(ids);
  } else { // with repetition
    const std::size_t k = std::size_t(g.integer(0, int(n) + 2));
    for (std::size_t i = 0; i < k; ++i)
      ids.push_back(std::size_t(g.integer(0, int(n) - 1)));
  }
  return ids;
}

std::string text(const Eigen::VectorXd &m, const Eigen::MatrixXd &s) {
  std::ostringstream o;
  o << m.size() << "#" << std::hex
    << vf::hash_bytes(m.data(), std::size_t(m.size()) * sizeof(double)) ;
  o << "." << vf::hash_bytes(s.data(), std::size_t(s.size()) * sizeof(double));
  return o.str();
}

VF_SECTION("chain", 900, 30000) {
  // A random program over joint and marginal distributions, run on the library
  // and on the model; both kinds are kept in step.
  Eigen::Index n = some_size(c.rng, c.rng.coin(0.03) ? 50 : 9);
  const Eigen::VectorXd m0 = some_mean(c.rng, n);
  const Eigen::MatrixXd s0 = some_cov(c.rng, n, c.rng.coin(0.7) ? n : some_size(c.rng, int(n)));
  JointDistribution joint(m0, s0);
  MarginalDistribution marginal(m0, Eigen::VectorXd(s0.diagonal()));
  Model mj = model_of(m0, s0), mm = independent(mj);
  c.desc << text(m0, s0);
  c.reached();
  c.count(n == 0 ? "empty" : "filled");
  const int steps = int(c.rng.integer(1, c.rng.coin(0.2) ? 14 : 5));
  double em = 0., ec = 0.; // largest intermediate values: rounding is relative to them
  for (int step = 0; step < steps; ++step) {
    em = std::max(em, double(mean_magnitude(mj)));
    ec = std::max(ec, double(magnitude(mj)));
    n = Eigen::Index(mj.n());
    const int op = int(c.rng.integer(0, 7));
    c.desc << " " << op;
    c.count("operations");
    const JointDistribution joint_before = joint;
    const MarginalDistribution marginal_before = marginal;
    if (op <= 3) {
      const Eigen::VectorXd m = some_mean(c.rng, n);
      const Eigen::MatrixXd s = some_cov(c.rng, n, n);
      const JointDistribution other(m, s);
      const MarginalDistribution other_marginal(m, Eigen::VectorXd(s.diagonal()));
      const Model o = model_of(m, s), oi = independent(o);
      em = std::max(em, double(mean_magnitude(o)));
      ec = std::max(ec, double(magnitude(o)));
      const LD sign = op % 2 ? -1.L : 1.L;
      if (op < 2) {
        joint = op ? joint - other : joint + other;
        mj = plus(mj, o, sign);
      } else {
        joint = op == 3 ? joint - other_marginal : joint + other_marginal;
        mj = plus(mj, oi, sign);
        c.count("joint_and_marginal");
      }
      marginal = op % 2 ? marginal - other_marginal : marginal + other_marginal;
      mm = plus(mm, oi, sign);
      VF_CHECK("argument", other == JointDistribution(m, s) &&
                               other_marginal == MarginalDistribution(m, Eigen::VectorXd(s.diagonal())),
               "the right hand side was changed");
    } else if (op == 4) {
      const double k = c.rng.pick(std::vector<double>{-1., 0., 1., 2., c.rng.normal(), c.rng.log_uniform(1e-3, 1e3)});
      c.desc << "*" << k;
      joint = joint * k;
      marginal = marginal * k;
      mj = scaled(mj, k);
      mm = scaled(mm, k);
    } else if (op == 5) {
      const auto ids = some_ids(c.rng, mj.n());
      switch (c.rng.integer(0, 2)) {
      case 0:
        joint = joint.subset(ids);
        marginal = marginal.subset(ids);
        break;
      case 1:
        joint = subset(joint, cast_ids<int>(ids));
        marginal = subset(marginal, cast_ids<int>(ids));
        break;
      default:
        joint = joint.subset(cast_ids<Eigen::Index>(ids));
        marginal = marginal.subset(cast_ids<Eigen::Index>(ids));
      }
      mj = picked(mj, ids);
      // an entry picked twice stays independent of its copy in a marginal
      mm = independent(picked(mm, ids));
      c.count("subsets");
    } else if (op == 6) {
      const Eigen::Index r = some_size(c.rng, 7);
      Eigen::MatrixXd a(r, n);
      for (Eigen::Index i = 0; i < a.size(); ++i)
        a.data()[i] = c.rng.coin(0.3) ? 0. : c.rng.normal();
      if (n == 0 || r == 0)
        continue;
      joint = (a * joint).joint();
      mj = moved(a, mj);
      const MarginalDistribution after = (a * marginal).marginal();
      marginal = after;
      mm = independent(moved(a, mm));
      c.count("transformed");
    } else {
      marginal = concatenate_marginals(marginal, joint.marginal());
      const Model extra = mj;
      Model both = mm;
      const std::size_t a = mm.n(), b = extra.n();
      both.m.insert(both.m.end(), extra.m.begin(), extra.m.end());
      both.s.assign(a + b, std::vector<LD>(a + b, 0.L));
      for (std::size_t i = 0; i < a; ++i)
        both.s[i][i] = mm.s[i][i];
      for (std::size_t i = 0; i < b; ++i)
        both.s[a + i][a + i] = extra.s[i][i];
      same_marginal(c, "concatenated", marginal, both, 1e-10, em, ec);
      // back to the first part, so that both stay the same size
      std::vector<std::size_t> ids(a);
      std::iota(ids.begin(), ids.end(), std::size_t(0));
      marginal = marginal.subset(ids);
      VF_CHECK("first_part", marginal == marginal_before, "a concatenation changed its first part");
    }
    em = std::max(em, double(mean_magnitude(mj)));
    ec = std::max(ec, std::max(double(magnitude(mj)), double(magnitude(mm))));
    same_joint(c, "joint", joint, mj, 1e-7, em, ec);
    same_marginal(c, "marginal", marginal, mm, 1e-7, em, ec);
    same_marginal(c, "joint_to_marginal", joint.marginal(), independent(mj), 1e-7, em, ec);
    VF_CHECK("exactly_the_diagonal",
             joint.marginal().covariance.diagonal() == joint.covariance.diagonal() &&
                 joint.marginal().mean == joint.mean,
             "marginal() is not the diagonal");
    for (std::size_t i = 0; i < mj.n(); ++i) {
      const MarginalDistribution one = joint[i], one_m = marginal[i];
      VF_CHECK("entry", one.size() == 1 && one.mean[0] == joint.mean[Eigen::Index(i)] &&
                            one.get_diagonal(0) == joint.covariance(Eigen::Index(i), Eigen::Index(i)),
               "entry " << i);
      VF_CHECK("entry", one_m.size() == 1 && one_m.mean[0] == marginal.mean[Eigen::Index(i)] &&
                            one_m.get_diagonal(0) == marginal.covariance.diagonal()[Eigen::Index(i)],
               "entry " << i);
      VF_CHECK("get_diagonal", joint.get_diagonal(Eigen::Index(i)) ==
                                   joint.covariance(Eigen::Index(i), Eigen::Index(i)), i);
    }
    // constants are exact, so are copies
    JointDistribution copy = joint;
    VF_CHECK("copy", copy == joint && joint == copy, "a copy differs");
  }
}

template <typename Matrix, typename Dist>
void transformed(vf::Case &c, const std::string &key, const Matrix &a,
                 const Eigen::MatrixXd &dense, const Dist &dist, const Model &m, double tol) {
  const Dist before = dist;
  const Model expected = moved(dense, m);
  // rounding is relative to the sizes of the inputs
  const double k = dense.size() ? dense.cwiseAbs().rowwise().sum().maxCoeff() : 0.;
  const double em = k * double(mean_magnitude(m)), ec = k * k * double(magnitude(m));
  same_joint(c, key, (a * dist).joint(), expected, tol, em, ec);
  same_marginal(c, key, (a * dist).marginal(), independent(expected), tol, em, ec);
  const JointDistribution implicit_joint = a * dist;
  const MarginalDistribution implicit_marginal = a * dist;
  same_joint(c, key, implicit_joint, expected, tol, em, ec);
  same_marginal(c, key, implicit_marginal, independent(expected), tol, em, ec);
  VF_CHECK("argument", dist == before, "the distribution was changed");
  for (Eigen::Index i = 0; i < implicit_joint.covariance.rows(); ++i) {
    VF_CHECK("non_negative_variance", implicit_joint.covariance(i, i) >= 0. &&
                                          implicit_marginal.get_diagonal(i) >= 0., i);
    for (Eigen::Index j = 0; j < i; ++j)
      VF_CLOSE("symmetric", implicit_joint.covariance(i, j), implicit_joint.covariance(j, i), 0., 1e-12 * ec);
  }
}

VF_SECTION("transform", 700, 20000) {
  const Eigen::Index n = c.rng.wide(1, 10, 60), r = c.rng.wide(1, 8, 60);
  const Eigen::VectorXd m = some_mean(c.rng, n);
  const Eigen::Index rank = c.rng.coin(0.6) ? n : c.rng.integer(0, int(n));
  const Eigen::MatrixXd s = some_cov(c.rng, n, rank);
  c.count(rank < n ? "singular" : "full_rank");
  Eigen::MatrixXd a(r, n);
  const double zeros = c.rng.pick(std::vector<double>{0., 0.5, 0.9});
  for (Eigen::Index i = 0; i < a.size(); ++i)
    a.data()[i] = c.rng.coin(zeros) ? 0. : c.rng.normal();
  c.desc << text(m, s) << " x " << r << " zeros " << zeros << " " << a(0, 0);
  c.reached();
  const JointDistribution joint(m, s);
  const MarginalDistribution marginal(m, some_var(c.rng, n));
  const Model mj = model_of(m, s);
  const Model mm = model_of(m, Eigen::MatrixXd(marginal.covariance));
  // the square root of a singular covariance comes from an LDLT which picks its
  // pivots from the original diagonal: pivots which are noise lose digits
  bool copies = false;
  for (Eigen::Index i = 0; i < n; ++i)
    for (Eigen::Index j = 0; j < i; ++j)
      copies = copies || s.row(i) == s.row(j);
  const double tol = rank < n || copies ? 1e-6 : 1e-11;
  const double loose = 1e-6;
  transformed(c, "dense", a, a, joint, mj, tol);
  transformed(c, "dense", a, a, marginal, mm, tol);
  const Eigen::SparseMatrix<double> sparse = a.sparseView();
  transformed(c, "sparse", sparse, a, joint, mj, tol);
  transformed(c, "sparse", sparse, a, marginal, mm, tol);
  const Eigen::SparseMatrix<double, Eigen::RowMajor> sparse_rows = a.sparseView();
  transformed(c, "sparse_rows", sparse_rows, a, joint, mj, tol);
  transformed(c, "sparse_rows", sparse_rows, a, marginal, mm, tol);
  const Eigen::RowVectorXd row = a.row(0);
  transformed(c, "row", row, a.topRows(1), joint, mj, tol);
  transformed(c, "row", row, a.topRows(1), marginal, mm, tol);
  // several expressions over the same inputs
  const Eigen::MatrixXd wide = a.transpose();
  const JointDistribution through = wide.transpose() * joint;
  const JointDistribution direct = a * joint;
  VF_CHECK("expression", (through.covariance - direct.covariance).cwiseAbs().maxCoeff() <=
                             loose * (1. + s.cwiseAbs().maxCoeff() * std::pow(a.cwiseAbs().rowwise().sum().maxCoeff(), 2)),
           "a transposed matrix gives another covariance");
  const Eigen::Index top = c.rng.integer(1, int(r));
  const MarginalDistribution block = a.topRows(top) * marginal;
  const MarginalDistribution whole = a * marginal;
  for (Eigen::Index i = 0; i < top; ++i) {
    VF_CLOSE("block", block.mean[i], whole.mean[i], 1e-12, 1e-12 * std::fabs(m.cwiseAbs().maxCoeff()));
    VF_CLOSE("block", block.get_diagonal(i), whole.get_diagonal(i), 1e-12, 0.);
  }
  // the identity changes nothing, two steps are one step with the product
  const Eigen::MatrixXd eye = Eigen::MatrixXd::Identity(n, n);
  transformed(c, "identity", eye, eye, joint, mj, tol);
  const Eigen::Index q = c.rng.integer(1, 5);
  Eigen::MatrixXd b(q, r);
  for (Eigen::Index i = 0; i < b.size(); ++i)
    b.data()[i] = c.rng.normal();
  const JointDistribution step = a * joint;
  const JointDistribution two = b * step;
  const Eigen::MatrixXd ba = b * a;
  const JointDistribution once = ba * joint;
  const double k = b.cwiseAbs().rowwise().sum().maxCoeff() * a.cwiseAbs().rowwise().sum().maxCoeff();
  VF_CHECK("two_steps", (two.mean - once.mean).cwiseAbs().maxCoeff() <=
                            1e-11 * k * m.cwiseAbs().maxCoeff() &&
                            (two.covariance - once.covariance).cwiseAbs().maxCoeff() <=
                                loose * k * k * s.cwiseAbs().maxCoeff(),
           "two transformations are not the transformation by the product");
  // differences through a matrix: Var(x_i - x_j)
  if (n >= 2) {
    Eigen::RowVectorXd d = Eigen::RowVectorXd::Zero(n);
    d[0] = 1.;
    d[n - 1] = -1.;
    const MarginalDistribution diff = d * joint;
    VF_CLOSE("difference", diff.mean[0], m[0] - m[n - 1], 1e-12, 1e-12 * m.cwiseAbs().maxCoeff());
    VF_CLOSE("difference", diff.get_diagonal(0), s(0, 0) + s(n - 1, n - 1) - 2 * s(0, n - 1), 0.,
             4. * tol * s.cwiseAbs().maxCoeff());
  }
}

VF_SECTION("pieces", 600, 15000) {
  // concatenation, assignment of parts, equality and near equality
  std::vector<MarginalDistribution> parts;
  std::vector<double> means, vars;
  const int k = int(c.rng.integer(0, 6));
  for (int i = 0; i < k; ++i) {
    const Eigen::Index n = some_size(c.rng, 5);
    parts.emplace_back(some_mean(c.rng, n), some_var(c.rng, n));
    for (Eigen::Index j = 0; j < n; ++j) {
      means.push_back(parts.back().mean[j]);
      vars.push_back(parts.back().get_diagonal(j));
    }
    c.desc << text(parts.back().mean, parts.back().covariance.diagonal()) << " ";
  }
  c.reached();
  c.count(k == 0 ? "nothing_to_concatenate" : "concatenated");
  const auto before = parts;
  const MarginalDistribution all = concatenate_marginals(parts);
  VF_CHECK("arguments", before == parts, "parts were changed");
  VF_REQUIRE("concatenate_size", all.size() == means.size(), all.size());
  for (std::size_t i = 0; i < means.size(); ++i)
    VF_CHECK("concatenate", all.mean[Eigen::Index(i)] == means[i] &&
                                all.get_diagonal(Eigen::Index(i)) == vars[i], i);
  MarginalDistribution folded{Eigen::VectorXd(0), Eigen::VectorXd(0)};
  for (const auto &p : parts)
    folded = concatenate_marginals(folded, p);
  VF_CHECK("concatenate_pairwise", folded.size() == means.size() &&
                                       (means.empty() || folded == all), "pairwise differs");
  // each part is found again
  std::size_t at = 0;
  for (const auto &p : parts) {
    std::vector<std::size_t> ids(p.size());
    std::iota(ids.begin(), ids.end(), at);
    at += p.size();
    VF_CHECK("part", all.subset(ids) == p, "part is not found at its place");
  }
  // a part put in its place
  const std::size_t n = means.size();
  if (n) {
    auto ids = c.rng.choose(n, std::size_t(c.rng.integer(0, int(n))));
    c.rng.shuffle(ids);
    const MarginalDistribution from(some_mean(c.rng, Eigen::Index(ids.size())),
                                    some_var(c.rng, Eigen::Index(ids.size())));
    MarginalDistribution to = all, to2 = all;
    to.set_subset(from, ids);
    set_subset(from, cast_ids<int>(ids), &to2);
    VF_CHECK("set_subset_free", to == to2, "the free function differs");
    VF_CHECK("set_subset_argument", all.size() == n, "changed");
    std::vector<double> em = means, ev = vars;
    for (std::size_t i = 0; i < ids.size(); ++i) {
      em[ids[i]] = from.mean[Eigen::Index(i)];
      ev[ids[i]] = from.get_diagonal(Eigen::Index(i));
    }
    for (std::size_t i = 0; i < n; ++i)
      VF_CHECK("set_subset", to.mean[Eigen::Index(i)] == em[i] &&
                                 to.get_diagonal(Eigen::Index(i)) == ev[i], i);
    VF_CHECK("set_then_get", to.subset(ids) == from, "what was set is not what is read");
    c.count("parts_set");
  }
  // equality is equality of values
  if (n) {
    MarginalDistribution other = all;
    VF_CHECK("equal", other == all, "copy");
    VF_CHECK("approximately", other.approximately_equal(all), "copy");
    other.metadata["a"] = "b";
    const Eigen::Index i = c.rng.integer(0, int(n) - 1);
    MarginalDistribution m2 = all, v2 = all;
    m2.mean[i] = std::nextafter(m2.mean[i], 1e300);
    v2.covariance.diagonal()[i] = std::nextafter(v2.covariance.diagonal()[i], 1e300);
    VF_CHECK("unequal_mean", !(m2 == all) && !(all == m2), "differs in the mean only");
    VF_CHECK("unequal_variance", !(v2 == all) && !(all == v2), "differs in the variance only");
    const double norm = all.mean.norm();
    const double vnorm = all.covariance.diagonal().norm();
    if (norm > 1e-100 && vnorm > 1e-100) {
      const double eps = c.rng.pick(std::vector<double>{1e-3, 1e-6, 0.1});
      MarginalDistribution near_m = all, far_m = all, near_v = all, far_v = all;
      near_m.mean[i] += 0.9 * eps * norm / (1. + eps);
      far_m.mean[i] += (all.mean[i] > 0 ? 1. : -1.) * 1.2 * eps * norm;
      near_v.covariance.diagonal()[i] += 0.9 * eps * vnorm / (1. + eps);
      far_v.covariance.diagonal()[i] += 1.2 * eps * vnorm;
      VF_CHECK("near", near_m.approximately_equal(all, eps) && all.approximately_equal(near_v, eps),
               "within " << eps);
      // isApprox is relative to the smaller of the two, so 1.2 is certainly outside
      VF_CHECK("far", !far_m.approximately_equal(all, eps) && !all.approximately_equal(far_m, eps),
               "mean differs by more than " << eps);
      VF_CHECK("far", !far_v.approximately_equal(all, eps) && !all.approximately_equal(far_v, eps),
               "variance differs by more than " << eps);
      c.count("near_and_far");
    }
  }
  // constructors
  const double m = c.rng.normal(), v = c.rng.log_uniform(1e-5, 1e5);
  const MarginalDistribution one(m, v);
  const JointDistribution one_j(m, v);
  VF_CHECK("scalar", one.size() == 1 && one.mean[0] == m && one.get_diagonal(0) == v, "marginal");
  VF_CHECK("scalar", one_j.size() == 1 && one_j.mean[0] == m && one_j.covariance(0, 0) == v &&
                         one_j.marginal() == one, "joint");
  const MarginalDistribution certain(all.mean);
  VF_CHECK("certain", certain.size() == n && certain.mean == all.mean &&
                          (n == 0 || certain.covariance.diagonal().cwiseAbs().maxCoeff() == 0.),
           "a distribution made from a mean only has variance");
  std::ostringstream os;
  os << all;
  std::size_t lines = 0;
  for (char ch : os.str())
    lines += ch == '\n';
  VF_CHECK("printed", lines == n, lines << " lines for " << n);
}

VF_SECTION("joint_equality", 300, 6000) {
  const Eigen::Index n = c.rng.integer(1, 6);
  const Eigen::VectorXd m = some_mean(c.rng, n);
  const Eigen::MatrixXd s = some_cov(c.rng, n, n);
  c.desc << text(m, s);
  c.reached();
  const JointDistribution a(m, s);
  JointDistribution b(m, s);
  VF_CHECK("equal", a == b && a.approximately_equal(b), "same values");
  b.metadata["k"] = "v";
  const Eigen::Index i = c.rng.integer(0, int(n) - 1), j = c.rng.integer(0, int(n) - 1);
  JointDistribution m2 = a, s2 = a;
  m2.mean[i] = std::nextafter(m2.mean[i], -1e300);
  s2.covariance(i, j) = std::nextafter(s2.covariance(i, j), 1e300);
  VF_CHECK("unequal", !(a == m2) && !(m2 == a) && !(a == s2) && !(s2 == a), "differs in one number");
  const double eps = c.rng.pick(std::vector<double>{1e-3, 1e-6, 0.1});
  JointDistribution near = a, far = a, far_mean = a;
  near.covariance(i, j) += 0.9 * eps * s.norm() / (1. + eps);
  far.covariance(i, j) += (s(i, j) > 0 ? 1. : -1.) * 1.2 * eps * s.norm();
  far_mean.mean[i] += (m[i] > 0 ? 1. : -1.) * 1.2 * eps * m.norm();
  VF_CHECK("near", near.approximately_equal(a, eps), eps);
  VF_CHECK("far", !far.approximately_equal(a, eps) && !a.approximately_equal(far, eps), eps);
  VF_CHECK("far", !far_mean.approximately_equal(a, eps) && !a.approximately_equal(far_mean, eps), eps);
  // sums commute, differences with itself keep the variance of both
  const JointDistribution other(some_mean(c.rng, n), some_cov(c.rng, n, n));
  VF_CHECK("commutes", a + other == other + a, "x + y is not y + x");
  const JointDistribution none = a - a;
  VF_CHECK("minus_itself", none.mean.cwiseAbs().maxCoeff() == 0. &&
                               (none.covariance - 2. * s).cwiseAbs().maxCoeff() == 0.,
           "independent copies");
  std::ostringstream os;
  os << a;
  VF_CHECK("printed", !os.str().empty(), "nothing printed");
}

VF_SECTION("rejected", 36, 150) {
  // inconsistent sizes and indices out of range are refused
  const Eigen::Index n = c.rng.integer(1, 6), other = n + c.rng.integer(1, 3);
  c.desc << n << " " << other;
  c.reached();
  const Eigen::VectorXd m = some_mean(c.rng, n), m2 = some_mean(c.rng, other);
  const Eigen::MatrixXd s = some_cov(c.rng, n, n), s2 = some_cov(c.rng, other, other);
  const Eigen::VectorXd v = some_var(c.rng, n), v2 = some_var(c.rng, other);
  const JointDistribution a(m, s), b(m2, s2);
  const MarginalDistribution x(m, v), y(m2, v2);
  switch (c.index % 9) {
  case 0:
    VF_ABORTS("mismatched", MarginalDistribution(m, v2));
    VF_ABORTS("mismatched", JointDistribution(m, s2));
    break;
  case 1:
    VF_ABORTS("sum", a + b);
    VF_ABORTS("sum", x + y);
    break;
  case 2:
    VF_ABORTS("difference", a - b);
    VF_ABORTS("difference", x - y);
    break;
  case 3:
    VF_ABORTS("mixed", a + y);
    VF_ABORTS("mixed", a - y);
    break;
  case 4:
    VF_ABORTS("subset", a.subset(std::vector<int>{int(n)}));
    VF_ABORTS("subset", x.subset(std::vector<int>{0, -1}));
    break;
  case 5: {
    MarginalDistribution to = x;
    VF_ABORTS("set_subset", to.set_subset(x, std::vector<int>{0}); if (n == 1) std::abort());
    VF_ABORTS("set_subset_range", to.set_subset(MarginalDistribution(1., 1.), std::vector<int>{int(n)}));
    break;
  }
  case 6:
    VF_ABORTS("entry", a.get_diagonal(n));
    VF_ABORTS("entry", x.get_diagonal(-1));
    break;
  case 7: {
    JointDistribution broken = a;
    broken.covariance = s2;
    VF_ABORTS("size", broken.size());
    MarginalDistribution bm = x;
    bm.mean = m2;
    VF_ABORTS("size", bm.size());
    break;
  }
  default:
    VF_ABORTS("rectangular", a.covariance.size() ? (void)JointDistribution(m, Eigen::MatrixXd(s.rightCols(n - 1))).size() : (void)0);
    VF_ABORTS("dataset", RegressionDataset<int>(std::vector<int>(std::size_t(n), 1), y));
  }
  c.count("refused");
}

} // namespace
