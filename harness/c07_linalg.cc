// C07: factorizations and structured matrices against dense long double algebra.
#include <albatross/GP>
#include <albatross/linalg/Block>
#include <albatross/linalg/Utils>
#include <albatross/src/utils/eigen_utils.hpp>

#include "gp_oracle.h"
#include "vf.h"

using namespace albatross;
using vfgp::LM;
using vfgp::LV;

namespace {

typedef long double LD;

Eigen::MatrixXd gaussian(vf::Rng &g, Eigen::Index r, Eigen::Index k) {
  Eigen::MatrixXd m(r, k);
  for (Eigen::Index i = 0; i < r; ++i)
    for (Eigen::Index j = 0; j < k; ++j)
      m(i, j) = g.normal();
  return m;
}

Eigen::MatrixXd rotation(vf::Rng &g, Eigen::Index n) {
  Eigen::MatrixXd q = Eigen::MatrixXd::Identity(n, n);
  for (int k = 0; k < 3 * n; ++k) {
    const Eigen::Index i = g.integer(0, int(n) - 1), j = g.integer(0, int(n) - 1);
    if (i == j)
      continue;
    const double a = g.uniform(0., 6.283);
    for (Eigen::Index r = 0; r < n; ++r) {
      const double x = q(r, i), y = q(r, j);
      q(r, i) = std::cos(a) * x - std::sin(a) * y;
      q(r, j) = std::sin(a) * x + std::cos(a) * y;
    }
  }
  return q;
}

void symmetrize(Eigen::MatrixXd *a) {
  *a = (0.5 * (*a + a->transpose())).eval();
}

// The size of the numbers must not matter: far from one every now and then.
double some_scale(vf::Rng &g) {
  return g.coin(0.3) ? std::ldexp(1., int(g.integer(-70, 70))) : g.log_uniform(1e-3, 1e3);
}

Eigen::MatrixXd right_hand_side(vf::Rng &g, Eigen::Index r, Eigen::Index k) {
  return gaussian(g, r, k) * (g.coin() ? 1. : some_scale(g));
}

// positive definite with a condition number of at most spread
Eigen::MatrixXd spd(vf::Rng &g, Eigen::Index n, double spread, double scale) {
  const int kind = int(g.integer(0, 4));
  Eigen::MatrixXd a;
  if (kind == 0) { // diagonal, in any order
    a = Eigen::MatrixXd::Zero(n, n);
    for (Eigen::Index i = 0; i < n; ++i)
      a(i, i) = g.log_uniform(1. / spread, 1.);
  } else if (kind == 1) { // all entries alike: constant plus diagonal
    a = Eigen::MatrixXd::Constant(n, n, 1.);
    a.diagonal().array() += std::max(1. / spread * double(n), 0.1);
  } else { // rotated, then rows and columns of different size
    const Eigen::MatrixXd q = n ? rotation(g, n) : Eigen::MatrixXd(0, 0);
    Eigen::VectorXd d(n);
    for (Eigen::Index i = 0; i < n; ++i)
      d[i] = g.log_uniform(1. / spread, 1.);
    a = q * d.asDiagonal() * q.transpose();
  }
  symmetrize(&a);
  return scale * a;
}

Eigen::MatrixXd spd(vf::Rng &g, Eigen::Index n, double spread) {
  const double scale = some_scale(g);
  return spd(g, n, spread, scale);
}

LD largest(const LM &m) {
  LD x = 0.L;
  for (auto v : m.a)
    x = std::max(x, fabsl(v));
  return x;
}

// |got - expected| <= tol * max |expected| (or of the given size)
void same(vf::Case &c, const std::string &key, const Eigen::MatrixXd &got, const LM &expected,
          double tol, double scale = 0.) {
  VF_REQUIRE(key + "_shape", std::size_t(got.rows()) == expected.r && std::size_t(got.cols()) == expected.c,
             got.rows() << " by " << got.cols() << " instead of " << expected.r << " by " << expected.c);
  const double big = std::max(double(largest(expected)), scale);
  double worst = 0.;
  for (std::size_t i = 0; i < expected.r; ++i)
    for (std::size_t j = 0; j < expected.c; ++j) {
      const double d = std::fabs(got(Eigen::Index(i), Eigen::Index(j)) - double(expected(i, j)));
      worst = std::isnan(d) ? INFINITY : std::max(worst, d);
    }
  VF_CHECK(key, worst <= tol * big + 1e-300, "off by " << worst << " of " << big);
  if (big > 0.)
    c.observe_max("relative_error_over_tolerance", worst / (tol * big));
}

LM identity(std::size_t n) {
  LM o(n, n);
  for (std::size_t i = 0; i < n; ++i)
    o(i, i) = 1.L;
  return o;
}

std::string text(const Eigen::MatrixXd &m) {
  std::ostringstream o;
  o << m.rows() << "x" << m.cols() << "#" << std::hex << vf::hash_bytes(m.data(), std::size_t(m.size()) * sizeof(double));
  return o.str();
}

std::vector<std::vector<std::size_t>> some_blocks(vf::Rng &g, std::size_t n) {
  std::vector<std::vector<std::size_t>> o;
  const int k = int(g.integer(0, 5));
  for (int i = 0; i < k; ++i) {
    auto ids = g.choose(n, std::size_t(g.integer(0, int(n))));
    g.shuffle(ids);
    o.push_back(ids);
  }
  return o;
}

Eigen::Index some_size(vf::Rng &g, int at_most) {
  return g.coin(0.15) ? 1 : g.wide(1, at_most, 60, 0.02);
}

VF_SECTION("ldlt", 500, 15000) {
  const Eigen::Index n = some_size(c.rng, c.rng.coin(0.1) ? 30 : 10), k = c.rng.integer(1, 4);
  const double spread = c.rng.pick(std::vector<double>{10., 1e3, 1e5});
  const Eigen::MatrixXd a = spd(c.rng, n, spread);
  const Eigen::MatrixXd rhs = right_hand_side(c.rng, n, k);
  c.desc << text(a);
  c.reached();
  c.count(n == 1 ? "one_by_one" : "larger");
  const double tol = 1e-12 * spread; // condition times a margin over the precision
  const LM A = vfgp::from_eigen(a), R = vfgp::from_eigen(rhs);
  const LM inverse = vfgp::solve(A, identity(A.r));
  const LM expected = vfgp::solve(A, R);

  const Eigen::SerializableLDLT ldlt(a);
  Eigen::SerializableLDLT from_eigen(a.ldlt());
  VF_CHECK("equal", ldlt == from_eigen && ldlt == Eigen::SerializableLDLT(ldlt), "same matrix");
  VF_CHECK("definite", ldlt.is_positive_definite(), "a positive definite matrix is not reported so");
  VF_CHECK("initialized", ldlt.is_initialized() && !Eigen::SerializableLDLT().is_initialized(), "initialized");
  same(c, "solve", ldlt.solve(rhs), expected, tol);
  same(c, "solve_vector", ldlt.solve(rhs.col(0)), vfgp::solve(A, vfgp::from_eigen(rhs.col(0))), tol);
  VF_CLOSE("log_determinant", ldlt.log_determinant(), double(vfgp::log_det(A)), 1e-10, 1e-12 * spread);

  double l1 = 0.;
  for (Eigen::Index j = 0; j < n; ++j)
    l1 = std::max(l1, a.col(j).cwiseAbs().sum());
  VF_CLOSE("l1_norm", ldlt.l1_norm(), l1, 1e-12, 0.);

  // M with M M^T = A; M^-1, M^T, M^-T through products
  const Eigen::MatrixXd eye = Eigen::MatrixXd::Identity(n, n);
  const Eigen::MatrixXd m = ldlt.sqrt_product(eye);
  const LM M = vfgp::from_eigen(m);
  same(c, "sqrt", m * m.transpose(), A, 1e-12);
  same(c, "sqrt_product", ldlt.sqrt_product(rhs), vfgp::mul(M, R), 1e-12);
  same(c, "sqrt_transpose", ldlt.sqrt_transpose(), vfgp::transpose(M), 1e-13);
  const double half = 1e-12 * spread;
  same(c, "sqrt_solve", ldlt.sqrt_solve(rhs), vfgp::solve(M, R), half);
  const Eigen::MatrixXd ss = ldlt.sqrt_solve(eye);
  same(c, "sqrt_solve_squared", ss.transpose() * ss, inverse, tol);
  same(c, "sqrt_transpose_solve", ldlt.sqrt_transpose_solve(rhs), vfgp::solve(vfgp::transpose(M), R), half);
  const Eigen::VectorXd v = rhs.col(0);
  LM V(std::size_t(n), 1);
  for (Eigen::Index i = 0; i < n; ++i)
    V(std::size_t(i), 0) = v[i];
  same(c, "sqrt_transpose_solve_vector", ldlt.sqrt_transpose_solve(v), vfgp::solve(vfgp::transpose(M), V), half);
  same(c, "sqrt_solve_vector", ldlt.sqrt_solve(v), vfgp::solve(M, V), half);
  same(c, "both_halves", ldlt.sqrt_transpose_solve(Eigen::MatrixXd(ldlt.sqrt_solve(rhs))), expected, tol);
  const Eigen::VectorXd d = ldlt.diagonal_sqrt().diagonal(), di = ldlt.diagonal_sqrt_inverse().diagonal();
  for (Eigen::Index i = 0; i < n; ++i) {
    VF_CLOSE("diagonal_sqrt", d[i] * d[i], ldlt.vectorD()[i], 1e-14, 0.);
    VF_CLOSE("diagonal_sqrt_inverse", d[i] * di[i], 1., 1e-14, 0.);
  }

  // inverse: diagonal and blocks, serial and threaded
  Eigen::MatrixXd diag = ldlt.inverse_diagonal();
  LM D(std::size_t(n), 1);
  for (std::size_t i = 0; i < D.r; ++i)
    D(i, 0) = inverse(i, i);
  const double inverse_scale = double(largest(inverse));
  same(c, "inverse_diagonal", diag, D, tol, inverse_scale);
  const auto blocks = some_blocks(c.rng, std::size_t(n));
  ThreadPool pool(std::size_t(c.rng.integer(1, 5)));
  const auto got = ldlt.inverse_blocks(blocks), threaded = ldlt.inverse_blocks(blocks, &pool);
  VF_REQUIRE("inverse_blocks_count", got.size() == blocks.size() && threaded.size() == blocks.size(), got.size());
  c.count("inverse_blocks", blocks.size());
  for (std::size_t b = 0; b < blocks.size(); ++b) {
    LM E(blocks[b].size(), blocks[b].size());
    for (std::size_t i = 0; i < E.r; ++i)
      for (std::size_t j = 0; j < E.r; ++j)
        E(i, j) = inverse(blocks[b][i], blocks[b][j]);
    same(c, "inverse_block", got[b], E, tol, inverse_scale);
    VF_CHECK("inverse_block_threaded", threaded[b] == got[b], "threaded differs");
  }
  // another matrix is not equal
  Eigen::MatrixXd other = a;
  other(n - 1, n - 1) *= 1.5;
  VF_CHECK("unequal", !(ldlt == Eigen::SerializableLDLT(other)), "another matrix is equal");
  VF_CHECK("unequal_empty", !(ldlt == Eigen::SerializableLDLT()), "an empty one is equal");
}

VF_SECTION("ldlt_semidefinite", 200, 5000) {
  // positive definite on some entries, exactly zero on the others
  const Eigen::Index n = c.rng.integer(2, 9);
  auto keep = c.rng.choose(std::size_t(n), std::size_t(c.rng.integer(0, int(n) - 1)));
  const Eigen::Index r = Eigen::Index(keep.size());
  const Eigen::MatrixXd core = spd(c.rng, r, 100.);
  Eigen::MatrixXd a = Eigen::MatrixXd::Zero(n, n);
  for (Eigen::Index i = 0; i < r; ++i)
    for (Eigen::Index j = 0; j < r; ++j)
      a(Eigen::Index(keep[std::size_t(i)]), Eigen::Index(keep[std::size_t(j)])) = core(i, j);
  c.desc << n << " " << r << " " << text(core);
  c.reached();
  c.count(r == 0 ? "zero_matrix" : "singular");
  const Eigen::SerializableLDLT ldlt(a);
  VF_CHECK("definite", !ldlt.is_positive_definite(), "a singular matrix is reported positive definite");
  const Eigen::MatrixXd eye = Eigen::MatrixXd::Identity(n, n);
  const Eigen::MatrixXd m = ldlt.sqrt_product(eye);
  same(c, "sqrt", m * m.transpose(), vfgp::from_eigen(a), 1e-12);
  same(c, "sqrt_transpose", ldlt.sqrt_transpose(), vfgp::transpose(vfgp::from_eigen(m)), 1e-13);
  // the inverse square root ignores the directions without variance
  const Eigen::MatrixXd s = ldlt.sqrt_solve(eye);
  const LM inverse = vfgp::solve(vfgp::from_eigen(core), identity(std::size_t(r)));
  LM pseudo{std::size_t(n), std::size_t(n)};
  for (std::size_t i = 0; i < keep.size(); ++i)
    for (std::size_t j = 0; j < keep.size(); ++j)
      pseudo(keep[i], keep[j]) = inverse(i, j);
  same(c, "sqrt_solve", s.transpose() * s, pseudo, 1e-9);
}

std::vector<Eigen::Index> some_cut(vf::Rng &g, int blocks, bool allow_empty) {
  std::vector<Eigen::Index> o;
  for (int i = 0; i < blocks; ++i)
    o.push_back(allow_empty && g.coin(0.1) ? 0 : g.integer(1, 5));
  return o;
}

VF_SECTION("block_diagonal", 400, 12000) {
  const auto cut = some_cut(c.rng, int(c.rng.integer(1, 6)), c.rng.coin(0.3));
  BlockDiagonal bd, other;
  Eigen::Index n = 0;
  const double spread = 1e3;
  for (auto k : cut) {
    bd.blocks.push_back(spd(c.rng, k, spread));
    other.blocks.push_back(spd(c.rng, k, spread));
    n += k;
    c.desc << text(bd.blocks.back()) << " ";
    if (k == 0)
      c.count("empty_blocks");
  }
  c.reached();
  c.count("blocks", cut.size());
  Eigen::MatrixXd dense = Eigen::MatrixXd::Zero(n, n), dense_other = dense;
  Eigen::Index at = 0;
  for (std::size_t b = 0; b < cut.size(); ++b) {
    for (Eigen::Index i = 0; i < cut[b]; ++i)
      for (Eigen::Index j = 0; j < cut[b]; ++j) {
        dense(at + i, at + j) = bd.blocks[b](i, j);
        dense_other(at + i, at + j) = other.blocks[b](i, j);
      }
    at += cut[b];
  }
  const Eigen::Index k = c.rng.integer(1, 4);
  const Eigen::MatrixXd rhs = right_hand_side(c.rng, n, k);
  const LM A = vfgp::from_eigen(dense), R = vfgp::from_eigen(rhs);
  VF_CHECK("size", bd.rows() == n && bd.cols() == n, bd.rows());
  VF_CHECK("dense", bd.toDense() == dense, "toDense");
  VF_CHECK("diagonal", bd.diagonal() == dense.diagonal(), "diagonal");
  VF_CHECK("difference", (bd - other).toDense() == dense - dense_other, "difference");
  same(c, "product", bd * rhs, vfgp::mul(A, R), 1e-13, double(largest(A)) * 4.);
  const Eigen::VectorXd v = n ? Eigen::VectorXd(rhs.col(0)) : Eigen::VectorXd(0);
  LM V(std::size_t(n), 1);
  for (Eigen::Index i = 0; i < n; ++i)
    V(std::size_t(i), 0) = v[i];
  same(c, "product_vector", bd * v, vfgp::mul(A, V), 1e-13, double(largest(A)) * 4.);

  const auto ldlt = bd.ldlt();
  const double tol = 1e-12 * spread;
  VF_CHECK("ldlt_size", ldlt.rows() == n && ldlt.cols() == n && ldlt.blocks.size() == cut.size(), ldlt.rows());
  const auto block_rows = ldlt.block_to_row_map();
  at = 0;
  for (std::size_t b = 0; b < cut.size(); ++b) {
    VF_CHECK("block_rows", block_rows.at(b) == at, "block " << b);
    at += cut[b];
  }
  const LM X = vfgp::solve(A, R), XV = vfgp::solve(A, V);
  same(c, "solve", ldlt.solve(rhs), X, tol);
  if (n == 0) {
    VF_CHECK("empty_log_determinant", ldlt.log_determinant() == 0., ldlt.log_determinant());
    return;
  }
  same(c, "solve_vector", ldlt.solve(v), XV, tol);
  Eigen::SparseMatrix<double> sparse = rhs.sparseView();
  same(c, "solve_sparse", ldlt.solve(sparse), X, tol);
  Eigen::MatrixXd wide = gaussian(c.rng, n + 2, k + 1);
  wide.block(1, 1, n, k) = rhs;
  same(c, "solve_block", ldlt.solve(wide.block(1, 1, n, k)), X, tol);
  same(c, "solve_expression", ldlt.solve(2. * rhs), vfgp::solve(A, vfgp::from_eigen(2. * rhs)), tol);
  ThreadPool pool(std::size_t(c.rng.integer(1, 4)));
  pool.hooks().jitter_max_us = c.rng.coin(0.2) ? 50 : 0;
  same(c, "solve_pool", ldlt.solve(rhs, &pool), X, tol);
  same(c, "solve_pool_vector", ldlt.solve(v, &pool), XV, tol);
  same(c, "solve_no_pool", ldlt.solve(rhs, nullptr), X, tol);
  VF_CHECK("pool_equals_serial", ldlt.solve(rhs, &pool) == ldlt.solve(rhs, nullptr), "threaded solve differs");
  const Eigen::MatrixXd s = ldlt.sqrt_solve(rhs), sp = ldlt.sqrt_solve(rhs, &pool),
                        sn = ldlt.sqrt_solve(rhs, nullptr);
  VF_CHECK("sqrt_pool_equals_serial", sp == sn && s == sn, "threaded square root solve differs");
  same(c, "sqrt_solve", s.transpose() * s, vfgp::mul(vfgp::transpose(R), X), tol);
  const Eigen::MatrixXd full = ldlt.sqrt_solve(Eigen::MatrixXd(Eigen::MatrixXd::Identity(n, n)));
  const LM inverse = vfgp::solve(A, identity(std::size_t(n)));
  same(c, "sqrt_solve_identity", full.transpose() * full, inverse, tol);
  VF_CHECK("sqrt_solve_linear", (full * rhs - s).cwiseAbs().maxCoeff() <= 1e-9 * s.cwiseAbs().maxCoeff(),
           "not linear");
  const Eigen::MatrixXd ssp = ldlt.sqrt_solve(sparse);
  VF_CHECK("sqrt_solve_sparse", (ssp - s).cwiseAbs().maxCoeff() <= 1e-9 * s.cwiseAbs().maxCoeff(),
           "sparse right hand side differs");
  // the inverse square root of a block diagonal matrix is block diagonal
  at = 0;
  for (std::size_t b = 0; b < cut.size(); ++b) {
    for (Eigen::Index i = 0; i < cut[b]; ++i)
      for (Eigen::Index j = 0; j < n; ++j)
        if (j < at || j >= at + cut[b])
          VF_CHECK("sqrt_block_structure", full(at + i, j) == 0., "mixes blocks");
    at += cut[b];
  }
  VF_CLOSE("log_determinant", ldlt.log_determinant(), double(vfgp::log_det(A)), 1e-10, 1e-9);
  // one norm condition number: the estimate never understates rcond
  LD na = 0.L, ni = 0.L;
  for (std::size_t j = 0; j < A.r; ++j) {
    LD x = 0.L, y = 0.L;
    for (std::size_t i = 0; i < A.r; ++i) {
      x += fabsl(A(i, j));
      y += fabsl(inverse(i, j));
    }
    na = std::max(na, x);
    ni = std::max(ni, y);
  }
  const double rcond = double(1.L / (na * ni));
  // (how much it may overstate it is what the same estimate makes of the whole matrix)
  const double above = std::max(20. * rcond, 2. * Eigen::LDLT<Eigen::MatrixXd>(dense).rcond());
  VF_CHECK("rcond", ldlt.rcond() >= rcond * (1. - 1e-6) && ldlt.rcond() <= above && ldlt.rcond() <= 1. + 1e-12,
           ldlt.rcond() << " instead of " << rcond);
  VF_CHECK("adjoint", &ldlt.adjoint() == &ldlt, "adjoint");
  // a single block of the same matrix gives the same results
  BlockDiagonal whole;
  whole.blocks.push_back(dense);
  same(c, "one_block", whole.ldlt().solve(rhs), X, tol);
  VF_CLOSE("one_block_log_determinant", whole.ldlt().log_determinant(), ldlt.log_determinant(), 1e-10, 1e-9);
  // conformable sizes only
  if (c.index % 40 == 0) {
    const Eigen::MatrixXd tall = gaussian(c.rng, n + 1, 1);
    VF_ABORTS("solve_size", ldlt.solve(tall));
    VF_ABORTS("product_size", bd * tall);
    VF_ABORTS("sqrt_solve_size", ldlt.sqrt_solve(tall));
  }
}

template <typename Solver>
void check_block_symmetric(vf::Case &c, const std::string &key, const BlockSymmetric<Solver> &bs, const LM &A,
                           const Eigen::MatrixXd &rhs, double tol) {
  VF_CHECK(key + "_size", std::size_t(bs.rows()) == A.r && std::size_t(bs.cols()) == A.r, bs.rows());
  same(c, key, bs.solve(rhs), vfgp::solve(A, vfgp::from_eigen(rhs)), tol);
  const Eigen::VectorXd v = rhs.col(0);
  same(c, key + "_vector", bs.solve(v), vfgp::solve(A, vfgp::from_eigen(Eigen::MatrixXd(v))), tol);
}

VF_SECTION("block_symmetric", 400, 12000) {
  const Eigen::Index na = some_size(c.rng, 9), nc = some_size(c.rng, 5), n = na + nc;
  const double spread = c.rng.pick(std::vector<double>{10., 1e3});
  const Eigen::MatrixXd x = spd(c.rng, n, spread);
  const Eigen::MatrixXd a = x.topLeftCorner(na, na), b = x.topRightCorner(na, nc), cc = x.bottomRightCorner(nc, nc);
  const Eigen::MatrixXd rhs = right_hand_side(c.rng, n, c.rng.integer(1, 3));
  c.desc << na << "+" << nc << " " << text(x);
  c.reached();
  const LM A = vfgp::from_eigen(x);
  const double tol = 1e-11 * spread;
  const Eigen::SerializableLDLT ldlt(a);
  const auto bs = build_block_symmetric(ldlt, b, cc);
  check_block_symmetric(c, "matrix", bs, A, rhs, tol);
  // given the factorized Schur complement
  const Eigen::MatrixXd schur = cc - b.transpose() * ldlt.solve(b);
  const Eigen::SerializableLDLT s(schur);
  check_block_symmetric(c, "schur", build_block_symmetric(ldlt, b, s), A, rhs, tol);
  check_block_symmetric(c, "schur_eigen", build_block_symmetric(ldlt, b, schur.ldlt()), A, rhs, tol);
  check_block_symmetric(c, "constructor", BlockSymmetric<Eigen::SerializableLDLT>(ldlt, b, s), A, rhs, tol);
  VF_CHECK("equal", bs == build_block_symmetric(ldlt, b, cc), "same parts");
  Eigen::MatrixXd c2 = cc;
  c2(0, 0) *= 2.;
  VF_CHECK("unequal", !(bs == build_block_symmetric(ldlt, b, c2)), "other corner");
  Eigen::MatrixXd b2 = b;
  b2(0, 0) += 0.5 * std::sqrt(a(0, 0));
  VF_CHECK("unequal", !(bs == BlockSymmetric<Eigen::SerializableLDLT>(ldlt, b2, s)), "other coupling");
  // other representations of the same leading block
  const LM inverse_a = vfgp::solve(vfgp::from_eigen(a), identity(std::size_t(na)));
  Eigen::MatrixXd ia(na, na);
  for (Eigen::Index i = 0; i < na; ++i)
    for (Eigen::Index j = 0; j < na; ++j)
      ia(i, j) = double(inverse_a(std::size_t(i), std::size_t(j)));
  check_block_symmetric(c, "direct_inverse", build_block_symmetric(DirectInverse(ia), b, cc), A, rhs, tol);
  // a = o i^-1 o with i = o a^-1 o
  Eigen::MatrixXd o = spd(c.rng, na, 10.);
  Eigen::MatrixXd inner = o * ia * o;
  symmetrize(&inner);
  const ExplainedCovariance explained(o, inner);
  check_block_symmetric(c, "explained", build_block_symmetric(explained, b, cc), A, rhs, 100. * tol);
  // nested: the result does not depend on where it is cut
  if (na >= 2) {
    const Eigen::Index cut = c.rng.integer(1, int(na) - 1);
    const auto inner_bs = build_block_symmetric(Eigen::SerializableLDLT(Eigen::MatrixXd(a.topLeftCorner(cut, cut))),
                                                Eigen::MatrixXd(a.topRightCorner(cut, na - cut)),
                                                Eigen::MatrixXd(a.bottomRightCorner(na - cut, na - cut)));
    check_block_symmetric(c, "inner", inner_bs, vfgp::from_eigen(a), rhs.topRows(na), tol);
    check_block_symmetric(c, "nested", build_block_symmetric(inner_bs, b, cc), A, rhs, 10. * tol);
    c.count("nested");
  }
  // over a block diagonal leading block
  BlockDiagonal bd;
  const auto parts = some_cut(c.rng, int(c.rng.integer(1, 3)), false);
  Eigen::Index nb = 0;
  const double common = some_scale(c.rng);
  for (auto p : parts) {
    bd.blocks.push_back(spd(c.rng, p, 10., common * c.rng.log_uniform(0.1, 10.)));
    nb += p;
  }
  const Eigen::MatrixXd coupling = common * gaussian(c.rng, nb, nc);
  const Eigen::MatrixXd extra = spd(c.rng, nc, 10., common * c.rng.log_uniform(0.1, 10.));
  Eigen::MatrixXd corner = extra + coupling.transpose() * bd.ldlt().solve(coupling);
  symmetrize(&corner);
  Eigen::MatrixXd big(nb + nc, nb + nc);
  big << bd.toDense(), coupling, coupling.transpose(), corner;
  LM BIG = vfgp::from_eigen(big);
  const Eigen::MatrixXd rb = right_hand_side(c.rng, nb + nc, 2);
  // conditioning is not controlled here: compare the residual instead
  const Eigen::MatrixXd got = build_block_symmetric(bd.ldlt(), coupling, corner).solve(rb);
  const Eigen::MatrixXd back = big * got;
  const double size = big.cwiseAbs().rowwise().sum().maxCoeff() * got.cwiseAbs().maxCoeff() + rb.cwiseAbs().maxCoeff();
  VF_CHECK("block_diagonal_residual", (back - rb).cwiseAbs().maxCoeff() <= 1e-9 * size,
           (back - rb).cwiseAbs().maxCoeff());
}

VF_SECTION("representations", 300, 8000) {
  const Eigen::Index n = some_size(c.rng, 9);
  const Eigen::MatrixXd o = spd(c.rng, n, 100.);
  // the inner matrix may be singular
  const Eigen::Index rank = c.rng.integer(0, int(n));
  const Eigen::MatrixXd l = gaussian(c.rng, n, std::max<Eigen::Index>(1, rank)) * (rank ? 1. : 0.);
  const Eigen::MatrixXd inner = l * l.transpose();
  const Eigen::MatrixXd rhs = right_hand_side(c.rng, n, c.rng.integer(1, 3));
  c.desc << text(o) << " rank " << rank;
  c.reached();
  if (rank < n)
    c.count("singular_inner");
  const LM O = vfgp::from_eigen(o), I = vfgp::from_eigen(inner), R = vfgp::from_eigen(rhs);
  const LM once = vfgp::solve(O, R);
  const LM expected = vfgp::solve(O, vfgp::mul(I, once));
  const LM oi = vfgp::solve(O, identity(O.r));
  const double scale = double(largest(oi) * largest(oi) * largest(I));
  const ExplainedCovariance x(o, inner), y(Eigen::SerializableLDLT(o), inner);
  same(c, "explained", x.solve(rhs), expected, 1e-9, scale);
  same(c, "explained_ldlt", y.solve(rhs), expected, 1e-9, scale);
  VF_CHECK("explained_size", x.rows() == n && x.cols() == n, x.rows());
  VF_CHECK("explained_equal", x == y, "same matrices");
  Eigen::MatrixXd other = inner;
  other(0, 0) += 1.;
  VF_CHECK("explained_unequal", !(x == ExplainedCovariance(o, other)) &&
                                    !(x == ExplainedCovariance(2. * o, inner)), "other matrices");
  const DirectInverse d(inner);
  same(c, "direct", d.solve(rhs), vfgp::mul(I, R), 1e-12, double(largest(I)) * 4.);
  VF_CHECK("direct_equal", d == DirectInverse(inner) && !(d == DirectInverse(other)) && d.rows() == n && d.cols() == n, "equality");
}

VF_SECTION("grouped", 400, 10000) {
  // products over matching groups
  const int k = int(c.rng.integer(1, 5));
  const Eigen::Index p = c.rng.integer(1, 4), q = c.rng.integer(1, 4);
  Grouped<std::string, Eigen::MatrixXd> wide, tall, tall2, rhs, same_a, same_b;
  Grouped<std::string, Eigen::SerializableLDLT> solvers;
  LM product{std::size_t(p), std::size_t(q)}, inner{std::size_t(p), std::size_t(q)}, sum{std::size_t(p), std::size_t(q)};
  std::map<std::string, LM> solved;
  std::vector<Eigen::MatrixXd> list;
  std::vector<int> order(std::size_t(k), 0);
  std::iota(order.begin(), order.end(), 0);
  c.rng.shuffle(order);
  for (int i : order) {
    const std::string key = "g" + std::to_string(i);
    const Eigen::Index n = c.rng.integer(1, 5);
    const Eigen::MatrixXd a = gaussian(c.rng, p, n), b = gaussian(c.rng, n, q), s = spd(c.rng, n, 100.);
    const Eigen::MatrixXd at = a.transpose(), u = gaussian(c.rng, p, q), w = gaussian(c.rng, p, q);
    wide[key] = a;
    tall[key] = b;
    tall2[key] = at;
    rhs[key] = b;
    same_a[key] = u;
    same_b[key] = w;
    solvers[key] = Eigen::SerializableLDLT(s);
    list.push_back(u);
    const LM ab = vfgp::mul(vfgp::from_eigen(a), vfgp::from_eigen(b));
    for (std::size_t j = 0; j < product.a.size(); ++j) {
      product.a[j] += ab.a[j];
      sum.a[j] += vfgp::from_eigen(u).a[j];
    }
    solved[key] = vfgp::solve(vfgp::from_eigen(s), vfgp::from_eigen(b));
    c.desc << text(a) << " ";
  }
  c.reached();
  inner = product;
  same(c, "block_sum", block_sum(list), sum, 1e-13, 10.);
  same(c, "block_sum_grouped", block_sum(same_a), sum, 1e-13, 10.);
  same(c, "block_product", block_product(wide, tall), product, 1e-13, 30.);
  same(c, "block_inner_product", block_inner_product(tall2, tall), inner, 1e-13, 30.);
  same(c, "block_accumulate",
       block_accumulate(wide, tall, [](const Eigen::MatrixXd &x, const Eigen::MatrixXd &y) -> Eigen::MatrixXd { return x * y; }),
       product, 1e-13, 30.);
  const auto x = block_diag_solve(solvers, rhs);
  VF_CHECK("block_diag_solve_size", x.size() == std::size_t(k), x.size());
  for (const auto &s : solved)
    same(c, "block_diag_solve", x.at(s.first), s.second, 1e-9);
  const auto d = block_subtract(same_a, same_b);
  VF_CHECK("block_subtract_size", d.size() == std::size_t(k), d.size());
  for (const auto &u : same_a)
    VF_CHECK("block_subtract", d.at(u.first) == u.second - same_b.at(u.first), u.first);
  // stacking
  const auto stacked = vertical_stack(list);
  VF_REQUIRE("stack_shape", stacked.rows() == p * k && stacked.cols() == q, stacked.rows());
  for (int i = 0; i < k; ++i)
    VF_CHECK("stack", stacked.middleRows(i * p, p) == list[std::size_t(i)], i);
  std::vector<Eigen::VectorXd> vs;
  Eigen::Index total = 0;
  for (int i = 0; i < k; ++i) {
    const Eigen::Index m = c.rng.coin(0.2) ? 0 : c.rng.integer(1, 4);
    vs.push_back(m ? Eigen::VectorXd(gaussian(c.rng, m, 1)) : Eigen::VectorXd(0));
    total += m;
  }
  const auto sv = vertical_stack(vs);
  VF_REQUIRE("stack_vectors_shape", sv.rows() == total && sv.cols() == 1, sv.rows());
  Eigen::Index at = 0;
  for (const auto &v : vs) {
    VF_CHECK("stack_vectors", sv.middleRows(at, v.size()) == v, at);
    at += v.size();
  }
  if (c.index % 40 == 0 && k > 1) {
    auto bad = same_b;
    bad.erase("g0");
    VF_ABORTS("missing_group", block_accumulate(same_a, bad, [](const auto &u, const auto &w) -> Eigen::MatrixXd { return u + w; }));
    VF_ABORTS("missing_group", block_subtract(same_a, bad));
    bad["other"] = same_b.at("g0");
    VF_ABORTS("other_group", block_inner_product(same_a, bad));
    auto uneven = list;
    uneven.push_back(gaussian(c.rng, 1, q + 1));
    VF_ABORTS("uneven_stack", vertical_stack(uneven));
    c.count("refused");
  }
}

VF_SECTION("truncated_psd_solve", 200, 5000) {
  const Eigen::Index n = some_size(c.rng, 8);
  const Eigen::MatrixXd q = rotation(c.rng, n);
  Eigen::VectorXd d(n);
  const double threshold = c.rng.pick(std::vector<double>{1e-8, 1e-3});
  int dropped = 0;
  for (Eigen::Index i = 0; i < n; ++i) {
    const bool drop = c.rng.coin(0.4);
    dropped += drop;
    d[i] = drop ? (c.rng.coin() ? 0. : threshold * 1e-2 * c.rng.u()) : c.rng.log_uniform(10. * threshold, 1e2);
  }
  Eigen::MatrixXd a = q * d.asDiagonal() * q.transpose();
  symmetrize(&a);
  Eigen::VectorXd di(n);
  for (Eigen::Index i = 0; i < n; ++i)
    di[i] = d[i] < threshold ? 0. : 1. / d[i];
  const Eigen::MatrixXd rhs = right_hand_side(c.rng, n, c.rng.integer(1, 3));
  const Eigen::MatrixXd expected = q * di.asDiagonal() * q.transpose() * rhs;
  c.desc << text(a) << " " << threshold;
  c.reached();
  c.count(dropped == n ? "all_dropped" : dropped ? "some_dropped" : "none_dropped");
  const Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(a);
  // eigenvectors of eigenvalues e move by 1e-16 * 100 / gap
  const double tol = threshold < 1e-6 ? 1e-4 : 1e-8;
  same(c, "solve", threshold == 1e-8 ? truncated_psd_solve(es, rhs) : truncated_psd_solve(es, rhs, threshold),
       vfgp::from_eigen(expected), tol, 1.);
  const Eigen::VectorXd v = rhs.col(0);
  same(c, "solve_vector", truncated_psd_solve(es, v, threshold), vfgp::from_eigen(Eigen::MatrixXd(expected.col(0))), tol, 1.);
}

template <typename QR>
void check_qr(vf::Case &c, const std::string &key, const QR &qr, const Eigen::MatrixXd &a, const Eigen::MatrixXd &rhs,
              double spread) {
  const Eigen::Index n = a.cols();
  const Eigen::MatrixXd r = get_R(qr);
  VF_REQUIRE(key + "_shape", r.rows() == n && r.cols() == n, r.rows() << " by " << r.cols());
  for (Eigen::Index i = 0; i < n; ++i)
    for (Eigen::Index j = 0; j < i; ++j)
      VF_CHECK(key + "_triangular", r(i, j) == 0., "below the diagonal");
  const Eigen::PermutationMatrixX p = get_P(qr);
  const LM A = vfgp::from_eigen(a);
  const LM ata = vfgp::mul(vfgp::transpose(A), A);
  Eigen::MatrixXd pd = p * Eigen::MatrixXd::Identity(n, n);
  const LM P = vfgp::from_eigen(pd), Rm = vfgp::from_eigen(r);
  const LM rhs_m = vfgp::from_eigen(rhs);
  same(c, key + "_gram", r.transpose() * r, vfgp::mul(vfgp::transpose(P), vfgp::mul(ata, P)), 1e-12);
  // R^-T P^T rhs, and its square
  const Eigen::MatrixXd s = sqrt_solve(qr, rhs), s2 = sqrt_solve(r, p, rhs);
  const double tol = 1e-11 * spread * spread;
  same(c, key + "_sqrt_solve", s, vfgp::solve(vfgp::transpose(Rm), vfgp::mul(vfgp::transpose(P), rhs_m)), tol);
  same(c, key + "_sqrt_solve_parts", s2, vfgp::from_eigen(s), 1e-13);
  same(c, key + "_quadratic", s.transpose() * s, vfgp::mul(vfgp::transpose(rhs_m), vfgp::solve(ata, rhs_m)), tol);
  const Eigen::VectorXd v = rhs.col(0);
  same(c, key + "_sqrt_solve_vector", sqrt_solve(qr, v), vfgp::from_eigen(Eigen::MatrixXd(s.col(0))), 1e-12);
}

VF_SECTION("qr", 350, 9000) {
  const Eigen::Index n = some_size(c.rng, 8), m = n + c.rng.integer(0, 8);
  const double spread = c.rng.pick(std::vector<double>{2., 30.});
  Eigen::MatrixXd a = gaussian(c.rng, m, n);
  const bool sparse_pattern = c.rng.coin();
  if (sparse_pattern)
    for (Eigen::Index i = 0; i < a.size(); ++i)
      if (c.rng.coin(0.5))
        a.data()[i] = 0.;
  // full rank, condition under control
  a *= 0.1;
  for (Eigen::Index i = 0; i < n; ++i)
    a(i, i) += double(1 + n);
  std::vector<std::size_t> rows(std::size_t(m), 0);
  std::iota(rows.begin(), rows.end(), std::size_t(0));
  c.rng.shuffle(rows);
  a = subset_rows(a, rows);
  Eigen::VectorXd col(n);
  for (Eigen::Index i = 0; i < n; ++i)
    col[i] = c.rng.log_uniform(1. / spread, 1.);
  a = (a * col.asDiagonal()).eval();
  const Eigen::MatrixXd rhs = right_hand_side(c.rng, n, c.rng.integer(1, 3));
  c.desc << text(a);
  c.reached();
  c.count(m == n ? "square" : "tall");
  const Eigen::ColPivHouseholderQR<Eigen::MatrixXd> qr(a);
  check_qr(c, "dense", qr, a, rhs, spread);
  const SparseMatrix sp = a.sparseView();
  const auto spqr = SPQR_create(sp);
  VF_CHECK("sparse_rank", spqr->rank() == n, spqr->rank());
  check_qr(c, "sparse", *spqr, a, rhs, spread);
  ThreadPool pool(2);
  const auto threaded = SPQR_create(sp, &pool);
  check_qr(c, "sparse_threaded", *threaded, a, rhs, spread);
  auto later = SPQR_create(&pool);
  later->compute(sp);
  check_qr(c, "sparse_later", *later, a, rhs, spread);
  // least squares solutions agree with the normal equations
  const Eigen::MatrixXd b = gaussian(c.rng, m, 2);
  const LM A = vfgp::from_eigen(a);
  const LM x = vfgp::solve(vfgp::mul(vfgp::transpose(A), A), vfgp::mul(vfgp::transpose(A), vfgp::from_eigen(b)));
  Eigen::MatrixXd got(n, 2); // Eigen's interface takes one column at a time
  for (int j = 0; j < 2; ++j)
    got.col(j) = spqr->solve(Eigen::VectorXd(b.col(j)));
  same(c, "sparse_solve", got, x, 1e-11 * spread * spread, 1.);
  same(c, "dense_solve", qr.solve(b), x, 1e-11 * spread * spread, 1.);
}

VF_SECTION("pivot_threshold", 60, 400) {
  const Eigen::Index m = c.rng.integer(1, 12), n = c.rng.integer(1, 12), least = c.rng.integer(1, 12);
  const double k = c.rng.log_uniform(1e-2, 1e2);
  Eigen::MatrixXd a = gaussian(c.rng, m, n) * c.rng.log_uniform(1e-3, 1e3);
  if (c.rng.coin(0.2))
    a.setZero();
  c.desc << text(a) << " " << least << " " << k;
  c.reached();
  double norm = 0.;
  for (Eigen::Index j = 0; j < n; ++j)
    norm = std::max(norm, std::sqrt(a.col(j).squaredNorm()));
  const double e = m < least || n < least ? 1e-15
                                          : k * double(m + n) * (norm == 0. ? 1. : norm) * std::ldexp(1., -52);
  VF_CLOSE("dense", SPQR_pivot_threshold(a, least, k), e, 1e-12, 0.);
  const SparseMatrix s = a.sparseView();
  VF_CLOSE("sparse", SPQR_pivot_threshold(s, least, k), e, 1e-12, 0.);
}

VF_SECTION("large", 2, 25) {
  // past the size at which the sparse threshold changes
  const Eigen::Index n = 300 + c.rng.integer(0, 20), m = n + c.rng.integer(0, 30);
  std::vector<Eigen::Triplet<double>> t;
  for (Eigen::Index i = 0; i < n; ++i)
    t.emplace_back(i, i, 2. + c.rng.u());
  for (int k = 0; k < 3 * n; ++k)
    t.emplace_back(c.rng.integer(0, int(m) - 1), c.rng.integer(0, int(n) - 1), 0.3 * c.rng.normal());
  SparseMatrix a(m, n);
  a.setFromTriplets(t.begin(), t.end());
  c.desc << m << "x" << n << " " << a.nonZeros();
  c.reached();
  const auto qr = SPQR_create(a);
  const Eigen::MatrixXd dense = a;
  const Eigen::MatrixXd gram = dense.transpose() * dense;
  VF_CHECK("rank", qr->rank() == n, qr->rank());
  const Eigen::MatrixXd r = get_R(*qr);
  const Eigen::MatrixXd permuted = get_P(*qr).transpose() * gram * get_P(*qr);
  VF_CHECK("gram", (r.transpose() * r - permuted).cwiseAbs().maxCoeff() <= 1e-10 * gram.cwiseAbs().maxCoeff(), "R^T R");
  const Eigen::MatrixXd rhs = right_hand_side(c.rng, n, 2);
  const Eigen::MatrixXd s = sqrt_solve(*qr, rhs);
  const Eigen::MatrixXd e = rhs.transpose() * gram.ldlt().solve(rhs);
  VF_CHECK("quadratic", (s.transpose() * s - e).cwiseAbs().maxCoeff() <= 1e-8 * (1. + e.cwiseAbs().maxCoeff()), "quadratic form");
}

} // namespace
