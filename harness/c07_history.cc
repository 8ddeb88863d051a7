// C07: factorizations and solves do not depend on those before.
#include <albatross/GP>
#include <albatross/linalg/Block>
#include <albatross/linalg/Utils>

#include "history.h"

namespace {
using namespace albatross;

VF_SECTION("history", 120, 4000) {
  const std::size_t n = c.rng.size(2, 6), k = c.rng.size(1, 3);
  std::vector<double> v;
  for (std::size_t i = 0; i < n * n + n * k + n; ++i)
    v.push_back(c.rng.normal());
  c.desc << "n=" << n << " k=" << k << " v0=" << v[0];
  vfhist::walk_numbers(c, v, [n, k](const std::vector<double> &u) {
    vfhist::Values o;
    const Eigen::Index N = static_cast<Eigen::Index>(n), K = static_cast<Eigen::Index>(k);
    const Eigen::MatrixXd root = Eigen::Map<const Eigen::MatrixXd>(u.data(), N, N);
    const Eigen::MatrixXd rhs = Eigen::Map<const Eigen::MatrixXd>(u.data() + n * n, N, K);
    Eigen::MatrixXd a = root * root.transpose();
    a.diagonal().array() += 1.;
    const Eigen::SerializableLDLT ldlt(a);
    vfhist::put(&o, ldlt.solve(rhs));
    const Eigen::MatrixXd half = ldlt.sqrt_solve(rhs);
    vfhist::put(&o, half.transpose() * half);
    vfhist::put(&o, Eigen::MatrixXd(ldlt.inverse_diagonal()));
    const std::size_t cut = n / 2;
    std::vector<std::vector<std::size_t>> blocks(2);
    for (std::size_t i = 0; i < n; ++i)
      blocks[i < cut ? 0 : 1].push_back(i);
    for (const auto &b : ldlt.inverse_blocks(blocks))
      vfhist::put(&o, b);
    const Eigen::Index C = static_cast<Eigen::Index>(cut);
    BlockDiagonal bd;
    bd.blocks.push_back(a.topLeftCorner(C, C));
    bd.blocks.push_back(a.bottomRightCorner(N - C, N - C));
    const auto bl = bd.ldlt();
    vfhist::put(&o, bd * rhs);
    vfhist::put(&o, bl.solve(rhs));
    const Eigen::MatrixXd bh = bl.sqrt_solve(rhs);
    vfhist::put(&o, bh.transpose() * bh);
    vfhist::put(&o, bl.log_determinant());
    const Eigen::SerializableLDLT top(Eigen::MatrixXd(a.topLeftCorner(C, C)));
    const auto bs = build_block_symmetric(top, Eigen::MatrixXd(a.topRightCorner(C, N - C)),
                                          Eigen::MatrixXd(a.bottomRightCorner(N - C, N - C)));
    vfhist::put(&o, bs.solve(rhs));
    return o;
  });
}

// Rows and columns in units of their own (powers of two, nothing is rounded):
// (D A D)^-1 = D^-1 A^-1 D^-1.
VF_SECTION("mixed_units", 200, 8000) {
  vf::Rng &g = c.rng;
  const Eigen::Index n = g.wide(2, 9, 70), k = g.integer(1, 3);
  Eigen::MatrixXd root(n, n), rhs(n, k);
  for (Eigen::Index i = 0; i < n; ++i)
    for (Eigen::Index j = 0; j < n; ++j)
      root(i, j) = g.normal();
  for (Eigen::Index i = 0; i < rhs.size(); ++i)
    rhs.data()[i] = g.normal();
  Eigen::MatrixXd a = root * root.transpose();
  a.diagonal().array() += static_cast<double>(n);
  Eigen::VectorXd d(n);
  for (Eigen::Index i = 0; i < n; ++i)
    d[i] = std::ldexp(1., static_cast<int>(g.integer(-25, 25)));
  c.desc << "n=" << n << " d0=" << d[0] << " a0=" << a(0, 0);
  c.reached();
  c.count("mixed_units");
  const auto scale = [&](const Eigen::MatrixXd &m) {
    return Eigen::MatrixXd(d.asDiagonal() * m * d.asDiagonal());
  };
  const Eigen::MatrixXd b = scale(a), r = d.asDiagonal() * rhs;
  const Eigen::VectorXd inverse = d.cwiseInverse();
  const auto same = [&](const char *key, const Eigen::MatrixXd &got, const Eigen::MatrixXd &expected) {
    VF_REQUIRE(key, got.rows() == expected.rows() && got.cols() == expected.cols(), got.rows());
    const double most = expected.size() ? expected.cwiseAbs().maxCoeff() : 0.;
    for (Eigen::Index i = 0; i < got.rows(); ++i)
      for (Eigen::Index j = 0; j < got.cols(); ++j)
        VF_CLOSE(key, got(i, j), expected(i, j), 1e-9, 1e-9 * most);
  };
  const Eigen::SerializableLDLT la(a), lb(b);
  same("solve", d.asDiagonal() * lb.solve(r), la.solve(rhs));
  const Eigen::MatrixXd ha = la.sqrt_solve(rhs), hb = lb.sqrt_solve(r);
  same("sqrt_solve", hb.transpose() * hb, ha.transpose() * ha);
  const Eigen::VectorXd ia = la.inverse_diagonal(), ib = lb.inverse_diagonal();
  same("inverse_diagonal", ib.cwiseProduct(d).cwiseProduct(d), ia);
  const Eigen::Index cut = n / 2;
  std::vector<std::vector<std::size_t>> blocks(2);
  for (Eigen::Index i = 0; i < n; ++i)
    blocks[i < cut ? 0 : 1].push_back(static_cast<std::size_t>(i));
  const auto ba = la.inverse_blocks(blocks), bb = lb.inverse_blocks(blocks);
  VF_REQUIRE("blocks", ba.size() == 2 && bb.size() == 2, bb.size());
  same("inverse_block", d.head(cut).asDiagonal() * bb[0] * d.head(cut).asDiagonal(), ba[0]);
  same("inverse_block", d.tail(n - cut).asDiagonal() * bb[1] * d.tail(n - cut).asDiagonal(), ba[1]);
  const auto parts = [&](const Eigen::MatrixXd &m) {
    BlockDiagonal o;
    o.blocks.push_back(m.topLeftCorner(cut, cut));
    o.blocks.push_back(m.bottomRightCorner(n - cut, n - cut));
    return o;
  };
  const auto da = parts(a).ldlt(), db = parts(b).ldlt();
  same("block_diagonal_solve", d.asDiagonal() * db.solve(r), da.solve(rhs));
  VF_CLOSE("block_diagonal_log_determinant", db.log_determinant() - 2. * d.array().log().sum(),
           da.log_determinant(), 1e-11, 1e-9);
  const auto whole = [&](const Eigen::MatrixXd &m) {
    return build_block_symmetric(Eigen::SerializableLDLT(Eigen::MatrixXd(m.topLeftCorner(cut, cut))),
                                 Eigen::MatrixXd(m.topRightCorner(cut, n - cut)),
                                 Eigen::MatrixXd(m.bottomRightCorner(n - cut, n - cut)));
  };
  same("block_symmetric_solve", d.asDiagonal() * whole(b).solve(r), whole(a).solve(rhs));
}
} // namespace
