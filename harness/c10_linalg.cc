// C10: archives of factorizations and representations of inverses.
#include "c10_util.h"

namespace {
using namespace vfser;
using namespace albatross;

using LDLT = Eigen::SerializableLDLT;

// Of full rank, singular, indefinite, negative, zero, badly scaled.
Eigen::MatrixXd symmetric(vf::Case &c, Eigen::Index n, std::size_t kind) {
  Eigen::MatrixXd m;
  switch (kind % 7) {
  case 0:
  case 1:
    m = random_spd(c.rng, n);
    break;
  case 2: {
    const Eigen::MatrixXd a =
        random_matrix(c.rng, n, std::max<Eigen::Index>(1, n / 2));
    m = a * a.transpose();
    c.count("singular_matrices");
    break;
  }
  case 3: {
    const Eigen::MatrixXd a = random_matrix(c.rng, n, n);
    m = a + a.transpose();
    c.count("indefinite_matrices");
    break;
  }
  case 4:
    m = -random_spd(c.rng, n);
    c.count("negative_matrices");
    break;
  case 5:
    m = Eigen::MatrixXd::Zero(n, n);
    break;
  default: {
    m = random_spd(c.rng, n);
    for (Eigen::Index i = 0; i < n; ++i) {
      const double s = c.rng.log_uniform(1e-3, 1e3);
      m.row(i) *= s;
      m.col(i) *= s;
    }
  }
  }
  return m;
}

void check_ldlt(vf::Case &c, const LDLT &a, const LDLT &b, const char *f,
                bool positive) {
  VF_REQUIRE("initialized", a.is_initialized() == b.is_initialized(), f);
  VF_CHECK("ldlt_equal", a == b, f);
  if (!a.is_initialized()) {
    c.count("empty_decompositions");
    return;
  }
  VF_REQUIRE("ldlt_size", a.rows() == b.rows() && a.cols() == b.cols(), f);
  const Eigen::Index n = a.rows();
  VF_CHECK("ldlt_vector_d",
           same(Eigen::VectorXd(a.vectorD()), Eigen::VectorXd(b.vectorD())), f);
  const Eigen::MatrixXd rhs = random_matrix(c.rng, n, 3);
  const Eigen::VectorXd v = rhs.col(0);
  VF_CHECK("ldlt_solve", same(a.solve(rhs), b.solve(rhs)), f);
  VF_CHECK("ldlt_sqrt_solve", same(a.sqrt_solve(rhs), b.sqrt_solve(rhs)), f);
  VF_CHECK("ldlt_sqrt_product",
           same(a.sqrt_product(rhs), b.sqrt_product(rhs)), f);
  VF_CHECK("ldlt_sqrt_transpose",
           same(a.sqrt_transpose(), b.sqrt_transpose()), f);
  VF_CHECK("ldlt_sqrt_transpose_solve",
           same(a.sqrt_transpose_solve(v), b.sqrt_transpose_solve(v)), f);
  VF_CHECK("ldlt_reconstructed",
           same(a.reconstructedMatrix(), b.reconstructedMatrix()), f);
  VF_CHECK("ldlt_info", a.info() == b.info(),
           f << " " << a.info() << " " << b.info());
  VF_CHECK("ldlt_sign",
           a.isPositive() == b.isPositive() && a.isNegative() == b.isNegative(),
           f << " positive " << a.isPositive() << " " << b.isPositive()
             << " negative " << a.isNegative() << " " << b.isNegative());
  VF_CHECK("ldlt_l1_norm", same_bits(a.l1_norm(), b.l1_norm()),
           f << " " << a.l1_norm() << " " << b.l1_norm());
  VF_CHECK("ldlt_positive_definite",
           a.is_positive_definite() == b.is_positive_definite(), f);
  if (positive) {
    VF_CHECK("ldlt_rcond", same_bits(a.rcond(), b.rcond()),
             f << " " << a.rcond() << " " << b.rcond());
    VF_CHECK("ldlt_log_determinant",
             same_bits(a.log_determinant(), b.log_determinant()), f);
    VF_CHECK("ldlt_inverse_diagonal",
             same(a.inverse_diagonal(), b.inverse_diagonal()), f);
    std::vector<std::vector<std::size_t>> blocks;
    for (std::size_t i = 0; i < static_cast<std::size_t>(n); i += 2) {
      blocks.push_back(i + 1 < static_cast<std::size_t>(n)
                           ? std::vector<std::size_t>{i + 1, i}
                           : std::vector<std::size_t>{i});
    }
    const auto x = a.inverse_blocks(blocks);
    const auto y = b.inverse_blocks(blocks);
    VF_REQUIRE("ldlt_blocks", x.size() == y.size(), f);
    for (std::size_t i = 0; i < x.size(); ++i) {
      VF_CHECK("ldlt_inverse_blocks", same(x[i], y[i]), f);
    }
  }
}

LDLT other_ldlt(vf::Case &c, Eigen::Index n) {
  switch (c.rng.integer(0, 3)) {
  case 0:
    return LDLT();
  case 1:
    // The same size, so that nothing is cleared by a change of size.
    return LDLT(symmetric(c, std::max<Eigen::Index>(n, 1), 3));
  case 2:
    return LDLT(symmetric(c, std::max<Eigen::Index>(n, 1), 4));
  default:
    return LDLT(symmetric(c, c.rng.integer(1, 6), 0));
  }
}

VF_SECTION("ldlt", 70, 1000) {
  const auto n = static_cast<Eigen::Index>(
      c.rng.coin() ? c.rng.integer(1, 5) : c.rng.integer(1, 25));
  const std::size_t kind = c.index % 7;
  c.desc << "n=" << n << " kind=" << kind << "; ";
  const Eigen::MatrixXd m = symmetric(c, n, kind);
  const LDLT ldlt(m);
  trip_all(
      c, ldlt, [&]() { return other_ldlt(c, n); },
      [&](const LDLT &a, const LDLT &b, const char *f) {
        check_ldlt(c, a, b, f, kind == 0 || kind == 1 || kind == 6);
      });
  if (c.index % 3 == 0) {
    const LDLT empty;
    trip_all(
        c, empty, [&]() { return other_ldlt(c, n); },
        [&](const LDLT &a, const LDLT &b, const char *f) {
          check_ldlt(c, a, b, f, false);
        });
  }
  c.count("decompositions");
  c.reached();
}

// Archives from before the norm, sign and status were stored.
VF_SECTION("ldlt_version_0", 20, 300) {
  const auto n = static_cast<Eigen::Index>(c.rng.wide(1, 12, 60));
  const std::size_t kind = c.index % 7;
  const Eigen::MatrixXd m = symmetric(c, n, kind);
  const LDLT a(m);
  c.desc << "n=" << n << " kind=" << kind << "; ";
  std::ostringstream os;
  {
    cereal::BinaryOutputArchive ar(os);
    save(ar, a, 0);
  }
  LDLT b = other_ldlt(c, n);
  {
    std::istringstream is(os.str());
    cereal::BinaryInputArchive ar(is);
    load(ar, b, 0);
  }
  VF_REQUIRE("equal", a == b, "version 0");
  const Eigen::MatrixXd rhs = random_matrix(c.rng, n, 2);
  VF_CHECK("solve", same(a.solve(rhs), b.solve(rhs)), "version 0");
  VF_CHECK("info", b.info() == Eigen::Success, "version 0");
  if (kind != 2) {
    // (rounding decides which sign Eigen assigns to a singular matrix)
    VF_CHECK("sign",
             a.isPositive() == b.isPositive() &&
                 a.isNegative() == b.isNegative(),
             "version 0");
  }
  VF_CHECK("norm", std::isnan(b.l1_norm()) || b.l1_norm() == a.l1_norm(),
           "version 0");
  c.count("version_0");
  c.reached();
}

VF_SECTION("representations", 40, 500) {
  const auto n = static_cast<Eigen::Index>(c.rng.wide(1, 12, 60));
  const auto m = static_cast<Eigen::Index>(c.rng.integer(1, 8));
  c.desc << "n=" << n << " m=" << m << "; ";
  const Eigen::MatrixXd rhs = random_matrix(c.rng, n, 2);
  {
    const ExplainedCovariance x(random_spd(c.rng, n),
                                symmetric(c, n, c.rng.size(0, 6)));
    trip_all(
        c, x,
        [&]() {
          return c.rng.coin() ? ExplainedCovariance()
                              : ExplainedCovariance(random_spd(c.rng, 3),
                                                    random_spd(c.rng, 3));
        },
        [&](const ExplainedCovariance &a, const ExplainedCovariance &b,
            const char *f) {
          VF_CHECK("explained_equal", a == b, f);
          VF_REQUIRE("explained_size",
                     a.rows() == b.rows() && a.cols() == b.cols(), f);
          VF_CHECK("explained_solve", same(a.solve(rhs), b.solve(rhs)), f);
          check_ldlt(c, a.outer_ldlt, b.outer_ldlt, f, true);
        });
  }
  {
    const DirectInverse x(random_matrix(c.rng, n, n));
    trip_all(
        c, x, [&]() { return DirectInverse(random_matrix(c.rng, 2, 2)); },
        [&](const DirectInverse &a, const DirectInverse &b, const char *f) {
          VF_CHECK("direct_equal", a == b, f);
          VF_REQUIRE("direct_size",
                     a.rows() == b.rows() && a.cols() == b.cols(), f);
          VF_CHECK("direct_solve", same(a.solve(rhs), b.solve(rhs)), f);
        });
  }
  {
    const Eigen::MatrixXd x = random_spd(c.rng, n + m);
    const Eigen::MatrixXd A = x.topLeftCorner(n, n);
    const Eigen::MatrixXd B = x.topRightCorner(n, m);
    const Eigen::MatrixXd C = x.bottomRightCorner(m, m);
    const Eigen::MatrixXd both = random_matrix(c.rng, n + m, 2);
    using Block = BlockSymmetric<LDLT>;
    const Block block(LDLT(A), B, C);
    const auto other = [&]() {
      return c.rng.coin() ? Block()
                          : Block(LDLT(random_spd(c.rng, 2)),
                                  random_matrix(c.rng, 2, 3),
                                  LDLT(random_spd(c.rng, 3)));
    };
    const auto check = [&](const auto &a, const auto &b, const char *f) {
      VF_CHECK("block_equal", a == b, f);
      VF_REQUIRE("block_size", a.rows() == b.rows() && a.cols() == b.cols(), f);
      VF_CHECK("block_solve", same(a.solve(both), b.solve(both)), f);
      check_ldlt(c, a.A, b.A, f, true);
      check_ldlt(c, a.S, b.S, f, true);
    };
    trip_all(c, block, other, check);
    // Of another kind of solver.
    const BlockSymmetric<DirectInverse> with_direct(DirectInverse(A.inverse()),
                                                    B, C);
    trip_all(
        c, with_direct, []() { return BlockSymmetric<DirectInverse>(); },
        [&](const auto &a, const auto &b, const char *f) {
          VF_CHECK("direct_block_equal", a == b, f);
          VF_CHECK("direct_block_solve", same(a.solve(both), b.solve(both)),
                   f);
        });
    // Of a block symmetric matrix.
    const Eigen::MatrixXd D = random_spd(c.rng, 2);
    const BlockSymmetric<Block> nested(block, Eigen::MatrixXd::Zero(n + m, 2),
                                       D);
    const Eigen::MatrixXd more = random_matrix(c.rng, n + m + 2, 2);
    trip_all(
        c, nested, []() { return BlockSymmetric<Block>(); },
        [&](const auto &a, const auto &b, const char *f) {
          VF_CHECK("nested_equal", a == b, f);
          VF_CHECK("nested_solve", same(a.solve(more), b.solve(more)), f);
        });
  }
  c.count("representations", 5);
  c.reached();
}

using Sparse = Eigen::SparseMatrix<double>;
using SPQR = Eigen::SerializableSPQR<Sparse>;

Eigen::MatrixXd random_tall(vf::Case &c, Eigen::Index rows, Eigen::Index cols,
                            double density, bool deficient) {
  Eigen::MatrixXd a = random_matrix(c.rng, rows, cols);
  for (Eigen::Index i = 0; i < rows; ++i) {
    for (Eigen::Index j = 0; j < cols; ++j) {
      if (c.rng.u() >= density) {
        a(i, j) = 0.;
      }
    }
  }
  for (Eigen::Index j = 0; j < std::min(rows, cols); ++j) {
    a(j, j) += 2.;
  }
  if (deficient && cols > 1) {
    a.col(cols - 1) = 2. * a.col(0);
  }
  return a;
}

void compute(vf::Case &c, SPQR *qr, const Eigen::MatrixXd &a) {
  const Sparse s = a.sparseView();
  qr->setSPQROrdering(c.rng.coin() ? SPQR_ORDERING_COLAMD
                                   : SPQR_ORDERING_DEFAULT);
  qr->cholmodCommon()->SPQR_nthreads = static_cast<int>(c.rng.integer(1, 3));
  qr->compute(s);
}

VF_SECTION("sparse_qr", 60, 900) {
  const auto cols = static_cast<Eigen::Index>(c.rng.wide(1, 20, 60));
  const auto rows = cols + static_cast<Eigen::Index>(c.rng.integer(0, 30));
  const bool deficient = c.rng.u() < 0.2;
  const Eigen::MatrixXd a =
      random_tall(c, rows, cols, c.rng.pick(std::vector<double>{.1, .4, 1.}),
                  deficient);
  c.desc << rows << "x" << cols << (deficient ? " deficient" : "") << "; ";
  SPQR qr;
  compute(c, &qr, a);
  VF_REQUIRE("factorized", qr.info() == Eigen::Success, "SPQR");
  // One object loads again and again.
  SPQR used;
  const bool preused = c.rng.coin();
  if (preused) {
    compute(c, &used, random_tall(c, 7, 5, 1., false));
    c.count("loaded_over_used_qr");
  }
  const Eigen::VectorXd b = random_vector(c.rng, rows);
  const Eigen::VectorXd x = qr.solve(b);
  const auto check = [&](const char *f) {
    VF_REQUIRE("qr_info", used.info() == Eigen::Success, f);
    VF_REQUIRE("qr_size", used.rows() == rows && used.cols() == cols, f);
    VF_CHECK("qr_rank", used.rank() == qr.rank(), f);
    VF_CHECK("qr_solve", same(used.solve(b), x), f);
    VF_CHECK("qr_permutation",
             used.colsPermutation().indices() == qr.colsPermutation().indices(),
             f);
    VF_CHECK("qr_r",
             same(Eigen::MatrixXd(used.matrixR()), Eigen::MatrixXd(qr.matrixR())),
             f);
    // Everything the rest of the library does with it.
    const Eigen::MatrixXd rhs = random_matrix(c.rng, cols, 2);
    if (!deficient) {
      VF_CHECK("qr_sqrt_solve",
               same(sqrt_solve(used, rhs), sqrt_solve(qr, rhs)), f);
    }
  };
  {
    std::ostringstream os;
    {
      cereal::BinaryOutputArchive ar(os);
      qr.save(ar, 0);
    }
    std::istringstream is(os.str());
    cereal::BinaryInputArchive ar(is);
    used.load(ar, 0);
    check("binary");
  }
  {
    std::ostringstream os;
    {
      cereal::JSONOutputArchive ar(os);
      qr.save(ar, 0);
    }
    std::istringstream is(os.str());
    cereal::JSONInputArchive ar(is);
    used.load(ar, 0);
    check("json");
  }
  {
    // Through the archive's own dispatch.
    std::ostringstream os;
    {
      cereal::PortableBinaryOutputArchive ar(os);
      ar(qr);
    }
    std::istringstream is(os.str());
    cereal::PortableBinaryInputArchive ar(is);
    ar(used);
    check("portable_binary");
  }
  // And remains usable as a solver of something else.
  const Eigen::MatrixXd next = random_tall(c, cols + 3, cols, 1., false);
  compute(c, &used, next);
  SPQR fresh;
  fresh.setSPQROrdering(SPQR_ORDERING_DEFAULT);
  const Eigen::VectorXd bb = random_vector(c.rng, cols + 3);
  const Eigen::VectorXd least = next.colPivHouseholderQr().solve(bb);
  const Eigen::VectorXd got = used.solve(bb);
  VF_CHECK("qr_again", (got - least).norm() <= 1e-8 * (1. + least.norm()),
           "after loading");
  c.count("sparse_qr");
  c.reached();
}

} // namespace
