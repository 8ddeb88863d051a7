// C10: archives of matrices.
#include "c10_util.h"

namespace {
using namespace vfser;
using namespace albatross;

template <typename M> void fill(vf::Rng &g, M *m, bool with_special) {
  using S = typename M::Scalar;
  for (Eigen::Index i = 0; i < m->size(); ++i) {
    if (std::is_floating_point<S>::value) {
      m->data()[i] = static_cast<S>(with_special && g.coin() ? special(g)
                                                             : g.normal());
    } else {
      m->data()[i] = static_cast<S>(g.next());
    }
  }
}

template <typename M> bool same_raw(const M &a, const M &b) {
  return a.rows() == b.rows() && a.cols() == b.cols() &&
         (a.size() == 0 ||
          std::memcmp(a.data(), b.data(),
                      sizeof(typename M::Scalar) *
                          static_cast<std::size_t>(a.size())) == 0);
}

template <typename M>
void dense(vf::Case &c, Eigen::Index rows, Eigen::Index cols) {
  M m(rows, cols);
  fill(c.rng, &m, true);
  c.desc << rows << "x" << cols << " of " << sizeof(typename M::Scalar)
         << " bytes; ";
  trip_all(
      c, m,
      [&]() {
        // Into something which holds other values already.
        M other(rows, cols);
        if (M::RowsAtCompileTime == Eigen::Dynamic ||
            M::ColsAtCompileTime == Eigen::Dynamic) {
          const auto r = M::RowsAtCompileTime == Eigen::Dynamic
                             ? c.rng.integer(0, 9)
                             : static_cast<long>(rows);
          const auto k = M::ColsAtCompileTime == Eigen::Dynamic
                             ? c.rng.integer(0, 9)
                             : static_cast<long>(cols);
          other.resize(r, k);
        }
        fill(c.rng, &other, true);
        return other;
      },
      [&](const M &a, const M &b, const char *format) {
        VF_CHECK("bits", same_raw(a, b), format);
      });
  c.count("dense_matrices");
}

VF_SECTION("dense", 120, 1500) {
  const auto any = [&]() {
    return static_cast<Eigen::Index>(
        c.rng.coin() ? c.rng.integer(0, 6) : c.rng.integer(0, 60));
  };
  const auto rows = any();
  const auto cols = any();
  if (rows == 0 || cols == 0) {
    c.count("empty_matrices");
  }
  switch (c.index % 14) {
  case 0:
    dense<Eigen::MatrixXd>(c, rows, cols);
    break;
  case 1:
    dense<Eigen::VectorXd>(c, rows, 1);
    break;
  case 2:
    dense<Eigen::RowVectorXd>(c, 1, cols);
    break;
  case 3:
    dense<Eigen::Matrix3d>(c, 3, 3);
    break;
  case 4:
    dense<Eigen::MatrixXi>(c, rows, cols);
    break;
  case 5:
    dense<Eigen::MatrixXf>(c, rows, cols);
    break;
  case 6:
    dense<Eigen::Matrix<double, 2, 5>>(c, 2, 5);
    break;
  case 7:
    dense<Eigen::Matrix<double, Eigen::Dynamic, 3>>(c, rows, 3);
    break;
  case 8:
    dense<Eigen::Matrix<double, 3, Eigen::Dynamic>>(c, 3, cols);
    break;
  case 9:
    dense<Eigen::Matrix<Eigen::Index, Eigen::Dynamic, 1>>(c, rows, 1);
    break;
  case 10:
    dense<Eigen::Matrix<std::uint8_t, Eigen::Dynamic, Eigen::Dynamic>>(c, rows,
                                                                       cols);
    break;
  case 11:
    dense<Eigen::RowVector3d>(c, 1, 3);
    break;
  case 12:
    dense<Eigen::Vector4i>(c, 4, 1);
    break;
  case 13:
    dense<Eigen::MatrixXd>(c, rows * 4, cols * 4);
    break;
  }
  c.reached();
}

// Matrices used to be compressed with gzip, those archives remain readable.
template <typename M>
void legacy(vf::Case &c, Eigen::Index rows, Eigen::Index cols) {
  M m(rows, cols);
  fill(c.rng, &m, true);
  const std::string raw(reinterpret_cast<const char *>(m.data()),
                        sizeof(typename M::Scalar) *
                            static_cast<std::size_t>(m.size()));
  const std::string payload = gzip::compress(raw.data(), raw.size());
  c.desc << rows << "x" << cols << "; ";
  std::ostringstream binary;
  {
    cereal::BinaryOutputArchive ar(binary);
    const std::uint32_t version = 0;
    ar(version, rows, cols, payload);
  }
  M loaded;
  {
    std::istringstream is(binary.str());
    cereal::BinaryInputArchive ar(is);
    ar(loaded);
  }
  VF_CHECK("binary", same_raw(m, loaded), "legacy payload");
  std::ostringstream json;
  json << "{\"m\": {\"cereal_class_version\": 0, \"rows\": \"" << rows
       << "\", \"cols\": \"" << cols << "\", \"payload\": \""
       << cereal::base64::encode(
              reinterpret_cast<const unsigned char *>(payload.data()),
              payload.size())
       << "\"}}";
  std::string text = json.str();
  {
    // 64 bit integers are strings or numbers depending on cereal's version.
    std::ostringstream probe;
    {
      cereal::JSONOutputArchive ar(probe);
      const Eigen::Index one = 1;
      ar(cereal::make_nvp("x", one));
    }
    if (probe.str().find("\"1\"") == std::string::npos) {
      std::ostringstream plain;
      plain << "{\"m\": {\"cereal_class_version\": 0, \"rows\": " << rows
            << ", \"cols\": " << cols << ", \"payload\": \""
            << cereal::base64::encode(
                   reinterpret_cast<const unsigned char *>(payload.data()),
                   payload.size())
            << "\"}}";
      text = plain.str();
    }
  }
  M from_json;
  {
    std::istringstream is(text);
    cereal::JSONInputArchive ar(is);
    ar(cereal::make_nvp("m", from_json));
  }
  VF_CHECK("json", same_raw(m, from_json), "legacy payload");
  c.count("legacy_payloads");
}

VF_SECTION("gzip_payloads", 30, 400) {
  const auto rows = static_cast<Eigen::Index>(c.rng.wide(1, 30, 90));
  const auto cols = static_cast<Eigen::Index>(c.rng.wide(1, 30, 90));
  switch (c.index % 4) {
  case 0:
    legacy<Eigen::MatrixXd>(c, rows, cols);
    break;
  case 1:
    legacy<Eigen::VectorXd>(c, rows, 1);
    break;
  case 2:
    legacy<Eigen::MatrixXi>(c, rows, cols);
    break;
  case 3:
    legacy<Eigen::Matrix3d>(c, 3, 3);
    break;
  }
  c.reached();
}

VF_SECTION("permutations", 60, 800) {
  const auto n = static_cast<int>(c.rng.wide(0, 40, 300));
  c.desc << "n=" << n << "; ";
  std::vector<int> order(static_cast<std::size_t>(n));
  std::iota(order.begin(), order.end(), 0);
  c.rng.shuffle(order);
  using P = Eigen::PermutationMatrix<Eigen::Dynamic, Eigen::Dynamic, int>;
  using PX = Eigen::PermutationMatrixX;
  using T = Eigen::Transpositions<Eigen::Dynamic, Eigen::Dynamic, int>;
  P p(n);
  PX px(n);
  T t(n);
  for (int i = 0; i < n; ++i) {
    p.indices()[i] = order[static_cast<std::size_t>(i)];
    px.indices()[i] = order[static_cast<std::size_t>(i)];
    t.indices()[i] = static_cast<int>(c.rng.integer(i, n - 1));
  }
  const Eigen::MatrixXd x = random_matrix(c.rng, n, 3);
  trip_all(
      c, p, [&]() { return P(static_cast<int>(c.rng.integer(0, 3))); },
      [&](const P &a, const P &b, const char *format) {
        VF_REQUIRE("permutation_indices", same_raw(a.indices(), b.indices()),
                   format);
        VF_CHECK("permutation_acts", n == 0 || same(a * x, b * x), format);
      });
  trip_all(
      c, px, [&]() { return PX(c.rng.integer(0, 3)); },
      [&](const PX &a, const PX &b, const char *format) {
        VF_CHECK("permutation_x", same_raw(a.indices(), b.indices()), format);
      });
  trip_all(
      c, t, [&]() { return T(static_cast<int>(c.rng.integer(0, 3))); },
      [&](const T &a, const T &b, const char *format) {
        VF_REQUIRE("transpositions_indices",
                   same_raw(a.indices(), b.indices()), format);
        VF_CHECK("transpositions_act",
                 n == 0 || same(Eigen::MatrixXd(a * x), Eigen::MatrixXd(b * x)),
                 format);
      });
  Eigen::DiagonalMatrix<double, Eigen::Dynamic> d(n);
  for (int i = 0; i < n; ++i) {
    d.diagonal()[i] = special(c.rng);
  }
  using D = Eigen::DiagonalMatrix<double, Eigen::Dynamic>;
  trip_all(
      c, d, [&]() { return D(c.rng.integer(0, 3)); },
      [&](const D &a, const D &b, const char *format) {
        VF_CHECK("diagonal", same(a.diagonal(), b.diagonal()), format);
      });
  c.count("permutations");
  c.reached();
}

template <typename S> void sparse(vf::Case &c) {
  const auto rows = static_cast<Eigen::Index>(c.rng.wide(0, 40, 300));
  const auto cols = static_cast<Eigen::Index>(c.rng.wide(0, 40, 300));
  const double fill_fraction = c.rng.pick(std::vector<double>{0., .02, .3, 1.});
  using Scalar = typename S::Scalar;
  S m(rows, cols);
  Eigen::MatrixXd expected = Eigen::MatrixXd::Zero(rows, cols);
  std::vector<Eigen::Triplet<Scalar>> entries;
  for (Eigen::Index i = 0; i < rows; ++i) {
    for (Eigen::Index j = 0; j < cols; ++j) {
      if (c.rng.u() < fill_fraction) {
        const Scalar v = static_cast<Scalar>(
            std::is_floating_point<Scalar>::value
                ? (c.rng.u() < 0.05 ? special(c.rng) : c.rng.normal())
                : c.rng.integer(-100, 100));
        entries.emplace_back(static_cast<int>(i), static_cast<int>(j), v);
        expected(i, j) = static_cast<double>(v);
      }
    }
  }
  c.rng.shuffle(entries);
  const bool one_by_one = c.rng.coin(0.4);
  if (one_by_one) {
    // Inserted in any order, some of them replaced or removed again: the
    // storage is left with gaps.
    if (c.rng.coin())
      m.reserve(Eigen::VectorXi::Constant(m.outerSize(), static_cast<int>(c.rng.integer(1, 12))));
    for (const auto &e : entries)
      m.insert(e.row(), e.col()) = c.rng.coin() ? e.value() : static_cast<Scalar>(7);
    for (const auto &e : entries)
      m.coeffRef(e.row(), e.col()) = e.value();
    c.count("inserted_one_by_one");
    if (!m.isCompressed())
      c.count("with_gaps");
    if (c.rng.coin(0.2))
      m.makeCompressed();
  } else {
    m.setFromTriplets(entries.begin(), entries.end());
  }
  if (!one_by_one && c.rng.coin()) {
    // Not compressed.
    m.uncompress();
    c.count("uncompressed_sparse");
  }
  c.desc << rows << "x" << cols << " with " << entries.size() << " entries; ";
  trip_all(
      c, m,
      [&]() {
        S other(c.rng.integer(1, 5), c.rng.integer(1, 5));
        other.insert(0, 0) = static_cast<Scalar>(3);
        return other;
      },
      [&](const S &a, const S &b, const char *format) {
        VF_REQUIRE("sparse_size", b.rows() == rows && b.cols() == cols, format);
        VF_CHECK("sparse_entries", b.nonZeros() == a.nonZeros(),
                 format << " " << b.nonZeros());
        Eigen::MatrixXd got = Eigen::MatrixXd::Zero(rows, cols);
        for (Eigen::Index k = 0; k < b.outerSize(); ++k) {
          for (typename S::InnerIterator it(b, k); it; ++it) {
            got(it.row(), it.col()) = static_cast<double>(it.value());
          }
        }
        VF_CHECK("sparse_values", same(got, expected), format);
      });
  c.count("sparse_matrices");
}

VF_SECTION("sparse", 60, 800) {
  switch (c.index % 4) {
  case 0:
    sparse<Eigen::SparseMatrix<double>>(c);
    break;
  case 1:
    sparse<Eigen::SparseMatrix<double, Eigen::RowMajor>>(c);
    break;
  case 2:
    sparse<Eigen::SparseMatrix<double, Eigen::ColMajor, long>>(c);
    break;
  case 3:
    sparse<Eigen::SparseMatrix<int>>(c);
    break;
  }
  c.reached();
}

} // namespace
