// Round trips through every archive format.
#ifndef VERIF_C10_UTIL_H
#define VERIF_C10_UTIL_H

#include "vf.h"

#include <albatross/SparseGP>
#include <albatross/LeastSquares>
#include <albatross/NullModel>
#include <albatross/Ransac>
#include <albatross/Evaluation>
#include <albatross/serialize/Core>
#include <albatross/serialize/GP>
#include <albatross/serialize/LeastSquares>
#include <albatross/serialize/Ransac>

#include <cereal/types/utility.hpp>

namespace vfser {

inline bool same_bits(double a, double b) {
  return std::memcmp(&a, &b, sizeof(double)) == 0 ||
         (std::isnan(a) && std::isnan(b));
}

template <typename M1, typename M2> bool same(const M1 &a, const M2 &b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) {
    return false;
  }
  for (Eigen::Index j = 0; j < a.cols(); ++j) {
    for (Eigen::Index i = 0; i < a.rows(); ++i) {
      if (!same_bits(static_cast<double>(a(i, j)),
                     static_cast<double>(b(i, j)))) {
        return false;
      }
    }
  }
  return true;
}

struct Binary {
  using In = cereal::BinaryInputArchive;
  using Out = cereal::BinaryOutputArchive;
  static const char *name() { return "binary"; }
};
struct Portable {
  using In = cereal::PortableBinaryInputArchive;
  using Out = cereal::PortableBinaryOutputArchive;
  static const char *name() { return "portable_binary"; }
};
struct Json {
  using In = cereal::JSONInputArchive;
  using Out = cereal::JSONOutputArchive;
  static const char *name() { return "json"; }
};
struct Xml {
  using In = cereal::XMLInputArchive;
  using Out = cereal::XMLOutputArchive;
  static const char *name() { return "xml"; }
};

template <typename Format, typename X> std::string save_one(const X &x) {
  std::ostringstream os;
  {
    typename Format::Out ar(os);
    const std::uint64_t before = 0x1122334455667788ull;
    const std::string after = "the end";
    ar(cereal::make_nvp("before", before));
    ar(cereal::make_nvp("object", x));
    ar(cereal::make_nvp("after", after));
  }
  return os.str();
}

// The markers show whether exactly what was saved has been consumed.
template <typename Format, typename X>
bool load_one(const std::string &s, X *x) {
  std::istringstream is(s);
  typename Format::In ar(is);
  std::uint64_t before = 0;
  std::string after;
  ar(cereal::make_nvp("before", before));
  ar(cereal::make_nvp("object", *x));
  ar(cereal::make_nvp("after", after));
  return before == 0x1122334455667788ull && after == "the end";
}

// `into` makes the object which is loaded into (which may hold something else
// already), `check` judges what was loaded.
template <typename Format, typename X, typename Into, typename Check>
void trip(vf::Case &c, const X &original, Into &&into, Check &&check) {
  const std::string first = save_one<Format>(original);
  X loaded = into();
  bool complete = false;
  try {
    complete = load_one<Format>(first, &loaded);
  } catch (const std::exception &e) {
    VF_CHECK("loads", false, Format::name() << " threw " << e.what());
    return;
  }
  c.count("archives");
  c.count("archive_bytes", first.size());
  VF_CHECK("consumes_what_was_saved", complete, Format::name());
  check(original, static_cast<const X &>(loaded), Format::name());
  const std::string again = save_one<Format>(loaded);
  VF_CHECK("saves_the_same_again", again == first,
           Format::name() << " " << first.size() << " bytes, then "
                          << again.size());
  const std::string repeated = save_one<Format>(original);
  VF_CHECK("saving_changes_nothing", repeated == first, Format::name());
}

template <typename X, typename Into, typename Check>
void trip_all(vf::Case &c, const X &original, Into &&into, Check &&check,
              bool with_xml = true) {
  trip<Binary>(c, original, into, check);
  trip<Portable>(c, original, into, check);
  trip<Json>(c, original, into, check);
  if (with_xml) {
    trip<Xml>(c, original, into, check);
    c.count("xml");
  }
}

// As above for types where == says it all.
template <typename X, typename Into>
void trip_equal(vf::Case &c, const X &original, Into &&into,
                bool with_xml = true) {
  trip_all(
      c, original, into,
      [&](const X &a, const X &b, const char *format) {
        VF_CHECK("equal", a == b, format);
      },
      with_xml);
}

inline double special(vf::Rng &g) {
  return g.pick(std::vector<double>{
      0., -0., std::numeric_limits<double>::infinity(),
      -std::numeric_limits<double>::infinity(),
      std::numeric_limits<double>::quiet_NaN(),
      std::numeric_limits<double>::denorm_min(),
      std::numeric_limits<double>::min(), std::numeric_limits<double>::max(),
      std::numeric_limits<double>::lowest(),
      std::numeric_limits<double>::epsilon(), 0.1, 1. / 3.});
}

inline double finite(vf::Rng &g) {
  switch (g.integer(0, 4)) {
  case 0:
    return g.pick(std::vector<double>{
        0., -0., 1., -1., 0.1, 1. / 3., std::numeric_limits<double>::min(),
        std::numeric_limits<double>::max(),
        std::numeric_limits<double>::epsilon(), 1e300, -1e-300});
  case 1:
    return (g.coin() ? 1. : -1.) * g.log_uniform(1e-200, 1e200);
  default:
    return g.normal();
  }
}

inline Eigen::MatrixXd random_matrix(vf::Rng &g, Eigen::Index r,
                                     Eigen::Index k) {
  Eigen::MatrixXd m(r, k);
  for (Eigen::Index i = 0; i < m.size(); ++i) {
    m.data()[i] = g.normal();
  }
  return m;
}

inline Eigen::VectorXd random_vector(vf::Rng &g, Eigen::Index r) {
  return random_matrix(g, r, 1);
}

inline Eigen::MatrixXd random_spd(vf::Rng &g, Eigen::Index n) {
  const Eigen::MatrixXd a = random_matrix(g, n, n);
  Eigen::MatrixXd m = a * a.transpose();
  m.diagonal().array() += g.uniform(0.1, 2.);
  return m;
}

inline std::string random_text(vf::Rng &g) {
  std::string s;
  const std::size_t n = g.size(0, 12);
  for (std::size_t i = 0; i < n; ++i) {
    s += g.pick(std::vector<char>{'a', 'Z', '0', '_', '-', '.', ',', '[', ']',
                                  '{', '}', '"', '\\', '/', '<', '>', '&', ':',
                                  '\''});
  }
  return s;
}

} // namespace vfser

#endif
