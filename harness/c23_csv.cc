// C23: what is written as CSV is parsed back by an independent reader.
#include "vf.h"
#include <albatross/Core>
#include <albatross/serialize/Core>
#include <albatross/src/utils/csv_utils.hpp>

using namespace albatross;

namespace user {
struct Custom {
  double a;
  int b;
};

// A feature with its own idea of its columns.
inline std::map<std::string, std::string> to_map(const Custom &f) {
  std::map<std::string, std::string> m;
  m["a"] = std::to_string(f.a);
  m["twice_b"] = std::to_string(2 * f.b);
  return m;
}
} // namespace user
using user::Custom;

namespace {

struct Inner {
  double one;
  int two;
  template <typename Archive> void serialize(Archive &ar) {
    ar(cereal::make_nvp("one", one));
    ar(cereal::make_nvp("two", two));
  }
};

struct Outer {
  double x;
  std::string label;
  Inner inner;
  bool has_more;
  double more;
  template <typename Archive> void save(Archive &ar) const {
    ar(cereal::make_nvp("x", x));
    ar(cereal::make_nvp("label", label));
    ar(cereal::make_nvp("inner", inner));
    ar(cereal::make_nvp("has_more", has_more));
    if (has_more)
      ar(cereal::make_nvp("more", more));
  }
  template <typename Archive> void load(Archive &) {}
};

} // namespace


namespace {

// A stream which can only be appended to, as a pipe is.
struct PipeBuffer : public std::streambuf {
  std::string data;
  int_type overflow(int_type ch) override {
    if (ch != traits_type::eof())
      data.push_back(static_cast<char>(ch));
    return ch;
  }
  std::streamsize xsputn(const char *s, std::streamsize n) override {
    data.append(s, static_cast<std::size_t>(n));
    return n;
  }
};

using Row = std::vector<std::string>;

std::vector<Row> parse(const std::string &text) {
  std::vector<Row> rows;
  Row row;
  std::string cell;
  for (char ch : text) {
    if (ch == ',') {
      row.push_back(cell);
      cell.clear();
    } else if (ch == '\n') {
      row.push_back(cell);
      cell.clear();
      rows.push_back(row);
      row.clear();
    } else {
      cell += ch;
    }
  }
  if (!cell.empty() || !row.empty()) {
    row.push_back(cell);
    rows.push_back(row);
  }
  return rows;
}

double number(vf::Case &c) {
  if (c.rng.coin(0.03)) {
    c.count("huge_values");
    return c.rng.log_uniform(1e9, 1e308) * (c.rng.coin() ? 1. : -1.);
  }
  switch (c.rng.integer(0, 4)) {
  case 0:
    return 0.;
  case 1:
    return c.rng.normal() * 1e6;
  case 2:
    return static_cast<double>(c.rng.integer(-50, 50));
  case 3:
    return c.rng.normal() * 1e-3;
  default:
    return c.rng.normal();
  }
}

// Name -> expected text of the cell, or a number within a tolerance.
struct Cell {
  bool is_number;
  double value;
  double tolerance;
  std::string text;
};
Cell num(double v, double rtol, double atol) {
  // (huge values have no digits after the point to be exact in)
  return Cell{true, v, std::max(atol, 1e-15 * std::fabs(v)) + rtol * std::fabs(v), ""};
}
Cell txt(const std::string &s) { return Cell{false, 0, 0, s}; }

using Expected = std::map<std::string, Cell>;

template <typename F> F feature(vf::Case &c);
template <> double feature<double>(vf::Case &c) { return number(c); }
template <> Custom feature<Custom>(vf::Case &c) {
  return Custom{number(c), static_cast<int>(c.rng.integer(-1000, 1000))};
}
template <> Outer feature<Outer>(vf::Case &c) {
  Outer o;
  o.x = number(c);
  o.label = "name" + std::to_string(c.rng.integer(0, 999));
  if (c.rng.coin(0.2))
    o.label += "<&>\"' ;x";
  o.inner.one = number(c);
  o.inner.two = static_cast<int>(c.rng.integer(-1000, 1000));
  o.has_more = c.rng.coin();
  o.more = number(c);
  return o;
}

Expected expected_feature(const double &x) {
  return {{"feature", num(x, 0., 1e-6)}};
}
Expected expected_feature(const Custom &f) {
  return {{"a", num(f.a, 0., 1e-6)}, {"twice_b", num(2 * f.b, 0., 0.)}};
}
Expected expected_feature(const Outer &f) {
  Expected e{{"x", num(f.x, 1e-15, 0.)},
             {"label", txt(f.label)},
             {"inner.one", num(f.inner.one, 1e-15, 0.)},
             {"inner.two", num(f.inner.two, 0., 0.)},
             {"has_more", txt(f.has_more ? "true" : "false")}};
  if (f.has_more)
    e.emplace("more", num(f.more, 1e-15, 0.));
  return e;
}

template <typename F> struct Written {
  RegressionDataset<F> dataset;
  JointDistribution joint;
  MarginalDistribution marginal;
  std::vector<Expected> rows;
};

template <typename F>
Written<F> generate(vf::Case &c, bool joint, std::size_t n, bool with_prediction) {
  std::vector<F> features;
  for (std::size_t i = 0; i < n; ++i)
    features.push_back(feature<F>(c));
  const Eigen::Index m = static_cast<Eigen::Index>(n);
  Eigen::VectorXd mean(m), var(m), pmean(m);
  Eigen::MatrixXd pcov(m, m);
  for (Eigen::Index i = 0; i < m; ++i) {
    mean[i] = number(c);
    var[i] = std::fabs(number(c));
    pmean[i] = number(c);
    for (Eigen::Index j = 0; j < m; ++j)
      pcov(i, j) = number(c);
  }
  MarginalDistribution targets =
      c.rng.coin(0.3) ? MarginalDistribution(mean)
                      : MarginalDistribution(mean, var);
  Written<F> w;
  w.dataset = RegressionDataset<F>(features, targets);
  w.joint = JointDistribution(pmean, pcov);
  w.marginal = MarginalDistribution(pmean, pcov.diagonal().eval());
  std::map<std::string, std::string> meta;
  if (c.rng.coin(0.4)) {
    w.dataset.metadata["run"] = "r" + std::to_string(c.rng.integer(0, 99));
    meta["run"] = w.dataset.metadata["run"];
  }
  if (with_prediction && c.rng.coin(0.4)) {
    w.joint.metadata["model"] = "m" + std::to_string(c.rng.integer(0, 99));
    w.marginal.metadata = w.joint.metadata;
    meta["model"] = w.joint.metadata["model"];
  }
  for (std::size_t i = 0; i < n; ++i) {
    const Eigen::Index k = static_cast<Eigen::Index>(i);
    Expected e = expected_feature(features[i]);
    e.emplace("target", num(mean[k], 0., 1e-6));
    e.emplace("target_variance",
              num(targets.covariance.diagonal()[k], 0., 1e-6));
    e.emplace("prediction", num(with_prediction ? pmean[k] : 0., 0., 1e-6));
    e.emplace("prediction_variance",
              num(with_prediction ? pcov(k, k) : 0., 0., 1e-6));
    for (const auto &p : meta)
      e.emplace(p.first, txt(p.second));
    w.rows.push_back(e);
    c.desc << (i ? "," : "") << mean[k];
  }
  (void)joint;
  return w;
}

void compare(vf::Case &c, const std::string &text,
             const std::vector<Expected> &rows, bool header,
             const std::vector<std::string> &given) {
  std::set<std::string> names;
  for (const auto &r : rows)
    for (const auto &p : r)
      names.insert(p.first);
  auto got = parse(text);
  Row columns = given;
  if (header) {
    VF_REQUIRE("no_header", !got.empty(), text);
    columns = got[0];
    got.erase(got.begin());
    VF_CHECK("header_names",
             std::set<std::string>(columns.begin(), columns.end()) == names,
             text.substr(0, 200));
    VF_CHECK("header_unique", columns.size() == names.size(), columns.size());
  } else if (columns.empty()) {
    columns.assign(names.begin(), names.end());
  }
  VF_REQUIRE("row_count", got.size() == rows.size(),
             got.size() << " rows, expected " << rows.size());
  VF_CHECK("ends_with_newline", text.empty() || text.back() == '\n', "");
  for (std::size_t i = 0; i < rows.size(); ++i) {
    VF_REQUIRE("column_count", got[i].size() == columns.size(),
               got[i].size() << " cells, expected " << columns.size());
    for (std::size_t j = 0; j < columns.size(); ++j) {
      const auto it = rows[i].find(columns[j]);
      const std::string &cell = got[i][j];
      if (it == rows[i].end()) {
        VF_CHECK("absent_cell", cell.empty(), columns[j] << "=" << cell);
        continue;
      }
      if (it->second.is_number) {
        char *end = nullptr;
        const double v = std::strtod(cell.c_str(), &end);
        VF_CHECK("parses", !cell.empty() && *end == '\0',
                 columns[j] << "=" << cell);
        VF_CHECK("value",
                 std::fabs(v - it->second.value) <= it->second.tolerance,
                 columns[j] << " row " << i << ": " << cell << " expected "
                            << it->second.value);
      } else {
        VF_CHECK("text", cell == it->second.text,
                 columns[j] << "=" << cell << " expected " << it->second.text);
      }
      c.count("cells_compared");
    }
  }
}

template <typename F> void single(vf::Case &c) {
  const std::size_t n = c.rng.coin(0.1) ? 1 : c.rng.extent(1, 12, 300);
  const bool with_prediction = c.rng.coin(0.8);
  const bool header = c.rng.coin(0.7);
  const bool joint = c.rng.coin();
  const bool piped = c.rng.coin(0.3);
  c.desc << "n=" << n << (with_prediction ? " predicted" : "")
         << (header ? " header" : "") << (joint ? " joint" : "")
         << (piped ? " piped " : " ");
  const auto w = generate<F>(c, joint, n, with_prediction);
  std::ostringstream oss;
  PipeBuffer pipe;
  std::ostream pipe_stream(&pipe);
  std::ostream &os = piped ? pipe_stream : static_cast<std::ostream &>(oss);
  // Something may have been written to the stream before.
  const std::string before = c.rng.coin(0.2) ? "# comment\n" : "";
  os << before;
  if (!with_prediction)
    write_to_csv(os, w.dataset, header);
  else if (joint)
    write_to_csv(os, w.dataset, w.joint, header);
  else
    write_to_csv(os, w.dataset, w.marginal, header);
  VF_CHECK("stream_state", os.good(), "the stream failed");
  const std::string text = piped ? pipe.data : oss.str();
  VF_REQUIRE("kept", text.compare(0, before.size(), before) == 0, text);
  compare(c, text.substr(before.size()), w.rows, header, {});
  // With columns chosen by the caller.
  if (with_prediction) {
    std::set<std::string> names;
    for (const auto &r : w.rows)
      for (const auto &p : r)
        names.insert(p.first);
    std::vector<std::string> all(names.begin(), names.end());
    c.rng.shuffle(all);
    all.resize(c.rng.size(1, all.size()));
    if (c.rng.coin(0.3))
      all.push_back("not_there");
    std::ostringstream chosen;
    write_to_csv(chosen, w.dataset, w.marginal, all);
    compare(c, chosen.str(), w.rows, false, all);
    VF_CHECK("column_names",
             get_column_names(w.dataset, w.marginal) ==
                 std::vector<std::string>(names.begin(), names.end()),
             "");
  }
  c.reached();
}

VF_SECTION("double", 300, 4000) { single<double>(c); }
VF_SECTION("custom", 300, 4000) { single<Custom>(c); }
VF_SECTION("archived", 300, 4000) { single<Outer>(c); }

template <typename F> void several(vf::Case &c) {
  const std::size_t k = c.rng.size(1, 4);
  std::vector<RegressionDataset<F>> datasets;
  std::vector<MarginalDistribution> marginals;
  std::vector<JointDistribution> joints;
  std::vector<Expected> rows;
  for (std::size_t i = 0; i < k; ++i) {
    c.desc << " [";
    const auto w = generate<F>(c, false, c.rng.size(1, 6), true);
    c.desc << "]";
    datasets.push_back(w.dataset);
    marginals.push_back(w.marginal);
    joints.push_back(w.joint);
    rows.insert(rows.end(), w.rows.begin(), w.rows.end());
  }
  std::ostringstream os;
  if (c.rng.coin())
    write_to_csv(os, datasets, marginals);
  else
    write_to_csv(os, datasets, joints);
  compare(c, os.str(), rows, true, {});
  c.count("several_datasets", k > 1);
  c.reached();
}

VF_SECTION("several_double", 150, 2000) { several<double>(c); }
VF_SECTION("several_archived", 150, 2000) { several<Outer>(c); }

VF_SECTION("matrix", 200, 2000) {
  const Eigen::Index r = c.rng.integer(1, 6), k = c.rng.integer(1, 6);
  Eigen::MatrixXd m(r, k);
  for (Eigen::Index i = 0; i < m.size(); ++i)
    m(i) = number(c);
  c.desc << m;
  std::ostringstream os;
  write_to_csv(os, m);
  const auto rows = parse(os.str());
  VF_REQUIRE("rows", rows.size() == static_cast<std::size_t>(r), os.str());
  for (Eigen::Index i = 0; i < r; ++i) {
    const auto &row = rows[static_cast<std::size_t>(i)];
    VF_REQUIRE("columns", row.size() == static_cast<std::size_t>(k), os.str());
    for (Eigen::Index j = 0; j < k; ++j)
      VF_CLOSE("value", std::stod(row[static_cast<std::size_t>(j)]), m(i, j),
               1e-5, 1e-300);
  }
  std::ostringstream vs;
  write_to_csv(vs, Eigen::VectorXd(m.col(0)));
  VF_CHECK("vector_rows", parse(vs.str()).size() == static_cast<std::size_t>(r),
           vs.str());
  c.reached();
}

} // namespace
