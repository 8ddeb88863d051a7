// C25: data of every size, objects of every age.
#include "c25_util.h"

#include <albatross/Indexing>
#include <albatross/Samplers>
#include <albatross/utils/AsyncUtils>
#include <albatross/utils/CsvUtils>
#include <albatross/utils/MapUtils>
#include <albatross/utils/RandomUtils>
#include <albatross/utils/VariantUtils>

namespace {
using namespace vflife;

VF_SECTION("datasets", 200, 4000) {
  auto &g = c.rng;
  Captured captured;
  const std::size_t n = small_size(g);
  c.desc << "n=" << n << " ";
  const auto data = some_dataset(g, n);
  c.desc << vf::hash_str(text(data));
  check_values(c, "dataset", data);
  check_values(c, "empty dataset", RegressionDataset<double>());
  std::ostringstream os;
  os << data << data.targets;
  VF_CHECK("printed", os.str().size() > 0 || n == 0, n);
  // subsets, also of nothing
  std::vector<std::size_t> inds;
  for (std::size_t i = 0; n > 0 && i < small_size(g); ++i)
    inds.push_back(g.size(0, n - 1));
  const auto some = albatross::subset(data, inds);
  VF_CHECK("subset_size", some.size() == inds.size(), some.size());
  text(some);
  text(data.subset(inds));
  text(data.targets.subset(inds));
  const auto both = concatenate_datasets(data, some);
  VF_CHECK("concatenated_size", both.size() == n + inds.size(), both.size());
  text(both);
  text(concatenate_datasets(std::vector<RegressionDataset<double>>(
      g.size(1, 3), data)));
  text(deduplicate(data));
  auto x = data, y = some;
  align_datasets(&x, &y);
  text(x);
  text(y);
  const auto positive = [](const double &v) { return v > 0.; };
  text(albatross::filter(data.features, positive));
  text(albatross::filter(data, positive));
  VF_CHECK("equal", data == data && RegressionDataset<double>() ==
                                        RegressionDataset<double>(),
           "");
  // linear combinations of nothing and of something
  Eigen::MatrixXd m(static_cast<Eigen::Index>(small_size(g)),
                    static_cast<Eigen::Index>(n));
  for (Eigen::Index i = 0; i < m.size(); ++i)
    m.data()[i] = g.normal();
  if (n > 0) {
    const auto combined = m * data;
    VF_CHECK("combined_size", combined.size() == std::size_t(m.rows()),
             combined.size());
    text(combined.targets);
    for (const auto &f : combined.features) {
      text(f.values);
      text(Eigen::VectorXd(f.coefficients));
    }
  }
  // as text
  std::ostringstream csv;
  write_to_csv(csv, data);
  const std::string lines = csv.str();
  VF_CHECK("csv_lines",
           std::size_t(std::count(lines.begin(), lines.end(), '\n')) == n + 1,
           lines);
  const std::string out = captured.stop();
  VF_CHECK("nothing_on_standard_output", out.empty(), out.substr(0, 100));
  c.count("datasets");
  c.reached();
}

VF_SECTION("distributions", 200, 4000) {
  auto &g = c.rng;
  Captured captured;
  const std::size_t n = small_size(g);
  c.desc << "n=" << n << " ";
  const auto e = static_cast<Eigen::Index>(n);
  const MarginalDistribution marginal(some_vector(g, n), some_variance(g, n));
  const JointDistribution joint(some_vector(g, n), some_psd(g, n));
  c.desc << vf::hash_str(text(marginal));
  check_values(c, "marginal", marginal);
  check_values(c, "joint", joint);
  check_values(c, "empty marginal", MarginalDistribution());
  check_values(c, "empty joint", JointDistribution());
  std::ostringstream os;
  os << marginal << joint << MarginalDistribution();
  text(marginal + marginal);
  text(marginal - marginal);
  text(marginal * 2.);
  text(joint + joint);
  text(joint - joint);
  text(joint + marginal);
  text(joint - marginal);
  text(joint * 2.);
  text(joint.marginal());
  for (std::size_t i = 0; i < n; ++i) {
    text(marginal[i]);
    text(joint[i]);
    text(joint.get_diagonal(static_cast<Eigen::Index>(i)));
  }
  std::vector<std::size_t> inds;
  for (std::size_t i = 0; n > 0 && i < small_size(g); ++i)
    inds.push_back(g.size(0, n - 1));
  text(joint.subset(inds));
  text(albatross::subset(marginal, inds));
  text(concatenate_marginals(marginal, marginal));
  text(concatenate_marginals(
      std::vector<MarginalDistribution>(small_size(g), marginal)));
  if (n > 0) {
    auto target = marginal;
    std::vector<std::size_t> all(n);
    std::iota(all.begin(), all.end(), 0);
    set_subset(marginal, all, &target);
    VF_CHECK("set_subset", target == marginal, "");
  }
  VF_CHECK("sizes", marginal.size() == n && joint.size() == n, n);
  Eigen::MatrixXd m(static_cast<Eigen::Index>(small_size(g)), e);
  for (Eigen::Index i = 0; i < m.size(); ++i)
    m.data()[i] = g.normal();
  text((m * joint).joint());
  text((m * joint).marginal());
  text((m * marginal).joint());
  text((m * marginal).marginal());
  text((Eigen::SparseMatrix<double>(m.sparseView()) * joint).joint());
  text((Eigen::SparseMatrix<double>(m.sparseView()) * joint).marginal());
  const std::string out = captured.stop();
  VF_CHECK("nothing_on_standard_output", out.empty(), out.substr(0, 100));
  c.count("distributions");
  c.reached();
}

VF_SECTION("groups", 200, 4000) {
  auto &g = c.rng;
  Captured captured;
  const std::size_t n = small_size(g);
  c.desc << "n=" << n << " ";
  const auto data = some_dataset(g, n);
  c.desc << vf::hash_str(text(data));
  const auto key = [](const double &x) { return x > 0. ? 1 : 0; };
  // groups of something which is gone
  const auto make = [&]() {
    auto temporary = std::make_unique<RegressionDataset<double>>(data);
    auto out = temporary->group_by(key);
    return out;
  };
  const auto grouped = make();
  VF_CHECK("group_count", grouped.size() <= 2, grouped.size());
  text(grouped.keys());
  text(grouped.counts());
  text(grouped.groups());
  text(grouped.indexers());
  text(combine(grouped.groups()));
  const auto sizes =
      grouped.apply([](const RegressionDataset<double> &d) { return d.size(); });
  std::size_t sum = 0;
  for (const auto &p : sizes) {
    sum += p.second;
  }
  VF_CHECK("group_sizes", sum == n, sum);
  text(sizes);
  text(sizes.keys());
  text(sizes.values());
  if (n > 0) {
    text(grouped.first_group());
    text(grouped.get_group(grouped.keys()[0]));
  }
  text(grouped.filter([](const RegressionDataset<double> &d) {
    return d.size() > 1;
  }));
  text(group_by(data.features, key).groups());
  text(group_by(data, LeaveOneOutGrouper()).groups());
  text(group_by(data, KFoldGrouper(g.size(1, 4))).groups());
  check_values(c, "groups", grouped.groups());
  check_values(c, "indexers", grouped.indexers());
  const auto flags = grouped.apply(
      [](const RegressionDataset<double> &d) { return d.size() > 1; });
  if (flags.size() > 0) {
    text(flags.any());
    text(flags.all());
    text(flags.min());
    text(flags.max());
  }
  auto means = grouped.apply(
      [](const RegressionDataset<double> &d) { return d.targets.mean.mean(); });
  text(means);
  if (means.size() > 0) {
    text(means.min());
    text(means.max());
    text(means.mean());
  }
  text(indices_complement(std::vector<std::size_t>(), n));
  text(albatross::unique_values(data.features));
  const std::string out = captured.stop();
  VF_CHECK("nothing_on_standard_output", out.empty(), out.substr(0, 100));
  c.count("groups");
  c.reached();
}

VF_SECTION("helpers", 200, 4000) {
  auto &g = c.rng;
  Captured captured;
  const std::size_t n = small_size(g), m = small_size(g);
  c.desc << "n=" << n << " m=" << m << " ";
  const auto xs = some_values(g, n), ys = some_values(g, m);
  c.desc << vf::hash_str(text(xs) + text(ys));
  text(concatenate(xs, ys));
  text(concatenate(std::vector<std::vector<double>>(small_size(g), xs)));
  text(linspace(g.normal(), g.normal(), g.size(1, 4)));
  std::vector<bool> flags;
  for (double x : xs)
    flags.push_back(x > 0.);
  text(all(flags));
  text(any(flags));
  text(vector_contains(xs, 0.5));
  std::map<int, double> a, b;
  for (double x : xs)
    a[static_cast<int>(std::fmod(x, 7.))] = x;
  for (double y : ys)
    b[static_cast<int>(std::fmod(y, 7.))] = y;
  text(map_keys(a));
  text(map_values(a));
  text(map_join(a, b));
  text(map_contains(a, 3));
  text(map_at_or(a, 3, 1.));
  text(map_intersect(a, b));
  std::set<int> keys;
  for (const auto &p : a)
    keys.insert(p.first);
  text(map_subset(a, keys));
  const auto measured = as_measurements(xs);
  text(measured);
  using V = variant<double, int>;
  std::vector<V> mixed(xs.begin(), xs.end());
  for (double y : ys)
    mixed.emplace_back(static_cast<int>(std::fmod(y, 100.)));
  text(extract_from_variants<double>(mixed));
  text(extract_from_variants<int>(mixed));
  std::vector<variant<double, int, std::string>> wider =
      to_variant_vector<variant<double, int, std::string>>(xs);
  VF_CHECK("variants", wider.size() == n, wider.size());
  std::default_random_engine gen(3);
  if (n > 0) {
    text(random_without_replacement(xs, g.size(0, n), gen));
  }
  text(random_without_replacement(xs, 0, gen));
  text(randint_without_replacement(g.size(0, 4), 3, 3 + g.size(3, 8), gen));
  Eigen::VectorXd filled(static_cast<Eigen::Index>(n));
  gaussian_fill(filled, gen);
  text(filled);
  // graphs
  Graph<int> graph;
  for (std::size_t i = 0; i < n; ++i)
    add_edge(Edge<int>(int(g.integer(0, 4)), int(g.integer(5, 8)), g.normal()),
             &graph);
  std::ostringstream os;
  os << minimum_spanning_forest(graph) << maximum_spanning_forest(graph);
  // parameters
  ParameterStore params;
  for (std::size_t i = 0; i < n; ++i)
    params["p" + std::to_string(i)] = Parameter(
        1., g.coin() ? PriorContainer(UniformPrior(0., 2.))
                     : (g.coin() ? PriorContainer(FixedPrior())
                                 : PriorContainer(LogScaleUniformPrior())));
  text(params);
  check_values(c, "params", params);
  const auto tunable = get_tunable_parameters(params);
  text(tunable.names);
  text(tunable.values);
  text(set_tunable_params_values(params, tunable.values));
  os << pretty_params(params) << pretty_priors(params)
     << pretty_param_details(params);
  // stack and sum
  std::vector<Eigen::MatrixXd> blocks(
      g.size(1, 3), Eigen::MatrixXd::Ones(static_cast<Eigen::Index>(n), 2));
  text(vertical_stack(blocks));
  text(block_sum(blocks));
  const Eigen::MatrixXd psd = some_psd(g, m);
  if (m > 0) {
    print_small_eigen_directions(psd, ys, g.size(0, m), 0.1, &os);
    print_large_eigen_directions(psd, ys, m + g.size(0, 3), 0.1, &os);
  }
  const std::string out = captured.stop();
  VF_CHECK("nothing_on_standard_output", out.empty(), out.substr(0, 100));
  c.count("helpers");
  c.reached();
}

VF_SECTION("linear_algebra", 150, 3000) {
  auto &g = c.rng;
  Captured captured;
  const std::size_t n = g.coin(0.8) ? g.size(1, 6) : 1, k = g.size(0, 4);
  c.desc << "n=" << n << " k=" << k << " ";
  const auto e = static_cast<Eigen::Index>(n);
  const Eigen::MatrixXd psd = some_psd(g, n);
  c.desc << vf::hash_str(text(psd));
  const Eigen::SerializableLDLT ldlt(psd);
  const Eigen::MatrixXd rhs =
      some_matrix(g, e, static_cast<Eigen::Index>(g.size(0, 3)));
  check_values(c, "ldlt", ldlt, [&](const Eigen::SerializableLDLT &l) {
    return text(Eigen::MatrixXd(l.solve(rhs))) + text(l.sqrt_solve(rhs)) +
           text(l.log_determinant()) + text(l.inverse_diagonal()) +
           text(Eigen::MatrixXd(l.reconstructedMatrix()));
  });
  std::vector<std::vector<std::size_t>> inds;
  for (std::size_t i = 0; i < k; ++i)
    inds.push_back(g.choose(n, g.size(1, n)));
  text(ldlt.inverse_blocks(inds));
  BlockDiagonal diagonal;
  Eigen::Index total = 0;
  for (std::size_t i = 0; i < k; ++i) {
    const std::size_t s = g.size(1, 3);
    diagonal.blocks.push_back(some_psd(g, s));
    total += static_cast<Eigen::Index>(s);
  }
  const Eigen::MatrixXd wide = some_matrix(g, total, 2);
  check_values(c, "block diagonal", diagonal, [&](const BlockDiagonal &b) {
    return text(b.toDense()) + text(Eigen::MatrixXd(b * wide)) +
           text(b.diagonal()) + text(b.rows()) + text(b.cols());
  });
  if (k > 0) {
    const auto bl = diagonal.ldlt();
    check_values(c, "block ldlt", bl, [&](const BlockDiagonalLDLT &b) {
      return text(b.solve(wide)) + text(b.sqrt_solve(wide)) +
             text(b.log_determinant()) + text(b.rcond());
    });
  }
  const Eigen::MatrixXd B = 0.01 * some_matrix(g, e, 1);
  Eigen::MatrixXd C(1, 1);
  C << 2.;
  const auto symmetric = build_block_symmetric(ldlt, B, C);
  const Eigen::MatrixXd rhs1 = some_matrix(g, e + 1, 2);
  check_values(c, "block symmetric", symmetric, [&](const auto &b) {
    return text(Eigen::MatrixXd(b.solve(rhs1))) + text(b.rows()) +
           text(b.cols());
  });
  const std::string out = captured.stop();
  VF_CHECK("nothing_on_standard_output", out.empty(), out.substr(0, 100));
  c.count("linear_algebra");
  c.reached();
}

VF_SECTION("statistics", 150, 3000) {
  auto &g = c.rng;
  Captured captured;
  const std::size_t n = g.size(1, 4);
  const Eigen::VectorXd d = some_vector(g, n).cwiseMin(1e3).cwiseMax(-1e3);
  const Eigen::MatrixXd psd = some_psd(g, n);
  const MarginalDistribution truth(d, some_variance(g, n));
  c.desc << "n=" << n << " " << vf::hash_str(text(truth) + text(psd));
  const JointDistribution joint(0.5 * d, psd);
  text(negative_log_likelihood(d, psd));
  text(negative_log_likelihood(
      d, DiagonalMatrixXd(some_variance(g, n).asDiagonal())));
  text(RootMeanSquareError()(joint.mean, truth));
  text(NegativeLogLikelihood<JointDistribution>()(joint, truth));
  text(NegativeLogLikelihood<MarginalDistribution>()(joint.marginal(), truth));
  text(score::crps_normal(joint.mean[0], 1., truth.mean[0]));
  text(chi_squared_cdf(joint, truth));
  text(differential_entropy(psd));
  text(chi_squared_cdf(std::abs(some_value(g)), g.size(1, 9)));
  text(uniform_ks_test(std::vector<double>(g.size(1, 5), g.u())));
  const std::string out = captured.stop();
  VF_CHECK("nothing_on_standard_output", out.empty(), out.substr(0, 100));
  c.count("statistics");
  c.reached();
}

} // namespace
