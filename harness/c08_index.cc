// C08: indexing, grouping, filtering and combining conserve the data.
#include <albatross/Common>
#include <albatross/Dataset>
#include <albatross/Indexing>

#include "vf.h"

namespace c08user {

// `tag` is unique to every element that is generated, so that a lost,
// duplicated or mislabelled element always shows.
struct Item {
  int a = 0;
  std::string b;
  std::size_t tag = 0;
  bool operator==(const Item &o) const { return a == o.a && b == o.b && tag == o.tag; }
  bool operator<(const Item &o) const { return tag < o.tag; }
  std::string label() const { return b + "/" + std::to_string(a % 2); }
};

inline std::ostream &operator<<(std::ostream &os, const Item &i) {
  return os << i.a << i.b << i.tag;
}

struct Key {
  int x = 0;
  bool operator<(const Key &o) const { return x > o.x; } // in reverse
  bool operator==(const Key &o) const { return x == o.x; }
};

struct LabelOf {
  std::string operator()(const Item &i) const { return i.label(); }
};

inline int remainder_of(const Item &i) { return ((i.a % 3) + 3) % 3; }

} // namespace c08user

using namespace albatross;
using c08user::Item;
using c08user::Key;

namespace {

std::vector<Item> some_items(vf::Case &c, std::size_t n) {
  std::vector<Item> o;
  const int range = int(c.rng.pick(std::vector<int>{1, 2, 4, 50}));
  for (std::size_t i = 0; i < n; ++i) {
    Item it;
    it.a = int(c.rng.integer(-range, range));
    it.b = std::string(1, char('a' + c.rng.integer(0, std::min(range, 20))));
    it.tag = i;
    o.push_back(it);
  }
  return o;
}

RegressionDataset<Item> some_dataset(vf::Case &c, std::size_t n) {
  RegressionDataset<Item> d;
  Eigen::VectorXd m(Eigen::Index(n), 1), v(Eigen::Index(n), 1);
  for (std::size_t i = 0; i < n; ++i) {
    m[Eigen::Index(i)] = c.rng.normal();
    v[Eigen::Index(i)] = c.rng.log_uniform(1e-3, 1e3);
  }
  return RegressionDataset<Item>(some_items(c, n), MarginalDistribution(m, v));
}

std::size_t some_n(vf::Case &c) {
  return c.rng.coin(0.06) ? 0 : std::size_t(c.rng.integer(1, c.rng.coin(0.02) ? 400 : c.rng.coin(0.2) ? 40 : 10));
}

std::string text(const std::vector<Item> &x) {
  std::ostringstream o;
  o << x.size() << "#";
  for (std::size_t i = 0; i < x.size() && i < 12; ++i)
    o << x[i] << ",";
  return o.str();
}

// the expected groups, from a multimap-free definition
template <typename K, typename F>
std::map<K, std::vector<std::size_t>> partition(const std::vector<Item> &x, F f) {
  std::map<K, std::vector<std::size_t>> o;
  for (std::size_t i = 0; i < x.size(); ++i)
    o[f(x[i], i)].push_back(i);
  return o;
}

void same_rows(vf::Case &c, const std::string &key, const RegressionDataset<Item> &got,
               const RegressionDataset<Item> &from, const std::vector<std::size_t> &ids) {
  VF_REQUIRE(key + "_size", got.size() == ids.size() && got.targets.size() == ids.size() &&
                                got.features.size() == ids.size(),
             got.size() << " instead of " << ids.size());
  for (std::size_t i = 0; i < ids.size(); ++i) {
    const Eigen::Index a = Eigen::Index(i), b = Eigen::Index(ids[i]);
    VF_CHECK(key + "_feature", got.features[i] == from.features[ids[i]],
             "element " << i << " is " << got.features[i]);
    VF_CHECK(key + "_target", got.targets.mean[a] == from.targets.mean[b] &&
                                  got.targets.covariance.diagonal()[a] ==
                                      from.targets.covariance.diagonal()[b],
             "element " << i << " has the target of another");
  }
}

void same_rows(vf::Case &c, const std::string &key, const std::vector<Item> &got,
               const std::vector<Item> &from, const std::vector<std::size_t> &ids) {
  VF_REQUIRE(key + "_size", got.size() == ids.size(), got.size() << " instead of " << ids.size());
  for (std::size_t i = 0; i < ids.size(); ++i)
    VF_CHECK(key + "_element", got[i] == from[ids[i]], "element " << i << " is " << got[i]);
}

std::vector<std::size_t> joined(const std::vector<std::vector<std::size_t>> &v) {
  std::vector<std::size_t> o;
  for (const auto &x : v)
    o.insert(o.end(), x.begin(), x.end());
  return o;
}

const std::vector<Item> &items_of(const std::vector<Item> &x) { return x; }
const std::vector<Item> &items_of(const RegressionDataset<Item> &x) { return x.features; }

// Everything a GroupBy object can do, for one parent and one grouper.
template <typename Parent, typename Grouper, typename K>
void check_group_by(vf::Case &c, const Parent &parent, const Grouper &grouper,
                    const std::map<K, std::vector<std::size_t>> &expected) {
  const Parent before = parent;
  const auto grouped = group_by(parent, grouper);
  const std::size_t n = items_of(parent).size();
  c.count("group_bys");
  c.count("groups", expected.size());
  c.observe_max("groups", double(expected.size()));

  VF_CHECK("size", grouped.size() == expected.size(), grouped.size());
  std::vector<K> keys;
  for (const auto &p : expected)
    keys.push_back(p.first);
  VF_CHECK("keys", grouped.keys() == keys, "keys differ");

  const auto indexers = grouped.indexers();
  VF_CHECK("indexers", indexers.get_map() == expected, "indices differ");
  VF_CHECK("build_indexer", build_indexer(grouper, items_of(parent)).get_map() == expected, "indices differ");

  const auto groups = grouped.groups();
  VF_REQUIRE("groups_size", groups.size() == expected.size(), groups.size());
  const auto counts = grouped.counts();
  VF_REQUIRE("counts_size", counts.size() == expected.size(), counts.size());
  std::size_t total = 0;
  for (const auto &p : expected) {
    same_rows(c, "group", groups.at(p.first), parent, p.second);
    same_rows(c, "get_group", grouped.get_group(p.first), parent, p.second);
    VF_CHECK("counts", counts.at(p.first) == p.second.size(), counts.at(p.first));
    total += counts.at(p.first);
  }
  VF_CHECK("conserved", total == n && (n == 0 || counts.sum() == n), total << " of " << n);

  if (!expected.empty()) {
    const auto first = grouped.first_group();
    VF_CHECK("first_group_key", first.first == expected.begin()->first, "not the first key");
    same_rows(c, "first_group", first.second, parent, expected.begin()->second);
    const auto first2 = groups.first_group();
    same_rows(c, "first_group", first2.second, parent, expected.begin()->second);
    same_rows(c, "first_value", groups.first_value(), parent, expected.begin()->second);
    same_rows(c, "last_value", groups.last_value(), parent, expected.rbegin()->second);
  }

  // recombining gives every element once, group after group
  std::vector<std::vector<std::size_t>> in_order;
  for (const auto &p : expected)
    in_order.push_back(p.second);
  same_rows(c, "combine", groups.combine(), parent, joined(in_order));
  same_rows(c, "combine", albatross::combine(groups), parent, joined(in_order));
  same_rows(c, "combine_map", albatross::combine(groups.get_map()), parent, joined(in_order));

  // apply, by value and by key and value, serially and with a pool
  const auto sizes = grouped.apply([](const Parent &g) { return g.size(); });
  const auto sizes2 = groups.apply([](const K &, const Parent &g) { return g.size(); });
  const auto tags = grouped.apply([](const Parent &g) {
    std::vector<int> t;
    for (const auto &i : items_of(g))
      t.push_back(int(i.tag));
    return t;
  });
  VF_CHECK("apply_size", sizes.size() == expected.size() && sizes2 == sizes, "apply");
  ThreadPool pool(3);
  const auto tags_pool = grouped.apply(
      [](const Parent &g) {
        std::vector<int> t;
        for (const auto &i : items_of(g))
          t.push_back(int(i.tag));
        return t;
      },
      &pool);
  const auto sizes_pool =
      groups.apply([](const K &, const Parent &g) { return g.size(); }, &pool);
  VF_CHECK("apply_pool", tags_pool == tags && sizes_pool == sizes, "apply with a pool differs");
  for (const auto &p : expected) {
    std::vector<int> t;
    for (auto i : p.second)
      t.push_back(int(items_of(parent)[i].tag));
    VF_CHECK("apply", sizes.at(p.first) == p.second.size() && tags.at(p.first) == t, "apply over groups");
  }
  VF_CHECK("combine_vectors", tags.combine() == [&]() {
    std::vector<int> t;
    for (auto i : joined(in_order))
      t.push_back(int(items_of(parent)[i].tag));
    return t;
  }(), "combined vectors");
  std::vector<std::size_t> seen;
  std::vector<K> seen_keys;
  grouped.apply([&](const Parent &g) { seen.push_back(g.size()); });
  groups.apply([&](const K &k, const Parent &) { seen_keys.push_back(k); });
  VF_CHECK("apply_void", seen == sizes.values() && seen_keys == keys, "void apply");

  // index apply
  const auto by_index = grouped.index_apply(
      [](const K &, const std::vector<std::size_t> &ids) { return ids; });
  VF_CHECK("index_apply", by_index.get_map() == expected, "index_apply");
  std::map<K, std::vector<std::size_t>> seen_ids;
  grouped.index_apply([&](const K &k, const std::vector<std::size_t> &ids) { seen_ids[k] = ids; });
  VF_CHECK("index_apply_void", seen_ids == expected, "index_apply");
  const auto of_indexers =
      indexers.index_apply([](const K &, const std::vector<std::size_t> &ids) { return ids.size(); });
  VF_CHECK("index_apply_indexer", of_indexers.get_map() == counts.get_map(), "index_apply");
  const auto doubles = indexers.apply([](const std::vector<std::size_t> &ids) { return 0.5 * double(ids.size()); });
  if (!expected.empty()) {
    VF_CLOSE("sum", doubles.sum(), 0.5 * double(n), 1e-12, 0.);
    VF_CLOSE("mean", doubles.mean(), 0.5 * double(n) / double(expected.size()), 1e-12, 0.);
    VF_CHECK("sum_of_counts", counts.sum() == n, counts.sum());
    VF_CLOSE("mean_of_counts", counts.mean(), double(n) / double(expected.size()), 1e-12, 0.);
    const auto signed_values =
        indexers.apply([](const std::vector<std::size_t> &ids) { return 3 - 2 * int(ids.size()); });
    const int signed_sum = 3 * int(expected.size()) - 2 * int(n);
    VF_CHECK("sum_of_integers", signed_values.sum() == signed_sum, signed_values.sum());
    VF_CLOSE("mean_of_integers", signed_values.mean(), double(signed_sum) / double(expected.size()),
             1e-12, 1e-12);
    if (signed_sum % int(expected.size()) != 0)
      c.count("means_which_are_not_integers");
    std::size_t lo = n, hi = 0;
    for (const auto &p : expected) {
      lo = std::min(lo, p.second.size());
      hi = std::max(hi, p.second.size());
    }
    VF_CHECK("min", counts.min_value() == lo && counts.min().second == lo &&
                        expected.at(counts.min_key()).size() == lo, counts.min_value());
    VF_CHECK("max", counts.max_value() == hi && counts.max().second == hi &&
                        expected.at(counts.max_key()).size() == hi, counts.max_value());
    const Eigen::VectorXd all = albatross::combine(doubles);
    VF_REQUIRE("combine_doubles", all.size() == Eigen::Index(expected.size()), all.size());
    Eigen::Index i = 0;
    for (const auto &p : expected)
      VF_CHECK("combine_doubles", all[i++] == 0.5 * double(p.second.size()), "order");
  }

  // filter groups by value and by key
  const std::size_t least = std::size_t(c.rng.integer(0, 4));
  const auto big = grouped.filter([&](const Parent &g) { return g.size() >= least; });
  const auto big2 = groups.filter([&](const K &, const Parent &g) { return g.size() >= least; });
  std::set<K> chosen;
  for (const auto &p : expected)
    if (c.rng.coin())
      chosen.insert(p.first);
  const auto by_key = groups.filter([&](const K &k, const Parent &) { return chosen.count(k) > 0; });
  VF_CHECK("filter_same", big.get_map() == big2.get_map(), "filter by value and by key and value");
  std::vector<std::vector<std::size_t>> kept, kept_keys;
  for (const auto &p : expected) {
    const bool keep = p.second.size() >= least;
    VF_CHECK("filter", (big.find(p.first) != big.end()) == keep, "kept the wrong groups");
    if (keep) {
      same_rows(c, "filtered_group", big.at(p.first), parent, p.second);
      kept.push_back(p.second);
    }
    VF_CHECK("filter_by_key", (by_key.find(p.first) != by_key.end()) == (chosen.count(p.first) > 0), "key");
    if (chosen.count(p.first))
      kept_keys.push_back(p.second);
  }
  same_rows(c, "filter_combine", big.combine(), parent, joined(kept));
  same_rows(c, "filter_combine", by_key.combine(), parent, joined(kept_keys));
  const auto flags = sizes.apply([&](std::size_t k) { return k >= least; });
  VF_CHECK("all_any", flags.all() == (kept.size() == expected.size()) && flags.any() == !kept.empty(),
           "all or any");
  // indices of the chosen groups
  const std::vector<K> chosen_keys(chosen.begin(), chosen.end());
  VF_CHECK("indices_from_groups", indices_from_groups(indexers, chosen_keys) == joined(kept_keys), "indices");

  // erase and insert
  auto copy = groups;
  if (!expected.empty()) {
    const K gone = keys[std::size_t(c.rng.integer(0, int(keys.size()) - 1))];
    VF_CHECK("erase", copy.erase(gone) == 1 && copy.erase(gone) == 0 &&
                          copy.size() + 1 == groups.size() && copy.find(gone) == copy.end(), "erase");
    VF_CHECK("equality", !(copy == groups), "one group less is not the same");
    copy.emplace(gone, groups.at(gone));
    VF_CHECK("equality", copy == groups, "put back");
  }

  // pair with other data
  std::vector<double> numbers;
  Eigen::VectorXd vec(Eigen::Index(n), 1);
  for (std::size_t i = 0; i < n; ++i) {
    numbers.push_back(double(i) + 0.25);
    vec[Eigen::Index(i)] = double(i) + 0.75;
  }
  const auto paired = grouped.with(numbers);
  const auto paired_groups = grouped.with(counts);
  VF_CHECK("with_size", paired.size() == expected.size() && paired_groups.size() == expected.size(), "with");
  for (const auto &p : expected) {
    same_rows(c, "with", paired.at(p.first).first, parent, p.second);
    std::vector<double> e;
    for (auto i : p.second)
      e.push_back(double(i) + 0.25);
    VF_CHECK("with_other", paired.at(p.first).second == e, "the other data is out of step");
    same_rows(c, "with_groups", paired_groups.at(p.first).first, parent, p.second);
    VF_CHECK("with_groups_other", paired_groups.at(p.first).second == p.second.size(), "with groups");
  }
  VF_CHECK("parent", parent == before, "the grouped data was changed");
}

template <typename Parent> void all_groupers(vf::Case &c, const Parent &parent) {
  const auto &x = items_of(parent);
  switch (c.index % 10) {
  case 0:
    check_group_by(c, parent, [](const Item &i) { return i.a; },
                   partition<int>(x, [](const Item &i, std::size_t) { return i.a; }));
    break;
  case 1:
    check_group_by(c, parent, GET(b), partition<std::string>(x, [](const Item &i, std::size_t) { return i.b; }));
    break;
  case 2:
    check_group_by(c, parent, GET(label()),
                   partition<std::string>(x, [](const Item &i, std::size_t) { return i.label(); }));
    break;
  case 3:
    check_group_by(c, parent, LeaveOneOutGrouper(),
                   partition<std::size_t>(x, [](const Item &, std::size_t i) { return i; }));
    c.count("leave_one_out");
    break;
  case 4: {
    const std::size_t k = std::size_t(c.rng.integer(1, 12));
    c.desc << " k=" << k;
    check_group_by(c, parent, KFoldGrouper(k),
                   partition<std::size_t>(x, [&](const Item &, std::size_t i) { return i % k; }));
    c.count("k_fold");
    if (k > x.size())
      c.count("more_folds_than_elements");
    break;
  }
  case 5:
    check_group_by(c, parent, [](const Item &i) { return i.a > 0; },
                   partition<bool>(x, [](const Item &i, std::size_t) { return i.a > 0; }));
    break;
  case 6:
    check_group_by(c, parent, [](const Item &i) { Key k; k.x = i.a / 2; return k; },
                   partition<Key>(x, [](const Item &i, std::size_t) { Key k; k.x = i.a / 2; return k; }));
    c.count("custom_key_order");
    break;
  case 7:
    check_group_by(c, parent, c08user::LabelOf(),
                   partition<std::string>(x, [](const Item &i, std::size_t) { return i.label(); }));
    break;
  case 8: {
    const int by = int(c.rng.integer(1, 5));
    check_group_by(c, parent, [by](const Item &i) { return std::make_pair(i.b, ((i.a % by) + by) % by); },
                   partition<std::pair<std::string, int>>(x, [by](const Item &i, std::size_t) {
                     return std::make_pair(i.b, ((i.a % by) + by) % by); }));
    break;
  }
  default:
    check_group_by(c, parent, c08user::remainder_of,
                   partition<int>(x, [](const Item &i, std::size_t) { return c08user::remainder_of(i); }));
  }
}

VF_SECTION("group_dataset", 700, 15000) {
  const auto d = some_dataset(c, some_n(c));
  c.desc << c.index % 10 << " " << text(d.features);
  c.count(d.size() ? "filled" : "empty");
  c.reached();
  all_groupers(c, d);
}

VF_SECTION("group_vector", 700, 15000) {
  const auto d = some_items(c, some_n(c));
  c.desc << c.index % 10 << " " << text(d);
  c.reached();
  all_groupers(c, d);
}

// a vector of another element type, and a chain of operations
VF_SECTION("chain", 500, 10000) {
  auto d = some_dataset(c, some_n(c));
  const auto original = d;
  std::vector<std::size_t> ids(d.size());
  std::iota(ids.begin(), ids.end(), std::size_t(0));
  c.desc << text(d.features);
  c.reached();
  const int steps = int(c.rng.integer(1, 8));
  for (int s = 0; s < steps; ++s) {
    const int op = int(c.rng.integer(0, 5));
    c.desc << " " << op;
    c.count("chained");
    std::vector<std::size_t> next;
    if (op == 0) { // group and recombine
      std::map<std::string, std::vector<std::size_t>> e;
      for (auto i : ids)
        e[original.features[i].b].push_back(i);
      d = d.group_by(GET(b)).groups().combine();
      for (const auto &p : e)
        next.insert(next.end(), p.second.begin(), p.second.end());
    } else if (op == 1) { // keep some
      const int cut = int(c.rng.integer(-3, 3));
      d = filter(d, [&](const Item &i) { return i.a >= cut; });
      for (auto i : ids)
        if (original.features[i].a >= cut)
          next.push_back(i);
    } else if (op == 2) { // subset
      std::vector<std::size_t> pos = c.rng.choose(ids.size(), ids.empty() ? 0 : std::size_t(c.rng.integer(0, int(ids.size()))));
      c.rng.shuffle(pos);
      d = c.rng.coin() ? subset(d, pos) : d.subset(pos);
      for (auto i : pos)
        next.push_back(ids[i]);
    } else if (op == 3) { // with itself
      if (ids.size() > 40)
        continue;
      d = concatenate_datasets(d, d);
      next = ids;
      next.insert(next.end(), ids.begin(), ids.end());
    } else if (op == 4) { // drop repeats: each keeps its last place
      d = deduplicate(d);
      for (std::size_t i = 0; i < ids.size(); ++i)
        if (std::find(ids.begin() + long(i) + 1, ids.end(), ids[i]) == ids.end())
          next.push_back(ids[i]);
      c.count("deduplicated");
    } else { // groups of at least two
      std::map<int, std::vector<std::size_t>> e;
      for (auto i : ids)
        e[original.features[i].a].push_back(i);
      d = group_by(d, [](const Item &i) { return i.a; })
              .filter([](const RegressionDataset<Item> &g) { return g.size() > 1; })
              .combine();
      for (const auto &p : e)
        if (p.second.size() > 1)
          next.insert(next.end(), p.second.begin(), p.second.end());
    }
    ids = next;
    same_rows(c, "chain", d, original, ids);
  }
}

template <typename T> std::vector<T> as(const std::vector<std::size_t> &ids) {
  std::vector<T> o;
  for (auto i : ids)
    o.push_back(T(i));
  return o;
}

std::vector<std::size_t> any_ids(vf::Case &c, std::size_t n) {
  std::vector<std::size_t> o;
  if (n == 0)
    return o;
  const std::size_t k = std::size_t(c.rng.integer(0, int(n) + 2));
  for (std::size_t i = 0; i < k; ++i)
    o.push_back(std::size_t(c.rng.integer(0, int(n) - 1)));
  return o;
}

VF_SECTION("subset", 600, 12000) {
  const std::size_t n = some_n(c), m = some_n(c);
  const auto rows = any_ids(c, n), cols = any_ids(c, m);
  c.desc << n << "x" << m << " " << rows.size() << " " << cols.size() << " " << (rows.empty() ? 0 : rows[0]) << " "
         << (cols.empty() ? 0 : cols[0]);
  c.reached();
  Eigen::MatrixXd a = Eigen::MatrixXd::Zero(Eigen::Index(n), Eigen::Index(m));
  for (Eigen::Index i = 0; i < a.rows(); ++i)
    for (Eigen::Index j = 0; j < a.cols(); ++j)
      a(i, j) = double(100 * i + j);
  const Eigen::MatrixXd r = subset_rows(a, as<int>(rows)), k = subset_cols(a, cols),
                        both = subset(a, as<Eigen::Index>(rows), as<Eigen::Index>(cols));
  VF_REQUIRE("rows_shape", r.rows() == Eigen::Index(rows.size()) && r.cols() == a.cols(), "rows");
  VF_REQUIRE("cols_shape", k.cols() == Eigen::Index(cols.size()) && k.rows() == a.rows(), "cols");
  VF_REQUIRE("both_shape", both.rows() == r.rows() && both.cols() == k.cols(), "both");
  for (std::size_t i = 0; i < rows.size(); ++i) {
    for (std::size_t j = 0; j < m; ++j)
      VF_CHECK("rows", r(Eigen::Index(i), Eigen::Index(j)) == double(100 * rows[i] + j), i << "," << j);
    for (std::size_t j = 0; j < cols.size(); ++j)
      VF_CHECK("both", both(Eigen::Index(i), Eigen::Index(j)) == double(100 * rows[i] + cols[j]), i << "," << j);
  }
  for (std::size_t i = 0; i < n; ++i)
    for (std::size_t j = 0; j < cols.size(); ++j)
      VF_CHECK("cols", k(Eigen::Index(i), Eigen::Index(j)) == double(100 * i + cols[j]), i << "," << j);
  // vectors and diagonal matrices
  Eigen::VectorXd v(Eigen::Index(n), 1);
  std::vector<std::string> names;
  for (std::size_t i = 0; i < n; ++i) {
    v[Eigen::Index(i)] = double(i) + 0.5;
    names.push_back("n" + std::to_string(i));
  }
  const Eigen::VectorXd sv = subset(v, rows);
  const auto sn = subset(names, as<int>(rows));
  const Eigen::DiagonalMatrix<double, Eigen::Dynamic> dm = v.asDiagonal();
  const Eigen::DiagonalMatrix<double, Eigen::Dynamic> sd = symmetric_subset(dm, rows);
  VF_REQUIRE("vector_size", sv.size() == Eigen::Index(rows.size()) && sn.size() == rows.size() &&
                                sd.rows() == sv.size(), "sizes");
  for (std::size_t i = 0; i < rows.size(); ++i)
    VF_CHECK("vector", sv[Eigen::Index(i)] == double(rows[i]) + 0.5 && sn[i] == names[rows[i]] &&
                           sd.diagonal()[Eigen::Index(i)] == sv[Eigen::Index(i)], i);
  const Eigen::MatrixXd sq = v * v.transpose();
  const Eigen::MatrixXd ss = symmetric_subset(sq, rows);
  for (std::size_t i = 0; i < rows.size(); ++i)
    for (std::size_t j = 0; j < rows.size(); ++j)
      VF_CHECK("symmetric", ss(Eigen::Index(i), Eigen::Index(j)) == sq(Eigen::Index(rows[i]), Eigen::Index(rows[j])), i);
  // assignment, distinct places
  auto places = n ? c.rng.choose(n, std::size_t(c.rng.integer(0, int(n)))) : std::vector<std::size_t>();
  c.rng.shuffle(places);
  Eigen::VectorXd from(Eigen::Index(places.size()), 1), to = v;
  for (Eigen::Index i = 0; i < from.size(); ++i)
    from[i] = -1. - double(i);
  set_subset(from, as<int>(places), &to);
  Eigen::VectorXd e = v;
  for (std::size_t i = 0; i < places.size(); ++i)
    e[Eigen::Index(places[i])] = -1. - double(i);
  VF_CHECK("set_subset", to == e && subset(to, places) == from, "assignment");
  // complements and differences
  const auto rest = indices_complement(places, n);
  std::vector<bool> hit(n, false);
  bool disjoint = true;
  for (auto i : places)
    hit[i] = true;
  for (std::size_t i = 0; i < rest.size(); ++i) {
    disjoint = disjoint && rest[i] < n && !hit[rest[i]] && (i == 0 || rest[i] > rest[i - 1]);
    if (rest[i] < n)
      hit[rest[i]] = true;
  }
  VF_CHECK("complement", disjoint && rest.size() + places.size() == n && all(hit), "not a partition");
  const auto repeated = indices_complement(rows, n);
  for (std::size_t i = 0; i < n; ++i)
    VF_CHECK("complement_repeated",
             (std::find(rows.begin(), rows.end(), i) == rows.end()) ==
                 (std::find(repeated.begin(), repeated.end(), i) != repeated.end()), i);
  const auto diff = vector_set_difference(rows, cols);
  for (std::size_t i = 0; i < std::max(n, m); ++i) {
    const bool in_r = std::find(rows.begin(), rows.end(), i) != rows.end(),
               in_c = std::find(cols.begin(), cols.end(), i) != cols.end();
    VF_CHECK("difference", (diff.count(i) == 1) == (in_r && !in_c), i);
  }
  const std::set<std::size_t> rs(rows.begin(), rows.end()), cs(cols.begin(), cols.end());
  VF_CHECK("set_difference", set_difference(rs, cs) == diff, "sets");
}

VF_SECTION("align", 500, 10000) {
  // two datasets without repeated features and a partial overlap
  const std::size_t n = some_n(c), m = some_n(c), pool = std::max(n, m) + std::size_t(c.rng.integer(0, 10));
  auto xi = c.rng.choose(pool, n), yi = c.rng.choose(pool, m);
  c.rng.shuffle(xi);
  c.rng.shuffle(yi);
  auto make = [&](const std::vector<std::size_t> &ids, double sign) {
    std::vector<double> f;
    Eigen::VectorXd mean(Eigen::Index(ids.size()), 1), var = mean;
    for (std::size_t i = 0; i < ids.size(); ++i) {
      f.push_back(double(ids[i]));
      mean[Eigen::Index(i)] = sign * (double(ids[i]) + 0.5);
      var[Eigen::Index(i)] = 1. + double(ids[i]) + (sign > 0 ? 0.25 : 0.5);
    }
    return RegressionDataset<double>(f, MarginalDistribution(mean, var));
  };
  auto x = make(xi, 1.), y = make(yi, -1.);
  c.desc << n << " " << m << " " << pool << " " << (n ? xi[0] : 0) << " " << (m ? yi[0] : 0);
  c.reached();
  const bool shifted = c.rng.coin(0.3);
  if (shifted) { // an own notion of equality: y is off by a small amount
    for (auto &f : y.features)
      f += 0.125;
    align_datasets(&x, &y, [](double a, double b) { return std::fabs(a - b) < 0.25; });
  } else {
    align_datasets(&x, &y);
  }
  std::vector<std::size_t> common;
  for (auto i : xi)
    if (std::find(yi.begin(), yi.end(), i) != yi.end())
      common.push_back(i);
  c.count(common.empty() ? "nothing_in_common" : "aligned");
  VF_REQUIRE("size", x.size() == common.size() && y.size() == common.size() &&
                         x.targets.size() == common.size() && y.targets.size() == common.size(),
             x.size() << " and " << y.size() << " instead of " << common.size());
  for (std::size_t i = 0; i < common.size(); ++i) {
    const double f = double(common[i]);
    const Eigen::Index k = Eigen::Index(i);
    VF_CHECK("features", x.features[i] == f && y.features[i] == (shifted ? f + 0.125 : f), i);
    VF_CHECK("targets", x.targets.mean[k] == f + 0.5 && y.targets.mean[k] == -(f + 0.5) &&
                            x.targets.get_diagonal(k) == 1.25 + f && y.targets.get_diagonal(k) == 1.5 + f, i);
  }
}

VF_SECTION("concatenate", 600, 12000) {
  const std::size_t n = some_n(c), m = some_n(c);
  const auto x = some_dataset(c, n);
  RegressionDataset<Item> y = some_dataset(c, m);
  c.desc << text(x.features) << " " << text(y.features);
  c.reached();
  const auto xy = concatenate_datasets(x, y);
  VF_REQUIRE("size", xy.size() == n + m && xy.targets.size() == n + m, xy.size());
  std::vector<std::size_t> first(n), second(m);
  std::iota(first.begin(), first.end(), std::size_t(0));
  std::iota(second.begin(), second.end(), n);
  VF_CHECK("parts", subset(xy, first) == x && subset(xy, second) == y, "parts are not found again");
  // a list
  const int k = int(c.rng.integer(0, 5));
  std::vector<RegressionDataset<Item>> list;
  std::size_t total = 0;
  for (int i = 0; i < k; ++i) {
    list.push_back(some_dataset(c, c.rng.coin(0.2) ? 0 : some_n(c)));
    total += list.back().size();
  }
  const auto all_of = concatenate_datasets(list);
  VF_REQUIRE("list_size", all_of.size() == total && all_of.targets.size() == total, all_of.size());
  std::size_t at = 0;
  for (const auto &one : list) {
    std::vector<std::size_t> ids(one.size());
    std::iota(ids.begin(), ids.end(), at);
    at += one.size();
    VF_CHECK("list", subset(all_of, ids) == one, "a part is not found at its place");
  }
  // different types become a variant
  std::vector<double> df;
  Eigen::VectorXd dm(Eigen::Index(m), 1);
  for (std::size_t i = 0; i < m; ++i) {
    df.push_back(double(i) - 0.5);
    dm[Eigen::Index(i)] = double(i) * 3.;
  }
  const RegressionDataset<double> yd(df, dm);
  const auto mixed = concatenate_datasets(x, yd);
  const auto mixed_back = concatenate_datasets(yd, x);
  VF_REQUIRE("mixed_size", mixed.size() == n + m && mixed_back.size() == n + m, mixed.size());
  for (std::size_t i = 0; i < n; ++i) {
    VF_CHECK("mixed", mixed.features[i].template is<Item>() && mixed.features[i].template get<Item>() == x.features[i] &&
                          mixed.targets[i] == x.targets[i], i);
    VF_CHECK("mixed", mixed_back.features[m + i].template is<Item>() &&
                          mixed_back.features[m + i].template get<Item>() == x.features[i] &&
                          mixed_back.targets[m + i] == x.targets[i], i);
  }
  for (std::size_t i = 0; i < m; ++i) {
    VF_CHECK("mixed", mixed.features[n + i].template is<double>() &&
                          mixed.features[n + i].template get<double>() == df[i] &&
                          mixed.targets[n + i] == yd.targets[i], i);
    VF_CHECK("mixed", mixed_back.features[i].template is<double>() &&
                          mixed_back.features[i].template get<double>() == df[i], i);
  }
  // a variant and one of its types, or a new type
  const std::vector<double> more = {7., 8.};
  const auto longer = concatenate(mixed.features, more);
  const auto longer_front = concatenate(more, mixed.features);
  const std::vector<int> ints = {3};
  const auto wider = concatenate(mixed.features, ints);
  const auto wider_front = concatenate(ints, mixed.features);
  VF_CHECK("variant_size", longer.size() == n + m + 2 && longer_front.size() == n + m + 2 &&
                               wider.size() == n + m + 1 && wider_front.size() == n + m + 1, "sizes");
  for (std::size_t i = 0; i < n + m; ++i) {
    VF_CHECK("variant", longer[i] == mixed.features[i] && longer_front[i + 2] == mixed.features[i], i);
    const bool item = i < n;
    VF_CHECK("wider", item ? (wider[i].template is<Item>() && wider[i].template get<Item>() == x.features[i] &&
                              wider_front[i + 1].template is<Item>() && wider_front[i + 1].template get<Item>() == x.features[i])
                           : (wider[i].template is<double>() && wider[i].template get<double>() == df[i - n] &&
                              wider_front[i + 1].template is<double>() && wider_front[i + 1].template get<double>() == df[i - n]), i);
  }
  VF_CHECK("variant_ends", longer[n + m].template get<double>() == 7. && longer_front[1].template get<double>() == 8. &&
                               wider[n + m].template get<int>() == 3 && wider_front[0].template get<int>() == 3, "ends");
  // equality includes the metadata
  auto x2 = x;
  VF_CHECK("equal", x2 == x, "copy");
  x2.metadata["k"] = "v";
  VF_CHECK("metadata", !(x2 == x), "metadata is part of equality");
}

VF_SECTION("dedup", 400, 8000) {
  // repeated features, each with its own target
  const std::size_t n = some_n(c);
  std::vector<int> f;
  Eigen::VectorXd m(Eigen::Index(n), 1), v(Eigen::Index(n), 1);
  const int range = int(c.rng.pick(std::vector<int>{0, 2, 6, 100}));
  for (std::size_t i = 0; i < n; ++i) {
    f.push_back(int(c.rng.integer(0, range)));
    m[Eigen::Index(i)] = double(i);
    v[Eigen::Index(i)] = 1. + double(i);
    c.desc << f.back() << ",";
  }
  c.reached();
  const auto d = create_dataset(f, MarginalDistribution(m, v));
  const auto u = deduplicate(d);
  std::vector<std::size_t> e;
  for (std::size_t i = 0; i < n; ++i)
    if (std::find(f.begin() + long(i) + 1, f.end(), f[i]) == f.end())
      e.push_back(i);
  if (e.size() < n)
    c.count("repeats");
  VF_REQUIRE("size", u.size() == e.size(), u.size());
  for (std::size_t i = 0; i < e.size(); ++i)
    VF_CHECK("dedup", u.features[i] == f[e[i]] && u.targets.mean[Eigen::Index(i)] == double(e[i]) &&
                          u.targets.get_diagonal(Eigen::Index(i)) == 1. + double(e[i]), i);
  VF_CHECK("twice", deduplicate(u) == u, "not idempotent");
  // unique values
  const std::set<int> s(f.begin(), f.end());
  VF_CHECK("unique_values", unique_values(f) == s, "values");
  const auto half = unique_values(f, [](int i) { return std::to_string(i / 2); });
  std::set<std::string> eh;
  for (auto i : f)
    eh.insert(std::to_string(i / 2));
  VF_CHECK("unique_applied", half == eh && unique_values(s, [](int i) { return std::to_string(i / 2); }) == eh, "applied");
  if (s.size() == 1) {
    VF_CHECK("unique_value", unique_value(f) == f[0] && unique_value(s) == f[0] &&
                                 unique_value(f, [](int i) { return i + 1; }) == f[0] + 1, "value");
    c.count("one_value");
  }
  VF_CHECK("contains", vector_contains(f, -1) == false, "contains");
  for (auto i : f)
    VF_CHECK("contains", vector_contains(f, i), i);
  std::ostringstream os;
  os << d;
  std::size_t lines = 0;
  for (char ch : os.str())
    lines += ch == '\n';
  VF_CHECK("printed", lines == n, lines);
}

VF_SECTION("filter_apply", 600, 12000) {
  // vectors, sets and maps on their own
  const auto x = some_items(c, some_n(c));
  c.desc << text(x);
  c.reached();
  const int cut = int(c.rng.integer(-3, 3));
  const auto keep = [&](const Item &i) { return i.a > cut; };
  std::vector<std::size_t> e;
  for (std::size_t i = 0; i < x.size(); ++i)
    if (x[i].a > cut)
      e.push_back(i);
  same_rows(c, "filter_vector", filter(x, keep), x, e);
  const std::set<Item> xs(x.begin(), x.end());
  const auto fs = filter(xs, keep);
  same_rows(c, "filter_set", std::vector<Item>(fs.begin(), fs.end()), x, e);
  std::map<std::string, Item> m;
  for (const auto &i : x)
    m[std::to_string(i.tag)] = i;
  const auto fm = filter(m, keep);
  const auto fk = filter(m, [&](const std::string &k, const Item &i) { return k.size() == 1 && i.a > cut; });
  std::size_t n_m = 0, n_k = 0;
  for (const auto &p : m) {
    const bool in = p.second.a > cut;
    n_m += in;
    n_k += in && p.first.size() == 1;
    VF_CHECK("filter_map", (fm.find(p.first) != fm.end()) == in && (!in || fm.at(p.first) == p.second), p.first);
    VF_CHECK("filter_map_keys", (fk.find(p.first) != fk.end()) == (in && p.first.size() == 1), p.first);
  }
  VF_CHECK("filter_map_size", fm.size() == n_m && fk.size() == n_k, fm.size());
  const auto am = albatross::apply(m, [](const Item &i) { return double(i.a); });
  const auto ak = albatross::apply(m, [](const std::string &k, const Item &i) { return k + i.b; });
  VF_CHECK("apply_map_size", am.size() == m.size() && ak.size() == m.size(), "sizes");
  double total = 0.;
  for (const auto &p : m) {
    VF_CHECK("apply_map", am.at(p.first) == double(p.second.a) && ak.at(p.first) == p.first + p.second.b, p.first);
    total += p.second.a;
  }
  VF_CHECK("sum", am.sum() == total, am.sum());
  std::vector<std::size_t> seen;
  albatross::apply(x, [&](const Item &i) { seen.push_back(i.tag); });
  const auto tags = albatross::apply(x, [](const Item &i) { return i.tag; });
  VF_CHECK("apply_vector", seen == tags && tags.size() == x.size(), "apply");
  for (std::size_t i = 0; i < tags.size(); ++i)
    VF_CHECK("apply_vector", tags[i] == i, i);
  std::size_t visits = 0;
  albatross::apply(m, [&](const Item &) { ++visits; });
  albatross::apply(m, [&](const std::string &, const Item &) { ++visits; });
  VF_CHECK("apply_map_void", visits == 2 * m.size(), visits);
  // flags
  const auto flags = albatross::apply(x, keep);
  VF_CHECK("flags", all(std::vector<bool>(flags.begin(), flags.end())) == (e.size() == x.size()) &&
                        any(std::vector<bool>(flags.begin(), flags.end())) == !e.empty(), "all or any");
  // combine grouped vectors of numbers, some of them empty
  std::map<int, Eigen::VectorXd> vm;
  std::vector<double> ev;
  for (int k = 0; k < int(c.rng.integer(0, 5)); ++k) {
    Eigen::VectorXd v(c.rng.coin(0.3) ? 0 : c.rng.integer(1, 4));
    for (Eigen::Index i = 0; i < v.size(); ++i) {
      v[i] = c.rng.normal();
      ev.push_back(v[i]);
    }
    vm[k] = v;
  }
  const Eigen::VectorXd whole = combine(vm);
  VF_REQUIRE("combine_vectors", whole.size() == Eigen::Index(ev.size()), whole.size());
  for (std::size_t i = 0; i < ev.size(); ++i)
    VF_CHECK("combine_vectors", whole[Eigen::Index(i)] == ev[i], i);
  const Grouped<int, Eigen::VectorXd> gv(vm);
  VF_CHECK("combine_grouped", gv.combine() == whole, "grouped");
}

VF_SECTION("transform", 300, 6000) {
  // a matrix times a dataset keeps each row's combination with its own target
  const std::size_t n = std::max<std::size_t>(1, some_n(c));
  std::vector<double> f;
  Eigen::VectorXd m(Eigen::Index(n), 1), v(Eigen::Index(n), 1);
  for (std::size_t i = 0; i < n; ++i) {
    f.push_back(double(i));
    m[Eigen::Index(i)] = c.rng.normal();
    v[Eigen::Index(i)] = c.rng.log_uniform(1e-2, 1e2);
  }
  const RegressionDataset<double> d(f, MarginalDistribution(m, v));
  const Eigen::Index r = c.rng.integer(1, 5);
  Eigen::MatrixXd a(r, Eigen::Index(n));
  for (Eigen::Index i = 0; i < a.size(); ++i)
    a.data()[i] = c.rng.coin(0.5) ? 0. : c.rng.normal();
  c.desc << n << " " << r << " " << m[0] << " " << a(0, 0);
  c.reached();
  const Eigen::SparseMatrix<double> s = a.sparseView();
  const auto t = a * d;
  const auto ts = s * d;
  VF_REQUIRE("size", t.size() == std::size_t(r) && ts.size() == std::size_t(r), t.size());
  for (Eigen::Index i = 0; i < r; ++i) {
    double mean = 0., var = 0.;
    for (std::size_t j = 0; j < n; ++j) {
      mean += a(i, Eigen::Index(j)) * m[Eigen::Index(j)];
      var += a(i, Eigen::Index(j)) * a(i, Eigen::Index(j)) * v[Eigen::Index(j)];
    }
    const double k = m.cwiseAbs().maxCoeff() * a.cwiseAbs().sum();
    VF_CLOSE("mean", t.targets.mean[i], mean, 1e-12, 1e-12 * k);
    VF_CLOSE("mean", ts.targets.mean[i], mean, 1e-12, 1e-12 * k);
    VF_CLOSE("variance", t.targets.get_diagonal(i), var, 1e-11, 0.);
    VF_CLOSE("variance", ts.targets.get_diagonal(i), var, 1e-11, 0.);
    for (int kind = 0; kind < 2; ++kind) {
      const auto &lc = kind ? ts.features[std::size_t(i)] : t.features[std::size_t(i)];
      Eigen::VectorXd back = Eigen::VectorXd::Zero(Eigen::Index(n));
      VF_REQUIRE("combination_size", lc.values.size() == std::size_t(lc.coefficients.size()), lc.values.size());
      for (std::size_t j = 0; j < lc.values.size(); ++j) {
        const double at = lc.values[j];
        VF_REQUIRE("combination_feature", at >= 0. && at < double(n) && at == std::floor(at), at);
        back[Eigen::Index(at)] += lc.coefficients[Eigen::Index(j)];
      }
      VF_CHECK("combination", (back - a.row(i).transpose()).cwiseAbs().maxCoeff() == 0.,
               "row " << i << " is another combination");
    }
  }
}

VF_SECTION("rejected", 30, 90) {
  const std::size_t n = std::size_t(c.rng.integer(1, 6));
  const auto x = some_items(c, n);
  const auto d = some_dataset(c, n);
  c.desc << c.index % 10 << " " << n;
  c.reached();
  const int out = int(n) + int(c.rng.integer(0, 3));
  Eigen::VectorXd v = Eigen::VectorXd::Zero(Eigen::Index(n));
  Eigen::MatrixXd a = Eigen::MatrixXd::Zero(Eigen::Index(n), Eigen::Index(n));
  switch (c.index % 10) {
  case 0:
    VF_ABORTS("subset_vector", subset(x, std::vector<int>{out}));
    break;
  case 1:
    VF_ABORTS("subset_eigen", subset(v, std::vector<int>{-1}));
    break;
  case 2:
    VF_ABORTS("subset_dataset", subset(d, std::vector<int>{0, out}));
    break;
  case 3:
    VF_ABORTS("subset_rows", subset_rows(a, std::vector<int>{out}));
    VF_ABORTS("subset_cols", subset_cols(a, std::vector<int>{-1}));
    break;
  case 4:
    VF_ABORTS("set_subset_size", set_subset(Eigen::VectorXd(Eigen::VectorXd::Zero(2)), std::vector<int>{0}, &v));
    break;
  case 5:
    VF_ABORTS("set_subset_range", set_subset(Eigen::VectorXd(Eigen::VectorXd::Zero(1)), std::vector<int>{out}, &v));
    break;
  case 6:
    VF_ABORTS("with", group_by(x, GET(a)).with(std::vector<double>(n + 1, 0.)));
    break;
  case 7: {
    const auto g = group_by(x, GET(a));
    VF_THROWS("missing_group", g.get_group(1000));
    VF_THROWS("missing_group", g.groups().at(1000));
    break;
  }
  case 8:
    VF_ABORTS("dataset", RegressionDataset<Item>(x, Eigen::VectorXd(Eigen::VectorXd::Zero(Eigen::Index(n) + 1))));
    break;
  default:
    VF_ABORTS("unique_value", unique_value(std::vector<int>{1, 2}));
    VF_ABORTS("unique_value", unique_value(std::set<int>{}));
  }
  c.count("refused");
}

} // namespace
