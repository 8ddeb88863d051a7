// C13: map, set, vector and variant helpers against brute-force set algebra.
#include "vf.h"
#include <albatross/Core>
#include <albatross/Indexing>
#include <albatross/utils/MapUtils>
#include <albatross/utils/VariantUtils>

using namespace albatross;

namespace {

template <typename K> K key(long i);
template <> int key<int>(long i) { return static_cast<int>(i - 6); }
template <> std::string key<std::string>(long i) {
  return std::string(static_cast<std::size_t>(i % 4), 'z') + std::to_string(i);
}
template <typename V> V value(vf::Case &c);
template <> int value<int>(vf::Case &c) {
  return static_cast<int>(c.rng.integer(-1000, 1000));
}
template <> double value<double>(vf::Case &c) { return c.rng.normal(); }
template <> std::string value<std::string>(vf::Case &c) {
  return "value_" + std::to_string(c.rng.integer(0, 100000));
}

// A comparator with state: the order is chosen at run time.
struct Directed {
  bool descending;
  explicit Directed(bool d = false) : descending(d) {}
  template <typename T> bool operator()(const T &a, const T &b) const {
    return descending ? b < a : a < b;
  }
};
template <typename Cmp> Cmp comparator(bool) { return Cmp(); }
template <> Directed comparator<Directed>(bool d) { return Directed(d); }

template <typename M>
M make_map(vf::Case &c, typename M::key_compare cmp, long *largest) {
  M m(cmp);
  const std::size_t n = c.rng.coin(0.1) ? 0 : c.rng.extent(0, 12, 200);
  const long range = c.rng.wide(1, 16, 300, n > 12 ? 0.8 : 0.03);
  *largest = std::max(*largest, range);
  for (std::size_t i = 0; i < n; ++i) {
    m[key<typename M::key_type>(c.rng.integer(0, range))] =
        value<typename M::mapped_type>(c);
  }
  return m;
}

template <typename M> void describe(vf::Case &c, const M &m) {
  c.desc << "{";
  for (const auto &p : m)
    c.desc << p.first << ":" << p.second << ",";
  c.desc << "} ";
}

template <typename M> bool ordered(const M &m) {
  const auto cmp = m.key_comp();
  for (auto it = m.begin(); it != m.end(); ++it) {
    auto nx = it;
    if (++nx != m.end() && !cmp(it->first, nx->first))
      return false;
  }
  return true;
}

template <typename A, typename B> bool same(const A &a, const B &b) {
  return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin());
}

template <typename K, typename V, typename Cmp> void maps(vf::Case &c) {
  using M = std::map<K, V, Cmp>;
  using S = std::set<K, Cmp>;
  const Cmp cmp = comparator<Cmp>(c.rng.coin());
  long largest = 18;
  const M a = make_map<M>(c, cmp, &largest);
  const M b = make_map<M>(c, cmp, &largest);
  describe(c, a);
  describe(c, b);
  const M a0(a), b0(b);

  // Oracles by linear search over vectors of pairs.
  auto has = [](const M &m, const K &k) {
    for (const auto &p : m)
      if (p.first == k)
        return true;
    return false;
  };
  auto get = [](const M &m, const K &k) {
    for (const auto &p : m)
      if (p.first == k)
        return p.second;
    return V();
  };
  std::vector<K> universe;
  for (long i = -1; i < largest + 2; ++i)
    universe.push_back(key<K>(std::max(i, 0L)));
  std::sort(universe.begin(), universe.end(), cmp);
  universe.erase(std::unique(universe.begin(), universe.end()), universe.end());
  using P = std::pair<K, V>;
  auto as_vector = [](const M &m) {
    std::vector<P> o;
    for (const auto &p : m)
      o.emplace_back(p.first, p.second);
    return o;
  };

  std::vector<P> diff, sym, left, right, sum, inter_left, inter_right, joined;
  std::vector<K> diff_keys, inter_keys;
  std::vector<std::pair<K, std::pair<V, V>>> pairs;
  for (const auto &k : universe) {
    const bool ia = has(a, k), ib = has(b, k);
    VF_CHECK("map_contains", map_contains(a, k) == ia, k);
    VF_CHECK("map_at_or", map_at_or(a, k) == get(a, k), k);
    const V alternative = value<V>(c);
    VF_CHECK("map_at_or_value",
             map_at_or(a, k, alternative) == (ia ? get(a, k) : alternative), k);
    if (ia && !ib) {
      diff.emplace_back(k, get(a, k));
      diff_keys.push_back(k);
    }
    if (ia != ib)
      sym.emplace_back(k, ia ? get(a, k) : get(b, k));
    if (ia || ib) {
      left.emplace_back(k, ia ? get(a, k) : get(b, k));
      right.emplace_back(k, ib ? get(b, k) : get(a, k));
      sum.emplace_back(k, ia && ib ? get(a, k) + get(b, k)
                                   : (ia ? get(a, k) : get(b, k)));
      joined.emplace_back(k, ib ? get(b, k) : get(a, k));
    }
    if (ia && ib) {
      inter_keys.push_back(k);
      pairs.emplace_back(k, std::make_pair(get(a, k), get(b, k)));
      inter_left.emplace_back(k, get(a, k));
      inter_right.emplace_back(k, get(b, k));
    }
  }
  if (!inter_keys.empty() && !diff_keys.empty())
    c.count("overlapping_maps");
  if (a.empty() || b.empty())
    c.count("empty_maps");

  std::vector<K> ks;
  std::vector<V> vals;
  for (const auto &p : a) {
    ks.push_back(p.first);
    vals.push_back(p.second);
  }
  VF_CHECK("map_keys", map_keys(a) == ks, "");
  VF_CHECK("map_values", map_values(a) == vals, "");

  auto agree = [&](const char *what, const M &got, const std::vector<P> &want) {
    VF_CHECK(what, as_vector(got) == want, got.size() << " entries");
    VF_CHECK(std::string(what) + "_order", ordered(got), "");
    // The result must be usable as a map.
    for (const auto &p : want)
      VF_CHECK(std::string(what) + "_lookup", got.count(p.first) == 1, p.first);
  };
  agree("map_difference", map_difference(a, b), diff);
  agree("map_symmetric_difference", map_symmetric_difference(a, b), sym);
  agree("map_union", map_union(a, b), left);
  agree("map_union_left", map_union(a, b, ReturnLeft{}), left);
  agree("map_union_right", map_union(a, b, ReturnRight{}), right);
  agree("map_union_merge",
        map_union(a, b, [](const V &x, const V &y) { return x + y; }), sum);
  std::vector<K> merged_at;
  agree("map_union_key_merge",
        map_union(a, b,
                  [&](const K &k, const V &x, const V &y) {
                    merged_at.push_back(k);
                    return x + y;
                  }),
        sum);
  VF_CHECK("map_union_merge_calls", merged_at == inter_keys, "");
  agree("map_join", map_join(a, b), joined);
  agree("map_intersect_left", map_intersect(a, b, ReturnLeft{}), inter_left);
  agree("map_intersect_right", map_intersect(a, b, ReturnRight{}), inter_right);
  {
    const auto got = map_intersect(a, b);
    std::vector<std::pair<K, std::pair<V, V>>> g;
    for (const auto &p : got)
      g.emplace_back(p.first, p.second);
    VF_CHECK("map_intersect", g == pairs, g.size());
    const auto sizes = map_intersect(
        a, b, [](const K &, const V &, const V &) { return std::size_t(1); });
    std::size_t total = 0;
    for (const auto &p : sizes)
      total += p.second;
    VF_CHECK("map_intersect_other_type", total == inter_keys.size(), total);
  }
  VF_CHECK("map_difference_keys", map_difference_keys(a, b) == diff_keys, "");
  VF_CHECK("map_intersect_keys", map_intersect_keys(a, b) == inter_keys, "");

  // Subset by a set and by a sorted vector of keys.
  S s(cmp);
  for (const auto &k : universe)
    if (c.rng.coin(0.4))
      s.insert(k);
  std::vector<P> sub;
  for (const auto &k : universe)
    if (s.count(k) && has(a, k))
      sub.emplace_back(k, get(a, k));
  agree("map_subset", map_subset(a, s), sub);
  const std::vector<K> sorted_keys(s.begin(), s.end());
  agree("map_subset_sorted", map_subset_sorted(a, sorted_keys), sub);
  std::vector<K> doubled;
  for (const auto &k : sorted_keys) {
    doubled.push_back(k);
    if (c.rng.coin(0.3))
      doubled.push_back(k);
  }
  agree("map_subset_repeated", map_subset_sorted(a, doubled), sub);

  // Laws.
  VF_CHECK("law_partition",
           map_join_strict(map_difference(a, b),
                           map_intersect(a, b, ReturnLeft{})) == a,
           "");
  VF_CHECK("law_symmetric",
           map_symmetric_difference(a, b) == map_symmetric_difference(b, a), "");
  VF_CHECK("arguments_untouched", same(a, a0) && same(b, b0), "");
  if (c.index < 40) {
    if (inter_keys.empty()) {
      agree("map_join_strict", map_join_strict(a, b), joined);
    } else {
      VF_ABORTS("map_join_strict_duplicate", map_join_strict(a, b));
    }
  }
  if (!a.empty() || !b.empty())
    c.reached();
}

VF_SECTION("maps", 3000, 60000) {
  switch (c.index % 5) {
  case 0:
    return maps<int, int, std::less<int>>(c);
  case 1:
    return maps<std::string, double, std::less<std::string>>(c);
  case 2:
    return maps<int, std::string, std::greater<int>>(c);
  case 3:
    return maps<std::string, int, Directed>(c);
  default:
    return maps<int, double, Directed>(c);
  }
}

// Comparators for which different keys are equivalent (the maps' own notion of
// "the same key"), and maps whose keys have different types.
struct Coarse {
  static int floor(int x) { return x >= 0 ? x / 3 : -((2 - x) / 3); }
  bool operator()(int a, int b) const { return floor(a) < floor(b); }
  static std::string lower(const std::string &s) {
    std::string o(s);
    for (auto &ch : o)
      ch = static_cast<char>(std::tolower(static_cast<unsigned char>(ch)));
    return o;
  }
  bool operator()(const std::string &a, const std::string &b) const {
    return lower(a) < lower(b);
  }
};
// A key without operator== (or any other than the comparator's).
struct Bare {
  int id;
  int note;
};
struct BareLess {
  bool operator()(const Bare &a, const Bare &b) const { return a.id < b.id; }
};
struct Length {
  explicit Length(double x) : metres(x) {}
  Length(int cm) : metres(0.01 * cm) {} // NOLINT: implicit on purpose
  double metres;
};
struct LengthLess {
  static double m(const Length &x) { return x.metres; }
  static double m(int x) { return 0.01 * x; }
  template <typename A, typename B>
  bool operator()(const A &a, const B &b) const {
    return m(a) < m(b);
  }
};

template <typename K> K coarse_key(vf::Case &c);
template <> int coarse_key<int>(vf::Case &c) {
  return static_cast<int>(c.rng.integer(-12, 12));
}
template <> std::string coarse_key<std::string>(vf::Case &c) {
  std::string o;
  for (std::size_t i = 0, n = c.rng.size(0, 2); i < n; ++i)
    o.push_back(c.rng.pick(std::vector<char>{'a', 'A', 'b', 'B'}));
  return o;
}
template <> Bare coarse_key<Bare>(vf::Case &c) {
  return {static_cast<int>(c.rng.integer(-8, 8)),
          static_cast<int>(c.rng.integer(0, 1000000))};
}
template <> Length coarse_key<Length>(vf::Case &c) {
  return Length(static_cast<int>(c.rng.integer(-8, 8)));
}

std::string show(int x) { return std::to_string(x); }
std::string show(const std::string &x) { return "'" + x + "'"; }
std::string show(const Bare &x) {
  return std::to_string(x.id) + "/" + std::to_string(x.note);
}
std::string show(const Length &x) { return std::to_string(x.metres) + "m"; }

template <typename KA, typename KB, typename Cmp> void equivalent(vf::Case &c) {
  using MA = std::map<KA, int, Cmp>;
  using MB = std::map<KB, int, Cmp>;
  const Cmp cmp{};
  MA a;
  MB b;
  for (std::size_t i = 0, n = c.rng.size(0, 9); i < n; ++i)
    a.emplace(coarse_key<KA>(c), value<int>(c));
  for (std::size_t i = 0, n = c.rng.size(0, 9); i < n; ++i)
    b.emplace(coarse_key<KB>(c), value<int>(c));
  std::string text = "a";
  for (const auto &p : a)
    text += " " + show(p.first) + ":" + std::to_string(p.second);
  text += " | b";
  for (const auto &p : b)
    text += " " + show(p.first) + ":" + std::to_string(p.second);
  c.desc << text;
  const auto alike = [&](const auto &x, const auto &y) {
    return !cmp(x, y) && !cmp(y, x);
  };

  // what is expected, by comparing everything with everything
  using Row = std::pair<std::string, int>;
  std::vector<Row> diff, left, right, sum, inter;
  std::vector<std::pair<KA, Row>> sym; // in the order of the keys
  std::vector<std::string> diff_keys, inter_keys;
  std::vector<std::pair<KA, std::vector<Row>>> either;
  bool differ = false;
  for (const auto &p : a) {
    const int *other = nullptr;
    for (const auto &q : b)
      if (alike(p.first, q.first)) {
        other = &q.second;
        differ = differ || show(p.first) != show(q.first);
      }
    const std::string k = show(p.first);
    if (other == nullptr) {
      diff.push_back({k, p.second});
      diff_keys.push_back(k);
      sym.push_back({p.first, {k, p.second}});
      either.push_back({p.first,
                        {{k, p.second}, {k, p.second}, {k, p.second}}});
    } else {
      inter.push_back({k, p.second - 7 * *other});
      inter_keys.push_back(k);
      either.push_back(
          {p.first,
           {{k, p.second}, {k, *other}, {k, p.second - 7 * *other}}});
    }
  }
  for (const auto &q : b) {
    bool found = false;
    for (const auto &p : a)
      found = found || alike(p.first, q.first);
    if (!found) {
      const KA k = q.first;
      sym.push_back({k, {show(k), q.second}});
      either.push_back({k,
                        {{show(k), q.second},
                         {show(k), q.second},
                         {show(k), q.second}}});
    }
  }
  std::sort(sym.begin(), sym.end(), [&](const auto &x, const auto &y) {
    return cmp(x.first, y.first);
  });
  std::sort(either.begin(), either.end(), [&](const auto &x, const auto &y) {
    return cmp(x.first, y.first);
  });
  const auto rows = [](const auto &m) {
    std::vector<Row> o;
    for (const auto &p : m)
      o.push_back({show(p.first), p.second});
    return o;
  };
  const auto shown = [](const auto &keys) {
    std::vector<std::string> o;
    for (const auto &k : keys)
      o.push_back(show(k));
    return o;
  };
  const auto merged = [&](std::size_t which) {
    std::vector<Row> o;
    for (const auto &e : either)
      o.push_back(e.second[which]);
    return o;
  };
  std::vector<Row> sym_rows;
  for (const auto &e : sym)
    sym_rows.push_back(e.second);

  const auto minus = [](int x, int y) { return x - 7 * y; };
  VF_CHECK("equivalent/difference", rows(map_difference(a, b)) == diff, "");
  VF_CHECK("equivalent/symmetric",
           rows(map_symmetric_difference(a, b)) == sym_rows, "");
  VF_CHECK("equivalent/union", rows(map_union(a, b)) == merged(0), "");
  VF_CHECK("equivalent/union_right",
           rows(map_union(a, b, ReturnRight{})) == merged(1), "");
  VF_CHECK("equivalent/union_merge", rows(map_union(a, b, minus)) == merged(2),
           "");
  VF_CHECK("equivalent/intersect", rows(map_intersect(a, b, minus)) == inter,
           "");
  {
    std::vector<Row> at;
    const auto with_key = [&](const KA &k, int x, int y) {
      at.push_back({show(k), x - 7 * y});
      return x - 7 * y;
    };
    VF_CHECK("equivalent/intersect_with_keys",
             rows(map_intersect(a, b, with_key)) == inter && at == inter, "");
  }
  VF_CHECK("equivalent/difference_keys",
           shown(map_difference_keys(a, b)) == diff_keys, "");
  VF_CHECK("equivalent/intersect_keys",
           shown(map_intersect_keys(a, b)) == inter_keys, "");
  std::set<KB, Cmp> s;
  std::vector<KB> sorted;
  for (const auto &q : b) {
    s.insert(q.first);
    sorted.push_back(q.first);
  }
  std::vector<Row> kept;
  for (const auto &p : a)
    if (std::find(inter_keys.begin(), inter_keys.end(), show(p.first)) !=
        inter_keys.end())
      kept.push_back({show(p.first), p.second});
  VF_CHECK("equivalent/subset", rows(map_subset(a, s)) == kept, "");
  VF_CHECK("equivalent/subset_sorted",
           rows(map_subset_sorted(a, sorted)) == kept, "");
  if constexpr (std::is_same<KA, KB>::value) {
    for (const auto &q : b) {
      bool found = false;
      int at = 0;
      for (const auto &p : a)
        if (alike(p.first, q.first)) {
          found = true;
          at = p.second;
        }
      VF_CHECK("equivalent/contains", map_contains(a, q.first) == found, "");
      VF_CHECK("equivalent/at_or",
               map_at_or(a, q.first, -12345) == (found ? at : -12345), "");
    }
    const auto joined = map_join(a, b);
    std::vector<int> values;
    for (const auto &p : joined)
      values.push_back(p.second);
    std::vector<int> want;
    for (const auto &e : either)
      want.push_back(e.second[1].second);
    VF_CHECK("equivalent/join", values == want, "");
  }
  if (differ)
    c.count("equivalent_keys");
  if (!std::is_same<KA, KB>::value && !inter.empty() && !diff.empty())
    c.count("two_key_types");
  if (!a.empty() && !b.empty())
    c.reached();
}

VF_SECTION("equivalent", 800, 16000) {
  switch (c.index % 4) {
  case 0:
    return equivalent<int, int, Coarse>(c);
  case 1:
    return equivalent<std::string, std::string, Coarse>(c);
  case 2:
    return equivalent<Bare, Bare, BareLess>(c);
  default:
    return equivalent<Length, int, LengthLess>(c);
  }
}

VF_SECTION("join_disjoint", 100, 1000) {
  std::map<int, int> a, b, all;
  for (int i = 0; i < 20; ++i) {
    if (c.rng.coin(0.6)) {
      const int v = value<int>(c);
      (c.rng.coin() ? a : b)[i] = v;
      all[i] = v;
    }
  }
  describe(c, a);
  describe(c, b);
  VF_CHECK("map_join_strict", map_join_strict(a, b) == all, "");
  VF_CHECK("map_join", map_join(a, b) == all, "");
  c.reached();
}

VF_SECTION("unordered", 300, 3000) {
  std::unordered_map<std::string, int> m;
  const std::size_t n = c.rng.extent(0, 20, 300);
  std::map<std::string, int> ref;
  for (std::size_t i = 0; i < n; ++i) {
    const std::string k = key<std::string>(c.rng.integer(0, 25));
    m[k] = ref[k] = value<int>(c);
  }
  describe(c, ref);
  auto ks = map_keys(m);
  std::sort(ks.begin(), ks.end());
  VF_CHECK("keys", ks == map_keys(ref), "");
  auto vs = map_values(m), rs = map_values(ref);
  std::sort(vs.begin(), vs.end());
  std::sort(rs.begin(), rs.end());
  VF_CHECK("values", vs == rs, "");
  for (long i = 0; i < 26; ++i) {
    const std::string k = key<std::string>(i);
    VF_CHECK("at_or", map_at_or(m, k, -5) == (ref.count(k) ? ref[k] : -5), k);
    VF_CHECK("contains", map_contains(m, k) == (ref.count(k) == 1), k);
  }
  c.reached();
}

VF_SECTION("vectors", 1500, 20000) {
  const std::size_t n = c.rng.coin(0.1) ? 0 : c.rng.extent(0, 70, 800);
  const double p = c.rng.pick(std::vector<double>{0., 0.02, 0.5, 0.98, 1.});
  std::vector<bool> xs(n);
  std::size_t trues = 0;
  for (std::size_t i = 0; i < n; ++i) {
    xs[i] = c.rng.coin(p);
    trues += xs[i];
    c.desc << xs[i];
  }
  VF_CHECK("all", all(xs) == (trues == n), trues << " of " << n);
  VF_CHECK("any", any(xs) == (trues > 0), trues << " of " << n);

  const std::size_t k = c.rng.extent(2, 60, 1000);
  const double a = c.rng.uniform(-10., 10.);
  const double b = a + c.rng.pick(std::vector<double>{-3., 0., 1e-3, 5., 1e6});
  c.desc << " linspace " << a << ".." << b << " " << k;
  const auto ls = linspace(a, b, k);
  VF_REQUIRE("linspace_size", ls.size() == k, ls.size());
  for (std::size_t i = 0; i < k; ++i) {
    const double t = static_cast<double>(i) / static_cast<double>(k - 1);
    VF_CLOSE("linspace", ls[i], a + (b - a) * t, 1e-12,
             1e-12 * (1. + std::fabs(b)));
  }

  std::vector<int> v;
  for (std::size_t i = 0; i < c.rng.size(0, 10); ++i)
    v.push_back(static_cast<int>(c.rng.integer(-3, 3)));
  for (int x = -4; x <= 4; ++x) {
    bool in = false;
    for (int y : v)
      in = in || x == y;
    VF_CHECK("vector_contains", vector_contains(v, x) == in, x);
  }
  // Unique values.
  std::set<int> want, absolute;
  for (int y : v) {
    want.insert(y);
    absolute.insert(y * y);
  }
  VF_CHECK("unique_values", unique_values(v) == want, "");
  VF_CHECK("unique_values_of",
           unique_values(v, [](const int &x) { return x * x; }) == absolute, "");
  VF_CHECK("unique_values_of_set",
           unique_values(want, [](const int &x) { return x * x; }) == absolute, "");
  if (want.size() == 1) {
    VF_CHECK("unique_value", unique_value(v) == v[0], "");
  } else if (c.index < 30) {
    VF_ABORTS("unique_value_rejects", unique_value(v));
  }
  if (absolute.size() == 1) {
    VF_CHECK("unique_value_of",
             unique_value(v, [](const int &x) { return x * x; }) == v[0] * v[0],
             "");
  }
  c.reached();
}

struct Tag {
  int x = 0;
  bool operator==(const Tag &o) const { return x == o.x; }
};

using Small = variant<int, std::string>;
using Other = variant<Tag, int>;
using Big = variant<double, int, Tag, std::string>;

VF_SECTION("variants", 1000, 10000) {
  const std::size_t n = c.rng.coin(0.1) ? 0 : c.rng.extent(0, 15, 300);
  std::vector<Small> small;
  std::vector<Other> other;
  std::vector<Big> big;
  std::vector<int> ints;
  std::vector<std::string> strings;
  std::vector<Tag> tags;
  std::vector<double> doubles;
  std::vector<int> all_ints;
  for (std::size_t i = 0; i < n; ++i) {
    const int x = value<int>(c);
    const std::string s = value<std::string>(c);
    all_ints.push_back(x);
    if (c.rng.coin()) {
      small.push_back(x);
      ints.push_back(x);
      c.desc << "i" << x;
    } else {
      small.push_back(s);
      strings.push_back(s);
      c.desc << "s" << s;
    }
    Tag t;
    t.x = x + 1;
    if (c.rng.coin()) {
      other.push_back(t);
    } else {
      other.push_back(x);
    }
    switch (c.rng.integer(0, 3)) {
    case 0:
      big.push_back(x);
      break;
    case 1:
      big.push_back(static_cast<double>(x) + 0.5);
      break;
    case 2:
      big.push_back(t);
      break;
    default:
      big.push_back(s);
    }
  }
  // Scalars into a variant.
  {
    const auto v = to_variant_vector<Big>(all_ints);
    VF_REQUIRE("size", v.size() == n, v.size());
    for (std::size_t i = 0; i < n; ++i) {
      VF_REQUIRE("alternative", v[i].template is<int>(), i);
      VF_CHECK("scalar", v[i].template get<int>() == all_ints[i], i);
      Big set = Tag{};
      set_variant(all_ints[i], &set);
      VF_CHECK("set_scalar", set == v[i], i);
    }
  }
  // A variant of fewer types into one of more types.
  {
    const auto v = to_variant_vector<Big>(small);
    VF_REQUIRE("sub_size", v.size() == n, v.size());
    for (std::size_t i = 0; i < n; ++i) {
      if (small[i].template is<int>()) {
        VF_REQUIRE("sub_is", v[i].template is<int>(), i);
        VF_CHECK("sub", v[i].template get<int>() == small[i].template get<int>(),
                 i);
      } else {
        VF_REQUIRE("sub_is", v[i].template is<std::string>(), i);
        VF_CHECK("sub",
                 v[i].template get<std::string>() ==
                     small[i].template get<std::string>(),
                 i);
      }
    }
    std::vector<Big> into(c.rng.size(0, 20), Big(3.));
    set_variants(small, &into);
    VF_CHECK("set_variants", into == v, into.size());
    // and back out
    VF_CHECK("extract_int", extract_from_variants<int>(v) == ints, "");
    VF_CHECK("extract_string", extract_from_variants<std::string>(v) == strings,
             "");
    VF_CHECK("extract_absent", extract_from_variants<Tag>(v).empty(), "");
  }
  {
    const auto v = to_variant_vector<Big>(other);
    VF_REQUIRE("reordered_size", v.size() == n, v.size());
    for (std::size_t i = 0; i < n; ++i) {
      VF_REQUIRE("reordered_is",
                 v[i].template is<int>() == other[i].template is<int>(), i);
      if (v[i].template is<Tag>()) {
        VF_CHECK("reordered",
                 v[i].template get<Tag>() == other[i].template get<Tag>(), i);
      } else {
        VF_CHECK("reordered",
                 v[i].template get<int>() == other[i].template get<int>(), i);
      }
    }
  }
  // Extraction from datasets keeps each feature with its own target.
  {
    MarginalDistribution targets(Eigen::VectorXd::Zero(static_cast<long>(n)),
                                 Eigen::VectorXd::Zero(static_cast<long>(n)));
    for (long i = 0; i < static_cast<long>(n); ++i) {
      targets.mean[i] = c.rng.normal();
      targets.covariance.diagonal()[i] = c.rng.uniform(0., 1.);
    }
    const RegressionDataset<Big> dataset(big, targets);
    const auto only = extract_from_variants<int>(dataset);
    std::size_t at = 0;
    for (std::size_t i = 0; i < n; ++i) {
      if (big[i].template is<int>()) {
        VF_REQUIRE("dataset_size", at < only.features.size(), at);
        VF_CHECK("dataset_feature",
                 only.features[at] == big[i].template get<int>(), i);
        const long r = static_cast<long>(at), k = static_cast<long>(i);
        VF_CHECK("dataset_mean", only.targets.mean[r] == targets.mean[k], i);
        VF_CHECK("dataset_variance",
                 only.targets.covariance.diagonal()[r] ==
                     targets.covariance.diagonal()[k],
                 i);
        ++at;
      }
    }
    VF_CHECK("dataset_count",
             only.features.size() == at &&
                 only.targets.size() == at,
             at);
  }
  if (n > 1)
    c.reached();
}

VF_SECTION("casts", 200, 2000) {
  const long i = c.rng.coin() ? c.rng.integer(0, 100)
                              : c.rng.integer(0, (1L << 53));
  c.desc << i;
  VF_CHECK("to_size", cast::to_size(static_cast<Eigen::Index>(i)) ==
                          static_cast<std::size_t>(i), i);
  VF_CHECK("to_index", cast::to_index(static_cast<std::size_t>(i)) == i, i);
  VF_CHECK("to_double",
           static_cast<long>(cast::to_double(static_cast<std::size_t>(i))) == i, i);
  VF_CHECK("to_double_negative",
           static_cast<long>(cast::to_double(static_cast<Eigen::Index>(-i))) == -i,
           i);
  if (c.index < 6) {
    VF_ABORTS("negative_size", cast::to_size(static_cast<Eigen::Index>(-1 - i)));
    VF_ABORTS("imprecise",
              cast::to_double(static_cast<std::size_t>((1ULL << 53) + 1 + i)));
  }
  c.reached();
}

} // namespace
