// C06: closed forms, symmetry and positive semi-definiteness of the covariance
// functions; derived length scales, state space forms, call traces, distances.
#include "gp_oracle.h"

#include <Eigen/Eigenvalues>

using namespace albatross;
using namespace vfgp;

namespace {

// Smallest eigenvalue relative to what rounding can explain.
void check_psd(vf::Case &c, const Eigen::MatrixXd &K, double scale) {
  if (K.rows() == 0)
    return;
  VF_REQUIRE("finite", K.allFinite(), K);
  for (Eigen::Index i = 0; i < K.rows(); ++i)
    for (Eigen::Index j = 0; j < i; ++j)
      VF_CHECK("symmetric", K(i, j) == K(j, i), K(i, j) << " vs " << K(j, i));
  Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(K, Eigen::EigenvaluesOnly);
  const double low = es.eigenvalues().minCoeff();
  c.observe_max("negative_eigenvalue_over_scale", -low / scale);
  VF_CHECK("positive_semi_definite",
           low >= -1e-12 * static_cast<double>(K.rows()) * scale,
           "smallest eigenvalue " << low << " scale " << scale);
}

typedef std::function<LD(LD)> Profile; // of the distance

template <typename Feature> struct Points;

template <> struct Points<double> {
  static double draw(vf::Rng &g, double scale) { return scale * g.normal(); }
  static double move(vf::Rng &g, double x, double by) {
    return x + by * (g.coin(0.5) ? 1. : -1.);
  }
};

template <int R> struct Points<Eigen::Matrix<double, R, 1>> {
  typedef Eigen::Matrix<double, R, 1> V;
  static V draw(vf::Rng &g, double scale) {
    V v(R == Eigen::Dynamic ? 3 : R);
    for (Eigen::Index i = 0; i < v.size(); ++i)
      v[i] = scale * g.normal();
    return v;
  }
  static V move(vf::Rng &g, const V &x, double by) {
    V v = x;
    v[0] += by * (g.coin(0.5) ? 1. : -1.);
    return v;
  }
};

struct Euclid {
  LD operator()(double a, double b) const { return fabsl(static_cast<LD>(a) - b); }
  template <int R>
  LD operator()(const Eigen::Matrix<double, R, 1> &a,
                const Eigen::Matrix<double, R, 1> &b) const {
    LD s = 0.L;
    for (Eigen::Index i = 0; i < a.size(); ++i)
      s += (static_cast<LD>(a[i]) - b[i]) * (static_cast<LD>(a[i]) - b[i]);
    return sqrtl(s);
  }
};

template <int R> LD norm_of(const Eigen::Matrix<double, R, 1> &a) {
  LD s = 0.L;
  for (Eigen::Index i = 0; i < a.size(); ++i)
    s += static_cast<LD>(a[i]) * a[i];
  return sqrtl(s);
}

struct Radial {
  template <int R>
  LD operator()(const Eigen::Matrix<double, R, 1> &a,
                const Eigen::Matrix<double, R, 1> &b) const {
    return fabsl(norm_of(a) - norm_of(b));
  }
};

struct Angle {
  template <int R>
  LD operator()(const Eigen::Matrix<double, R, 1> &a,
                const Eigen::Matrix<double, R, 1> &b) const {
    // 2 atan2(|a/|a| - b/|b||, |a/|a| + b/|b||) is accurate for every angle
    LD m = 0.L, p = 0.L;
    const LD na = norm_of(a), nb = norm_of(b);
    for (Eigen::Index i = 0; i < a.size(); ++i) {
      const LD u = a[i] / na, v = b[i] / nb;
      m += (u - v) * (u - v);
      p += (u + v) * (u + v);
    }
    return 2.L * atan2l(sqrtl(m), sqrtl(p));
  }
};

// One kernel over one kind of feature.
template <typename Feature, typename Cov, typename Dist>
void check_kernel(vf::Case &c, const Cov &cov, const Dist &dist,
                  const Profile &profile, double sigma, double length,
                  double distance_error) {
  auto &g = c.rng;
  const std::size_t n = g.extent(0, 14, 60);
  std::vector<Feature> xs;
  const double scale = length * g.log_uniform(0.03, 30.);
  std::size_t repeats = 0, close = 0;
  for (std::size_t i = 0; i < n; ++i) {
    if (i > 0 && g.coin(0.15)) {
      xs.push_back(xs[g.size(0, i - 1)]);
      ++repeats;
    } else if (i > 0 && g.coin(0.2)) {
      xs.push_back(Points<Feature>::move(g, xs[g.size(0, i - 1)],
                                         length * g.log_uniform(1e-12, 1e-2)));
      ++close;
    } else {
      xs.push_back(Points<Feature>::draw(g, scale));
    }
  }
  c.desc << " n=" << n << " sigma=" << sigma << " length=" << length
         << " spread=" << scale;
  c.count("repeated_features", repeats);
  c.count("close_features", close);
  c.count("gram_matrices", 1);
  const double s2 = sigma * sigma;
  const Eigen::MatrixXd K = cov(xs);
  VF_REQUIRE("size",
             K.rows() == Eigen::Index(n) && K.cols() == Eigen::Index(n),
             K.rows() << "x" << K.cols());
  // |dk/dd| <= s2 / length for all of these
  const double tol = s2 * (1e-12 + 2. * distance_error / length);
  for (std::size_t i = 0; i < n; ++i)
    for (std::size_t j = 0; j < n; ++j) {
      const LD want = profile(dist(xs[i], xs[j]));
      const double got = K(Eigen::Index(i), Eigen::Index(j));
      VF_CLOSE("closed_form", got, static_cast<double>(want), 1e-9, tol);
      VF_CHECK("matrix_is_pairwise", got == cov(xs[i], xs[j]) ||
                                         got == cov(xs[j], xs[i]),
               got << " vs " << cov(xs[i], xs[j]));
      VF_CHECK("argument_order", cov(xs[i], xs[j]) == cov(xs[j], xs[i]),
               cov(xs[i], xs[j]) << " vs " << cov(xs[j], xs[i]));
      VF_CHECK("bounded_by_variance", std::fabs(got) <= s2 * (1. + 1e-12),
               got << " > " << s2);
    }
  const Eigen::VectorXd diag = cov.diagonal(xs);
  VF_REQUIRE("diagonal_size", diag.size() == Eigen::Index(n), diag.size());
  for (std::size_t i = 0; i < n; ++i)
    VF_CHECK("diagonal", diag[Eigen::Index(i)] ==
                             K(Eigen::Index(i), Eigen::Index(i)),
             diag[Eigen::Index(i)]);
  if (s2 > 0.)
    check_psd(c, K, s2 * (1. + distance_error / length * 1e12));
  // blocks of the matrix
  const std::size_t a = g.size(0, n);
  const std::vector<Feature> left(xs.begin(), xs.begin() + long(a)),
      right(xs.begin() + long(a), xs.end());
  const Eigen::MatrixXd cross = cov(left, right);
  VF_REQUIRE("cross_size",
             cross.rows() == Eigen::Index(a) && cross.cols() == Eigen::Index(n - a),
             cross.rows() << "x" << cross.cols());
  for (Eigen::Index i = 0; i < cross.rows(); ++i)
    for (Eigen::Index j = 0; j < cross.cols(); ++j)
      VF_CHECK("cross_is_a_block", cross(i, j) == K(i, Eigen::Index(a) + j),
               cross(i, j) << " vs " << K(i, Eigen::Index(a) + j));
  if (n == 0)
    c.count("no_features", 1);
}

template <template <class> class Kernel, typename F>
void check_radial(vf::Case &c, F &&formula, bool angular_ok) {
  auto &g = c.rng;
  const double l = g.log_uniform(1e-4, 1e6), s = g.coin(0.05) ? 0. : g.log_uniform(1e-4, 1e4);
  const Profile p = [=](LD d) { return formula(d, l, s); };
  switch (g.size(0, 3)) {
  case 0:
    c.desc << " double";
    check_kernel<double>(c, Kernel<EuclideanDistance>(l, s), Euclid(), p, s, l, 0.);
    break;
  case 1:
    c.desc << " vectorxd";
    check_kernel<Eigen::VectorXd>(c, Kernel<EuclideanDistance>(l, s), Euclid(),
                                  p, s, l, 0.);
    break;
  case 2:
    c.desc << " vector3d";
    check_kernel<Eigen::Vector3d>(c, Kernel<EuclideanDistance>(l, s), Euclid(),
                                  p, s, l, 0.);
    break;
  default:
    c.desc << " radial distance";
    // a difference of norms of size l * 30 * sqrt(3)
    check_kernel<Eigen::VectorXd>(c, Kernel<RadialDistance>(l, s), Radial(), p,
                                  s, l, 1e-13 * l);
  }
  (void)angular_ok;
}

VF_SECTION("radial", 1200, 20000) {
  auto &g = c.rng;
  switch (g.size(0, 4)) {
  case 0:
    c.desc << "squared exponential";
    check_radial<SquaredExponential>(c, se, false);
    break;
  case 1:
    c.desc << "exponential";
    check_radial<Exponential>(c, expo, true);
    break;
  case 2:
    c.desc << "matern 3/2";
    check_radial<Matern32>(c, mat32, false);
    break;
  case 3:
    c.desc << "matern 5/2";
    check_radial<Matern52>(c, mat52, false);
    break;
  default: {
    // the exponential of an angle; acos loses half of the digits near 0 and pi
    c.desc << "exponential of angles";
    c.count("angles", 1);
    const double l = g.log_uniform(0.05, 100.), s = g.log_uniform(1e-3, 1e3);
    const Profile p = [=](LD d) { return expo(d, l, s); };
    check_kernel<Eigen::VectorXd>(c, Exponential<AngularDistance>(l, s), Angle(),
                                  p, s, l, 1e-7);
  }
  }
  c.reached();
}

// Free functions and degenerate length scales.
VF_SECTION("scalar_forms", 600, 10000) {
  auto &g = c.rng;
  const double l = g.log_uniform(1e-6, 1e9), s = g.log_uniform(1e-4, 1e4);
  const double d = g.coin(0.1) ? 0. : l * g.log_uniform(1e-9, 30.);
  c.desc << "d=" << d << " l=" << l << " s=" << s;
  struct {
    const char *name;
    double (*f)(double, double, double);
    LD (*w)(LD, LD, LD);
  } all[] = {{"se", squared_exponential_covariance, se},
             {"exp", exponential_covariance, expo},
             {"mat32", matern_32_covariance, mat32},
             {"mat52", matern_52_covariance, mat52}};
  for (const auto &k : all) {
    VF_CLOSE(k.name, k.f(d, l, s), static_cast<double>(k.w(d, l, s)), 1e-11,
             1e-300);
    VF_CHECK("at_zero", k.f(0., l, s) == s * s, k.name << " " << k.f(0., l, s));
    VF_CHECK("no_length_scale", k.f(d, 0., s) == 0. && k.f(d, -l, s) == 0.,
             k.name);
    // monotone in the distance
    const double further = d + l * g.log_uniform(1e-6, 10.);
    VF_CHECK("decreasing",
             k.f(further, l, s) <= k.f(d, l, s) * (1. + 1e-14), k.name);
    VF_CLOSE("scales_with_variance", k.f(d, l, 3. * s), 9. * k.f(d, l, s), 1e-14,
             1e-300);
    VF_CLOSE("scale_free", k.f(2. * d, 2. * l, s), k.f(d, l, s), 1e-14, 1e-300);
    const double pn =
        process_noise_equivalent([&](double x) { return k.f(x, l, s); }, d);
    const LD kd = k.w(d, l, s), k0 = static_cast<LD>(s) * s;
    const LD v = k0 - kd * kd / k0;
    // the subtraction costs digits
    VF_CLOSE("process_noise_squared", pn * pn, static_cast<double>(v), 1e-9,
             1e-14 * s * s);
  }
  c.reached();
}

// A length scale derived from an increase in standard deviation produces it.
VF_SECTION("derived_length_scales", 1500, 30000) {
  auto &g = c.rng;
  const double d = g.log_uniform(1e-6, 1e9), s = g.log_uniform(1e-4, 1e4);
  const std::size_t kind = g.size(0, 5);
  double ratio;
  if (kind == 0)
    ratio = g.log_uniform(1e-14, 1e-6);
  else if (kind == 1)
    ratio = 1. - g.log_uniform(1e-11, 0.5);
  else
    ratio = g.log_uniform(1e-5, 0.9999);
  const double increase = ratio * s;
  c.desc << "d=" << d << " s=" << s << " ratio=" << ratio;
  const LD r = static_cast<LD>(increase) / s;
  // achieved increase over s for a length scale
  const auto achieved = [](std::size_t which, LD u) { // u = d / length
    switch (which) {
    case 0:
      return sqrtl(-expm1l(-2.L * u * u));
    case 1:
      return sqrtl(-expm1l(-2.L * u));
    case 2: {
      const LD q = sqrtl(3.L) * u;
      // log of the correlation is log1p(q) - q
      return sqrtl(-expm1l(2.L * (log1pl(q) - q)));
    }
    default: {
      const LD q = sqrtl(5.L) * u;
      return sqrtl(-expm1l(2.L * (log1pl(q + q * q / 3.L) - q)));
    }
    }
  };
  const double found[4] = {
      SE(1., s).derive_length_scale(d, s, increase),
      EX(1., s).derive_length_scale(d, s, increase),
      M32(1., s).derive_length_scale(d, s, increase),
      M52(1., s).derive_length_scale(d, s, increase)};
  VF_CHECK("free_function_se",
           found[0] == derive_squared_exponential_length_scale(d, s, increase),
           found[0]);
  VF_CHECK("free_function_exp",
           found[1] == derive_exponential_length_scale(d, s, increase), found[1]);
  VF_CHECK("free_function_mat32",
           found[2] == derive_matern_32_length_scale(d, s, increase), found[2]);
  VF_CHECK("free_function_mat52",
           found[3] == derive_matern_52_length_scale(d, s, increase), found[3]);
  for (std::size_t k = 0; k < 4; ++k) {
    VF_CHECK("positive", found[k] > 0. && std::isfinite(found[k]),
             k << " " << found[k]);
    if (k < 2) {
      // closed form; 1 - r^2 loses digits next to one, but so does r itself
      const LD a = achieved(k, static_cast<LD>(d) / found[k]);
      VF_CLOSE(k == 0 ? "inverts_se" : "inverts_exp", static_cast<double>(a / r),
               1., 1e-11, 0.);
      c.count("inverted", 1);
    } else if (r > 2e-5L && r < 1.L - 1e-10L) {
      // solved for numerically, log(1 - rho^2) has 1e-16 / r^2 relative error
      const LD a = achieved(k, static_cast<LD>(d) / found[k]);
      VF_CLOSE(k == 2 ? "inverts_mat32" : "inverts_mat52",
               static_cast<double>(a / r), 1.,
               1e-9 + 1e-15 / static_cast<double>(r * r), 0.);
      c.count("inverted", 1);
    }
  }
  // outside of the range in which a length scale exists
  const double zero[4] = {SE().derive_length_scale(d, s, 0.),
                          EX().derive_length_scale(d, s, 0.),
                          M32().derive_length_scale(d, s, 0.),
                          M52().derive_length_scale(d, s, 0.)};
  const double more = s * (1. + g.uniform(0., 3.));
  const double over[4] = {SE().derive_length_scale(d, s, more),
                          EX().derive_length_scale(d, s, more),
                          M32().derive_length_scale(d, s, more),
                          M52().derive_length_scale(d, s, more)};
  for (std::size_t k = 0; k < 4; ++k) {
    VF_CHECK("no_increase", zero[k] >= 1e5 * d && std::isfinite(zero[k]), zero[k]);
    VF_CHECK("more_than_the_prior", over[k] > 0. && over[k] <= 1e-3 * d, over[k]);
    VF_CHECK("ordered", zero[k] >= over[k], zero[k]);
  }
  c.reached();
}

VF_SECTION("state_space", 600, 8000) {
  auto &g = c.rng;
  const std::size_t n = g.extent(1, 30, 200);
  std::vector<double> xs;
  const double l = g.log_uniform(0.05, 100.), spread = l * g.log_uniform(1e-3, 40.);
  for (std::size_t i = 0; i < n; ++i)
    xs.push_back(g.uniform(-spread, spread));
  const double lo = *std::min_element(xs.begin(), xs.end()),
               hi = *std::max_element(xs.begin(), xs.end());
  c.desc << "n=" << n << " l=" << l << " [" << lo << "," << hi << "]";
  const auto check = [&](const std::vector<double> &grid, auto &&correlation,
                         double least) {
    VF_REQUIRE("enough_points", grid.size() >= 3, grid.size());
    VF_CLOSE("first", grid.front(), lo, 1e-12, 1e-12 * spread);
    VF_CLOSE("last", grid.back(), hi, 1e-12, 1e-12 * spread);
    for (std::size_t i = 1; i < grid.size(); ++i) {
      VF_CHECK("ascending", grid[i] >= grid[i - 1], grid[i]);
      VF_CHECK("neighbours_correlated",
               correlation(grid[i] - grid[i - 1]) >= least - 1e-9,
               grid[i] - grid[i - 1] << " of " << l);
    }
    // knowing the function on the grid determines it at the features
    for (double x : xs)
      VF_CHECK("covered", x >= grid.front() - 1e-9 * spread &&
                              x <= grid.back() + 1e-9 * spread,
               x);
    c.observe_max("grid_points", double(grid.size()));
  };
  const auto a = SE(l, 2.).state_space_representation(xs);
  check(a, [&](double d) { return std::exp(-std::pow(d / l, 2)); },
        std::exp(-0.0225));
  const auto b = EX(l, 2.).state_space_representation(xs);
  check(b, [&](double d) { return std::exp(-d / l); }, std::exp(-0.075));
  // sums and products hold the points of every part that has a representation
  const double l2 = l * g.log_uniform(0.3, 3.);
  const auto other = EX(l2, 1.).state_space_representation(xs);
  std::vector<double> both = a;
  both.insert(both.end(), other.begin(), other.end());
  std::sort(both.begin(), both.end());
  auto sum = (SE(l, 2.) + EX(l2, 1.)).state_space_representation(xs);
  auto prod = (SE(l, 2.) * EX(l2, 1.)).state_space_representation(xs);
  std::sort(sum.begin(), sum.end());
  std::sort(prod.begin(), prod.end());
  VF_CHECK("sum", sum == both, sum.size() << " vs " << both.size());
  VF_CHECK("product", prod == both, prod.size() << " vs " << both.size());
  const auto one = (SE(l, 2.) + IN(0.1)).state_space_representation(xs);
  const auto two = (IN(0.1) + SE(l, 2.)).state_space_representation(xs);
  const auto three = (IN(0.1) * SE(l, 2.)).state_space_representation(xs);
  const auto four = (SE(l, 2.) * IN(0.1)).state_space_representation(xs);
  VF_CHECK("one_sided", one == a && two == a && three == a && four == a, one.size());
  c.reached();
}

VF_SECTION("polynomials_and_noise", 800, 12000) {
  auto &g = c.rng;
  const std::size_t n = g.size(0, 12);
  std::vector<double> xs;
  for (std::size_t i = 0; i < n; ++i)
    xs.push_back(i > 0 && g.coin(0.3) ? xs[g.size(0, i - 1)]
                                      : std::round(g.uniform(-3., 3.) * 4.) / 4.);
  const double s = g.log_uniform(0.01, 100.);
  std::vector<double> sig;
  for (int i = 0; i < 4; ++i)
    sig.push_back(g.coin(0.1) ? 0. : g.log_uniform(0.1, 10.));
  c.desc << "n=" << n << " s=" << s;
  for (auto v : xs)
    c.desc << " " << v;
  Polynomial<0> p0(s);
  Polynomial<3> p3(1.);
  for (int i = 0; i < 4; ++i)
    p3.set_param_value("sigma_polynomial_" + std::to_string(i), sig[std::size_t(i)]);
  Polynomial<2> p2(s);
  Constant constant(s);
  IN noise(s);
  Nugget nugget;
  nugget.nugget_sigma.value = s * 1e-3;
  const auto k0 = p0(xs), k3 = p3(xs), k2 = p2(xs), kc = constant(xs),
             kn = noise(xs), kg = nugget(xs);
  double scale3 = 0.;
  for (std::size_t i = 0; i < n; ++i)
    for (std::size_t j = 0; j < n; ++j) {
      const Eigen::Index a = Eigen::Index(i), b = Eigen::Index(j);
      const LD x = xs[i], y = xs[j], q = static_cast<LD>(s) * s;
      VF_CLOSE("constant", kc(a, b), s * s, 1e-15, 0.);
      VF_CLOSE("polynomial_0", k0(a, b), s * s, 1e-14, 0.);
      const LD w2 = q + q * x * y + q * x * x * y * y;
      VF_CLOSE("polynomial_2", k2(a, b), double(w2), 1e-12, 1e-11 * s * s);
      LD w3 = 0.L, m3 = 0.L;
      for (int e = 0; e < 4; ++e) {
        const LD t = static_cast<LD>(sig[std::size_t(e)]) * sig[std::size_t(e)] *
                     powl(x, e) * powl(y, e);
        w3 += t;
        m3 += fabsl(t);
      }
      scale3 = std::max(scale3, double(m3));
      VF_CLOSE("polynomial_3", k3(a, b), double(w3), 0., 1e-12 * double(m3) + 1e-300);
      VF_CHECK("noise", kn(a, b) == (xs[i] == xs[j] ? s * s : 0.), kn(a, b));
      VF_CLOSE("nugget", kg(a, b), xs[i] == xs[j] ? s * s * 1e-6 : 0., 1e-12, 0.);
    }
  check_psd(c, k0, s * s);
  check_psd(c, k2, s * s * 100.);
  check_psd(c, kc, s * s);
  check_psd(c, kn, s * s);
  if (scale3 > 0.)
    check_psd(c, k3, scale3);
  c.count("noise_matrices", 1);
  c.reached();
}

// Lines and value of a trace of the calls.
VF_SECTION("call_traces", 200, 2000) {
  auto &g = c.rng;
  const double l = g.log_uniform(0.5, 10.), s = g.log_uniform(0.5, 5.),
               n = g.log_uniform(0.1, 1.);
  const auto cov = (SE(l, s) + IN(n)) * Constant(s) + EX(l, s);
  const double x = g.uniform(-3., 3.), y = g.coin(0.3) ? x : g.uniform(-3., 3.);
  c.desc << x << " " << y << " l=" << l;
  const auto trace = cov.call_trace().get_trace(x, y);
  // sum, product, sum, se, noise, constant, exponential
  VF_REQUIRE("lines", trace.size() == 7, trace.size());
  const auto value = [&](std::size_t i) {
    const std::string &t = trace[i].value;
    const std::size_t at = t.find_last_of(' ');
    return std::stod(at == std::string::npos ? t : t.substr(at + 1));
  };
  const double v[7] = {cov(x, y),
                       (SE(l, s)(x, y) + IN(n)(x, y)) * s * s,
                       SE(l, s)(x, y) + IN(n)(x, y),
                       SE(l, s)(x, y),
                       IN(n)(x, y),
                       s * s,
                       EX(l, s)(x, y)};
  for (std::size_t i = 0; i < 7; ++i)
    VF_CLOSE("value", value(i), v[i], 1e-5, 1e-6);
  c.reached();
}

VF_SECTION("distances", 600, 10000) {
  auto &g = c.rng;
  const std::size_t n = g.size(0, 8);
  std::vector<Eigen::VectorXd> xs;
  const Eigen::Index dim = Eigen::Index(g.extent(1, 5, 40));
  for (std::size_t i = 0; i < n; ++i) {
    Eigen::VectorXd v(dim, 1);
    for (Eigen::Index k = 0; k < dim; ++k)
      v[k] = g.normal();
    if (i > 0 && g.coin(0.4)) { // parallel, opposite or nearly so
      v = xs[g.size(0, i - 1)] * (g.coin(0.5) ? 1. : -1.) * g.log_uniform(0.1, 10.);
      if (g.coin(0.5))
        v[0] += 1e-9 * g.normal();
    }
    xs.push_back(v);
  }
  c.desc << "n=" << n << " dim=" << dim;
  if (n)
    c.desc << " " << xs[0].transpose();
  const auto check = [&](const char *key, const auto &metric, const auto &want,
                         double tol) {
    const Eigen::MatrixXd D = distance_matrix(metric, xs);
    VF_REQUIRE("size", D.rows() == Eigen::Index(n) && D.cols() == D.rows(), D.rows());
    for (std::size_t i = 0; i < n; ++i)
      for (std::size_t j = 0; j < n; ++j) {
        const double d = D(Eigen::Index(i), Eigen::Index(j));
        VF_CHECK("not_negative", d >= 0., key << " " << d);
        VF_CHECK("symmetric", d == D(Eigen::Index(j), Eigen::Index(i)), key);
        VF_CLOSE(key, d, double(want(xs[i], xs[j])), 0., tol);
      }
  };
  check("euclidean", EuclideanDistance(), Euclid(), 1e-12);
  check("radial", RadialDistance(), Radial(), 1e-12);
  check("angular", AngularDistance(), Angle(), 1e-7);
  c.reached();
}

} // namespace
