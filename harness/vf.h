// Workload driver and monitor base shared by all harnesses.
//
// A harness is a set of sections.  Each section runs N seeded cases; a case
// builds a workload from its own generator, runs the real library code and
// compares what it observes with an independent oracle through VF_* macros.
// Failures are recorded as JSON lines (flushed at once), and a progress file
// says which case is running so that the driver can attribute an abort, a
// sanitizer report or a hang to that case and resume after it.
#ifndef VERIF_VF_H
#define VERIF_VF_H

#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <iomanip>
#include <limits>
#include <map>
#include <csignal>
#include <set>
#include <sstream>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vf {

inline std::uint64_t mix(std::uint64_t x) {
  x += 0x9E3779B97F4A7C15ULL;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL;
  return x ^ (x >> 31);
}

inline std::uint64_t hash_bytes(const void *p, std::size_t n,
                                std::uint64_t h = 1469598103934665603ULL) {
  const unsigned char *c = static_cast<const unsigned char *>(p);
  for (std::size_t i = 0; i < n; ++i) {
    h = (h ^ c[i]) * 1099511628211ULL;
  }
  return h;
}

inline std::uint64_t hash_str(const std::string &s) {
  return hash_bytes(s.data(), s.size());
}

struct Rng {
  std::uint64_t s;
  explicit Rng(std::uint64_t seed) : s(mix(seed)) {}
  std::uint64_t next() {
    s += 0x9E3779B97F4A7C15ULL;
    return mix(s);
  }
  // [0, 1)
  double u() { return static_cast<double>(next() >> 11) * 0x1.0p-53; }
  double uniform(double a, double b) { return a + (b - a) * u(); }
  double log_uniform(double a, double b) {
    return std::exp(uniform(std::log(a), std::log(b)));
  }
  // inclusive
  long integer(long a, long b) {
    return a + static_cast<long>(next() % static_cast<std::uint64_t>(b - a + 1));
  }
  std::size_t size(std::size_t a, std::size_t b) {
    return static_cast<std::size_t>(integer(static_cast<long>(a),
                                            static_cast<long>(b)));
  }
  bool coin(double p = 0.5) { return u() < p; }
  long wide(long a, long b, long big, double p = 0.03) {
    return coin(p) ? large(b, big) : integer(a, b);
  }
  // mostly in [a, b], now and then many more (up to big)
  std::size_t extent(std::size_t a, std::size_t b, std::size_t big,
                     double p = 0.03) {
    return static_cast<std::size_t>(wide(static_cast<long>(a),
                                         static_cast<long>(b),
                                         static_cast<long>(big), p));
  }
  // in [b, big], half of the time at or next to a multiple of 16, 32, ...
  long large(long b, long big) {
    if (coin(0.5)) {
      const long unit = 1L << integer(4, 8);
      const long times = big / unit;
      if (times > 0) {
        const long v = integer(1, times) * unit + integer(-1, 1) * (coin(0.5) ? 1 : 0);
        if (v >= b && v <= big) {
          return v;
        }
      }
    }
    return integer(b, big);
  }
  double normal() {
    const double a = std::max(u(), 1e-300);
    const double b = u();
    return std::sqrt(-2. * std::log(a)) * std::cos(2. * M_PI * b);
  }
  template <typename T> const T &pick(const std::vector<T> &v) {
    return v[size(0, v.size() - 1)];
  }
  template <typename T> void shuffle(std::vector<T> &v) {
    for (std::size_t i = v.size(); i > 1; --i) {
      std::swap(v[i - 1], v[size(0, i - 1)]);
    }
  }
  // k distinct indices out of n, in random order
  std::vector<std::size_t> choose(std::size_t n, std::size_t k) {
    std::vector<std::size_t> v(n);
    for (std::size_t i = 0; i < n; ++i) {
      v[i] = i;
    }
    shuffle(v);
    v.resize(k);
    return v;
  }
};

struct Failure {};

inline std::string json_escape(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += static_cast<char>(c);
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 32 || c > 126) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += static_cast<char>(c);
    }
  }
  return o;
}

struct State {
  std::uint64_t seed = 1;
  bool thorough = false;
  std::FILE *out = nullptr;
  std::uint64_t evaluations = 0;
  std::uint64_t oracle_checks = 0;
  std::uint64_t failures = 0;
  std::map<std::string, std::uint64_t> counters;
  std::map<std::string, double> maxima;
  std::unordered_set<std::uint64_t> distinct;
  std::map<std::string, std::vector<std::string>> samples;
  std::map<std::string, int> fail_counts;
};

inline State &state() {
  static State s;
  return s;
}

struct Case {
  std::string section;
  std::uint64_t index;
  Rng rng;
  std::ostringstream desc; // what this case is, for samples and failures
  bool nontrivial = false;
  bool failed = false;

  Case(const std::string &s, std::uint64_t i, std::uint64_t seed)
      : section(s), index(i), rng(mix(seed) ^ mix(hash_str(s)) ^ mix(i * 7919)) {}

  // Mark this case as non trivial: it reached the monitored behaviour.
  void reached() { nontrivial = true; }

  void count(const std::string &name, std::uint64_t n = 1) {
    state().counters[name] += n;
  }

  void observe_max(const std::string &name, double v) {
    auto &m = state().maxima[name];
    if (v > m) {
      m = v;
    }
  }

  void fail(const std::string &key, const std::string &msg) {
    failed = true;
    State &st = state();
    ++st.failures;
    const std::string full = section + "/" + key;
    if (st.fail_counts[full]++ < 3) {
      std::fprintf(st.out,
                   "{\"t\":\"fail\",\"key\":\"%s\",\"section\":\"%s\","
                   "\"case\":%llu,\"msg\":\"%s\",\"desc\":\"%s\"}\n",
                   json_escape(full).c_str(), json_escape(section).c_str(),
                   static_cast<unsigned long long>(index),
                   json_escape(msg).c_str(), json_escape(desc.str()).c_str());
      std::fflush(st.out);
    }
  }
};

using Body = std::function<void(Case &)>;

struct Section {
  std::string name;
  std::uint64_t quick;
  std::uint64_t thorough;
  Body body;
};

inline std::vector<Section> &sections() {
  static std::vector<Section> s;
  return s;
}

struct Register {
  Register(const char *name, std::uint64_t q, std::uint64_t t, Body b) {
    sections().push_back({name, q, t, std::move(b)});
  }
};

template <typename T> inline std::string str(const T &x) {
  std::ostringstream o;
  o << std::setprecision(17) << x;
  return o.str();
}

inline bool close(double a, double b, double rtol, double atol) {
  if (std::isnan(a) || std::isnan(b)) {
    return false;
  }
  if (a == b) {
    return true;
  }
  if (!std::isfinite(a) || !std::isfinite(b)) {
    return false;
  }
  return std::fabs(a - b) <= atol + rtol * std::max(std::fabs(a), std::fabs(b));
}

// Runs f in a child process and says whether that process was aborted (an
// assertion) rather than finishing.  Used where the library promises to reject.
template <typename F> inline bool aborts(F &&f) {
  std::fflush(nullptr);
  const pid_t pid = fork();
  if (pid == 0) {
    const int null = open("/dev/null", O_WRONLY);
    dup2(null, 1);
    dup2(null, 2);
    try {
      f();
    } catch (...) {
    }
    _exit(0);
  }
  int status = 0;
  waitpid(pid, &status, 0);
  return WIFSIGNALED(status) && WTERMSIG(status) == SIGABRT;
}

// Defined by each harness's main TU through VF_MAIN.
int run_main(int argc, char **argv);

} // namespace vf

#define VF_CAT2(a, b) a##b
#define VF_CAT(a, b) VF_CAT2(a, b)

#define VF_SECTION(NAME, QUICK, THOROUGH)                                      \
  static void VF_CAT(vf_body_, __LINE__)(vf::Case & c);                        \
  static vf::Register VF_CAT(vf_reg_, __LINE__)(NAME, QUICK, THOROUGH,         \
                                                VF_CAT(vf_body_, __LINE__));   \
  static void VF_CAT(vf_body_, __LINE__)(vf::Case & c)

#define VF_CHECK(KEY, COND, MSG)                                               \
  do {                                                                         \
    ++vf::state().oracle_checks;                                               \
    if (!(COND)) {                                                             \
      std::ostringstream vf_o;                                                 \
      vf_o << std::setprecision(17) << #COND << " : " << MSG;                  \
      c.fail(KEY, vf_o.str());                                                 \
    }                                                                          \
  } while (0)

// As VF_CHECK, and abandons the case.
#define VF_REQUIRE(KEY, COND, MSG)                                             \
  do {                                                                         \
    ++vf::state().oracle_checks;                                               \
    if (!(COND)) {                                                             \
      std::ostringstream vf_o;                                                 \
      vf_o << std::setprecision(17) << #COND << " : " << MSG;                  \
      c.fail(KEY, vf_o.str());                                                 \
      throw vf::Failure();                                                     \
    }                                                                          \
  } while (0)

#define VF_CLOSE(KEY, A, B, RTOL, ATOL)                                        \
  do {                                                                         \
    ++vf::state().oracle_checks;                                               \
    const double vf_a = (A);                                                   \
    const double vf_b = (B);                                                   \
    if (!vf::close(vf_a, vf_b, RTOL, ATOL)) {                                  \
      std::ostringstream vf_o;                                                 \
      vf_o << std::setprecision(17) << #A << " = " << vf_a << " expected "     \
           << #B << " = " << vf_b;                                             \
      c.fail(KEY, vf_o.str());                                                 \
    }                                                                          \
  } while (0)

#define VF_THROWS(KEY, EXPR)                                                   \
  do {                                                                         \
    ++vf::state().oracle_checks;                                               \
    bool vf_threw = false;                                                     \
    try {                                                                      \
      EXPR;                                                                    \
    } catch (const vf::Failure &) {                                            \
      throw;                                                                   \
    } catch (...) {                                                            \
      vf_threw = true;                                                         \
    }                                                                          \
    if (!vf_threw) {                                                           \
      c.fail(KEY, #EXPR " did not throw");                                     \
    }                                                                          \
  } while (0)

// EXPR must be rejected by an assertion.
#define VF_ABORTS(KEY, EXPR)                                                   \
  do {                                                                         \
    ++vf::state().oracle_checks;                                               \
    if (!vf::aborts([&]() { EXPR; })) {                                        \
      c.fail(KEY, #EXPR " was accepted");                                      \
    }                                                                          \
  } while (0)

#endif
