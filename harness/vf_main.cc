#include "vf.h"

#include <exception>
#include <sys/stat.h>
#include <typeinfo>

namespace vf {

static int progress_fd = -1;

static void mark(const std::string &section, std::uint64_t i,
                 std::size_t sec_idx) {
  if (progress_fd < 0) {
    return;
  }
  char b[256];
  const int n =
      std::snprintf(b, sizeof b, "%-120s %12llu %6zu\n", section.c_str(),
                    static_cast<unsigned long long>(i), sec_idx);
  if (pwrite(progress_fd, b, static_cast<std::size_t>(n), 0) < 0) {
    std::_Exit(3);
  }
}

int run_main(int argc, char **argv) {
  State &st = state();
  std::string out_path, progress_path, only;
  long only_case = -1;
  std::size_t shard = 0, nshards = 1, from_section = 0;
  std::uint64_t from_case = 0;
  double scale = 1.;
  bool list = false;
  for (int i = 1; i < argc; ++i) {
    const std::string a = argv[i];
    auto next = [&]() { return std::string(argv[++i]); };
    if (a == "--seed")
      st.seed = std::strtoull(next().c_str(), nullptr, 10);
    else if (a == "--tier")
      st.thorough = next() == "thorough";
    else if (a == "--out")
      out_path = next();
    else if (a == "--progress")
      progress_path = next();
    else if (a == "--section")
      only = next();
    else if (a == "--case")
      only_case = std::atol(next().c_str());
    else if (a == "--shard")
      shard = std::strtoul(next().c_str(), nullptr, 10);
    else if (a == "--nshards")
      nshards = std::strtoul(next().c_str(), nullptr, 10);
    else if (a == "--from-section")
      from_section = std::strtoul(next().c_str(), nullptr, 10);
    else if (a == "--from-case")
      from_case = std::strtoull(next().c_str(), nullptr, 10);
    else if (a == "--scale")
      scale = std::atof(next().c_str());
    else if (a == "--list")
      list = true;
  }
  std::vector<Section> secs = sections();
  std::sort(secs.begin(), secs.end(),
            [](const Section &a, const Section &b) { return a.name < b.name; });
  for (std::size_t i = 1; i < secs.size(); ++i) {
    if (secs[i].name == secs[i - 1].name) {
      std::fprintf(stderr, "duplicate section %s\n", secs[i].name.c_str());
      return 3;
    }
  }
  if (list) {
    for (const auto &s : secs)
      std::printf("%s %llu %llu\n", s.name.c_str(),
                  static_cast<unsigned long long>(s.quick),
                  static_cast<unsigned long long>(s.thorough));
    return 0;
  }
  st.out = out_path.empty() ? stderr : std::fopen(out_path.c_str(), "w");
  if (!st.out) {
    return 3;
  }
  if (!progress_path.empty()) {
    progress_fd = open(progress_path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
  }
  std::map<std::string, std::uint64_t> per_section;
  for (std::size_t k = from_section; k < secs.size(); ++k) {
    const Section &s = secs[k];
    if (!only.empty() && s.name != only) {
      continue;
    }
    const double base =
        static_cast<double>(st.thorough ? s.thorough : s.quick);
    const std::uint64_t n = static_cast<std::uint64_t>(
        std::max(1., std::ceil(base * scale)));
    for (std::uint64_t i = 0; i < n; ++i) {
      if (only_case >= 0 && i != static_cast<std::uint64_t>(only_case)) {
        continue;
      }
      if (only_case < 0 && (i + k) % nshards != shard) {
        continue;
      }
      if (only_case < 0 && k == from_section && i < from_case) {
        continue;
      }
      mark(s.name, i, k);
      Case c(s.name, i, st.seed);
      try {
        s.body(c);
      } catch (const Failure &) {
      } catch (const std::exception &e) {
        c.fail(std::string("exception:") + typeid(e).name(), e.what());
      } catch (...) {
        c.fail("exception:unknown", "unknown exception");
      }
      ++st.evaluations;
      ++per_section[s.name];
      const std::string d = c.desc.str();
      if (c.nontrivial) {
        st.distinct.insert(hash_str(s.name + "#" + d));
      }
      auto &sm = st.samples[s.name];
      if (sm.size() < 2 && c.nontrivial) {
        sm.push_back(d.substr(0, 300));
      }
    }
  }
  std::fprintf(st.out, "{\"t\":\"done\",\"evaluations\":%llu,\"oracle_checks\":%llu,",
               static_cast<unsigned long long>(st.evaluations),
               static_cast<unsigned long long>(st.oracle_checks));
  auto dump = [&](const char *name, const auto &m, const char *fmt) {
    std::fprintf(st.out, "\"%s\":{", name);
    bool first = true;
    for (const auto &kv : m) {
      std::fprintf(st.out, "%s\"%s\":", first ? "" : ",",
                   json_escape(kv.first).c_str());
      std::fprintf(st.out, fmt, kv.second);
      first = false;
    }
    std::fprintf(st.out, "},");
  };
  std::map<std::string, unsigned long long> ps(per_section.begin(),
                                               per_section.end());
  std::map<std::string, unsigned long long> cs(st.counters.begin(),
                                               st.counters.end());
  dump("sections", ps, "%llu");
  dump("counters", cs, "%llu");
  for (auto &m : st.maxima) {
    if (!std::isfinite(m.second))
      m.second = 1e308;
  }
  dump("maxima", st.maxima, "%.6g");
  std::fprintf(st.out, "\"samples\":{");
  bool first = true;
  for (const auto &kv : st.samples) {
    std::fprintf(st.out, "%s\"%s\":[", first ? "" : ",",
                 json_escape(kv.first).c_str());
    first = false;
    for (std::size_t i = 0; i < kv.second.size(); ++i) {
      std::fprintf(st.out, "%s\"%s\"", i ? "," : "",
                   json_escape(kv.second[i]).c_str());
    }
    std::fprintf(st.out, "]");
  }
  std::fprintf(st.out, "},\"distinct\":[");
  first = true;
  for (auto h : st.distinct) {
    std::fprintf(st.out, "%s\"%llx\"", first ? "" : ",",
                 static_cast<unsigned long long>(h));
    first = false;
  }
  std::fprintf(st.out, "]}\n");
  std::fflush(st.out);
  mark("<exit>", 0, secs.size());
  return 0;
}

} // namespace vf

int main(int argc, char **argv) { return vf::run_main(argc, argv); }
