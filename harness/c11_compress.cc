// C11: zstd wrappers: exact round trips, and nothing but a refusal on damage.
#include "vf.h"
#include <albatross/Common>
#include <albatross/Core>
#include <albatross/src/utils/compress.hpp>

using namespace albatross;

namespace {

std::string payload(vf::Case &c, double min_size, std::size_t max_size) {
  const int kind = static_cast<int>(c.rng.integer(0, 5));
  std::size_t n = min_size <= 1. && c.rng.coin(0.1)
                      ? c.rng.size(0, 3)
                      : static_cast<std::size_t>(c.rng.log_uniform(
                            min_size, static_cast<double>(max_size)));
  std::string s(n, '\0');
  switch (kind) {
  case 0: // incompressible
    for (auto &x : s)
      x = static_cast<char>(c.rng.next());
    break;
  case 1: // one byte, repeated
    std::fill(s.begin(), s.end(), static_cast<char>(c.rng.next()));
    break;
  case 2: // text
    for (auto &x : s)
      x = "albatross \n{}"[c.rng.size(0, 12)];
    break;
  case 3: // a period
  {
    const std::size_t p = c.rng.size(1, 300);
    for (std::size_t i = 0; i < n; ++i)
      s[i] = i < p ? static_cast<char>(c.rng.next()) : s[i - p];
    break;
  }
  case 4: // runs
  {
    char v = 0;
    for (auto &x : s) {
      if (c.rng.coin(0.02))
        v = static_cast<char>(c.rng.next());
      x = v;
    }
    break;
  }
  default: // already compressed
    s = zstd::compress(std::string(n, 'x') + std::to_string(c.rng.next()));
  }
  c.desc << "kind=" << kind << " bytes=" << s.size() << " hash="
         << vf::hash_str(s);
  return s;
}

VF_SECTION("strings", 2500, 40000) {
  // Now and then more than zstd's block and window sizes.
  const bool large = c.index % 400 == 7;
  const std::string s =
      large ? payload(c, 1.5e6, 40000000)
            : payload(c, 1., c.rng.coin(0.05) ? 400000 : 6000);
  const int level = static_cast<int>(
      large ? c.rng.integer(-8, 4)
            : c.rng.coin(0.02) ? 19 : c.rng.integer(-8, 9));
  if (s.size() > (std::size_t{1} << 20))
    c.count("payloads_above_a_megabyte");
  c.desc << " level=" << level;
  const std::string before(s);
  const bool use_default = c.rng.coin(0.2);
  const std::string z =
      use_default ? zstd::compress(s) : zstd::compress(s, level);
  VF_CHECK("input_untouched", s == before, "");
  VF_CHECK("same_again",
           z == (use_default ? zstd::compress(s) : zstd::compress(s, level)), "");
  VF_CHECK("bound", z.size() <= ZSTD_compressBound(s.size()), z.size());
  // Readable by the reference decoder, with the declared size.
  VF_CHECK("frame_size",
           ZSTD_getFrameContentSize(z.data(), z.size()) == s.size(), "");
  VF_CHECK("decompress", zstd::decompress(z) == s, "");
  std::string out = c.rng.coin() ? std::string() : std::string(50, 'q');
  VF_CHECK("maybe_decompress", zstd::maybe_decompress(z, &out), "");
  VF_CHECK("maybe_output", out == s, out.size());
  // Twice compressed.
  const std::string zz = zstd::compress(z, level);
  VF_CHECK("nested", zstd::decompress(zstd::decompress(zz)) == s, "");
  // Compressing the same bytes through a pointer gives the same frame.
  VF_CHECK("pointer", zstd::decompress(zstd::compress(s.data(), s.size(), level)) == s,
           "");
  c.count("bytes_round_tripped", s.size());
  if (s.empty())
    c.count("empty_payloads");
  c.reached();
}

struct Element {
  double a;
  std::int32_t b;
  std::int32_t d;
};

template <typename T> void arrays(vf::Case &c) {
  const std::size_t n = c.rng.size(0, 300);
  std::vector<T> x(n);
  for (auto &e : x) {
    unsigned char *p = reinterpret_cast<unsigned char *>(&e);
    const bool zero = c.rng.coin(0.3);
    for (std::size_t k = 0; k < sizeof(T); ++k)
      p[k] = zero ? 0 : static_cast<unsigned char>(c.rng.next());
  }
  c.desc << "elements of " << sizeof(T) << " n=" << n << " hash="
         << vf::hash_bytes(x.data(), n * sizeof(T));
  const std::string z = zstd::compress(x.data(), n);
  // Exactly n elements between two guards.
  std::vector<T> out(n + 2);
  std::memset(static_cast<void *>(out.data()), 0x5a, (n + 2) * sizeof(T));
  std::vector<T> guard(1);
  std::memset(static_cast<void *>(guard.data()), 0x5a, sizeof(T));
  const bool strict = c.rng.coin();
  if (strict) {
    zstd::decompress(z, out.data() + 1, n);
  } else {
    VF_CHECK("maybe", zstd::maybe_decompress(z, out.data() + 1, n), "");
  }
  VF_CHECK("elements",
           n == 0 || std::memcmp(out.data() + 1, x.data(), n * sizeof(T)) == 0,
           "");
  VF_CHECK("guards",
           std::memcmp(out.data(), guard.data(), sizeof(T)) == 0 &&
               std::memcmp(out.data() + n + 1, guard.data(), sizeof(T)) == 0,
           "");
  // Wrong counts are refused, and nothing beyond the buffer is written (the
  // buffer is exactly as large as what was asked for).
  for (int k = 0; k < 4; ++k) {
    std::size_t wrong = c.rng.size(0, n + 5);
    if (wrong == n)
      wrong = n + 1;
    std::vector<T> other(wrong);
    VF_CHECK("wrong_count", !zstd::maybe_decompress(z, other.data(), wrong),
             wrong << " of " << n);
    if (c.index < 8 && k == 0)
      VF_ABORTS("wrong_count_aborts", zstd::decompress(z, other.data(), wrong));
  }
  VF_CHECK("as_string",
           zstd::decompress(z) ==
               std::string(reinterpret_cast<const char *>(x.data()),
                           n * sizeof(T)),
           "");
  c.reached();
}

VF_SECTION("arrays", 600, 8000) {
  switch (c.index % 4) {
  case 0:
    return arrays<double>(c);
  case 1:
    return arrays<char>(c);
  case 2:
    return arrays<std::int16_t>(c);
  default:
    return arrays<Element>(c);
  }
}

// Everything that is not an intact frame.  A damaged frame may still decode
// (there is no checksum), then to as many bytes as its header declares.
VF_SECTION("damage", 2500, 60000) {
  const std::string s = payload(c, 1., c.rng.coin(0.02) ? 300000 : 1500);
  const std::string z = zstd::compress(s, static_cast<int>(c.rng.integer(-3, 6)));
  std::string bad(z);
  const int kind = static_cast<int>(c.rng.integer(0, 6));
  c.desc << " damage=" << kind;
  bool must_fail = false;
  switch (kind) {
  case 0: // truncated
  {
    const std::size_t n = c.rng.size(0, z.size() - 1);
    bad.resize(n);
    c.desc << " at " << n;
    must_fail = true;
    break;
  }
  case 1: // a flipped bit
  case 2: // several changed bytes
    for (long k = c.rng.integer(1, kind == 1 ? 1 : 8); k > 0; --k) {
      // Most of the interesting bytes are in the header.
      const std::size_t at =
          c.rng.coin(0.5) ? c.rng.size(0, std::min<std::size_t>(17, bad.size() - 1))
                          : c.rng.size(0, bad.size() - 1);
      if (kind == 1)
        bad[at] = static_cast<char>(bad[at] ^ (1 << c.rng.integer(0, 7)));
      else
        bad[at] = static_cast<char>(c.rng.next());
      c.desc << " " << at;
    }
    break;
  case 3: // not a frame at all
    for (auto &x : bad)
      x = static_cast<char>(c.rng.next());
    bad[0] = 'A'; // not the magic number of a frame
    must_fail = true;
    break;
  case 4: // something follows
    bad += std::string(c.rng.size(1, 20), static_cast<char>(c.rng.next()));
    break;
  case 5: // not compressed
    bad = "plain " + s;
    must_fail = true;
    break;
  default: // bytes missing in the middle
  {
    const std::size_t at = c.rng.size(0, bad.size() - 1);
    bad.erase(at, c.rng.size(1, 9));
    c.desc << " at " << at;
  }
  }
  const bool intact = bad == z;
  const auto declared = ZSTD_getFrameContentSize(bad.data(), bad.size());
  const bool known = declared != ZSTD_CONTENTSIZE_UNKNOWN &&
                     declared != ZSTD_CONTENTSIZE_ERROR;
  // What the reference decoder says, for sizes that fit in memory.
  bool reference_ok = false;
  std::string reference;
  if (known && declared <= (64u << 20)) {
    reference.resize(declared);
    const std::size_t r =
        ZSTD_decompress(&reference[0], reference.size(), bad.data(), bad.size());
    reference_ok = !ZSTD_isError(r) && r == declared;
  }
  bool ok = false, threw = false;
  std::string out;
  try {
    ok = zstd::maybe_decompress(bad, &out);
  } catch (const std::exception &e) {
    threw = true;
    VF_CHECK("raises", false, e.what() << " declared size " << declared);
  }
  if (!threw) {
    VF_CHECK("agrees_with_reference", ok == reference_ok,
             "returned " << ok << " declared " << declared);
    if (ok) {
      VF_CHECK("declared_size", out.size() == declared, out.size());
      VF_CHECK("data", out == reference, "");
    }
    if (must_fail)
      VF_CHECK("accepted", !ok, "damage was accepted");
    if (intact)
      VF_CHECK("intact", ok && out == s, "");
  }
  // Into a buffer of the original size.
  std::vector<char> buffer(s.size());
  const bool into = zstd::maybe_decompress(bad, buffer.data(), buffer.size());
  VF_CHECK("into_buffer", into == (reference_ok && declared == s.size()), into);
  if (!reference_ok) {
    c.count("refused");
    if (c.index % 50 == 0 && (!known || declared <= (64u << 20)))
      VF_ABORTS("decompress_refuses", {
        const std::string ignored = zstd::decompress(bad);
        (void)ignored;
      });
  } else {
    c.count("decoded");
  }
  if (!intact)
    c.reached();
}

// Frames without a declared size.
VF_SECTION("streamed", 60, 600) {
  const std::string s = payload(c, 1., 3000);
  ZSTD_CCtx *ctx = ZSTD_createCCtx();
  ZSTD_CCtx_setParameter(ctx, ZSTD_c_contentSizeFlag, 0);
  std::string z(ZSTD_compressBound(s.size()), '\0');
  const std::size_t n =
      ZSTD_compress2(ctx, &z[0], z.size(), s.data(), s.size());
  ZSTD_freeCCtx(ctx);
  z.resize(n);
  std::string out;
  VF_CHECK("unknown_size", !zstd::maybe_decompress(z, &out), "");
  std::vector<char> buffer(s.size());
  VF_CHECK("unknown_size_buffer",
           !zstd::maybe_decompress(z, buffer.data(), buffer.size()), "");
  c.reached();
}

} // namespace
