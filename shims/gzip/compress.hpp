// Stand-in for gzip-hpp (third_party/gzip-hpp is empty in this sandbox).
#ifndef VERIF_SHIM_GZIP_COMPRESS
#define VERIF_SHIM_GZIP_COMPRESS
#include <cstddef>
#include <stdexcept>
#include <string>
#include <zlib.h>

namespace gzip {
inline std::string compress(const char *data, std::size_t size,
                            int level = Z_DEFAULT_COMPRESSION) {
  z_stream s{};
  if (deflateInit2(&s, level, Z_DEFLATED, 15 + 16, 8, Z_DEFAULT_STRATEGY) !=
      Z_OK) {
    throw std::runtime_error("deflate init failed");
  }
  s.next_in = reinterpret_cast<Bytef *>(const_cast<char *>(data));
  s.avail_in = static_cast<uInt>(size);
  std::string out;
  char buffer[32768];
  do {
    s.next_out = reinterpret_cast<Bytef *>(buffer);
    s.avail_out = sizeof(buffer);
    deflate(&s, Z_FINISH);
    out.append(buffer, sizeof(buffer) - s.avail_out);
  } while (s.avail_out == 0);
  deflateEnd(&s);
  return out;
}
} // namespace gzip
#endif
