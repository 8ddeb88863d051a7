// Stand-in for gzip-hpp (third_party/gzip-hpp is empty in this sandbox).
#ifndef VERIF_SHIM_GZIP_DECOMPRESS
#define VERIF_SHIM_GZIP_DECOMPRESS
#include <cstddef>
#include <stdexcept>
#include <string>
#include <zlib.h>

namespace gzip {
inline std::string decompress(const char *data, std::size_t size) {
  z_stream s{};
  if (inflateInit2(&s, 15 + 32) != Z_OK) {
    throw std::runtime_error("inflate init failed");
  }
  s.next_in = reinterpret_cast<Bytef *>(const_cast<char *>(data));
  s.avail_in = static_cast<uInt>(size);
  std::string out;
  char buffer[32768];
  int ret = Z_OK;
  do {
    s.next_out = reinterpret_cast<Bytef *>(buffer);
    s.avail_out = sizeof(buffer);
    ret = inflate(&s, Z_FINISH);
    if (ret != Z_STREAM_END && ret != Z_OK && ret != Z_BUF_ERROR) {
      std::string error_msg = s.msg ? s.msg : "inflate failed";
      inflateEnd(&s);
      throw std::runtime_error(error_msg);
    }
    out.append(buffer, sizeof(buffer) - s.avail_out);
  } while (s.avail_out == 0);
  inflateEnd(&s);
  return out;
}
} // namespace gzip
#endif
