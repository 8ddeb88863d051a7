// Prints harness/c10_golden.h: archives of a few objects as the code this is
// compiled against writes them (it was compiled against the pinned commit,
// before any of our repairs).
#include "c10_golden_objects.h"
#include <iostream>

template <typename X> void emit(const char *name, const X &x) {
  std::ostringstream json, binary;
  {
    cereal::JSONOutputArchive ar(json);
    ar(cereal::make_nvp("object", x));
  }
  {
    cereal::PortableBinaryOutputArchive ar(binary);
    ar(cereal::make_nvp("object", x));
  }
  const std::string b = binary.str();
  std::cout << "const char *const json_" << name << " = R\"json(" << json.str()
            << ")json\";\nconst char *const binary_" << name << " = \""
            << cereal::base64::encode(
                   reinterpret_cast<const unsigned char *>(b.data()), b.size())
            << "\";\n";
}

int main() {
  std::cout << "// Written by tools/make_golden.cc, see there.\n"
               "namespace vfgolden {\n";
#define EMIT(NAME, EXPR) emit(#NAME, vfgolden::EXPR);
  VFGOLDEN_ALL(EMIT)
  std::cout << "} // namespace vfgolden\n";
}
