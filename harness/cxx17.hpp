// icubaby as a C++17 program sees it (char8 is char; no concepts, no ranges): the same code compiled once more,
// in cxx17.cpp, inside another namespace. Code units are passed as numbers.
#ifndef VERIF_CXX17_HPP
#define VERIF_CXX17_HPP

#ifdef NO_VARIANTS
#define AS_CXX17(...)
#else
#define AS_CXX17(...) __VA_ARGS__
#endif

#include <cstddef>
#include <cstdint>
#include <vector>

namespace cxx17 {

enum encoding : unsigned { utf8, utf16, utf32, bytes };
using Units = std::vector<std::uint32_t>;

struct Result {
  Units out, total;
  std::vector<std::size_t> upto;
  std::vector<char> partial;
  bool ok_before_end = true, ok = true, partial_at_end = false;
  int encoding = -1;  // of bytes: the number of the detected encoding
};
// Unit by unit; or all of it through the output iterator adaptor.
void transcode (encoding from, encoding to, Units const& in, bool adaptor, Result& r);

std::size_t length (encoding e, Units const& in);
std::size_t index (encoding e, Units const& in, std::size_t n);
bool starts (encoding e, std::uint32_t unit);
bool high (std::uint32_t c);
bool low (std::uint32_t c);
bool surrogate (std::uint32_t c);

template <typename String> Units units (String const& s) {
  Units u;
  u.reserve (s.size ());
  for (auto c : s) u.push_back (static_cast<std::uint32_t> (c));
  return u;
}
template <typename Unit> constexpr encoding of () { return sizeof (Unit) == 4 ? utf32 : sizeof (Unit) == 2 ? utf16 : utf8; }

}  // namespace cxx17
#endif
