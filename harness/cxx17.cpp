// Compiled as C++17 with -DICUBABY_INSIDE_NS=as_cxx17.
#include "cxx17.hpp"

#include <algorithm>
#include <iterator>
#include <string>
#include <type_traits>

#include "uri/icubaby.hpp"

static_assert (__cplusplus < 202002L && std::is_same<as_cxx17::icubaby::char8, char>::value, "this is about C++17");

namespace {

namespace ib = as_cxx17::icubaby;

template <typename From> From unit (std::uint32_t u) { return static_cast<From> (u); }
template <typename To> std::uint32_t number (To u) { return static_cast<std::uint32_t> (static_cast<std::make_unsigned_t<To>> (u)); }
template <> std::uint32_t number (char16_t u) { return u; }
template <> std::uint32_t number (char32_t u) { return u; }

template <typename T> int detected (T const&) { return -1; }
template <typename To> int detected (ib::transcoder<std::byte, To> const& t) { return static_cast<int> (t.selected_encoding ()); }

template <typename From, typename To> void run (cxx17::Units const& in, bool adaptor, cxx17::Result& r) {
  ib::transcoder<From, To> t;
  r = {};
  if (adaptor) {
    std::vector<To> out;
    auto it = ib::iterator<ib::transcoder<From, To>, std::back_insert_iterator<std::vector<To>>>{&t, std::back_inserter (out)};
    for (auto u : in) *(it++) = unit<From> (u);
    t.end_cp (it);
    for (auto u : out) r.total.push_back (number (u));
    r.ok = t.well_formed ();
    r.partial_at_end = t.partial ();
    r.encoding = detected (t);
    return;
  }
  To buffer[16];
  for (auto u : in) {
    auto const end = t (unit<From> (u), buffer);
    for (auto const* p = buffer; p != end; ++p) r.out.push_back (number (*p));
    r.upto.push_back (r.out.size ());
    r.partial.push_back (t.partial ());
  }
  r.ok_before_end = t.well_formed ();
  r.total = r.out;
  auto const end = t.end_cp (buffer);
  for (auto const* p = buffer; p != end; ++p) r.total.push_back (number (*p));
  r.ok = t.well_formed ();
  r.partial_at_end = t.partial ();
  r.encoding = detected (t);
}
template <typename From> void to (cxx17::encoding e, cxx17::Units const& in, bool adaptor, cxx17::Result& r) {
  switch (e) {
  case cxx17::utf8: return run<From, char> (in, adaptor, r);
  case cxx17::utf16: return run<From, char16_t> (in, adaptor, r);
  default: return run<From, char32_t> (in, adaptor, r);
  }
}
template <typename Unit> std::size_t length_of (cxx17::Units const& in) {
  std::basic_string<Unit> s;
  for (auto u : in) s += unit<Unit> (u);
  return static_cast<std::size_t> (ib::length (s.begin (), s.end ()));
}
template <typename Unit> std::size_t index_of (cxx17::Units const& in, std::size_t n) {
  std::basic_string<Unit> s;
  for (auto u : in) s += unit<Unit> (u);
  return static_cast<std::size_t> (ib::index (s.begin (), s.end (), n) - s.begin ());
}

}  // namespace

namespace cxx17 {

void transcode (encoding from, encoding e, Units const& in, bool adaptor, Result& r) {
  switch (from) {
  case utf8: return to<char> (e, in, adaptor, r);
  case utf16: return to<char16_t> (e, in, adaptor, r);
  case utf32: return to<char32_t> (e, in, adaptor, r);
  default: return to<std::byte> (e, in, adaptor, r);
  }
}
std::size_t length (encoding e, Units const& in) {
  return e == utf8 ? length_of<char> (in) : e == utf16 ? length_of<char16_t> (in) : length_of<char32_t> (in);
}
std::size_t index (encoding e, Units const& in, std::size_t n) {
  return e == utf8 ? index_of<char> (in, n) : e == utf16 ? index_of<char16_t> (in, n) : index_of<char32_t> (in, n);
}
bool starts (encoding e, std::uint32_t u) {
  return e == utf8 ? ib::is_code_point_start (unit<char> (u)) : e == utf16 ? ib::is_code_point_start (unit<char16_t> (u))
                                                                           : ib::is_code_point_start (unit<char32_t> (u));
}
bool high (std::uint32_t c) { return ib::is_high_surrogate (static_cast<char32_t> (c)); }
bool low (std::uint32_t c) { return ib::is_low_surrogate (static_cast<char32_t> (c)); }
bool surrogate (std::uint32_t c) { return ib::is_surrogate (static_cast<char32_t> (c)); }

}  // namespace cxx17
