// Every operation of the library applied to one text, or to one sequence of code units.
// Used by C20 (monitors) and C17 (threads).
#ifndef VERIF_EVERYTHING_HPP
#define VERIF_EVERYTHING_HPP

#include <cassert>
#include <filesystem>
#include <list>
#include "gen.hpp"
#include "uri/find_last.hpp"
#include "uri/icubaby.hpp"
#include "uri/pctdecode.hpp"
#include "uri/pctencode.hpp"
#include "uri/punycode.hpp"
#include "uri/rule.hpp"
#include "uri/starts_with.hpp"

namespace everything {

// made before anything else, without a call of the library
inline constexpr std::string_view base_text = "http://u@a:1/b/c/d;p?q#f";
__attribute__ ((init_priority (101))) inline uri::parts const base = [] {
  uri::parts p;
  std::string_view const t = base_text;
  p.scheme = t.substr (0, 4);
  p.authority.emplace ();
  p.authority->userinfo = t.substr (7, 1);
  p.authority->host = t.substr (9, 1);
  p.authority->port = t.substr (11, 1);
  p.path.absolute = true;
  p.path.segments = {t.substr (13, 1), t.substr (15, 1), t.substr (17, 3)};
  p.query = t.substr (21, 1);
  p.fragment = t.substr (23, 1);
  return p;
}();

// C17 calls this from several threads and counts by itself
inline void did (unsigned long n) {
#ifndef EVERYTHING_IN_THREADS
  mc::step (n);
#else
  (void)n;
#endif
}

inline thread_local std::uint64_t sink = 0;  // results are used, so that they are read completely
inline void use (std::string_view s) {
  for (unsigned char c : s) sink = sink * 31 + c;
}
inline void use (uri::parts const& p) {
  if (p.scheme) use (*p.scheme);
  if (p.authority) {
    if (p.authority->userinfo) use (*p.authority->userinfo);
    use (p.authority->host);
    if (p.authority->port) use (*p.authority->port);
  }
  for (auto const& s : p.path.segments) use (s);
  if (p.query) use (*p.query);
  if (p.fragment) use (*p.fragment);
}
template <typename Store> void codec (uri::parts const& p) {
  {
    Store store;
    auto const e = uri::encode (store, p);
    use (e);
    Store again;
    auto const d = uri::decode (again, e);
    if (auto const* const v = std::get_if<uri::parts> (&d)) use (*v);
  }
  {
    Store store;
    auto const d = uri::decode (store, p);
    if (auto const* const v = std::get_if<uri::parts> (&d)) {
      use (*v);
      Store again;
      use (uri::encode (again, *v));
    } else {
      use (std::get<std::error_code> (d).message ());
    }
  }
}
inline void parts_operations (uri::parts const& p) {
  sink += p.valid () + p.path.valid () + (p.authority && p.authority->valid ()) + p.path.empty ();
  use (uri::compose (p));
  {
    std::ostringstream os;
    os << p << p.path;
    if (p.authority) os << *p.authority;
    uri::compose (os, p);
    use (os.str ());
  }
  use (std::string{p.path});
  use (std::filesystem::path{p.path}.string ());
  auto q = p;
  q.path.remove_dot_segments ();
  use (q);
  q.path.remove_dot_segments ();
  sink += (p == q) + (p != q) + (q.path == p.path) + (p.authority && *p.authority == *p.authority);
  use (uri::join (base, p));
  use (uri::join (base, p, false));
  use (uri::join (p, base));
  use (uri::join (p, p));
  use (uri::join (p, q, false));
  codec<std::string> (p);
  codec<std::vector<char>> (p);
  did (20);
}

template <typename From, typename To> void transcode (std::basic_string_view<From> in) {
  icubaby::transcoder<From, To> t;
  std::basic_string<To> out;
  for (auto u : in) t (u, std::back_inserter (out));
  t.end_cp (std::back_inserter (out));
  sink += t.well_formed () + t.partial () + static_cast<std::uint64_t> (icubaby::length (out));
  sink += static_cast<std::uint64_t> (icubaby::index (out, 2) - out.begin ());
  auto const v = std::ranges::subrange{in.data (), in.data () + in.size ()} | icubaby::views::transcode<From, To>;
  std::size_t n = 0;
  for (auto u : v) {
    sink = sink * 31 + static_cast<std::uint64_t> (u);
    ++n;
  }
  MC_CHECK (n == out.size (), "view and transcoder give ", n, " and ", out.size (), " units");
  sink += v.well_formed ();
}
template <typename To> void transcode_bytes (std::string_view s) {
  icubaby::transcoder<std::byte, To> t;
  std::basic_string<To> out;
  for (char c : s) t (static_cast<std::byte> (c), std::back_inserter (out));
  t.end_cp (std::back_inserter (out));
  auto const* const p = reinterpret_cast<std::byte const*> (s.data ());
  auto const v = std::ranges::subrange{p, p + s.size ()} | icubaby::views::transcode<std::byte, To>;
  std::size_t n = 0;
  for (auto u : v) {
    sink = sink * 31 + static_cast<std::uint64_t> (u);
    ++n;
  }
  MC_CHECK (n == out.size (), "view and transcoder give ", n, " and ", out.size (), " units");
}
template <typename U> void unit_operations (std::basic_string<U> const& in) {
  // an exact copy
  mc::Exact const raw{{reinterpret_cast<char const*> (in.data ()), in.size () * sizeof (U)}, sizeof (U)};
  std::basic_string_view<U> const v{reinterpret_cast<U const*> (raw.view ().data ()), in.size ()};
  transcode<U, char8_t> (v);
  transcode<U, char16_t> (v);
  transcode<U, char32_t> (v);
  if constexpr (sizeof (U) == 4) {
    for (bool plain : {false, true}) {
      std::string out;
      uri::punycode::encode (v, plain, std::back_inserter (out));
      use (out);
    }
  }
  did (6);
}

inline void text_operations (std::string_view t) {
  for (auto const& r : {uri::split (t), uri::split_reference (t)})
    if (r) {
      use (*r);
      parts_operations (*r);
    }
  for (bool strict : {true, false}) {
    if (auto const r = uri::join (base_text, t, strict)) use (*r);
    if (auto const r = uri::join (t, "g/../h", strict)) use (*r);
    if (auto const r = uri::join (t, t, strict)) use (*r);
  }
  for (unsigned i = 0; i < 8; ++i) {
    static constexpr uri::pctencode_set sets[] = {uri::pctencode_set::none, uri::pctencode_set::fragment, uri::pctencode_set::query,
                                              uri::pctencode_set::special_query, uri::pctencode_set::path, uri::pctencode_set::userinfo,
                                              uri::pctencode_set::component, uri::pctencode_set::form_urlencoded};
    auto const s = uri::pctencode (t, sets[i]);
    use (s);
    sink += uri::needs_pctencode (t, sets[i]) + uri::needs_pctencode (t.begin (), t.end (), sets[i]);
    // exactly as much room as is needed, and not one byte more
    std::unique_ptr<char[]> const room{new char[s.size ()]};
    auto* const end = uri::pctencode (t.begin (), t.end (), room.get (), sets[i]);
    MC_CHECK (end == room.get () + s.size (), "pctencode writes ", end - room.get (), " bytes instead of ", s.size ());
  }
  use (uri::pctdecode (t));
  sink += uri::needs_pctdecode (t.begin (), t.end ());
  std::string decoded;
  for (char const c : uri::pctdecoder{t}) decoded += c;
  for (char const c : t | uri::views::pctdecode) decoded += c;
  for (auto it = uri::pctdecode_begin (t), e = uri::pctdecode_end (t); it != e; it++) decoded += *it;
  use (decoded);
  auto const puny = uri::punycode::decode (t);
  if (auto const* const v = std::get_if<1> (&puny)) {
    std::string out;
    uri::punycode::encode (v->str, true, std::back_inserter (out));
    use (out);
    for (auto c : v->str | icubaby::views::transcode<char32_t, char8_t>) sink += c;
  } else {
    use (std::get<0> (puny).message ());
    use (std::get<0> (puny).category ().name ());
  }
  transcode_bytes<char8_t> (t);
  transcode_bytes<char16_t> (t);
  transcode_bytes<char32_t> (t);
  std::u8string u8;
  std::u32string u32, wide;
  for (unsigned char c : t) {
    u8 += static_cast<char8_t> (c);
    u32 += c;
    wide += c * 0x1010101U ^ 0x10FF;
  }
  unit_operations (u8);
  unit_operations (u32);
  unit_operations (wide);
  // rules
  auto const any_of = [&] (auto... m) {
    uri::rule r{t};
    ((sink += r.concat (m).done ()), ...);
    ((sink += r.star (m).done ()), ...);
    ((sink += r.optional (m, [] (std::string_view s) { use (s); }).done ()), ...);
    sink += r.star ([&] (uri::rule const& x) { return x.alternative (m...).matched ("any", x); }, 1U, 3U).done ();
  };
  any_of (&uri::alpha, &uri::digit, &uri::hexdig, uri::single_char ('%'), uri::single_char ('\xC3'), uri::char_range ('a', 'f'),
          uri::char_range ('0', '9'));
  for (char c : {'a', '%', '\xC3', '\0'}) sink += uri::find_last (t, c).size ();
  sink += uri::starts_with (t, std::string_view{"xn--"}) + uri::starts_with (std::string_view{"xn--"}, t) + uri::starts_with (t, t);
  did (60);
}

inline void component_operations (std::string_view t) {
  using uri::parts;
  std::vector<parts> values (9);
  values[0].scheme = t;
  values[1].ensure_authority ().userinfo = t;
  values[2].ensure_authority ().host = t;
  values[3].ensure_authority ().port = t;
  values[4].path.segments = {t};
  values[5].query = t;
  values[6].fragment = t;
  auto& all = values[7];
  all.scheme = t;
  all.ensure_authority ().userinfo = t;
  all.authority->host = t;
  all.authority->port = t;
  all.path.absolute = true;
  all.path.segments = {t, "..", t, t};
  all.query = t;
  all.fragment = t;
  auto& some = values[8];
  some.scheme = "s";
  some.path.absolute = t.size () % 2 == 0;
  some.path.segments.assign (40, t);
  for (auto const& p : values) parts_operations (p);
}

}  // namespace everything

#endif  // VERIF_EVERYTHING_HPP
