// Shared by the checks of encode() and decode() on parts.
#ifndef VERIF_CODEC_HPP
#define VERIF_CODEC_HPP

#include "gen.hpp"

namespace codec {

using opt = std::optional<std::string>;

// Visit the strings of a parts value in a fixed order: f(name, view, index).
template <typename F> void each (uri::parts const& p, F f) {
  if (p.scheme) f ("scheme", *p.scheme);
  if (p.authority) {
    if (p.authority->userinfo) f ("userinfo", *p.authority->userinfo);
    f ("host", p.authority->host);
    if (p.authority->port) f ("port", *p.authority->port);
  }
  for (auto const& s : p.path.segments) f ("path segment", s);
  if (p.query) f ("query", *p.query);
  if (p.fragment) f ("fragment", *p.fragment);
}
struct Item {
  std::string name;
  std::string_view view;
};
inline std::vector<Item> items (uri::parts const& p) {
  std::vector<Item> r;
  each (p, [&r] (char const* n, std::string_view v) { r.push_back ({n, v}); });
  return r;
}
inline bool same_shape (uri::parts const& a, uri::parts const& b) {
  return a.scheme.has_value () == b.scheme.has_value () && a.authority.has_value () == b.authority.has_value () &&
         (!a.authority || (a.authority->userinfo.has_value () == b.authority->userinfo.has_value () &&
                           a.authority->port.has_value () == b.authority->port.has_value ())) &&
         a.path.absolute == b.path.absolute && a.path.segments.size () == b.path.segments.size () &&
         a.query.has_value () == b.query.has_value () && a.fragment.has_value () == b.fragment.has_value ();
}

// The same store in different conditions before the call.
constexpr unsigned store_kinds = 4;
template <typename Store> void prepare (Store& s, unsigned kind) {
  std::string_view const junk = "previous contents of the store";
  if (kind == 1) s.assign (junk.begin (), junk.end ());
  if (kind == 2) s.reserve (10000);
  if (kind == 3) s.assign (3000, '%');
}
// v lies in the store, or (if empty) at its end.
template <typename Store> bool inside (Store const& s, std::string_view v) {
  auto const* b = s.data ();
  return std::less_equal<char const*>{}(b, v.data ()) && std::less_equal<char const*>{}(v.data () + v.size (), b + s.size ());
}

}  // namespace codec

#endif  // VERIF_CODEC_HPP
