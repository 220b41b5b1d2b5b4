// Glue between the library's types and the reference models.
#ifndef VERIF_LIB_HPP
#define VERIF_LIB_HPP

#include <sstream>

#include "mc.hpp"
#include "ref.hpp"
#include "uri/parts.hpp"
#include "uri/uri.hpp"

namespace lib {

inline std::string text (struct uri::parts::path const& p) {
  std::string r;
  bool first = true;
  for (auto const& s : p.segments) {
    if (!first || p.absolute) r += '/';
    first = false;
    r += s;
  }
  return r;
}
inline std::optional<std::string> copy (std::optional<std::string_view> const& s) {
  if (!s) return std::nullopt;
  return std::string{*s};
}
inline ref::Comp comp (uri::parts const& p) {
  ref::Comp c;
  c.scheme = copy (p.scheme);
  if (p.authority)
    c.authority = ref::Auth{copy (p.authority->userinfo), std::string{p.authority->host}, copy (p.authority->port)};
  c.path = text (p.path);
  c.query = copy (p.query);
  c.fragment = copy (p.fragment);
  return c;
}
// RFC 5.3 text of a parts value: a relative, non-empty path after an authority gets a slash.
inline std::string compose_text (uri::parts const& p) {
  auto c = comp (p);
  if (p.authority && !p.path.absolute && !p.path.segments.empty ()) c.path = "/" + c.path;
  return ref::compose (c);
}
inline std::string show (std::optional<std::string> const& s) { return s ? mc::show (*s) : "absent"; }
inline std::string show (ref::Comp const& c) {
  std::string r = "{scheme=" + show (c.scheme);
  if (c.authority)
    r += " userinfo=" + show (c.authority->userinfo) + " host=" + mc::show (c.authority->host) +
         " port=" + show (c.authority->port);
  return r + " path=" + mc::show (c.path) + " query=" + show (c.query) + " fragment=" + show (c.fragment) + "}";
}
inline std::string show (uri::parts const& p) {
  std::string r = show (comp (p));
  r += p.path.absolute ? " absolute [" : " rootless [";
  for (auto const& s : p.path.segments) r += mc::show (s) + ",";
  return r + "]";
}

}  // namespace lib

#endif  // VERIF_LIB_HPP
