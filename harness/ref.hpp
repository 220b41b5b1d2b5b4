// Reference models: deliberately plain implementations of the specifications
// (RFC 3986, RFC 3492, the WHATWG percent-encode sets, the Unicode encoding forms).
// Nothing here is taken from, or calls, the library under test.
#ifndef VERIF_REF_HPP
#define VERIF_REF_HPP

#include <cstdint>
#include <optional>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

namespace ref {

using std::optional;
using std::string;
using std::string_view;

// ------------------------------------------------------------------ characters
inline bool alpha (char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
inline bool digit (char c) { return c >= '0' && c <= '9'; }
inline bool hexd (char c) { return digit (c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
inline unsigned hexval (char c) {
  return digit (c) ? static_cast<unsigned> (c - '0')
                   : static_cast<unsigned> ((c >= 'a' ? c - 'a' : c - 'A') + 10);
}
inline bool unreserved (char c) { return alpha (c) || digit (c) || c == '-' || c == '.' || c == '_' || c == '~'; }
inline bool sub_delim (char c) { return c != '\0' && string_view{"!$&'()*+,;="}.find (c) != string_view::npos; }

// Every character satisfies unreserved / sub-delims / one of extra, or starts a pct-encoded triplet.
inline bool chars (string_view s, string_view extra, bool pct = true) {
  for (std::size_t i = 0; i < s.size (); ++i) {
    char const c = s[i];
    if (c == '%' && pct) {
      if (i + 2 >= s.size () || !hexd (s[i + 1]) || !hexd (s[i + 2])) return false;
      i += 2;
    } else if (!unreserved (c) && !sub_delim (c) && extra.find (c) == string_view::npos) {
      return false;
    }
  }
  return true;
}

inline bool is_scheme (string_view s) {
  if (s.empty () || !alpha (s[0])) return false;
  for (char c : s)
    if (!alpha (c) && !digit (c) && c != '+' && c != '-' && c != '.') return false;
  return true;
}
inline bool is_userinfo (string_view s) { return chars (s, ":"); }
inline bool is_port (string_view s) {
  for (char c : s)
    if (!digit (c)) return false;
  return true;
}
inline bool is_segment (string_view s) { return chars (s, ":@"); }
inline bool is_query (string_view s) { return chars (s, ":@/?"); }

inline std::vector<string> split_on (string_view s, char sep) {
  std::vector<string> r;
  std::size_t p = 0;
  for (;;) {
    auto const q = s.find (sep, p);
    if (q == string_view::npos) {
      r.emplace_back (s.substr (p));
      return r;
    }
    r.emplace_back (s.substr (p, q - p));
    p = q + 1;
  }
}

inline bool is_ipv4 (string_view s) {
  auto const parts = split_on (s, '.');
  if (parts.size () != 4) return false;
  for (auto const& p : parts) {
    if (p.empty () || p.size () > 3 || !is_port (p)) return false;
    if (p.size () > 1 && p[0] == '0') return false;
    if (std::stoi (p) > 255) return false;
  }
  return true;
}
inline bool is_h16 (string_view s) {
  if (s.empty () || s.size () > 4) return false;
  for (char c : s)
    if (!hexd (c)) return false;
  return true;
}
// Number of 16-bit groups in a ':'-separated list, -1 if malformed. An IPv4 address may end it.
inline int groups (string_view s, bool ipv4_allowed) {
  if (s.empty ()) return 0;
  auto const parts = split_on (s, ':');
  int n = 0;
  for (std::size_t i = 0; i < parts.size (); ++i) {
    if (is_h16 (parts[i])) {
      ++n;
    } else if (ipv4_allowed && i + 1 == parts.size () && is_ipv4 (parts[i])) {
      n += 2;
    } else {
      return -1;
    }
  }
  return n;
}
inline bool is_ipv6 (string_view s) {
  auto const dc = s.find ("::");
  if (dc == string_view::npos) return groups (s, true) == 8;
  auto const l = groups (s.substr (0, dc), false);
  auto const r = groups (s.substr (dc + 2), true);
  return l >= 0 && r >= 0 && l + r <= 7;
}
inline bool is_ipvfuture (string_view s) {
  if (s.empty () || (s[0] != 'v' && s[0] != 'V')) return false;
  auto const dot = s.find ('.');
  if (dot == string_view::npos || dot < 2) return false;
  for (char c : s.substr (1, dot - 1))
    if (!hexd (c)) return false;
  auto const rest = s.substr (dot + 1);
  return !rest.empty () && chars (rest, ":", false);
}
inline bool is_host (string_view s) {
  if (!s.empty () && s[0] == '[') {
    if (s.size () < 2 || s.back () != ']') return false;
    auto const in = s.substr (1, s.size () - 2);
    return is_ipv6 (in) || is_ipvfuture (in);
  }
  return chars (s, "");
}

// ------------------------------------------------------------------ URI structure
struct Auth {
  optional<string> userinfo;
  string host;
  optional<string> port;
  bool operator== (Auth const&) const = default;
};
struct Comp {  // RFC 3986 components; the path as text
  optional<string> scheme;
  optional<Auth> authority;
  string path;
  optional<string> query;
  optional<string> fragment;
  bool operator== (Comp const&) const = default;
};
// Where the non-path components start in the source text.
struct Where {
  std::size_t userinfo = 0, host = 0, port = 0, path = 0, query = 0, fragment = 0;
};

inline optional<Comp> parse (string_view s, bool reference, Where* where = nullptr) {
  Comp r;
  Where w;
  std::size_t p = 0;
  auto const special = s.find_first_of (":/?#");
  if (special != string_view::npos && s[special] == ':') {
    r.scheme = string{s.substr (0, special)};
    if (!is_scheme (*r.scheme)) return {};
    p = special + 1;
  } else if (!reference) {
    return {};
  }
  if (s.substr (p).starts_with ("//")) {
    p += 2;
    auto const e = std::min (s.find_first_of ("/?#", p), s.size ());
    string_view const a = s.substr (p, e - p);
    Auth auth;
    std::size_t h = 0;
    if (auto const at = a.find ('@'); at != string_view::npos) {
      auth.userinfo = string{a.substr (0, at)};
      w.userinfo = p;
      if (!is_userinfo (*auth.userinfo)) return {};
      h = at + 1;
    }
    auto colon = a.find (':', h);
    if (h < a.size () && a[h] == '[') {
      auto const close = a.find (']', h);
      if (close == string_view::npos) return {};
      colon = close + 1;
      if (colon < a.size () && a[colon] != ':') return {};
      if (colon >= a.size ()) colon = string_view::npos;
    }
    auth.host = string{a.substr (h, colon == string_view::npos ? string_view::npos : colon - h)};
    w.host = p + h;
    if (!is_host (auth.host)) return {};
    if (colon != string_view::npos) {
      auth.port = string{a.substr (colon + 1)};
      w.port = p + colon + 1;
      if (!is_port (*auth.port)) return {};
    }
    r.authority = auth;
    p = e;
  }
  auto const pe = std::min (s.find_first_of ("?#", p), s.size ());
  r.path = string{s.substr (p, pe - p)};
  w.path = p;
  for (auto const& seg : split_on (r.path, '/'))
    if (!is_segment (seg)) return {};
  if (!r.scheme && !r.authority && split_on (r.path, '/')[0].find (':') != string::npos) return {};
  p = pe;
  if (p < s.size () && s[p] == '?') {
    auto const qe = std::min (s.find ('#', p), s.size ());
    r.query = string{s.substr (p + 1, qe - p - 1)};
    w.query = p + 1;
    if (!is_query (*r.query)) return {};
    p = qe;
  }
  if (p < s.size ()) {
    r.fragment = string{s.substr (p + 1)};
    w.fragment = p + 1;
    if (!is_query (*r.fragment)) return {};
  }
  if (where != nullptr) *where = w;
  return r;
}

// RFC 3986 5.3.
inline string compose (Comp const& c) {
  string r;
  if (c.scheme) r += *c.scheme + ":";
  if (c.authority) {
    r += "//";
    if (c.authority->userinfo) r += *c.authority->userinfo + "@";
    r += c.authority->host;
    if (c.authority->port) r += ":" + *c.authority->port;
  }
  r += c.path;
  if (c.query) r += "?" + *c.query;
  if (c.fragment) r += "#" + *c.fragment;
  return r;
}

// RFC 3986 5.2.4, literally.
inline string remove_dots_rfc (string in) {
  string out;
  auto const starts = [&in] (string_view p) { return string_view{in}.starts_with (p); };
  auto const drop_last = [&out] {
    auto const p = out.rfind ('/');
    out.erase (p == string::npos ? 0 : p);
  };
  while (!in.empty ()) {
    if (starts ("../")) {
      in.erase (0, 3);
    } else if (starts ("./")) {
      in.erase (0, 2);
    } else if (starts ("/./")) {
      in.erase (0, 2);
    } else if (in == "/.") {
      in = "/";
    } else if (starts ("/../")) {
      in.erase (0, 3);
      drop_last ();
    } else if (in == "/..") {
      in = "/";
      drop_last ();
    } else if (in == "." || in == "..") {
      in.clear ();
    } else {
      auto const e = in.find ('/', 1);
      out += in.substr (0, e);
      in.erase (0, e);
    }
  }
  return out;
}
// A rootless path stays rootless and is normalised like the rooted one.
inline string remove_dots (string const& path) {
  if (path.empty ()) return path;
  if (path[0] == '/') return remove_dots_rfc (path);
  return remove_dots_rfc ("/" + path).substr (1);
}

// RFC 3986 5.2.2 / 5.2.3.
inline Comp resolve (Comp const& base, Comp const& ref, bool strict) {
  Comp t;
  auto scheme = ref.scheme;
  if (!strict && scheme == base.scheme) scheme.reset ();
  if (scheme) {
    t.scheme = scheme;
    t.authority = ref.authority;
    t.path = remove_dots (ref.path);
    t.query = ref.query;
  } else {
    if (ref.authority) {
      t.authority = ref.authority;
      t.path = remove_dots (ref.path);
      t.query = ref.query;
    } else {
      if (ref.path.empty ()) {
        t.path = base.path;
        t.query = ref.query ? ref.query : base.query;
      } else {
        if (ref.path[0] == '/') {
          t.path = remove_dots (ref.path);
        } else {
          string merged;
          if (base.authority && base.path.empty ()) {
            merged = "/" + ref.path;
          } else {
            auto const p = base.path.rfind ('/');
            merged = (p == string::npos ? string{} : base.path.substr (0, p + 1)) + ref.path;
          }
          t.path = remove_dots (merged);
        }
        t.query = ref.query;
      }
      t.authority = base.authority;
    }
    t.scheme = base.scheme;
  }
  t.fragment = ref.fragment;
  return t;
}

// ------------------------------------------------------------------ percent encoding
enum class set { none, fragment, query, special_query, path, userinfo, component, form };

// WHATWG URL section 1.3, with '%' added to every set but none so that decoding undoes encoding.
inline bool in_set (unsigned char c, set es) {
  if (c <= 0x20 || c > 0x7E) return true;
  auto const any = [c] (char const* chars) { return string_view{chars}.find (static_cast<char> (c)) != string_view::npos; };
  if (es == set::none) return false;
  if (c == '%') return true;
  if (es == set::fragment) return any ("\"<>`");
  if (any ("\"#<>")) return true;
  if (es == set::query) return false;
  if (es == set::special_query) return c == '\'';
  if (any ("?`{}")) return true;
  if (es == set::path) return false;
  if (any ("/:;=@[\\]^|")) return true;
  if (es == set::userinfo) return false;
  if (any ("$&+,")) return true;
  if (es == set::component) return false;
  return any ("!'()~");
}
inline string pct_byte (unsigned char c) {
  char const* d = "0123456789ABCDEF";
  return string{'%', d[c >> 4], d[c & 15]};
}
inline string pct_encode (string_view s, set es) {
  string r;
  for (char c : s) {
    if (in_set (static_cast<unsigned char> (c), es))
      r += pct_byte (static_cast<unsigned char> (c));
    else
      r += c;
  }
  return r;
}
inline string pct_decode (string_view s) {
  string r;
  for (std::size_t i = 0; i < s.size (); ++i) {
    if (s[i] == '%' && i + 2 < s.size () && hexd (s[i + 1]) && hexd (s[i + 2])) {
      r += static_cast<char> (hexval (s[i + 1]) * 16 + hexval (s[i + 2]));
      i += 2;
    } else {
      r += s[i];
    }
  }
  return r;
}

// ------------------------------------------------------------------ Unicode encoding forms
inline bool scalar (std::uint32_t c) { return c <= 0x10FFFF && !(c >= 0xD800 && c <= 0xDFFF); }
inline void put8 (string& s, char32_t c) {
  auto const b = [&s] (std::uint32_t v) { s += static_cast<char> (v); };
  if (c < 0x80) {
    b (c);
  } else if (c < 0x800) {
    b (0xC0 | (c >> 6));
    b (0x80 | (c & 63));
  } else if (c < 0x10000) {
    b (0xE0 | (c >> 12));
    b (0x80 | ((c >> 6) & 63));
    b (0x80 | (c & 63));
  } else {
    b (0xF0 | (c >> 18));
    b (0x80 | ((c >> 12) & 63));
    b (0x80 | ((c >> 6) & 63));
    b (0x80 | (c & 63));
  }
}
inline string utf8 (std::u32string_view s) {
  string r;
  for (char32_t c : s) put8 (r, c);
  return r;
}
inline std::u16string utf16 (std::u32string_view s) {
  std::u16string r;
  for (char32_t c : s) {
    if (c < 0x10000) {
      r += static_cast<char16_t> (c);
    } else {
      r += static_cast<char16_t> (0xD800 + ((c - 0x10000) >> 10));
      r += static_cast<char16_t> (0xDC00 + ((c - 0x10000) & 0x3FF));
    }
  }
  return r;
}
// Strict decoding; nothing if ill-formed (Unicode table 3-7).
inline optional<std::u32string> from_utf8 (string_view s) {
  std::u32string r;
  for (std::size_t i = 0; i < s.size ();) {
    auto const b = static_cast<unsigned char> (s[i]);
    unsigned n = 0;
    std::uint32_t c = 0;
    if (b < 0x80) {
      c = b;
    } else if (b >= 0xC2 && b <= 0xDF) {
      n = 1;
      c = b & 0x1FU;
    } else if (b >= 0xE0 && b <= 0xEF) {
      n = 2;
      c = b & 0x0FU;
    } else if (b >= 0xF0 && b <= 0xF4) {
      n = 3;
      c = b & 0x07U;
    } else {
      return {};
    }
    if (i + n >= s.size ()) return {};
    for (unsigned k = 1; k <= n; ++k) {
      auto const d = static_cast<unsigned char> (s[i + k]);
      if ((d & 0xC0U) != 0x80) return {};
      c = (c << 6) | (d & 63U);
    }
    if ((n == 2 && c < 0x800) || (n == 3 && c < 0x10000) || !scalar (c)) return {};
    r += static_cast<char32_t> (c);
    i += n + 1;
  }
  return r;
}

// ------------------------------------------------------------------ punycode (RFC 3492 section 6)
namespace puny {

inline std::uint64_t adapt (std::uint64_t delta, std::uint64_t numpoints, bool first) {
  delta = first ? delta / 700 : delta / 2;
  delta += delta / numpoints;
  std::uint64_t k = 0;
  while (delta > ((36 - 1) * 26) / 2) {
    delta /= 36 - 1;
    k += 36;
  }
  return k + (36 - 1 + 1) * delta / (delta + 38);
}
inline std::uint64_t threshold (std::uint64_t k, std::uint64_t bias) {
  return k <= bias ? 1 : k >= bias + 26 ? 26 : k - bias;
}
// The encoding of s; plain: a string without non-ASCII is returned as it is.
inline string encode (std::u32string_view s, bool plain) {
  char const* digits = "abcdefghijklmnopqrstuvwxyz0123456789";
  string out;
  for (char32_t c : s)
    if (c < 0x80) out += static_cast<char> (c);
  std::uint64_t const b = out.size ();
  if (plain && b == s.size ()) return out;
  if (b > 0) out += '-';
  std::uint64_t n = 0x80, delta = 0, bias = 72, h = b;
  while (h < s.size ()) {
    std::uint64_t m = ~std::uint64_t{0};
    for (char32_t c : s)
      if (c >= n && c < m) m = c;
    delta += (m - n) * (h + 1);
    n = m;
    for (char32_t c : s) {
      if (c < n) ++delta;
      if (c == n) {
        std::uint64_t q = delta;
        for (std::uint64_t k = 36;; k += 36) {
          auto const t = threshold (k, bias);
          if (q < t) break;
          out += digits[t + (q - t) % (36 - t)];
          q = (q - t) / (36 - t);
        }
        out += digits[q];
        bias = adapt (delta, h + 1, h == b);
        delta = 0;
        ++h;
      }
    }
    ++delta;
    ++n;
  }
  return out;
}

struct Decoded {
  enum kind { value, bad_input, overflow, bad_or_overflow } what = value;
  std::u32string str;
  bool outside_unicode = false;    // some code point is not a scalar value: an error is acceptable as well
  bool leading_delimiter = false;  // the only delimiter comes first: RFC 3492 and the library's comment differ
};
inline int digit (char c) {
  if (c >= 'a' && c <= 'z') return c - 'a';
  if (c >= 'A' && c <= 'Z') return c - 'A';
  if (c >= '0' && c <= '9') return c - '0' + 26;
  return -1;
}
inline Decoded decode (string_view s) {
  using u128 = unsigned __int128;
  Decoded r;
  auto const d = s.rfind ('-');
  std::size_t in = 0;
  if (d != string_view::npos) {
    for (char c : s.substr (0, d)) {
      if (static_cast<unsigned char> (c) >= 0x80) {
        r.what = Decoded::bad_input;
        return r;
      }
      r.str += static_cast<char32_t> (static_cast<unsigned char> (c));
    }
    in = d + 1;
    r.leading_delimiter = d == 0;
  }
  bool too_big = false;  // the value no longer fits; the syntax is still followed
  u128 n = 0x80, i = 0;
  std::uint64_t bias = 72;
  u128 const limit = static_cast<u128> (1) << 100;
  while (in < s.size ()) {
    u128 const oldi = i;
    u128 w = 1;
    for (std::uint64_t k = 36;; k += 36) {
      if (in >= s.size ()) {
        r.what = too_big ? Decoded::bad_or_overflow : Decoded::bad_input;
        return r;
      }
      int const dg = digit (s[in++]);
      if (dg < 0) {
        r.what = too_big ? Decoded::bad_or_overflow : Decoded::bad_input;
        return r;
      }
      i += static_cast<unsigned> (dg) * w;
      if (i > 0xFFFFFFFFFFFFFFFFULL || w > 0xFFFFFFFFFFFFFFFFULL / 36) too_big = true;
      if (i > limit) i = limit;
      auto const t = threshold (k, bias);
      if (static_cast<std::uint64_t> (dg) < t) break;
      w *= 36 - t;
      if (w > limit) w = limit;
    }
    auto const len = r.str.size () + 1;
    if (n + i / len > 0xFFFFFFFFULL) {
      // RFC 3492 says to fail here. What follows is not looked at.
      r.what = Decoded::overflow;
      return r;
    }
    bias = adapt (static_cast<std::uint64_t> (i - oldi), len, oldi == 0);
    n += i / len;
    i %= len;
    if (!scalar (static_cast<std::uint32_t> (n))) r.outside_unicode = true;
    r.str.insert (static_cast<std::size_t> (i), 1, static_cast<char32_t> (n));
    ++i;
  }
  return r;
}

}  // namespace puny

// The IDNA form of a host: each label with non-ASCII characters becomes "xn--" + punycode.
inline string idna_encode (std::u32string_view host) {
  string out;
  std::u32string label;
  auto const flush = [&] {
    bool non_ascii = false;
    for (char32_t c : label) non_ascii |= c >= 0x80;
    if (non_ascii) out += "xn--";
    out += puny::encode (label, true);
    label.clear ();
  };
  for (char32_t c : host) {
    if (c == U'.') {
      flush ();
      out += '.';
    } else {
      label += c;
    }
  }
  flush ();
  return out;
}

}  // namespace ref

#endif  // VERIF_REF_HPP
