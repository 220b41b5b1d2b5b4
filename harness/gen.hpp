// Shared enumerations of URI text and of parts values.
#ifndef VERIF_GEN_HPP
#define VERIF_GEN_HPP

#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <vector>

#include "lib.hpp"

namespace gen {

using texts = std::vector<std::string>;

// Every sequence of up to n items drawn from alphabet, shortest first.
template <typename F> void sequences (std::size_t alphabet, std::size_t max_len, F f) {
  std::vector<std::size_t> w;
  for (std::size_t n = 0; n <= max_len; ++n) {
    w.assign (n, 0);
    for (;;) {
      f (w);
      std::size_t i = n;
      while (i > 0 && ++w[i - 1] == alphabet) w[--i] = 0;
      if (i == 0) break;
    }
    if (alphabet == 0) break;
  }
}
inline std::string join (texts const& items, std::vector<std::size_t> const& w, std::string_view sep = {}) {
  std::string r;
  for (std::size_t i = 0; i < w.size (); ++i) {
    if (i > 0) r += sep;
    r += items[w[i]];
  }
  return r;
}

// ---- component texts (each valid in its place) ----
inline texts const schemes{"", "s:", "Http:", "a+-.9:"};  // "" = no scheme
inline texts const authorities{"",  // no authority
                               "//", "//h", "//h.x", "//@", "//u@h", "//u:p%40@", "//:@h:", "//h:", "//h:80", "//u@h:080", "//:1",
                               "//1.2.3.4", "//1.2.3.4:5", "//1.2.3.4.c:5", "//256.1.1.1", "//[::]", "//[::1]:8", "//u@[1:2:3:4:5:6:7:8]",
                               "//[1::1.2.3.4]:", "//[V1f.a:b]:7", "//%41%e2%82%ac:9", "//a@b.c-_~!$&'()*+,;=:1", "//[1:2::3:4]",
                               "//[1:2:3:4:5:6:7::]", "//[a:b:c:d:e:f:1.2.3.4]", "//u:p:q@h"};
inline texts const paths{"", "/", "//", "/a", "/a/", "a", "a/", "a/b", "/a//b", "a//", "/.", "..", "./", "/..//.", "%2F/b", "/a:b@c", "a:b",
                         "/%00", "///", "/;p=1,2/=", ".a/b..", "a@b/c:d", "*/!$&'()*+,;=", "./a:b", "/a/b/c/d/e/f/g"};
inline texts const queries{"", "?", "?q", "?a/b?c", "?%3f=&:@", "??", "?[]"};  // "?[]" is not valid
inline texts const fragments{"", "#", "#f", "#a/b?c:@", "#%23", "#?"};

// The product of the above; f(text).
template <typename F> void product (F f) {
  for (auto const& s : schemes)
    for (auto const& a : authorities)
      for (auto const& p : paths)
        for (auto const& q : queries)
          for (auto const& fr : fragments) f (s + a + p + q + fr);
}

// ---- names with a meaning elsewhere, which the URI grammar and RFC 3986 give no meaning to ----
namespace known {
inline texts const schemes{"",     "http:", "https:",      "HTTP:", "HtTpS:",  "ftp:",  "file:", "FILE:",    "mailto:", "urn:",
                           "data:", "ws:",   "javascript:", "ssh:",  "about:", "tel:", "c:", "git+ssh:", "xn--a:",
                           // and of things that are not URIs to RFC 3986
                           " http:", "<http:", "http :", "ht_tp:", "1http:", "%68ttp:", "h%74tp:", "http:\\\\"};
inline texts const infos{"", "@", "user@", "user:pw@", "user:@", ":@", "anonymous@", "root:%00@", "www.example.com:80@", "a@b@", "%u0041@", "[u]@"};
inline texts const hosts{"",          "localhost", "LOCALHOST",         "example.com", "example.com.", "EXAMPLE.com",    "www.example.com", "127.0.0.1", "0.0.0.0",
                         "255.255.255.255", "127.1", "0177.0.0.1", "0x7f000001", "2130706433", "xn--bcher-kva.example", "XN--A", "xn--", "a..b", ".", "-a-", "_srv._tcp.h",
                         "%6c%6fcalhost", "b%C3%BCcher", "a%2Eb", "[::1]", "[::]", "[fe80::1]", "[::ffff:127.0.0.1]", "[FE80::A]", "[::FFFF:7F00:1]", "[2001:db8::]",
                         "[fe80::1%25eth0]", "[fe80::1%eth0]", "[fe80::1%251]", "::1", "[::1", "::1]", "[]", "[localhost]", "[127.0.0.1]", "[::1.2.3]", "[::01.2.3.4]", "[::1.2.3.4.5]",
                         "[v1.x]", "[v.x]", "[v1.]", "[1.x]", "[vg.x]", "[v1.fe80::a+en1]", "[::12345]", "[1:2:3:4:5:6:7:8:9]", "[::g]", "[[::1]]", "[::1]x", "x[::1]", "*", "b\xC3\xBC" "cher", "ex ample",
                         "%u0041", "a\\b", "{h}", "$HOST", "h|i"};
inline texts const ports{"", ":", ":0", ":00", ":80", ":080", ":443", ":21", ":22", ":8080", ":65535", ":65536", ":99999999999999999999", ":-1", ":+80", ":http", ":80:90", ":%38%30", ": 80", ":8_0"};
inline texts const paths{"",          "/",         "/index.html", "/index.html/", "/%7Euser/",  "/~user/", "/a;jsessionid=1", "/c:/x",   "/C|/x",  "/%2e",
                         "/%2E%2e/x", "/a%2Fb",    "/a%5cb",      "/.well-known/x", "/...",     "/..a",    "/a./b..",         "/*",      "/a+b",   "/a%20b/",
                         "/%00",      "/%zz",      "/favicon.ico", "user@example.com", "isbn:0-1", "index.html", "~",        "c%3A/x", "text/plain,x", "/a,b=1;c:d",
                         "/%u00e9", "/&#x20;", "/a b", "/\\a", "/{x}", "/a[1]", "/\xC3\xA9", "/a\r\n", "/a>", "/%", "/%2", "/^a|b`"};
inline texts const queries{"", "?", "?q=1", "?a=1&b=2", "?a=1&a=2", "?a+b=%20", "?http://h/p?q", "?&", "?=", "?q=%23", "?%u0041", "?a[]=1", "?a b", "?\xC3\xA9", "?a|b", "?a^b"};
inline texts const fragments{"", "#", "#top", "#!/x", "#a=1&t=2", "#:~:text=x", "#%23", "##", "#a#b", "#a b", "#\r\n", "#\xC3\xA9", "#[1]"};
// pieces of encoded text
inline texts const bits{"%41", "%2F", "%2f", "%25", "%2541", "%u0041", "%U0041", "+",  "%2B", "%20", "&amp;", "&#37;", "%C3%A9", "\xC3\xA9", "%0D%0A", "\r\n", "~",   "%7E", "=",
                        "\\x41", "\\u0041", "=41", "$41", "%%", "%", "%4", "41", "%zz", "%x41", "% 41", "%+1", "%-1", "%0x41", "%FF", "%00", "http://", "\xEF\xBC\x85" "41"};
}  // namespace known

// Products of the well-known names; f(text).
template <typename F> void wellknown (F f) {
  for (auto const& s : known::schemes) {
    for (auto const& u : known::infos)
      for (auto const& h : known::hosts)
        for (auto const& n : known::ports)
          for (char const* rest : {"", "/", "?q"}) f (s + "//" + u + h + n + rest);
    for (char const* a : {"", "//", "//localhost", "//example.com:80", "//user@127.0.0.1", "//[::1]:443"})
      for (auto const& p : known::paths)
        for (auto const& q : known::queries)
          for (auto const& fr : known::fragments) f (s + a + p + q + fr);
  }
}
// Pairs of texts that differ in one well-known name only; f(text, text).
template <typename F> void wellknown_pairs (F f) {
  auto const vary = [&f] (texts const& what, auto make) {
    for (std::size_t i = 0; i < what.size (); ++i)
      for (std::size_t j = i + 1; j < what.size (); ++j) f (make (what[i]), make (what[j]));
  };
  using S = std::string const&;
  for (char const* rest : {"//h", "//localhost:80/", "/x", "x", "//user@h:21/a?q#f", "//", "?", ""})
    vary (known::schemes, [=] (S s) { return s + rest; });
  for (S s : known::schemes) {
    vary (known::infos, [&] (S u) { return s + "//" + u + "example.com:80/"; });
    for (char const* port : {"", ":80"})
      vary (known::hosts, [&] (S h) { return s + "//" + h + port + "/x"; });
    for (char const* host : {"", "localhost", "example.com", "127.0.0.1", "[::1]", "user@h"})
      for (char const* rest : {"", "/", "/x?q#f"})
        vary (known::ports, [&] (S p) { return s + "//" + host + p + rest; });
    for (char const* a : {"", "//", "//localhost", "//h"})
      for (char const* q : {"", "?q"})
        vary (known::paths, [&] (S p) { return s + a + p + q; });
    for (char const* a : {"", "//h", "//h/", "/x", "//h/index.html"}) {
      vary (known::queries, [&] (S q) { return s + a + q; });
      vary (known::fragments, [&] (S fr) { return s + a + fr; });
    }
  }
}

// Every text over a small alphabet of structural characters.
inline texts const structural{"s", ":", "/", "?", "#", "@", "1", ".", "[", "]", "%41"};
template <typename F> void short_texts (std::size_t max_len, F f) {
  sequences (structural.size (), max_len, [&] (auto const& w) { f (join (structural, w)); });
}

// Every word of up to max_len (and more for the smaller alphabets) over the characters that matter in one
// component, in texts around it; f(text).
template <typename F> void component_words (unsigned max_len, F f) {
  auto const each = [&f] (texts const& alphabet, unsigned n, std::vector<std::pair<char const*, char const*>> const& around) {
    sequences (alphabet.size (), n, [&] (auto const& w) {
      auto const word = join (alphabet, w);
      for (auto const& [before, after] : around) f (before + word + after);
    });
  };
  each ({"0", "1", "8"}, max_len + 3, {{"s://h:", ""}, {"//u@[::1]:", "/x"}});
  each ({"a", "Z", "1", "+", "-", "."}, max_len, {{"a", ":"}, {"", "://h/p"}});
  each ({"u", ":", "%41", "%3a", "!", ";"}, max_len, {{"s://", "@h/"}, {"//", "@h:1"}});
  each ({"h", ".", "-", "%2E", "1", "~"}, max_len, {{"s://", ""}, {"//u@", ":1/"}});
  each ({"0", "2", "5", "."}, max_len + 2, {{"s://", "/"}, {"//[::", "]"}});
  each ({"1", "a0", "::", ":", "1.2.3.4"}, max_len + 1, {{"s://[", "]"}});
  each ({".", "/", "a", "%2e", ":", ";"}, max_len + 1, {{"s:", ""}, {"s://h/", "?q"}, {"", ""}, {"/", "#f"}});
  each ({"?", "/", "=", "&", "%20", "+", ":"}, max_len, {{"s://h/p?", ""}, {"?", "#f"}, {"s:#", ""}, {"a?b#", ""}});
}

// One component made long or numerous; f(text).
template <typename F> void sizes (std::vector<unsigned> const& ns, F f) {
  for (auto n : ns) {
    auto const rep = [n] (std::string_view s) {
      std::string r;
      for (unsigned i = 0; i < n; ++i) r += s;
      return r;
    };
    f ("s" + rep ("x") + ":");
    f ("s://" + rep ("u") + "@h");
    f ("s://" + rep (":") + "@h");
    f ("s://" + rep ("h.") + "x");
    f ("//" + rep ("1.2.3.4") + ":1");
    f ("//h:" + rep ("12"));
    f ("//[v" + rep ("a") + "." + rep (":") + "]");
    f ("s://h" + rep ("/"));
    f ("s://h" + rep ("/ab"));
    f ("s:" + rep ("/"));
    f ("s:/a" + rep ("/b"));
    f ("s:a" + rep ("/b"));
    f ("a" + rep ("/b"));
    f ("/" + rep ("abc"));
    f (rep ("a") + "?" + rep ("b/") + "#" + rep ("c?"));
    f ("?" + rep ("%41"));
    f ("#" + rep ("x"));
    f ("s:" + rep ("../"));
    f ("/" + rep ("a/../"));
  }
}

// ---- parts values ----
// A flat, serialisable description of a parts value, whose strings it owns.
struct Value {
  using opt = std::optional<std::string>;
  opt scheme;
  bool has_authority = false;
  opt userinfo;
  std::string host;
  opt port;
  bool absolute = false;
  texts segments;
  opt query, fragment;

  uri::parts parts () const {  // views into *this
    uri::parts p;
    p.scheme = view (scheme);
    if (has_authority) {
      auto& a = p.ensure_authority ();
      a.userinfo = view (userinfo);
      a.host = host;
      a.port = view (port);
    }
    p.path.absolute = absolute;
    for (auto const& s : segments) p.path.segments.emplace_back (s);
    p.query = view (query);
    p.fragment = view (fragment);
    return p;
  }
  ref::Comp comp () const {
    auto p = parts ();
    return lib::comp (p);
  }
  std::string pack () const {
    mc::Writer w;
    auto const o = [&w] (opt const& s) {
      w.u8 (s ? 1 : 0);
      if (s) w.str (*s);
    };
    o (scheme);
    w.u8 (has_authority);
    if (has_authority) {
      o (userinfo);
      w.str (host);
      o (port);
    }
    w.u8 (absolute).u32 (static_cast<std::uint32_t> (segments.size ()));
    for (auto const& s : segments) w.str (s);
    o (query);
    o (fragment);
    return w.s;
  }
  static Value unpack (mc::Reader& r) {
    Value v;
    auto const o = [&r] () -> opt {
      if (r.u8 () == 0) return std::nullopt;
      return std::string{r.str ()};
    };
    v.scheme = o ();
    v.has_authority = r.u8 () != 0;
    if (v.has_authority) {
      v.userinfo = o ();
      v.host = std::string{r.str ()};
      v.port = o ();
    }
    v.absolute = r.u8 () != 0;
    auto const n = r.u32 ();
    for (std::uint32_t i = 0; i < n; ++i) v.segments.emplace_back (r.str ());
    v.query = o ();
    v.fragment = o ();
    return v;
  }
  static Value unpack (std::string_view s) {
    mc::Reader r{s};
    return unpack (r);
  }
  static Value from (ref::Comp const& c) {
    Value v;
    v.scheme = c.scheme;
    if (c.authority) {
      v.has_authority = true;
      v.userinfo = c.authority->userinfo;
      v.host = c.authority->host;
      v.port = c.authority->port;
    }
    v.absolute = !c.path.empty () && c.path[0] == '/';
    if (!c.path.empty ()) v.segments = ref::split_on (v.absolute ? std::string_view{c.path}.substr (1) : c.path, '/');
    v.query = c.query;
    v.fragment = c.fragment;
    return v;
  }
  bool operator== (Value const&) const = default;

private:
  static std::optional<std::string_view> view (opt const& s) {
    if (!s) return std::nullopt;
    return std::string_view{*s};
  }
};

// A parts value whose every string lies in its own exactly-sized heap block.
class ExactParts {
public:
  explicit ExactParts (Value const& v) {
    auto const put = [this] (std::string const& s) {
      blocks_.push_back (std::make_unique<mc::Exact> (s));
      return blocks_.back ()->view ();
    };
    if (v.scheme) p.scheme = put (*v.scheme);
    if (v.has_authority) {
      auto& a = p.ensure_authority ();
      if (v.userinfo) a.userinfo = put (*v.userinfo);
      a.host = put (v.host);
      if (v.port) a.port = put (*v.port);
    }
    p.path.absolute = v.absolute;
    for (auto const& s : v.segments) p.path.segments.push_back (put (s));
    if (v.query) p.query = put (*v.query);
    if (v.fragment) p.fragment = put (*v.fragment);
  }
  uri::parts p;

private:
  std::vector<std::unique_ptr<mc::Exact>> blocks_;
};

}  // namespace gen

#endif  // VERIF_GEN_HPP
