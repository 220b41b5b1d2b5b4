// Representative calls of the whole library, each as an object which can be prepared,
// run (only library work happens there) and shown (results together with arguments).
// Used by C17 (threads), C18 (histories) and C19 (allocation failures).
#ifndef VERIF_CALLS_HPP
#define VERIF_CALLS_HPP

#include <cassert>
#include <filesystem>
#include <functional>
#include <list>
#include <memory>
#include <variant>

#include "gen.hpp"
#include "uri/find_last.hpp"
#include "uri/icubaby.hpp"
#include "uri/parts.hpp"
#include "uri/pctdecode.hpp"
#include "uri/pctencode.hpp"
#include "uri/punycode.hpp"
#include "uri/rule.hpp"
#include "uri/starts_with.hpp"
#include "uri/uri.hpp"

namespace calls {

// Where argument text lives: a heap block of its own, or a slot of one shared buffer, so
// that different calls meet the same addresses with different contents.
struct Place {
  bool shared = false;
  std::map<std::string, std::string_view>* common = nullptr;  // equal texts are the same memory (C17)
  unsigned used = 0;
  std::vector<std::unique_ptr<mc::Exact>> own;
  static constexpr std::size_t slot = 2048;
  static char* arena () {
    static char a[slot * 16];
    return a;
  }
  std::string_view put (std::string_view s) {
    if (shared) {
      if (s.size () > slot || used >= 16) throw std::runtime_error ("argument too long for its slot");
      char* const p = arena () + slot * used++;
      std::memcpy (p, s.data (), s.size ());
      return {p, s.size ()};
    }
    if (common != nullptr) {
      auto const it = common->find (std::string{s});
      if (it != common->end ()) return it->second;
    }
    own.push_back (std::make_unique<mc::Exact> (s));
    if (common != nullptr) common->emplace (std::string{s}, own.back ()->view ());
    return own.back ()->view ();
  }
};

struct Call {
  Place place;
  virtual ~Call () = default;
  virtual void prepare () = 0;       // makes the arguments
  virtual void run () = 0;           // the call under test
  virtual std::string result () const = 0;
  virtual std::string arguments () const = 0;
};

template <typename Args, typename Result> struct CallOf final : Call {
  std::function<Args (Place&)> make;
  std::function<Result (Args&)> call;
  std::function<std::string (Args const&)> show_args;
  std::function<std::string (Result const&, Args const&)> show_result;
  std::optional<Args> args;
  std::optional<Result> res;
  void prepare () override { args.emplace (make (place)); }
  void run () override {
    res.reset ();
    res.emplace (call (*args));
  }
  std::string result () const override { return res ? show_result (*res, *args) : "nothing"; }
  std::string arguments () const override { return show_args (*args); }
};

struct Entry {
  std::string name;
  bool may_terminate = false;  // declared noexcept although it may allocate
  bool stream = false;         // reports a failure through the state of its stream
  std::function<std::unique_ptr<Call> ()> create;
};

inline std::string show (std::optional<uri::parts> const& p) { return p ? lib::show (*p) : "no result"; }
inline std::string show (std::u32string const& s) {
  std::string r;
  for (auto c : s) r += mc::cat (static_cast<std::uint32_t> (c), ' ');
  return r;
}

class List {
public:
  std::vector<Entry> entries;

  template <typename Make, typename Run, typename ShowArgs, typename ShowResult>
  Entry& add (std::string name, Make make, Run run, ShowArgs sa, ShowResult sr) {
    using Args = std::invoke_result_t<Make, Place&>;
    using Result = std::invoke_result_t<Run, Args&>;
    Entry e;
    e.name = std::move (name);
    e.create = [=] () -> std::unique_ptr<Call> {
      auto c = std::make_unique<CallOf<Args, Result>> ();
      c->make = make;
      c->call = run;
      c->show_args = sa;
      c->show_result = sr;
      return c;
    };
    entries.push_back (std::move (e));
    return entries.back ();
  }
  // A call whose argument is one text.
  template <typename Run, typename ShowResult> Entry& text (std::string const& what, std::string const& s, Run run, ShowResult sr) {
    return add (
        what + " " + mc::show (s), [s] (Place& p) { return p.put (s); }, run, [] (std::string_view const& a) { return std::string{a}; },
        [sr] (auto const& r, std::string_view const&) { return sr (r); });
  }
  // A call whose argument is a parts value.
  template <typename Run, typename ShowResult>
  Entry& parts (std::string const& what, gen::Value const& v, Run run, ShowResult sr) {
    return add (
        what + " " + lib::show (v.parts ()), [v] (Place& p) { return place (v, p); }, run, [] (uri::parts const& a) { return lib::show (a); },
        [sr] (auto const& r, uri::parts const&) { return sr (r); });
  }
  static uri::parts place (gen::Value const& v, Place& p) {
    auto r = v.parts ();
    // everything in one text, in order
    std::string all;
    auto const visit = [&] (auto f) {
      if (r.scheme) f (*r.scheme);
      if (r.authority) {
        if (r.authority->userinfo) f (*r.authority->userinfo);
        f (r.authority->host);
        if (r.authority->port) f (*r.authority->port);
      }
      for (auto& s : r.path.segments) f (s);
      if (r.query) f (*r.query);
      if (r.fragment) f (*r.fragment);
    };
    visit ([&] (std::string_view& s) { all += s; });
    auto const text = p.put (all);
    std::size_t at = 0;
    visit ([&] (std::string_view& s) {
      auto const n = s.size ();
      s = text.substr (at, n);
      at += n;
    });
    return r;
  }
};

inline gen::Value value (std::string_view text) {
  if (auto c = ref::parse (text, false)) return gen::Value::from (*c);
  auto c = ref::parse (text, true);
  if (!c) throw std::runtime_error ("not a reference: " + std::string{text});
  return gen::Value::from (*c);
}

struct Decoded {
  std::string store;
  std::variant<std::error_code, uri::parts> r;
};
struct Encoded {
  std::string store;
  uri::parts r;
};

inline std::string show_code (std::error_code const& e) {
  return mc::cat (e.category ().name (), ':', e.value (), ':', e.message ());
}

// large: longer arguments, in place of the ordinary ones.
inline std::vector<Entry> make (bool large) {
    using namespace std::string_literals;
    List l;
    auto const rep = [] (unsigned n, std::string const& s) {
      std::string r;
      for (unsigned i = 0; i < n; ++i) r += s;
      return r;
    };
    auto const id = [] (std::string const& s) { return s; };
    // texts that exercise every component, failures early and late, and pairs of equal length
    using strings = std::vector<std::string>;
    std::vector<std::string> const large_uris{"s://" + rep (300, "h") + "/" + rep (70, "seg/") + "?" + rep (500, "q") + "#" + rep (300, "f"),
                                              "s:" + rep (70, "a/b;c/") + rep (70, "../"), "//u@" + rep (140, "a.") + ":1/" + rep (130, "/"), rep (270, "s") + ":" + rep (260, "%41")};
    std::vector<std::string> const small_uris{"s:",
                                        "http://user:pw@example.com:8042/over/there?name=ferret#nose",
                                        "http://user:pw@example.com:8042/over/there?name=ferret#nos^",
                                        "http://user:pw@example.org:8043/over/there?name=ferret#nose",
                                        "urn:example:animal:ferret:nose",
                                        "s://[1:2:3:4:5:6:7:8]:1/",
                                        "s://[1:2:3:4:5:6:7::]:1/",
                                        "s://[1:2:3:4:5:6:7:g]:1/",
                                        "s://[v1.ab:cd]/x",
                                        "s://1.2.3.4/a/./b/../c//",
                                        "s://1.2.3.456/%41%zz",
                                        "not a uri",
                                        "//h/p",
                                        "../a:b/c?q",
                                        "s:/",
                                        "s:a",
                                        ""};
    for (auto const& u : large ? large_uris : small_uris) {
      l.text ("split", u, [] (std::string_view& s) { return uri::split (s); }, [] (auto const& r) { return show (r); });
      l.text ("split_reference", u, [] (std::string_view& s) { return uri::split_reference (s); }, [] (auto const& r) { return show (r); });
    }
    struct JoinArgs {
      std::string_view base, ref;
      bool strict;
    };
    std::vector<std::tuple<std::string, std::string, bool>> const large_joins{{"s://h/" + rep (70, "seg/") + "end", rep (40, "../") + rep (70, "x/./"), true},
                                                                             {"s://h/p?" + rep (300, "q"), "#" + rep (300, "f"), true},
                                                                             {"s:a", "s:" + rep (130, "b/../"), false}};
    std::vector<std::tuple<std::string, std::string, bool>> const small_joins{std::tuple{"http://a/b/c/d;p?q"s, "../../g"s, true}, std::tuple{"http://a/b/c/d;p?q"s, "http:g"s, true},
                                       std::tuple{"http://a/b/c/d;p?q"s, "http:g"s, false}, std::tuple{"http://a/b/c/d;p?q"s, "?y#z"s, true},
                                       std::tuple{"http://a/b/c/d;p?q"s, "a b"s, true}, std::tuple{"//a/b"s, "g"s, true},
                                       std::tuple{"http://a"s, "g/./h/../i/"s, true}};
    for (auto const& [b, r, strict] : large ? large_joins : small_joins)
      l.add (
          mc::cat ("join ", b, " ", r, strict), [b = b, r = r, strict = strict] (Place& p) { return JoinArgs{p.put (b), p.put (r), strict}; },
          [] (JoinArgs& a) { return uri::join (a.base, a.ref, a.strict); }, [] (JoinArgs const& a) { return mc::cat (a.base, '|', a.ref); },
          [] (std::optional<uri::parts> const& r2, JoinArgs const&) { return show (r2); });
    struct Two {
      uri::parts a, b;
    };
    auto const two_args = [] (Two const& t) { return lib::show (t.a) + lib::show (t.b); };
    auto const two = [&] (std::string const& a, std::string const& b) {
      return [va = value (a), vb = value (b)] (Place& p) { return Two{List::place (va, p), List::place (vb, p)}; };
    };
    using pairs = std::vector<std::pair<std::string, std::string>>;
    for (auto const& [b, r] : large ? pairs{{"s://h/" + rep (70, "seg/") + "end", rep (40, "../") + rep (70, "x/./")}, {"s:" + rep (260, "a/"), "?" + rep (300, "q")}} : pairs{std::pair{"http://a/b/c/d;p?q"s, "../x/y/../z"s}, std::pair{"http://a/b/c/d;p?q"s, "//u@h:1/../x"s},
                               std::pair{"s:a/b/c"s, "../../../d/."s}, std::pair{"s://h"s, "a/b#f"s}, std::pair{"http://a/b/c"s, "#frag"s}})
      l.add ("join parts " + b + " " + r, two (b, r), [] (Two& t) { return uri::join (t.a, t.b); }, two_args,
             [] (uri::parts const& r2, Two const&) { return lib::show (r2); });
    for (auto const& [b, r] : large ? pairs{{"s://h/" + rep (130, "seg/"), "s://h/" + rep (130, "seg/")}} : pairs{std::pair{"http://a/b/c"s, "http://a/b/c"s}, std::pair{"http://a/b/c"s, "http://a/b/d"s},
                               std::pair{"http://u@a/b/c?q#f"s, "http://u@a/b/c?q#f"s}})
      l.add ("== " + b + " " + r, two (b, r), [] (Two& t) { return (t.a == t.b ? 1 : 0) + (t.a != t.b ? 2 : 0) + (t.a.path == t.b.path ? 4 : 0); },
             two_args, [] (int r2, Two const&) { return std::to_string (r2); });
    std::vector<std::string> const values{"http://user:pw@example.com:8042/over/there?name=ferret#nose", "s:a/../b/./c//", "//h/x/y/..",
                                          "s:/a/b/c/d/e/f/g/h/i/j/k/l/m/n/o/p/q/r/s/t/u/v/w/x/y/z/0/1/2/3/4/5/6/7/8/9", "?q", "s:"};
    std::vector<std::string> const large_values{"s://u:p@" + rep (130, "h") + ":1/" + rep (70, "seg/") + "?" + rep (300, "q") + "#" + rep (300, "f"), "s:/" + rep (33, "a/../b/./c/"), "s:a" + rep (130, "/")};
    for (auto const& t : large ? large_values : values) {
      auto const v = value (t);
      l.parts ("compose", v, [] (uri::parts& p) { return uri::compose (p); }, id);
      auto const stream = [&] (char const* name, auto f) {
        l.parts (
             name, v,
             [f] (uri::parts& p) {
               std::ostringstream os;
               f (os, p);
               return std::make_pair (os.str (), static_cast<bool> (os));
             },
             [] (auto const& r) { return r.second ? r.first : "stream failed"s; })
            .stream = true;
      };
      stream ("compose to a stream", [] (std::ostream& os, uri::parts const& p) { uri::compose (os, p); });
      stream ("insert", [] (std::ostream& os, uri::parts const& p) { os << p; });
      stream ("insert path", [] (std::ostream& os, uri::parts const& p) { os << p.path; });
      l.parts (
          "remove_dot_segments", v,
          [] (uri::parts& p) {
            auto c = p;
            c.path.remove_dot_segments ();
            return c;
          },
          [] (uri::parts const& r) { return lib::show (r); });
      l.parts ("to string", v, [] (uri::parts& p) { return std::string{p.path}; }, id);
      l.parts ("to filesystem path", v, [] (uri::parts& p) { return std::filesystem::path{p.path}; },
               [] (std::filesystem::path const& p) { return p.string (); });
      l.parts ("valid", v, [] (uri::parts& p) { return p.valid (); }, [] (bool b) { return b ? "yes"s : "no"s; }).may_terminate = true;
      l.parts ("valid path", v, [] (uri::parts& p) { return p.path.valid (); }, [] (bool b) { return b ? "yes"s : "no"s; }).may_terminate = true;
      l.parts ("valid authority", v, [] (uri::parts& p) { return p.authority && p.authority->valid (); }, [] (bool b) { return b ? "yes"s : "no"s; })
          .may_terminate = true;
    }
    for (auto const* t : {"s://u@h:1/a?b#c", "s:/a"}) {  // values which are not valid
      auto v = value (t);
      v.segments.push_back ("\xFF");
      l.parts ("valid", v, [] (uri::parts& p) { return p.valid (); }, [] (bool b) { return b ? "yes"s : "no"s; }).may_terminate = true;
    }
    // encode and decode of parts
    auto const codec = [&] (gen::Value const& v) {
      l.parts (
          "encode", v,
          [] (uri::parts& p) {
            auto r = std::make_unique<Encoded> ();
            r->r = uri::encode (r->store, p);
            return r;
          },
          [] (std::unique_ptr<Encoded> const& e) { return lib::show (e->r) + mc::show (e->store); });
      l.parts (
          "decode", v,
          [] (uri::parts& p) {
            auto r = std::make_unique<Decoded> ();
            r->r = uri::decode (r->store, p);
            return r;
          },
          [] (std::unique_ptr<Decoded> const& d) {
            if (auto const* const e = std::get_if<std::error_code> (&d->r)) return show_code (*e);
            return lib::show (std::get<uri::parts> (d->r)) + mc::show (d->store);
          });
    };
    if (large) {
      for (unsigned k : {1U, 70U, 130U}) {
        auto v = value ("s://h/" + rep (k, "a/%41/") + "#" + rep (k, "%4a"));
        v.host = rep (k, "\xC3\xBC") + "." + rep (k, "\xE2\x82\xAC" "a") + "." + rep (k, "l.");
        v.userinfo = rep (k, "u s");
        v.query = rep (k, "a b");
        for (auto& s : v.segments) s += ' ';
        codec (v);
        v.host = "xn--" + rep (k, "a") + "-" + rep (k, "b") + ".xn--tdaa.xn--" + rep (k, "a") + "!";
        codec (v);
        v.host = rep (k, "xn--tdaa.");
        codec (v);
      }
    } else {
    codec (value ("http://user:pw@example.com:8042/over/there?name=ferret#nose"));
    codec (value ("s://u%20v@xn--mnchen-3ya.xn--d1acpjx3f.xn--p1ai:80/%41/b/%7e?%3d#%23"));
    for (auto const* host : {"m\xC3\xBCnchen.de", "xn--", "xn--\xFF-a", "xn--a!", "xn--99999999999999999999", "a.\xF0\x9F\x98\x80.b.\xE2\x82\xAC", "\xC3"}) {
      auto v = value ("s://h/a");
      v.host = host;
      v.userinfo = "u s%65r";
      v.query = "a b";
      codec (v);
    }
    {
      auto v = value ("s:/a");
      for (unsigned i = 0; i < 40; ++i) v.segments.push_back (i % 3 == 0 ? "a b%20" : "plain");
      codec (v);
    }
    }
    // percent encoding
    for (auto const& t : large ? strings{rep (300, "plain"), rep (300, "a b\xFF"), std::string (255, '"'), std::string (257, '%')} : strings{"plain", "a b/c?d#e%f\"<>`{}|^~\x01\x7F\xC3\xA9", "!*'();:@&=+$,/?#[]", ""})
      for (auto set : {uri::pctencode_set::fragment, uri::pctencode_set::query, uri::pctencode_set::path, uri::pctencode_set::component}) {
        l.text (
            mc::cat ("pctencode ", static_cast<unsigned> (set)), t,
            [set] (std::string_view& s) {
              auto out = uri::pctencode (s, set);
              return std::make_pair (out, uri::needs_pctencode (s, set));
            },
            [] (auto const& r) { return r.first + (r.second ? "+" : "-"); });
      }
    for (auto const& t : large ? strings{rep (300, "plain"), rep (300, "%41x%"), rep (128, "%2F")} : strings{"plain", "%41%4a%4A%2", "%%%41%zz%e2%82%ac", "a%20b%", ""}) {
      l.text ("pctdecode", t, [] (std::string_view& s) { return uri::pctdecode (s); }, id);
      l.text (
          "pctdecode view", t,
          [] (std::string_view& s) {
            std::string out;
            for (char const c : s | uri::views::pctdecode) out += c;
            return out;
          },
          id);
    }
    // punycode
    for (auto const& t : large ? strings{rep (130, "a") + "-" + rep (70, "b"), rep (200, "a"), "tda" + rep (128, "a"), rep (260, "x") + "-!"} : strings{"bcher-kva", "d1acpjx3f", "bcher-kv", "99999999999999999999", "\xC3-a", "!!", "-", "abc-", ""})
      l.text (
          "punycode::decode", t, [] (std::string_view& s) { return uri::punycode::decode (s); },
          [] (auto const& r) {
            if (auto const* const e = std::get_if<std::error_code> (&r)) return show_code (*e);
            return show (std::get<1> (r).str);
          });
    std::u32string many;
    for (char32_t i = 0; i < 130; ++i) many += 0x400 + i * 7 % 130;
    using texts32 = std::vector<std::u32string>;
    for (auto const& t : large ? texts32{std::u32string (100, U'\u00FC'), std::u32string (300, U'a') + U'\u00FC', many, many + std::u32string (130, U'b') + many} : texts32{U"b\u00FCcher"s, U"\u044F\u043D\u0434\u0435\u043A\u0441"s, U"plain"s, U"\U0010FFFF\u0080\U0010FFFF"s, U""s})
      for (bool plain : {false, true})
        l.add (
            mc::cat ("punycode::encode ", show (t), plain), [t] (Place&) { return t; },
            [plain] (std::u32string& s) {
              std::string out;
              auto const r = uri::punycode::encode (s, plain, std::back_inserter (out));
              return std::make_pair (out, std::get<2> (r));
            },
            [] (std::u32string const& s) { return show (s); },
            [] (auto const& r, std::u32string const&) { return r.first + (r.second ? "+" : "-"); });
    for (auto e : {uri::punycode::decode_error_code::bad_input, uri::punycode::decode_error_code::overflow, uri::punycode::decode_error_code::none})
      l.add (
          mc::cat ("make_error_code ", static_cast<int> (e)), [e] (Place&) { return e; },
          [] (uri::punycode::decode_error_code& c) { return uri::punycode::make_error_code (c); },
          [] (uri::punycode::decode_error_code const& c) { return std::to_string (static_cast<int> (c)); },
          [] (std::error_code const& c, uri::punycode::decode_error_code const&) {
            return show_code (c) +
                   (c.category () == uri::punycode::make_error_code (uri::punycode::decode_error_code::overflow).category () ? " same" : " other");
          });
    // transcoding, through views into storage of a fixed size
    auto const transcode = [&]<typename From, typename To> (std::string const& t, From, To) {
      l.text (
          mc::cat ("transcode ", sizeof (From), sizeof (To)), t,
          [] (std::string_view& s) {
            std::vector<From> in;
            for (char c : s) in.push_back (static_cast<From> (static_cast<unsigned char> (c)));
            std::vector<To> out;
            auto const v = in | icubaby::views::transcode<From, To>;
            for (auto u : v) out.push_back (u);
            return std::make_pair (out, v.well_formed ());
          },
          [] (auto const& r) {
            std::string x = r.second ? "well-formed " : "ill-formed ";
            for (auto u : r.first) x += mc::cat (static_cast<std::uint32_t> (u), ' ');
            return x;
          });
    };
    for (auto const& t : large ? strings{rep (130, "a\xC3\xA9\xE2\x82\xAC\xF0\x9F\x98\x80z"), rep (300, "\xC3")} : strings{"a\xC3\xA9\xE2\x82\xAC\xF0\x9F\x98\x80z", "\xC3", "\xED\xA0\x80x"}) {
      transcode (t, char8_t{}, char16_t{});
      transcode (t, char8_t{}, char32_t{});
      transcode (t, std::byte{}, char8_t{});
    }
    for (auto const& t : {"\xFF\xFE\x41\x42"s, "\xFE\xFF\x42\x41\x41"s, "\0\0\xFE\xFF\0\x01\xF6\0"s}) transcode (t, std::byte{}, char8_t{});
    // rules
    for (auto const& t : large ? strings{rep (130, "a"), rep (130, "a") + "b", rep (33, "ab")} : strings{"aab", "aaba", "", "b"})
      l.text (
          "rule", t,
          [] (std::string_view& s) {
            std::string trace;
            auto const act = [&trace] (std::string_view x) { trace += mc::cat ('[', x, ']'); };
            auto const group = [&] (uri::rule const& r) {
              return r.concat (uri::single_char ('a'), act).optional (uri::single_char ('a'), act).matched ("group", r);
            };
            bool const ok = uri::rule{s}.star (group).alternative (uri::single_char ('c'), uri::single_char ('b')).done ();
            return trace + (ok ? "+" : "-");
          },
          id);
    // range algorithms
    for (auto const& t : large ? strings{rep (300, "abc"), rep (1000, "x")} : strings{"abcabc", "", "xyz"}) {
      l.text ("find_last", t, [] (std::string_view& s) { return uri::find_last (s, 'b').size (); }, [] (std::size_t n) { return std::to_string (n); });
      l.text ("starts_with", t, [] (std::string_view& s) { return uri::starts_with (s, std::string_view{"abc"}); }, [] (bool b) { return b ? "yes"s : "no"s; });
    }
    return l.entries;
}
inline std::vector<Entry> const& all () {
  static auto const entries = make (false);
  return entries;
}
// Everything in all(), and the same calls with longer arguments.
inline std::vector<Entry> const& with_large () {
  static auto const entries = [] {
    auto r = make (false);
    for (auto& e : make (true)) r.push_back (std::move (e));
    return r;
  }();
  return entries;
}

}  // namespace calls

#endif  // VERIF_CALLS_HPP
