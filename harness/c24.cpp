// C24: failures of the caller's own code (callbacks, iterators, stream buffers) pass through unchanged.
#include <cstdlib>
#include <functional>
#include <ios>
#include <map>
#include <new>
#include <optional>
#include <ostream>
#include <stdexcept>
#include <streambuf>
#include <system_error>
#include <typeinfo>
#include <variant>
#include "gen.hpp"
#include "rules.hpp"
#include "unicode.hpp"
#include "uri/find_last.hpp"
#include "uri/pctdecode.hpp"
#include "uri/pctencode.hpp"
#include "uri/punycode.hpp"
#include "uri/starts_with.hpp"

char const* const mc_kinds[] = {"rule", "stream", "search", "text"};

namespace {
std::int64_t live = 0;
void* allocate (std::size_t n) {
  void* const p = std::malloc (n ? n : 1);
  if (!p) throw std::bad_alloc{};
  ++live;
  return p;
}
void release (void* p) {
  if (!p) return;
  --live;
  std::free (p);
}
}  // namespace
void* operator new (std::size_t n) { return allocate (n); }
void* operator new[] (std::size_t n) { return allocate (n); }
void operator delete (void* p) noexcept { release (p); }
void operator delete[] (void* p) noexcept { release (p); }
void operator delete (void* p, std::size_t) noexcept { release (p); }
void operator delete[] (void* p, std::size_t) noexcept { release (p); }

namespace {

// What the caller's code throws: an exception of one of several types, with the number of the call.
struct Boom {
  std::uint64_t at;
};
constexpr unsigned sorts = 16;
[[noreturn]] void explode (unsigned sort, std::uint64_t at) {
  char text[32];
  std::snprintf (text, sizeof text, "call %llu", static_cast<unsigned long long> (at));
  switch (sort % sorts) {
  case 0: throw Boom{at};
  case 1: throw std::out_of_range{text};
  case 2: throw std::bad_alloc{};
  case 3: throw std::runtime_error{text};
  case 4: throw std::length_error{text};
  case 5: throw std::invalid_argument{text};
  case 6: throw std::system_error{std::make_error_code (std::errc::invalid_argument), text};
  case 7: throw std::ios_base::failure{text};
  case 8: throw std::bad_function_call{};
  case 9: throw std::bad_optional_access{};
  case 10: throw std::bad_variant_access{};
  case 11: throw std::range_error{text};
  case 12: throw std::exception{};
  case 13: throw static_cast<int> (at);
  case 14: throw std::logic_error{text};
  default: throw std::make_error_code (std::errc::result_out_of_range);
  }
}
// What arrived, as text (empty: nothing).
template <typename F> std::string caught (F f) {
  try {
    f ();
  } catch (Boom const& b) {
    return mc::cat ("Boom ", b.at);
  } catch (std::exception const& x) {
    return mc::cat (dynamic_cast<std::ios::failure const*> (&x) ? "ios failure " : "", typeid (x).name (), ' ', x.what ());
  } catch (int i) {
    return mc::cat ("int ", i);
  } catch (std::error_code const& e) {
    return mc::cat ("code ", e.value ());
  } catch (...) {
    return "unknown";
  }
  return {};
}
std::string const& expected (unsigned sort, std::uint64_t at) {
  static std::map<std::pair<unsigned, std::uint64_t>, std::string> all;
  auto& s = all[{sort % sorts, at}];
  if (s.empty ()) s = caught ([&] { explode (sort, at); });
  return s;
}

struct Bomb {
  std::uint64_t count = 0, at = 0;  // at: which call throws (0: none)
  unsigned sort = 0;
} bomb;
void tick () {
  if (++bomb.count == bomb.at) explode (bomb.sort, bomb.count);
}

// Runs f, which returns its result as text and leaves what it did so far in `sofar`, with every single call
// of the caller's code failing in turn.
template <typename F> void every_failure (std::string const& what, F f) {
  std::string sofar, normal_result, normal;
  std::uint64_t calls = 0;
  for (int round = 0; round < 2; ++round) {
    sofar.clear ();
    bomb = {};
    normal_result = f (sofar);
    normal = sofar;
    calls = bomb.count;
  }
  mc::maximum ("calls of the caller's code in one operation", calls);
  sofar.reserve (normal.size () + 1000);
  auto const key = mc::hash (what);
  for (std::uint64_t k = 1; k <= calls; ++k) {
    auto const where = [&] { return mc::cat (what, " when call ", k, " of ", calls, " throws: "); };
    sofar.clear ();
    auto const sort = static_cast<unsigned> ((key + k) % sorts);
    std::string arrived;
    auto const& wanted = expected (sort, k);
    arrived.reserve (200);
    auto const before = live;
    bomb = {0, k, sort};
    arrived.assign (caught ([&] { (void)f (sofar); }));
    bomb = {};
    MC_CHECK (arrived == wanted, where (), wanted, arrived.empty () ? " does not arrive" : mc::cat (" arrives as ", arrived));
    MC_CHECK (live == before, where (), live - before, " blocks of memory are leaked");
    MC_CHECK (normal.starts_with (sofar), where (), "had done ", mc::show (sofar), ", which is not how ", mc::show (normal), " begins");
    // afterwards all is as before
    sofar.clear ();
    bomb = {};
    auto const again = f (sofar);
    MC_CHECK (again == normal_result && sofar == normal, where (), "the next call gives ", mc::show (again), " after ", mc::show (sofar));
    mc::step (2);
  }
  mc::state (mc::cat (what.substr (0, what.find (' ')), ' ', calls, ' ', normal_result, ' ', normal));
}

// ---------------------------------------------------------------- rules
void rule_case (std::string_view program, std::string_view text) {
  using namespace rules;
  auto s = program;
  unsigned ids = 0;
  auto const top = parse (s, ids);
  auto const m = build (top);
  predicates = true;
  rules::tick = [] { ::tick (); };
  ran.reserve (1000);
  every_failure (mc::cat ("program ", program, " on ", mc::show (text)), [&] (std::string& sofar) {
    ran.clear ();
    struct Actions {
      std::string& to;
      std::string_view text;
      ~Actions () {
        for (auto const& a : ran) {
          char buffer[64];
          to += std::string_view{buffer, static_cast<std::size_t> (std::snprintf (buffer, sizeof buffer, "%u@%td+%zu ", a.id, a.text.data () - text.data (),
                                                                                  a.text.size ()))};
        }
      }
    } actions{sofar, text};
    rule const r = rule{text}.concat (m, [] (std::string_view t) { ::tick (), ran.push_back ({47, t}); });
    bool const done = r.done ();
    return std::string (done ? "done" : r.tail () ? "matched a part" : "no match");
  });
  // done() itself may be repeated after an action failed
  bomb = {};
  ran.clear ();
  rule const r = rule{text}.concat (m, [] (std::string_view t) { ::tick (), ran.push_back ({47, t}); });
  bomb = {};
  bool const done = r.done ();
  auto const calls = bomb.count;
  auto const n = ran.size ();
  for (std::uint64_t k = 1; k <= calls; ++k) {
    ran.clear ();
    auto const first = static_cast<unsigned> (mc::hash (program) + k);
    for (unsigned sort = first; sort < first + (program.size () <= 4 ? sorts : 1); ++sort) {
      ran.clear ();
      bomb = {0, k, sort};
      auto const arrived = caught ([&] { (void)r.done (); });
      MC_CHECK (arrived == expected (sort, k) && ran.size () == k - 1, "program ", program, " on ", mc::show (text), ": when action ", k, " throws, ",
                ran.size (), " actions ran and ", arrived.empty () ? "nothing" : arrived, " arrives");
    }
    bomb = {};
    ran.clear ();
    MC_CHECK (r.done () == done && ran.size () == n, "program ", program, " on ", mc::show (text), ": after action ", k, " threw, done() runs ", ran.size (),
              " actions instead of ", n);
  }
  ran.clear ();
}

// ---------------------------------------------------------------- streams
// Accepts so many bytes; after that it fails, or throws.
struct Limited : std::streambuf {
  std::string got;
  std::size_t limit;
  int how;  // 0: refuses, 1: throws
  unsigned sort = 0;
  Limited (std::size_t n, int h, unsigned k = 0) : limit{n}, how{h}, sort{k} { got.reserve (4096); }
  int_type overflow (int_type c) override {
    if (traits_type::eq_int_type (c, traits_type::eof ())) return traits_type::not_eof (c);
    if (got.size () >= limit) {
      if (how == 1) explode (sort, got.size ());
      return traits_type::eof ();
    }
    got += traits_type::to_char_type (c);
    return c;
  }
  std::streamsize xsputn (char const* s, std::streamsize n) override {
    auto const room = std::min (static_cast<std::size_t> (n), limit - got.size ());
    got.append (s, room);
    if (room < static_cast<std::size_t> (n) && how == 1) explode (sort, got.size ());
    return static_cast<std::streamsize> (room);
  }
};

template <typename Write> void stream_case (std::string const& what, std::string const& text, Write write) {
  auto const key = mc::hash (text);
  for (std::size_t limit = 0; limit <= text.size (); ++limit)
    for (int how = 0; how < 2; ++how)
      for (auto mask : {std::ios::goodbit, std::ios::badbit, std::ios::badbit | std::ios::failbit}) {
        auto const where = [&] {
          return mc::cat (what, " to a stream that ", how ? "throws" : "fails", " after ", limit, " bytes (exception mask ", static_cast<int> (mask), "): ");
        };
        auto const sort = static_cast<unsigned> ((key + limit) % sorts);
        auto const& wanted = expected (sort, limit);
        auto const before = live;
        {
          Limited buffer{limit, how, sort};
          std::ostream os{&buffer};
          os.exceptions (mask);
          auto const arrived = caught ([&] { write (os); });
          bool const boom = how == 1 && arrived == wanted;
          bool const failure = how == 0 && arrived.starts_with ("ios failure ");
          MC_CHECK (boom || failure || arrived.empty (), where (), "a different exception arrives: ", arrived);
          bool const enough = limit == text.size ();
          MC_CHECK (text.starts_with (buffer.got), where (), "the stream got ", mc::show (buffer.got), " instead of the beginning of ", mc::show (text));
          if (enough) {
            MC_CHECK (buffer.got == text && os.good () && !boom && !failure, where (), "the stream got ", mc::show (buffer.got), " of ", mc::show (text),
                      os.good () ? "" : " and reports failure");
          } else {
            MC_CHECK (os.bad () || os.fail (), where (), "the stream reports no failure");
            MC_CHECK (boom == (how == 1 && mask != std::ios::goodbit), where (), boom ? "throws" : "the exception does not arrive");
            MC_CHECK (failure == (how == 0 && mask != std::ios::goodbit), where (), failure ? "throws ios_base::failure" : "no ios_base::failure arrives");
          }
        }
        MC_CHECK (live == before, where (), live - before, " blocks of memory are leaked");
        mc::step ();
      }
  // a stream that has failed before gets nothing and keeps its state
  for (auto state : {std::ios::failbit, std::ios::badbit}) {
    Limited buffer{10000, 0};
    std::ostream os{&buffer};
    os.setstate (state);
    write (os);
    MC_CHECK (buffer.got.empty () && (os.rdstate () & state) != 0, what, " to a stream that has failed before: ", mc::show (buffer.got), " is written");
  }
  mc::state (text);
}
void streams (gen::Value const& v) {
  gen::ExactParts const e{v};
  auto const whole = uri::compose (e.p);  // decided by C03
  auto const in = lib::show (e.p);
  stream_case ("compose of " + in, whole, [&] (std::ostream& os) { uri::compose (os, e.p); });
  stream_case ("insertion of " + in, whole, [&] (std::ostream& os) { os << e.p; });
  stream_case ("insertion of the path of " + in, static_cast<std::string> (e.p.path), [&] (std::ostream& os) { os << e.p.path; });
  if (e.p.authority) {
    uri::parts only;
    only.authority = e.p.authority;
    stream_case ("insertion of the authority of " + in, uri::compose (only).substr (2), [&] (std::ostream& os) { os << *e.p.authority; });
  }
  MC_CHECK (lib::show (e.p) == in, "the arguments are changed: ", in);
  mc::outcome ("stream");
}

// ---------------------------------------------------------------- iterators which throw
template <typename T> struct Throwing {
  using iterator_concept = std::random_access_iterator_tag;
  using iterator_category = std::random_access_iterator_tag;
  using value_type = T;
  using difference_type = std::ptrdiff_t;
  using pointer = T const*;
  using reference = T const&;
  T const* p = nullptr;
  T const& operator* () const { return tick (), *p; }
  Throwing& operator++ () {
    tick ();
    ++p;
    return *this;
  }
  Throwing& operator-- () {
    tick ();
    --p;
    return *this;
  }
  Throwing operator++ (int) {
    auto o = *this;
    ++*this;
    return o;
  }
  Throwing operator-- (int) {
    auto o = *this;
    --*this;
    return o;
  }
  Throwing& operator+= (difference_type n) {
    tick ();
    p += n;
    return *this;
  }
  Throwing& operator-= (difference_type n) { return *this += -n; }
  Throwing operator+ (difference_type n) const {
    auto r = *this;
    return r += n;
  }
  Throwing operator- (difference_type n) const { return *this + -n; }
  friend Throwing operator+ (difference_type n, Throwing const& i) { return i + n; }
  difference_type operator- (Throwing const& o) const { return p - o.p; }
  T const& operator[] (difference_type n) const { return *(*this + n); }
  bool operator== (Throwing const& o) const { return p == o.p; }
  auto operator<=> (Throwing const& o) const { return p <=> o.p; }
};
template <typename T> auto throwing (std::basic_string_view<T> s) {
  return std::ranges::subrange{Throwing<T>{s.data ()}, Throwing<T>{s.data () + s.size ()}};
}
// Writes to a string, and throws.
struct Sink {
  using iterator_category = std::output_iterator_tag;
  using value_type = void;
  using difference_type = std::ptrdiff_t;
  using pointer = void;
  using reference = void;
  std::string* to = nullptr;
  Sink& operator* () { return *this; }
  Sink& operator++ () { return *this; }
  Sink operator++ (int) { return *this; }
  Sink& operator= (char c) {
    tick ();
    *to += c;
    return *this;
  }
};

void search_case (std::string_view digits) {
  std::vector<int> v;
  for (char c : digits) v.push_back (c);
  auto const range = std::ranges::subrange{Throwing<int>{v.data ()}, Throwing<int>{v.data () + v.size ()}};
  auto const proj = [] (int x) { return tick (), x; };
  auto const same = [] (int x, int y) { return tick (), x == y; };
  for (int value : {0, 1, 2}) {
    auto const in = mc::cat (" of ", value, " in ", mc::show (digits));
    every_failure ("find_last" + in, [&] (std::string&) { return std::to_string (uri::find_last (range, value).begin ().p - v.data ()); });
    every_failure ("find_last-projected" + in, [&] (std::string&) { return std::to_string (uri::find_last (range, value, proj).begin ().p - v.data ()); });
    every_failure ("find_last-vector" + in, [&] (std::string&) { return std::to_string (uri::find_last (v, value, proj).begin () - v.begin ()); });
  }
  for (std::size_t n = 0; n <= v.size (); ++n)
    for (int change : {0, 1}) {
      std::vector<int> w (v.begin (), v.begin () + static_cast<std::ptrdiff_t> (n));
      if (n > 0) w.back () += change;
      auto const prefix = std::ranges::subrange{Throwing<int>{w.data ()}, Throwing<int>{w.data () + w.size ()}};
      auto const in = mc::cat (" ", mc::show (digits), " with its first ", n, change ? ", changed" : "");
      every_failure ("starts_with" + in, [&] (std::string&) { return std::to_string (uri::starts_with (range, prefix)); });
      every_failure ("starts_with-projected" + in, [&] (std::string&) { return std::to_string (uri::starts_with (range, prefix, same, proj, proj)); });
    }
  mc::outcome ("search");
}

void text_case (std::string_view s) {
  auto const in = mc::cat (" of ", mc::show (s));
  auto const range = throwing (s);
  for (auto set : {uri::pctencode_set::none, uri::pctencode_set::path, uri::pctencode_set::component}) {
    every_failure ("pctencode" + in, [&] (std::string& sofar) {
      uri::pctencode (range.begin (), range.end (), Sink{&sofar}, set);
      return std::string{};
    });
    every_failure ("needs_pctencode" + in, [&] (std::string&) { return std::to_string (uri::needs_pctencode (range.begin (), range.end (), set)); });
  }
  every_failure ("pctdecode-view" + in, [&] (std::string& sofar) {
    for (char c : range | uri::views::pctdecode) sofar += c;
    return std::string{};
  });
  every_failure ("transcode-view" + in, [&] (std::string& sofar) {
    std::u8string const u (s.begin (), s.end ());
    auto const view = throwing (std::u8string_view{u}) | icubaby::views::transcode<char8_t, char16_t>;
    for (char16_t c : view) {
      sofar += static_cast<char> (c & 0xFF);
      sofar += static_cast<char> (c >> 8);
    }
    return std::string (view.well_formed () ? "well-formed" : "ill-formed");
  });
  std::u32string wide;
  for (char c : s) wide += static_cast<unsigned char> (c) < 0x80 ? static_cast<char32_t> (c) : static_cast<char32_t> (static_cast<unsigned char> (c)) * 0x111;
  for (bool plain : {false, true})
    every_failure ("punycode-encode" + in, [&] (std::string& sofar) {
      auto const [it, out, any] = uri::punycode::encode (throwing (std::u32string_view{wide}), plain, Sink{&sofar});
      return mc::cat (it.p - wide.data (), any);
    });
  every_failure ("punycode-decode" + in, [&] (std::string&) {
    auto const r = uri::punycode::decode (range);
    if (auto const* const e = std::get_if<0> (&r)) return mc::cat ("error ", e->value ());
    std::string t;
    for (auto c : std::get<1> (r).str) t += mc::cat (static_cast<std::uint32_t> (c), ' ');
    return t;
  });
  mc::outcome ("text");
}

void gen_cases (mc::Emit& emit, bool thorough) {
  // rules: programs with one, two and three steps, some nested
  gen::texts steps, inner{"a", "b", "e", "f", "|2ab", "|3aeb"};
  for (char how : {'.', '!', '?', '+', '*', '0', '1', '2', '5', '8'})
    for (auto const& n : inner) steps.push_back (how + n);
  gen::texts programs;
  for (auto const& x : steps) programs.push_back (";1" + x);
  for (auto const& x : steps)
    for (auto const& y : steps) programs.push_back (";2" + x + y);
  for (char how : {'!', '?', '+', '*', '0', '1'})
    for (std::size_t i = 0; i < steps.size (); i += thorough ? 1 : 3)
      for (std::size_t j = 0; j < steps.size (); j += thorough ? 3 : 7) {
        programs.push_back (std::string (";2") + how + ";2" + steps[i] + "!b" + "!" + ";2" + steps[j] + "!a");
        programs.push_back (std::string (";2!|2;2") + steps[i] + "!a;2" + steps[j] + "!b" + how + "a");
      }
  gen::texts texts;
  gen::sequences (2, thorough ? 5 : 4, [&] (auto const& w) {
    std::string t;
    for (auto i : w) t += i == 0 ? 'a' : 'b';
    texts.push_back (t);
  });
  for (auto const& p : programs)
    for (auto const& t : texts) {
      if (!emit.mine ()) {
        emit.skip ();
        continue;
      }
      emit (0, mc::Writer{}.str (p).str (t).s);
    }
  // streams: values with every combination of components
  using opt = std::optional<std::string>;
  for (opt s : {opt{}, opt{"sch"}})
    for (int a = 0; a < 9; ++a)
      for (int absolute = 0; absolute < 2; ++absolute)
        for (gen::texts segs : {gen::texts{}, {"a"}, {"", "b"}, {"ab", "", "c"}, {".."}, {"a", ""}})
          for (opt q : {opt{}, opt{""}, opt{"qq"}})
            for (opt f : {opt{}, opt{""}, opt{"ff"}}) {
              gen::Value v;
              v.scheme = s;
              v.has_authority = a > 0;
              if (a > 0) {
                v.host = (a - 1) & 1 ? "h" : "";
                if ((a - 1) & 2) v.userinfo = "u:";
                if ((a - 1) & 4) v.port = "80";
              }
              v.absolute = absolute != 0;
              v.segments = segs;
              v.query = q;
              v.fragment = f;
              emit (1, v.pack ());
            }
  for (unsigned n : {15U, 16U, 17U, 100U, 300U}) {
    gen::Value v;
    v.scheme = "s";
    v.segments.assign (n / 5, "seg");
    v.absolute = true;
    v.query = std::string (n, 'q');
    emit (1, v.pack ());
  }
  gen::sequences (3, thorough ? 7 : 5, [&] (auto const& w) {
    std::string t;
    for (auto i : w) t += static_cast<char> (i);
    emit (2, t);
  });
  gen::texts const bytes{"a", "-", "%", "4", " ", "\xC3", "\xA9", "z"};
  gen::sequences (bytes.size (), thorough ? 5 : 4, [&] (auto const& w) { emit (3, gen::join (bytes, w)); });
  for (char const* t : {"abc%20def%4", "bcher-kva", "\xF0\x9F\x98\x80\xE2\x82\xAC", "xn--tda", "%%%41%zz", "\xFF\xFE mixed \x80"}) emit (3, t);
}

}  // namespace

void mc_check (unsigned kind, std::string_view payload) {
  mc::Reader r{payload};
  if (kind == 0) {
    auto const program = r.str ();
    auto const text = r.str ();
    rule_case (program, text);
    mc::outcome ("rule");
  } else if (kind == 1) {
    streams (gen::Value::unpack (r));
  } else if (kind == 2) {
    search_case (payload);
  } else {
    text_case (payload);
  }
}

MC_MAIN (gen_cases)
