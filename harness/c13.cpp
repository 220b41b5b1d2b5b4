// C13: transcoding between UTF-8, UTF-16 and UTF-32.
#include <bit>
#include <list>
#include <optional>
#include <ranges>
#include <span>
#include "cxx17.hpp"
#include "gen.hpp"
#include "once.hpp"
#include "unicode.hpp"
#include "walk.hpp"

char const* const mc_kinds[] = {"scalars", "units8", "units16", "units32", "text", "long text", "walk", "life", "neighbours", "two transcoders"};

namespace {

struct Stop {};  // a sentinel which is not an iterator

// A forward iterator over units, with a sentinel that knows the end.
template <typename U> struct Pointer {
  using iterator_concept = std::forward_iterator_tag;
  using iterator_category = std::forward_iterator_tag;
  using value_type = U;
  using difference_type = std::ptrdiff_t;
  using pointer = U const*;
  using reference = U const&;
  U const* p = nullptr;
  U const* end = nullptr;
  U const& operator* () const {
    MC_CHECK (p != end, "the view read past the end of its range");
    return *p;
  }
  Pointer& operator++ () {
    MC_CHECK (p != end, "the view stepped past the end of its range");
    ++p;
    return *this;
  }
  Pointer operator++ (int) {
    auto o = *this;
    ++*this;
    return o;
  }
  bool operator== (Pointer const& o) const { return p == o.p; }
  bool operator== (Stop) const { return p == end; }
};

template <typename From, typename To> struct Observed {
  uni::string<To> out, total;
  std::vector<std::size_t> upto;
  std::vector<bool> partial;
  bool ok_before_end = true, ok = true, partial_at_end = false;
};

// One unit at a time.
template <typename From, typename To> Observed<From, To> by_unit (uni::string<From> const& in, icubaby::transcoder<From, To>& t) {
  Observed<From, To> r;
  for (auto u : in) {
    To buffer[16];
    auto const e = t (u, buffer);
    auto const n = static_cast<std::size_t> (e - buffer);
    MC_CHECK (n <= 16, "too many units written");
    r.out.append (buffer, n);
    r.upto.push_back (r.out.size ());
    r.partial.push_back (t.partial ());
  }
  r.ok_before_end = t.well_formed ();
  r.total = r.out;
  To buffer[16];
  auto const e = t.end_cp (buffer);
  r.total.append (buffer, static_cast<std::size_t> (e - buffer));
  r.ok = t.well_formed ();
  r.partial_at_end = t.partial ();
  mc::step (in.size () + 1);
  return r;
}

template <typename From, typename To> std::string name () { return mc::cat (uni::name<From> (), " to ", uni::name<To> ()); }

#ifndef NO_VARIANTS
// The same transcoder compiled as C++17 does the same.
template <typename From, typename To> void as_cxx17 (uni::string<From> const& in, Observed<From, To> const& o) {
  auto const what = [&] { return mc::cat (name<From, To> (), " of ", uni::show<From> (in), ", compiled as C++17: "); };
  auto const shown = [] (cxx17::Units const& u) {
    uni::string<To> s;
    for (auto c : u) s += static_cast<To> (c);
    return uni::show<To> (s);
  };
  auto const units = cxx17::units (in);
  auto const want = cxx17::units (o.total);
  cxx17::Result r;
  cxx17::transcode (cxx17::of<From> (), cxx17::of<To> (), units, false, r);
  MC_CHECK (r.total == want, what (), "gives ", shown (r.total), " instead of ", uni::show<To> (o.total));
  MC_CHECK (r.upto == o.upto, what (), "writes its output at other times");
  MC_CHECK (std::equal (r.partial.begin (), r.partial.end (), o.partial.begin (), o.partial.end ()) && r.partial_at_end == o.partial_at_end,
            what (), "partial() differs");
  MC_CHECK (r.ok == o.ok && r.ok_before_end == o.ok_before_end, what (), "well_formed() differs");
  cxx17::transcode (cxx17::of<From> (), cxx17::of<To> (), units, true, r);
  MC_CHECK (r.total == want && r.ok == o.ok && r.partial_at_end == o.partial_at_end, what (), "the adaptor gives ", shown (r.total));
  mc::step (2 * in.size ());
}

#endif
// Does what was observed agree with what a decoder does?
template <typename From, typename To>
std::optional<std::string> differs (uni::string<From> const& in, Observed<From, To> const& o, uni::Run<From> const& run) {
  auto const want = uni::encode<To> (run.total);
  if (o.total != want) return mc::cat ("gives ", uni::show<To> (o.total), " instead of ", uni::show<To> (want));
  for (std::size_t i = 0; i < in.size (); ++i) {
    if (o.partial[i] != run.partial[i]) return mc::cat ("partial() is ", o.partial[i], " after unit ", i + 1);
    if (!run.partial[i]) {
      auto const n = uni::encode<To> (run.out.substr (0, run.upto[i])).size ();
      if (o.upto[i] != n) return mc::cat ("has written ", o.upto[i], " units instead of ", n, " after unit ", i + 1);
    }
  }
  if (o.ok != run.d.ok) {
    uni::Decoder<From> d = run.d;
    std::u32string t;
    d.end (t);
    if (o.ok != d.ok) return mc::cat ("well_formed() is ", o.ok, " at the end");
  }
  if (o.partial_at_end) return std::string{"partial() is true after end_cp()"};
  return {};
}

template <typename From, typename To> void views (uni::string<From> const& in, uni::string<To> const& want, bool ok);

template <typename From, typename To> void one (uni::string<From> const& in) {
  uni::Run<From> const strict{in, true};
  auto const what = [&] { return mc::cat (name<From, To> (), " of ", uni::show<From> (in), ": "); };
  icubaby::transcoder<From, To> t;
  MC_CHECK (t.well_formed () && !t.partial (), what (), "a new transcoder is not in its initial state");
  auto const o = by_unit<From, To> (in, t);
  mc::state (mc::hash (name<From, To> (), mc::hash (std::to_string (strict.d.id ()))));
  bool const broken = strict.total.find (uni::bad) != std::u32string::npos && in.find (static_cast<From> (uni::bad)) == in.npos;
  AS_CXX17 (as_cxx17 (in, o);)
  bool strict_ok = true;
  std::optional<std::string> finding;
  if (auto const d = differs<From, To> (in, o, strict)) {
    uni::Run<From> const lenient{in, false};
    if (sizeof (From) != 1 || differs<From, To> (in, o, lenient)) mc::fail (what () + *d);
    strict_ok = false;
    if (uni::without_bad (lenient.total) != uni::without_bad (strict.total))
      finding = what () + "a well-formed character is lost: gives " + uni::show<To> (o.total) + " instead of " +
                uni::show<To> (uni::encode<To> (strict.total));
  }
  mc::outcome (broken ? "ill-formed" : "well-formed");
  // The report is about everything seen so far.
  {
    uni::Decoder<From> d;
    std::u32string s;
    for (auto u : in) d.feed (u, s);
    d.end (s);
    MC_CHECK (o.ok == d.ok, what (), "reported well_formed() = ", o.ok);
  }
  for (auto u : o.total)
    if (sizeof (To) == 4) MC_CHECK (uni::scalar (static_cast<char32_t> (u)), what (), "a surrogate or out-of-range value is output");
  {  // the transcoder can go on after end_cp(); text which follows is converted correctly
    std::u32string const next{U'a', 0xE9, 0x20AC, 0x1F600, U'z'};
    auto const more = by_unit<From, To> (uni::encode<From> (next), t);
    MC_CHECK (more.total == uni::encode<To> (next), what (), "text after the end of this one becomes ", uni::show<To> (more.total));
    MC_CHECK (t.well_formed () == o.ok, what (), "well_formed() changes to ", t.well_formed (), " on well-formed text after end_cp()");
  }
  {  // without end_cp() in between: from any state, a well-formed text is converted correctly
    icubaby::transcoder<From, To> again;
    std::u32string const next{U'a', 0xE9, 0x20AC, 0x1F600, U'z'};
    auto const whole = in + uni::encode<From> (next);
    auto const whole_o = by_unit<From, To> (whole, again);
    auto const d = differs<From, To> (whole, whole_o, uni::Run<From>{whole, true});
    if (d && (sizeof (From) != 1 || differs<From, To> (whole, whole_o, uni::Run<From>{whole, false})))
      mc::fail (mc::cat (what (), "followed by text, ", *d));
  }
  {  // copies of a transcoder are independent
    icubaby::transcoder<From, To> first;
    auto const half = in.size () / 2;
    uni::string<To> out;
    for (std::size_t i = 0; i < half; ++i) first (in[i], std::back_inserter (out));
    auto second = first;
    auto out2 = out;
    for (std::size_t i = half; i < in.size (); ++i) first (in[i], std::back_inserter (out));
    first.end_cp (std::back_inserter (out));
    for (std::size_t i = half; i < in.size (); ++i) second (in[i], std::back_inserter (out2));
    second.end_cp (std::back_inserter (out2));
    MC_CHECK (out == o.total && out2 == o.total, what (), "a copied transcoder gives ", uni::show<To> (out2));
  }
  {  // the output iterator adaptor
    icubaby::transcoder<From, To> a;
    uni::string<To> out;
    auto it = icubaby::iterator{&a, std::back_inserter (out)};
    for (auto u : in) *(it++) = u;
    it = a.end_cp (it);
    MC_CHECK (it.transcoder () == &a, "the adaptor lost its transcoder");
    MC_CHECK (out == o.total, what (), "the iterator adaptor gives ", uni::show<To> (out), ", the transcoder ", uni::show<To> (o.total));
    MC_CHECK (a.well_formed () == o.ok && !a.partial (), what (), "the iterator adaptor reports a different status");
    uni::string<To> out2 (o.total.size () + 1, To{'!'});
    icubaby::transcoder<From, To> b;
    auto const end = b.end_cp (std::ranges::copy (in, icubaby::iterator{&b, out2.data ()}).out);
    MC_CHECK (static_cast<std::size_t> (end.base () - out2.data ()) == o.total.size () && out2.back () == To{'!'} &&
                  out2.substr (0, o.total.size ()) == o.total,
              what (), "the iterator adaptor over a pointer gives ", uni::show<To> (out2));
  }
  views<From, To> (in, o.total, o.ok);
  if (strict_ok && !broken) {  // counting and indexing of the well-formed result
    MC_CHECK (static_cast<std::size_t> (icubaby::length (o.total)) == strict.total.size () &&
                  static_cast<std::size_t> (icubaby::length (o.total.begin (), o.total.end ())) == strict.total.size (),
              what (), "length() of the result is ", icubaby::length (o.total));
    for (std::size_t i = 0; i <= strict.total.size (); ++i) {
      auto const at = uni::encode<To> (strict.total.substr (0, i)).size ();
      MC_CHECK (static_cast<std::size_t> (icubaby::index (o.total, i) - o.total.begin ()) == at &&
                    static_cast<std::size_t> (icubaby::index (o.total.begin (), o.total.end (), i) - o.total.begin ()) == at,
                what (), "index() of character ", i, " is wrong");
    }
  }
  if (finding) mc::finding ("utf8-interrupting-byte-lost", *finding);
}

template <typename From, typename To, typename View>
void view (View const& v, char const* kind, uni::string<From> const& in, uni::string<To> const& want, bool ok) {
  auto const what = [&] { return mc::cat (name<From, To> (), " view (", kind, ") of ", uni::show<From> (in), ": "); };
  auto const limit = want.size () + in.size () + 4;
  uni::string<To> out;
  for (auto c : v) {
    out += c;
    MC_CHECK (out.size () <= limit, what (), "does not end");
  }
  MC_CHECK (out == want, what (), "gives ", uni::show<To> (out), " instead of ", uni::show<To> (want));
  MC_CHECK (v.well_formed () == ok, what (), "well_formed() is ", v.well_formed ());
  // multi-pass: copies and post-increment, with the position of the source
  uni::string<To> second, third;
  auto it = v.begin ();
  auto const end = v.end ();
  while (!(it == end)) {
    auto copy = it;
    auto old = it++;
    second += *old;
    third += *copy;
    ++copy;
    MC_CHECK (copy == it, what (), "copies advanced the same way differ");
    if (!(copy == end)) MC_CHECK (*copy == *it, what (), "copies advanced the same way differ");
    MC_CHECK (second.size () <= limit, what (), "does not end");
  }
  MC_CHECK (second == want && third == want, what (), "a second pass gives ", uni::show<To> (second), " and ", uni::show<To> (third));
  mc::step (3 * in.size ());
}

template <typename From, typename To> void views (uni::string<From> const& in, uni::string<To> const& want, bool ok) {
  // an exact copy of the units with nothing after it
  mc::Exact const raw{{reinterpret_cast<char const*> (in.data ()), in.size () * sizeof (From)}, sizeof (From)};
  auto const* const p = reinterpret_cast<From const*> (raw.view ().data ());
  view<From, To> (std::span<From const>{p, in.size ()} | icubaby::views::transcode<From, To>, "span", in, want, ok);
  view<From, To> (std::basic_string_view<From>{p, in.size ()} | icubaby::views::transcode<From, To>, "string_view", in, want, ok);
  using P = Pointer<From>;
  view<From, To> (std::ranges::subrange<P, P>{P{p, p + in.size ()}, P{p + in.size (), p + in.size ()}} | icubaby::views::transcode<From, To>,
                  "forward", in, want, ok);
#ifndef NO_SENTINEL
  view<From, To> (std::ranges::subrange<P, Stop>{P{p, p + in.size ()}, Stop{}} | icubaby::views::transcode<From, To>, "sentinel", in, want, ok);
#endif
  std::list<From> const l (in.begin (), in.end ());
  view<From, To> (l | icubaby::views::transcode<From, To>, "list", in, want, ok);
#ifndef NO_SENTINEL
  once::each (p, in.size (), [&] (auto const& range, char const* kind) {
    auto const what = [&] { return mc::cat (name<From, To> (), " view (", kind, ") of ", uni::show<From> (in), ": "); };
    auto const v = range | icubaby::views::transcode<From, To>;
    uni::string<To> out;
    auto const end = v.end ();
    for (auto it = v.begin (); !(it == end); ++it) {
      out += *it;
      MC_CHECK (out.size () <= want.size () + in.size () + 4, what (), "does not end");
    }
    MC_CHECK (out == want, what (), "gives ", uni::show<To> (out), " instead of ", uni::show<To> (want));
    MC_CHECK (v.well_formed () == ok, what (), "well_formed() is ", v.well_formed ());
    mc::step (in.size ());
  });
#endif
}

template <typename From> void all (uni::string<From> const& in) {
  one<From, char8_t> (in);
  one<From, char16_t> (in);
  one<From, char32_t> (in);
}

// A fast path for all scalar values: unit-wise in one context, all three interfaces.
template <typename From, typename To> void quick (std::u32string const& text) {
  auto const in = uni::encode<From> (text);
  auto const want = uni::encode<To> (text);
  auto const what = [&] { return mc::cat (name<From, To> (), " of ", uni::show<char32_t> (text), ": "); };
  icubaby::transcoder<From, To> t;
  auto const o = by_unit<From, To> (in, t);
  MC_CHECK (o.total == want, what (), "gives ", uni::show<To> (o.total));
  MC_CHECK (o.out == want && o.ok && !o.partial_at_end, what (), "not reported well-formed and complete");
  AS_CXX17 (as_cxx17 (in, o);)
  uni::string<To> out;
  icubaby::transcoder<From, To> a;
  a.end_cp (std::ranges::copy (in, icubaby::iterator{&a, std::back_inserter (out)}).out);
  MC_CHECK (out == want && a.well_formed () && !a.partial (), what (), "the adaptor gives ", uni::show<To> (out));
  uni::string<To> lazy;
  auto const v = in | icubaby::views::transcode<From, To>;
  for (auto c : v) lazy += c;
  MC_CHECK (lazy == want && v.well_formed (), what (), "the view gives ", uni::show<To> (lazy));
  // a view is read afresh each time: the text under it may have changed; it may own its text, and be moved
  auto changing = uni::encode<From> (U"z\x10FFFF" + text + U"\x7FFq");
  auto const late = changing | icubaby::views::transcode<From, To>;
  (void)*late.begin ();
  changing = in;
  lazy.clear ();
  for (auto c : late) lazy += c;
  MC_CHECK (lazy == want, what (), "the view of a string assigned to since it was last read gives ", uni::show<To> (lazy));
  auto owner = uni::string<From> (in) | icubaby::views::transcode<From, To>;
  if (!in.empty ()) MC_CHECK (*owner.begin () == want[0], what (), "a view that owns its text starts wrongly");
  auto const moved = std::move (owner);
  lazy.clear ();
  for (auto c : moved) lazy += c;
  MC_CHECK (lazy == want && moved.well_formed (), what (), "a moved view that owns its text gives ", uni::show<To> (lazy));
  MC_CHECK (static_cast<std::size_t> (icubaby::length (want)) == text.size (), what (), "length() is ", icubaby::length (want));
  mc::step (2 * in.size ());
}
// Operations on two iterators of a view. The texts:
std::u32string const walked[] = {U"", U"a", U"\xE9", U"\x20AC", U"\x1F600", U"a\x1F600", U"\x1F600z", U"\xE9\x1F600\x20AC", U"\x10FFFF\x10FFFF"};
template <typename From, typename To> void walk_view (mc::Reader const& ops, std::u32string const& text) {
  auto const in = uni::encode<From> (text);
  auto const want = uni::encode<To> (text);
  auto const shown = mc::cat (name<From, To> (), " of ", uni::show<char32_t> (text));
  mc::Exact const raw{{reinterpret_cast<char const*> (in.data ()), in.size () * sizeof (From)}, sizeof (From)};
  auto const* const p = reinterpret_cast<From const*> (raw.view ().data ());
  {
    auto again = ops;
    auto const v = std::basic_string_view<From>{p, in.size ()} | icubaby::views::transcode<From, To>;
    walk::run (again, want, v.begin (), v.end (), shown);
  }
#ifndef NO_SENTINEL
  {
    auto again = ops;
    using P = Pointer<From>;
    auto const v = std::ranges::subrange<P, Stop>{P{p, p + in.size ()}, Stop{}} | icubaby::views::transcode<From, To>;
    walk::run (again, want, v.begin (), v.end (), shown + " (sentinel)");
  }
#endif
}
template <typename From> void walk_all (mc::Reader const& ops, std::u32string const& text) {
  walk_view<From, char8_t> (ops, text);
  walk_view<From, char16_t> (ops, text);
  walk_view<From, char32_t> (ops, text);
}
// Operations on two views.
template <typename From, typename To> void life_view (mc::Reader const& ops) {
  static std::u32string const texts[] = {U"a\x1F600\xE9", U"\x20AC\x10FFFF"};
  static uni::string<From> const in[] = {uni::encode<From> (texts[0]), uni::encode<From> (texts[1])};
  static uni::string<To> const out[] = {uni::encode<To> (texts[0]), uni::encode<To> (texts[1])};
  auto const want = [] (unsigned k) -> uni::string<To> const& { return out[k]; };
  auto const shown = [] (unsigned k) { return mc::cat (name<From, To> (), " of ", uni::show<char32_t> (texts[k])); };
  auto again = ops;
  walk::life (again, [] (unsigned k) { return std::basic_string_view<From>{in[k]} | icubaby::views::transcode<From, To>; }, want, shown);
}
// Two transcoders fed alternately, in every order of their units; exchanged, copied and moved at any place.
template <typename From, typename To> void two (uni::string<From> const in[2], std::vector<unsigned> const& order, unsigned change, std::size_t at) {
  uni::string<To> want[2];
  bool ok[2];
  for (unsigned k = 0; k < 2; ++k) {
    icubaby::transcoder<From, To> alone;
    auto const o = by_unit<From, To> (in[k], alone);
    want[k] = o.total;
    ok[k] = o.ok;
  }
  using T = icubaby::transcoder<From, To>;
  T t[2];
  unsigned which[2] = {0, 1};  // the transcoder used for each text
  uni::string<To> out[2];
  std::size_t next[2] = {0, 0};
  for (std::size_t i = 0; i <= order.size (); ++i) {
    if (i == at) {
      if (change == 1) {
        std::swap (t[0], t[1]);
        std::swap (which[0], which[1]);
      } else if (change == 2) {
        T c0 = t[0], c1 = t[1];
        t[0] = T{};
        t[1] = T{};
        t[1] = c1;
        t[0] = c0;
      } else if (change == 3) {
        T m0 = std::move (t[0]), m1 = std::move (t[1]);
        t[0] = std::move (m1);
        t[1] = std::move (m0);
        std::swap (which[0], which[1]);
      }
    }
    if (i == order.size ()) break;
    auto const k = order[i];
    t[which[k]] (in[k][next[k]++], std::back_inserter (out[k]));
  }
  for (unsigned k : {1U, 0U}) t[which[k]].end_cp (std::back_inserter (out[k]));
  for (unsigned k : {0U, 1U})
    MC_CHECK (out[k] == want[k] && t[which[k]].well_formed () == ok[k], name<From, To> (), " of ", uni::show<From> (in[k]), " alternating with ", uni::show<From> (in[1 - k]),
              " (change ", change, " at ", at, "): gives ", uni::show<To> (out[k]), " instead of ", uni::show<To> (want[k]), ", well_formed() is ", t[which[k]].well_formed ());
  mc::step (order.size () + 2);
}
template <typename U> std::vector<uni::string<U>> const& streams () {
  static std::vector<uni::string<U>> const all = [] {
    std::vector<uni::string<U>> v;
    for (std::u32string const t : {U"a\xE9", U"\x20AC", U"\x1F600", U"\x10FFFF" U"b"}) v.push_back (uni::encode<U> (t));
    // cut off, and ill-formed
    auto cut = uni::encode<U> (U"\x1F600");
    cut.pop_back ();
    v.push_back (cut);
    v.push_back (uni::string<U> (2, static_cast<U> (sizeof (U) == 1 ? 0xF1 : 0xD801)));
    return v;
  }();
  return all;
}
template <typename From> void two_all (unsigned a, unsigned b) {
  uni::string<From> const in[2] = {streams<From> ()[a], streams<From> ()[b]};
  auto const n = in[0].size () + in[1].size ();
  for (unsigned bits = 0; bits < 1U << n; ++bits) {
    if (static_cast<std::size_t> (std::popcount (bits)) != in[1].size ()) continue;
    std::vector<unsigned> order;
    for (unsigned i = 0; i < n; ++i) order.push_back (bits >> i & 1U);
    for (unsigned change = 0; change < 4; ++change)
      for (std::size_t at = 0; at <= (change == 0 ? 0 : n); ++at) {
        two<From, char8_t> (in, order, change, at);
        two<From, char16_t> (in, order, change, at);
        two<From, char32_t> (in, order, change, at);
      }
  }
}
// Every pair of c and a special character, in both orders, in one text.
template <typename From, typename To> void neighbour (std::u32string const& text, uni::string<From> const& in) {
  auto const want = uni::encode<To> (text);
  auto const is = [&] (bool good, char const* how) {
    if (!good) mc::fail (mc::cat (name<From, To> (), " of ", uni::show<char32_t> (text), ": ", how, " is wrong"));
  };
  icubaby::transcoder<From, To> t;
  static thread_local std::vector<To> buffer;
  buffer.resize (want.size () * 4 + 64);
  auto* out = buffer.data ();
  for (auto u : in) {
    out = t (u, out);
    if (out > buffer.data () + want.size () + 16) break;
  }
  out = t.end_cp (out);
  is (std::basic_string_view<To> (buffer.data (), static_cast<std::size_t> (out - buffer.data ())) == want && t.well_formed (), "the transcoder's result");
  auto const v = std::basic_string_view<From>{in} | icubaby::views::transcode<From, To>;
  is (std::ranges::equal (v, want) && v.well_formed (), "the view");
  mc::step (2 * in.size ());
}
// Every direction, or only those to and from UTF-32.
template <typename From> void neighbour_all (std::u32string const& text, bool every) {
  auto const in = uni::encode<From> (text);
  if (every || std::is_same_v<From, char32_t>) {
    neighbour<From, char8_t> (text, in);
    neighbour<From, char16_t> (text, in);
  }
  neighbour<From, char32_t> (text, in);
}
template <typename From> void quick_all (std::u32string const& text) {
  quick<From, char8_t> (text);
  quick<From, char16_t> (text);
  quick<From, char32_t> (text);
}

template <typename U> void check_units (std::string_view payload) {
  mc::Reader r{payload};
  uni::string<U> in;
  while (!r.empty ()) in += static_cast<U> (sizeof (U) == 1 ? r.u8 () : r.u32 ());
  all<U> (in);
}
template <typename U> void emit_units (mc::Emit& emit, uni::string<U> const& in) {
  mc::Writer w;
  for (auto u : in) sizeof (U) == 1 ? w.u8 (static_cast<unsigned> (u)) : w.u32 (static_cast<std::uint32_t> (u));
  emit (sizeof (U) == 1 ? 1 : sizeof (U) == 2 ? 2 : 3, w.s);
}
template <typename U> void emit_sequences (mc::Emit& emit, std::vector<U> const& alphabet, std::size_t n) {
  gen::sequences (alphabet.size (), n, [&] (auto const& w) {
    if (!emit.mine ()) return emit.skip ();
    uni::string<U> in;
    for (auto i : w) in += alphabet[i];
    emit_units<U> (emit, in);
  });
}

// Text of any length: the whole result by all three interfaces (one() is quadratic).
template <typename From, typename To> void whole (uni::string<From> const& in, std::string const& what) {
  uni::Run<From> const run{in, true};
  auto const want = uni::encode<To> (run.total);
  uni::Decoder<From> d;
  std::u32string s;
  for (auto u : in) d.feed (u, s);
  d.end (s);
  icubaby::transcoder<From, To> t;
  auto const o = by_unit<From, To> (in, t);
  auto const where = [&] { return mc::cat (name<From, To> (), " of ", what, ": "); };
  auto const same = [&] (uni::string<To> const& got, char const* how) {
    if (got == want) return;
    std::size_t at = 0;
    while (at < got.size () && at < want.size () && got[at] == want[at]) ++at;
    mc::fail (mc::cat (where (), how, " gives ", got.size (), " units instead of ", want.size (), ", different from unit ", at + 1));
  };
  same (o.total, "the transcoder");
  MC_CHECK (o.ok == d.ok, where (), "well_formed() is ", o.ok);
  uni::string<To> out;
  icubaby::transcoder<From, To> a;
  a.end_cp (std::ranges::copy (in, icubaby::iterator{&a, std::back_inserter (out)}).out);
  same (out, "the adaptor");
  MC_CHECK (a.well_formed () == d.ok, where (), "well_formed() of the adaptor's transcoder is ", a.well_formed ());
  uni::string<To> lazy;
  auto const v = in | icubaby::views::transcode<From, To>;
  for (auto c : v) lazy += c;
  same (lazy, "the view");
  MC_CHECK (v.well_formed () == d.ok, where (), "well_formed() of the view is ", v.well_formed ());
  if (d.ok) {
    MC_CHECK (static_cast<std::size_t> (icubaby::length (want)) == run.total.size (), where (), "length() is ", icubaby::length (want));
    for (std::size_t k : {std::size_t{0}, run.total.size () / 2, run.total.size ()})
      MC_CHECK (static_cast<std::size_t> (icubaby::index (want, k) - want.begin ()) == uni::encode<To> (run.total.substr (0, k)).size (), where (),
                "index() of character ", k, " is wrong");
  }
  mc::step (2 * in.size ());
}
template <typename From> void whole_all (uni::string<From> const& in, std::string const& what) {
  whole<From, char8_t> (in, what);
  whole<From, char16_t> (in, what);
  whole<From, char32_t> (in, what);
}
constexpr char32_t units_of_run[] = {0x41, 0xE9, 0x20AC, 0x1F600};
void long_text (unsigned pattern, unsigned n, unsigned at) {
  std::u32string head, tail;
  for (unsigned i = 0; i < n; ++i) {
    auto const c = pattern < 4 ? units_of_run[pattern] : units_of_run[(i * (pattern - 3) + i / 7) % 4];
    (i < at ? head : tail) += c;
  }
  auto const what = mc::cat ("a text of ", n, " characters (pattern ", pattern, ")", at <= n ? mc::cat (" with an ill-formed unit after ", at) : "");
  auto const b8 = std::u8string (at <= n ? 1 : 0, static_cast<char8_t> (pattern % 2 ? 0x80 : 0xFF));
  auto const b16 = std::u16string (at <= n ? 1 : 0, static_cast<char16_t> (0xDC00));
  auto const b32 = std::u32string (at <= n ? 1 : 0, static_cast<char32_t> (pattern % 2 ? 0x110000 : 0xD800));
  whole_all<char8_t> (uni::encode<char8_t> (head) + b8 + uni::encode<char8_t> (tail), what);
  whole_all<char16_t> (uni::encode<char16_t> (head) + b16 + uni::encode<char16_t> (tail), what);
  whole_all<char32_t> (head + b32 + tail, what);
}

void gen_cases (mc::Emit& emit, bool thorough) {
  // well-formed texts of boundary values
  std::vector<char32_t> const edge{0, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF};
  gen::sequences (edge.size (), thorough ? 5 : 4, [&] (auto const& w) {
    if (!emit.mine ()) return emit.skip ();
    mc::Writer p;
    for (auto i : w) p.u32 (edge[i]);
    emit (4, p.s);
  });
  auto const put = [&] (unsigned pattern, unsigned n, unsigned at) { emit (5, mc::Writer{}.u32 (pattern).u32 (n).u32 (at).s); };
  for (unsigned pattern = 0; pattern < 7; ++pattern) {
    for (unsigned n = 4; n <= (thorough ? 140U : 70U); ++n) {
      put (pattern, n, n + 1);
      for (unsigned at = 0; at <= n; ++at) put (pattern, n, at);
    }
    for (unsigned n : {127U, 128U, 129U, 255U, 256U, 257U, 1000U, 4095U, 4096U, 4097U, 65535U, 65537U})
      for (unsigned at : {0U, n / 2, n - 1, n, n + 1}) put (pattern, n, at);
  }
  for (unsigned t = 0; t < std::size (walked); ++t)
    gen::sequences (walk::operations, thorough ? 5 : 4, [&] (auto const& w) {
      if (!emit.mine ()) return emit.skip ();
      mc::Writer p;
      p.u8 (t);
      for (auto i : w) p.u8 (static_cast<unsigned> (i));
      emit (6, p.s);
    });
  gen::sequences (walk::life_operations, thorough ? 5 : 3, [&] (auto const& w) {
    if (!emit.mine ()) return emit.skip ();
    mc::Writer p;
    for (auto i : w) p.u8 (static_cast<unsigned> (i));
    emit (7, p.s);
  });
  for (char32_t c = 0; c <= 0x10FFFF; c += 64) emit (8, mc::Writer{}.u8 (thorough).u32 (c).s);
  for (unsigned a = 0; a < streams<char8_t> ().size (); ++a)
    for (unsigned b = 0; b < streams<char8_t> ().size (); ++b) emit (9, mc::Writer{}.u8 (a).u8 (b).s);
  // every scalar value
  for (char32_t c = 0; c <= 0x10FFFF; c += 64) emit (0, mc::Writer{}.u32 (c).s);
  // every byte from every state of the decoder, followed by every class
  std::vector<char8_t> const classes{0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF,
                                     0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF8, 0xFF};
  std::vector<std::u8string> const states{u8"", u8"\xC3", u8"\xE0", u8"\xE1", u8"\xED", u8"\xF0", u8"\xF1", u8"\xF4", u8"\xE2\x82", u8"\xF0\x9F",
                                          u8"\xF0\x9F\x98", u8"\xF4\x8F\xBF", u8"\x80", u8"\xC3" u8"A"};
  for (auto const& s : states)
    for (unsigned b = 0; b < 256; ++b)
      for (auto c : classes) emit_units<char8_t> (emit, s + static_cast<char8_t> (b) + c);
  emit_sequences<char8_t> (emit, classes, 3);
  emit_sequences<char8_t> (emit, {0x41, 0x80, 0x90, 0xA0, 0xC3, 0xE0, 0xED, 0xEF, 0xF0, 0xF4}, thorough ? 6 : 4);
  if (thorough) emit_sequences<char8_t> (emit, classes, 4);
  // UTF-16
  for (std::uint32_t u = 0; u < 0x10000; ++u) {
    if (!thorough && u % 7 != 0 && !(u >= 0xD7F0 && u <= 0xE010)) continue;
    emit_units<char16_t> (emit, {static_cast<char16_t> (u)});
    emit_units<char16_t> (emit, {0xD83D, static_cast<char16_t> (u)});
    emit_units<char16_t> (emit, {static_cast<char16_t> (u), 0xDE00});
  }
  std::vector<char16_t> const u16{0, 0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFD, 0xFFFF};
  emit_sequences<char16_t> (emit, u16, thorough ? 5 : 3);
  emit_sequences<char16_t> (emit, {0x41, 0xE9, 0xD800, 0xDBFF, 0xDC00, 0xDFFF}, thorough ? 7 : 5);
  // UTF-32
  std::vector<char32_t> u32{0, 0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFD, 0xFFFF,
                            0x10000, 0x10FFFF, 0x110000, 0x110001, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF};
  emit_sequences<char32_t> (emit, u32, thorough ? 4 : 3);
  for (unsigned bit = 20; bit < 32; ++bit)
    for (char32_t low : {0U, 0x41U, 0xD800U, 0xFFFFU}) emit_units<char32_t> (emit, {U'a', (char32_t{1} << bit) | low, U'b'});
}

}  // namespace

void mc_check (unsigned kind, std::string_view payload) {
  switch (kind) {
  case 0: {
    mc::Reader r{payload};
    auto const first = static_cast<char32_t> (r.u32 ());
    for (auto c = first; c < first + 64; ++c) {
      if (!uni::scalar (c)) continue;
      std::u32string const text{U'~', c, 0x7FF, c};
      quick_all<char8_t> (text);
      quick_all<char16_t> (text);
      quick_all<char32_t> (text);
    }
    mc::state (mc::cat ("block", first / 64));
    break;
  }
  case 1: check_units<char8_t> (payload); break;
  case 2: check_units<char16_t> (payload); break;
  case 3: check_units<char32_t> (payload); break;
  case 4: {
    mc::Reader r{payload};
    std::u32string text;
    while (!r.empty ()) text += static_cast<char32_t> (r.u32 ());
    quick_all<char8_t> (text);
    quick_all<char16_t> (text);
    quick_all<char32_t> (text);
    break;
  }
  case 5: {
    mc::Reader r{payload};
    auto const pattern = r.u32 (), n = r.u32 (), at = r.u32 ();
    long_text (pattern, n, at);
    mc::state (mc::cat ("long", pattern, ',', n));
    break;
  }
  case 6: {
    mc::Reader r{payload};
    auto const& text = walked[r.u8 ()];
    walk_all<char8_t> (r, text);
    walk_all<char16_t> (r, text);
    walk_all<char32_t> (r, text);
    break;
  }
  case 7: {
    mc::Reader r{payload};
    life_view<char8_t, char16_t> (r);
    life_view<char8_t, char32_t> (r);
    life_view<char16_t, char8_t> (r);
    life_view<char32_t, char16_t> (r);
    mc::outcome ("life");
    break;
  }
  case 8: {
    mc::Reader r{payload};
    bool const every = r.u8 () != 0;
    auto const first = static_cast<char32_t> (r.u32 ());
    for (auto c = first; c < first + 64; ++c) {
      if (!uni::scalar (c)) continue;
      auto const text = uni::among_special (c);
      neighbour_all<char8_t> (text, every);
      neighbour_all<char16_t> (text, every);
      neighbour_all<char32_t> (text, every);
    }
    mc::outcome ("neighbours");
    break;
  }
  case 9: {
    mc::Reader r{payload};
    auto const a = r.u8 (), b = r.u8 ();
    two_all<char8_t> (a, b);
    two_all<char16_t> (a, b);
    two_all<char32_t> (a, b);
    mc::outcome ("two transcoders");
    break;
  }
  default: mc::fail ("unknown kind");
  }
}

MC_MAIN (gen_cases)
