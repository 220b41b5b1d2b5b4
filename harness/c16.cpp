// C16: find_last and starts_with over every kind of range.
#include <deque>
#include <forward_list>
#include <list>
#include <ranges>
#include <span>
#include "gen.hpp"
#include <cassert>
#include "uri/find_last.hpp"
#include "uri/starts_with.hpp"

char const* const mc_kinds[] = {"find_last", "starts_with", "long starts_with", "mixed types"};

namespace {

// An iterator over [base, base+n] of the stated category that refuses to leave it.
template <typename Category> struct Watched {
  using iterator_concept = Category;
  using iterator_category = Category;
  using value_type = int;
  using difference_type = std::ptrdiff_t;
  using pointer = int const*;
  using reference = int const&;
  int const* base = nullptr;
  std::ptrdiff_t n = 0, at = 0;

  int const& operator* () const {
    MC_CHECK (at >= 0 && at < n, "element ", at, " of a range of ", n, " was read");
    return base[at];
  }
  Watched& operator++ () {
    MC_CHECK (at < n, "an iterator was moved past the end");
    ++at;
    return *this;
  }
  Watched operator++ (int) {
    auto o = *this;
    ++*this;
    return o;
  }
  Watched& operator-- ()
    requires std::derived_from<Category, std::bidirectional_iterator_tag>
  {
    MC_CHECK (at > 0, "an iterator was moved before the start");
    --at;
    return *this;
  }
  Watched operator-- (int)
    requires std::derived_from<Category, std::bidirectional_iterator_tag>
  {
    auto o = *this;
    --*this;
    return o;
  }
  bool operator== (Watched const& o) const { return at == o.at; }
};
static_assert (std::forward_iterator<Watched<std::forward_iterator_tag>> && !std::bidirectional_iterator<Watched<std::forward_iterator_tag>>);
static_assert (std::bidirectional_iterator<Watched<std::bidirectional_iterator_tag>>);

// A sentinel that is not an iterator.
struct End {
  std::ptrdiff_t n = 0;
  template <typename C> friend bool operator== (Watched<C> const& i, End const& e) { return i.at == e.n; }
};
static_assert (std::sentinel_for<End, Watched<std::bidirectional_iterator_tag>>);

// Input-only iterator: every element may be read in one pass only.
struct Stream {
  using iterator_concept = std::input_iterator_tag;
  using value_type = int;
  using difference_type = std::ptrdiff_t;
  struct Source {
    std::vector<int> const* v;
    std::size_t at = 0;
  };
  Source* src = nullptr;
  int operator* () const {
    MC_CHECK (src->at < src->v->size (), "a stream was read past its end");
    return (*src->v)[src->at];
  }
  Stream& operator++ () {
    MC_CHECK (src->at < src->v->size (), "a stream was moved past its end");
    ++src->at;
    return *this;
  }
  void operator++ (int) { ++*this; }
  friend bool operator== (Stream const& s, std::default_sentinel_t) { return s.src->at == s.src->v->size (); }
};
static_assert (std::input_iterator<Stream> && !std::forward_iterator<Stream>);

struct Boxed {
  int value;
  int twice () const { return value * 2; }
};

template <typename R, typename It, typename End>
void expect (R const& got, It first, End last, std::ptrdiff_t at, std::ptrdiff_t n, char const* how, std::vector<int> const& v, int value) {
  mc::step ();
  auto const begin = std::ranges::next (first, at);
  auto const end = std::ranges::next (first, last);
  (void)n;
  MC_CHECK (got.begin () == begin, how, ": find_last of ", value, " starts at ", std::ranges::distance (first, got.begin ()), " instead of ", at,
            " among ", v.size (), " elements");
  MC_CHECK (got.end () == end, how, ": the range found does not end at the end");
  MC_CHECK (std::ranges::distance (got.begin (), got.end ()) == n - at, how, ": the range found has the wrong length");
}

void find (std::vector<int> const& v, int value) {
  auto const n = static_cast<std::ptrdiff_t> (v.size ());
  std::ptrdiff_t at = n;
  for (std::ptrdiff_t i = 0; i < n; ++i)
    if (v[static_cast<std::size_t> (i)] == value) at = i;
  auto const both = [&] (auto const& c, char const* how) {
    expect (uri::find_last (c, value), c.begin (), c.end (), at, n, how, v, value);
    expect (uri::find_last (c.begin (), c.end (), value), c.begin (), c.end (), at, n, how, v, value);
    expect (uri::find_last (c, -value, [] (int x) { return -x; }), c.begin (), c.end (), at, n, how, v, value);
  };
  both (v, "vector");
  both (std::list<int> (v.begin (), v.end ()), "list");
  both (std::forward_list<int> (v.begin (), v.end ()), "forward_list");
  both (std::deque<int> (v.begin (), v.end ()), "deque");
  both (std::span<int const>{v}, "span");
  {
    std::vector<int> copy = v;
    auto r = uri::find_last (copy, value);  // a mutable range
    expect (r, copy.begin (), copy.end (), at, n, "mutable vector", v, value);
    for (int& x : r) x = 77;
    for (std::ptrdiff_t i = 0; i < n; ++i)
      MC_CHECK (copy[static_cast<std::size_t> (i)] == (i >= at ? 77 : v[static_cast<std::size_t> (i)]), "writing through the result goes elsewhere");
  }
  {
    std::vector<Boxed> b;
    for (int x : v) b.push_back ({x});
    expect (uri::find_last (b, value, &Boxed::value), b.begin (), b.end (), at, n, "projection to a member", v, value);
    expect (uri::find_last (b, value * 2L, &Boxed::twice), b.begin (), b.end (), at, n, "projection through a member function", v, value);
    std::forward_list<Boxed> const f (b.begin (), b.end ());
    expect (uri::find_last (f, value, &Boxed::value), f.begin (), f.end (), at, n, "forward, projection to a member", v, value);
  }
  {
    using It = Watched<std::forward_iterator_tag>;
    It const f{v.data (), n, 0}, l{v.data (), n, n};
    expect (uri::find_last (f, l, value), f, l, at, n, "watched forward iterators", v, value);
    expect (uri::find_last (f, End{n}, value), f, End{n}, at, n, "watched forward iterator and sentinel", v, value);
  }
  {
    using It = Watched<std::bidirectional_iterator_tag>;
    It const f{v.data (), n, 0}, l{v.data (), n, n};
    expect (uri::find_last (f, l, value), f, l, at, n, "watched bidirectional iterators", v, value);
    expect (uri::find_last (f, End{n}, value), f, End{n}, at, n, "watched bidirectional iterator and sentinel", v, value);
    expect (uri::find_last (std::ranges::subrange{f, End{n}}, value), f, End{n}, at, n, "subrange with a sentinel", v, value);
  }
  {
    std::counted_iterator<std::vector<int>::const_iterator> const f{v.begin (), n};
    expect (uri::find_last (f, std::default_sentinel, value), f, std::default_sentinel, at, n, "counted iterator", v, value);
    std::list<int> const l (v.begin (), v.end ());
    std::counted_iterator<std::list<int>::const_iterator> const g{l.begin (), n};
    expect (uri::find_last (g, std::default_sentinel, value), g, std::default_sentinel, at, n, "counted list iterator", v, value);
  }
  {
    auto t = v;
    t.push_back (1000);
    t.push_back (value);  // beyond the range
    auto const view = std::views::all (t) | std::views::take_while ([] (int x) { return x != 1000; });
    expect (uri::find_last (view, value), view.begin (), view.end (), at, n, "take_while", v, value);
    auto const part = std::views::all (t) | std::views::take (n);
    expect (uri::find_last (part, value), part.begin (), part.end (), at, n, "take", v, value);
    auto const tr = std::views::all (v) | std::views::transform ([] (int x) { return x + 5; });
    expect (uri::find_last (tr, value + 5), tr.begin (), tr.end (), at, n, "transform", v, value);
    auto const rev = v | std::views::reverse;
    std::ptrdiff_t rat = n;
    for (std::ptrdiff_t i = 0; i < n; ++i)
      if (v[static_cast<std::size_t> (n - 1 - i)] == value) rat = i;
    expect (uri::find_last (rev, value), rev.begin (), rev.end (), rat, n, "reverse", v, value);
  }
  {
    std::string s;
    for (int x : v) s += static_cast<char> ('a' + x);
    mc::Exact const e{s};
    std::string_view const sv{e};
    char const c = static_cast<char> ('a' + value);
    expect (uri::find_last (sv, c), sv.begin (), sv.end (), at, n, "string_view", v, value);
    MC_CHECK (at == static_cast<std::ptrdiff_t> (sv.rfind (c) == std::string_view::npos ? sv.size () : sv.rfind (c)), "the oracle is wrong");
  }
  mc::outcome (at == n ? "not found" : at == 0 ? "first element" : at + 1 == n ? "last element" : "inside");
  mc::state (mc::cat ("f", n, ',', at));
}

void starts (std::vector<int> const& a, std::vector<int> const& b) {
  bool want = b.size () <= a.size ();
  for (std::size_t i = 0; want && i < b.size (); ++i) want = a[i] == b[i];
  auto const is = [&] (bool got, char const* how) {
    mc::step ();
    MC_CHECK (got == want, how, ": starts_with is ", got, " for ranges of ", a.size (), " and ", b.size (), " elements");
  };
  is (uri::starts_with (a, b), "vectors");
  is (uri::starts_with (a.begin (), a.end (), b.begin (), b.end ()), "vector iterators");
  std::list<int> const la (a.begin (), a.end ()), lb (b.begin (), b.end ());
  std::forward_list<int> const fa (a.begin (), a.end ()), fb (b.begin (), b.end ());
  is (uri::starts_with (la, fb), "list and forward_list");
  is (uri::starts_with (fa, b), "forward_list and vector");
  is (uri::starts_with (fa, lb), "forward_list and list");
  auto const na = static_cast<std::ptrdiff_t> (a.size ()), nb = static_cast<std::ptrdiff_t> (b.size ());
  {
    using It = Watched<std::forward_iterator_tag>;
    is (uri::starts_with (It{a.data (), na, 0}, End{na}, It{b.data (), nb, 0}, End{nb}), "watched iterators and sentinels");
  }
  {
    Stream::Source sa{&a}, sb{&b};
    is (uri::starts_with (Stream{&sa}, std::default_sentinel, b.begin (), b.end ()), "a stream and a vector");
    is (uri::starts_with (a.begin (), a.end (), Stream{&sb}, std::default_sentinel), "a vector and a stream");
    Stream::Source ta{&a}, tb{&b};
    is (uri::starts_with (Stream{&ta}, std::default_sentinel, Stream{&tb}, std::default_sentinel), "two streams");
  }
  {
    std::vector<Boxed> ba, bb;
    for (int x : a) ba.push_back ({x});
    for (int x : b) bb.push_back ({x});
    is (uri::starts_with (ba, b, {}, &Boxed::value), "first projection");
    is (uri::starts_with (a, bb, {}, {}, &Boxed::value), "second projection");
    is (uri::starts_with (ba, bb, {}, &Boxed::twice, [] (Boxed const& x) { return 2 * x.value; }), "both projections");
    is (uri::starts_with (ba, bb, [] (Boxed const& x, Boxed const& y) { return x.value == y.value; }), "predicate");
    bool less = b.size () <= a.size ();
    for (std::size_t i = 0; less && i < b.size (); ++i) less = a[i] <= b[i];
    mc::step ();
    MC_CHECK (uri::starts_with (a, b, std::ranges::less_equal{}) == less, "an asymmetric predicate is applied wrongly");
    MC_CHECK (uri::starts_with (ba, bb, std::ranges::less_equal{}, &Boxed::value, &Boxed::value) == less, "an asymmetric predicate with projections");
  }
  {
    std::string s, t;
    for (int x : a) s += static_cast<char> ('a' + x);
    for (int x : b) t += static_cast<char> ('a' + x);
    mc::Exact const es{s}, et{t};
    is (uri::starts_with (es.view (), et.view ()), "string_view");
    is (uri::starts_with (es.view () | std::views::take_while ([] (char) { return true; }), et.view ()), "take_while");
  }
  mc::outcome (want ? "prefix" : "no prefix");
  mc::state (mc::cat ("s", na, ',', nb, want));
}

// ---- elements of one type and values of another: == decides, after the usual conversions
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wsign-compare"
#pragma GCC diagnostic ignored "-Wfloat-equal"
#pragma GCC diagnostic ignored "-Wconversion"
#pragma GCC diagnostic ignored "-Wsign-conversion"
struct Same {
  template <typename A, typename B> bool operator() (A const& a, B const& b) const { return a == b; }
};
using Elements = std::tuple<char, unsigned char, char8_t, short, int, unsigned, long, double>;
using Values = std::tuple<bool, char, unsigned char, short, int, unsigned, long, double>;
template <typename List, typename F> void each_type (F f) {
  [&]<std::size_t... I> (std::index_sequence<I...>) { (f (std::type_identity<std::tuple_element_t<I, List>>{}), ...); }(
    std::make_index_sequence<std::tuple_size_v<List>>{});
}
// The values around which conversions lose something.
template <typename T> std::vector<T> interesting () {
  std::vector<T> r;
  auto const add = [&] (auto x) {
    if constexpr (std::is_floating_point_v<T>) {
      if (std::is_signed_v<decltype (x)> || x < (std::uint64_t{1} << 62)) r.push_back (static_cast<T> (x));
    } else {
      r.push_back (static_cast<T> (x));  // integers wrap
    }
  };
  for (std::int64_t base : {std::int64_t{0}, std::int64_t{1} << 7, std::int64_t{1} << 8, std::int64_t{1} << 15, std::int64_t{1} << 16, std::int64_t{1} << 31,
                            std::int64_t{1} << 32, std::int64_t{1} << 53})
    for (std::int64_t d : {-1, 0, 1, 97}) {
      add (base + d);
      add (-base + d);
    }
  add (std::numeric_limits<std::int64_t>::min ());
  add (std::numeric_limits<std::uint64_t>::max ());
  if constexpr (std::is_floating_point_v<T>)
    for (double x : {0.5, -0.0, 97.5, 256.25, 1e300 * 1e300, std::numeric_limits<double>::quiet_NaN ()}) r.push_back (static_cast<T> (x));
  std::vector<T> distinct;
  bool nan = false;
  for (auto x : r) {
    if (x != x) {
      if (nan) continue;
      nan = true;
    } else if (std::ranges::find (distinct, x) != distinct.end ()) {
      continue;
    }
    distinct.push_back (x);
  }
  return distinct;
}
[[noreturn]] void wrong_mixed (char const* how, long double value, long double a, long double b, std::size_t e, std::size_t v, std::ptrdiff_t got, std::ptrdiff_t at) {
  mc::fail (mc::cat (how, ": the result is ", got, " instead of ", at, " for ", value, " (", v, " bytes) among ", a, ", ", b, ", ", a, " (", e, " bytes each)"));
}
// The element type with number `which`, against all types of value.
void mixed (unsigned which) {
  unsigned k = 0;
  each_type<Elements> ([&]<typename E> (std::type_identity<E>) {
    if (k++ != which) return;
    auto const elements = interesting<E> ();
    each_type<Values> ([&]<typename V> (std::type_identity<V>) {
      for (V const value : interesting<V> ())
        for (E const a : elements)
          for (E const b : elements) {
            E const v[] = {a, b, a};
            std::ptrdiff_t const at = Same{}(a, value) ? 2 : Same{}(b, value) ? 1 : 3;
            auto const is = [&] (auto const& got, auto const& first, char const* how) {
              mc::step ();
              std::ptrdiff_t before = 0, n = 0;
              for (auto i = first; i != got.begin () && before < 4; ++i) ++before;
              for (auto i = got.begin (); i != got.end () && n < 4; ++i) ++n;
              if (before != at || n != 3 - at) wrong_mixed (how, value, a, b, sizeof (E), sizeof (V), before, at);
            };
            is (uri::find_last (v, value), std::begin (v), "array");
            auto const tr = std::views::iota (0, 3) | std::views::transform ([&v] (int i) { return v[i]; });
            is (uri::find_last (tr, value), tr.begin (), "generated");
            int const order[] = {0, 1, 2};
            is (uri::find_last (order, value, [&v] (int i) { return v[i]; }), std::begin (order), "projection");
            if (a == elements.front ()) {  // node by node ranges allocate
              std::vector<E> const vec (std::begin (v), std::end (v));
              is (uri::find_last (vec, value), vec.begin (), "vector");
              std::list<E> const l (std::begin (v), std::end (v));
              is (uri::find_last (l, value), l.begin (), "list");
              std::forward_list<E> const f (std::begin (v), std::end (v));
              is (uri::find_last (f, value), f.begin (), "forward_list");
            }
            // the prefix test with elements of both types
            V const w[] = {value, value};
            bool const one = Same{}(a, value), two = one && Same{}(b, value);
            mc::step (2);
            if (uri::starts_with (v, v + 3, w, w + 1) != one || uri::starts_with (v, w) != two)
              wrong_mixed ("starts_with", value, a, b, sizeof (E), sizeof (V), -1, -1);
          }
    });
    mc::state (mc::cat ("element type ", which));
  });
  mc::outcome ("mixed types");
}
#pragma GCC diagnostic pop
// Strings as elements and as values, in several types.
void mixed_strings () {
  using namespace std::string_view_literals;
  std::string_view const texts[] = {""sv, "a"sv, "A"sv, "aa"sv, "a\0"sv, "a\0b"sv, "b"sv};
  for (auto x : texts)
    for (auto y : texts)
      for (auto z : texts) {
        std::vector<std::string> const strings{std::string{x}, std::string{y}, std::string{z}};
        std::vector<std::string_view> const views{strings.begin (), strings.end ()};
        std::list<std::string> const list{strings.begin (), strings.end ()};
        for (auto value : texts) {
          std::ptrdiff_t const at = z == value ? 2 : y == value ? 1 : x == value ? 0 : 3;
          auto const is = [&] (auto const& got, auto const& first, char const* how) {
            mc::step ();
            MC_CHECK (std::ranges::distance (first, got.begin ()) == at, how, ": find_last of ", mc::show (value), " is wrong");
          };
          is (uri::find_last (strings, value), strings.begin (), "strings and a view");
          is (uri::find_last (views, std::string{value}), views.begin (), "views and a string");
          is (uri::find_last (list, value), list.begin (), "list of strings and a view");
          if (value.find ('\0') == value.npos) is (uri::find_last (strings, std::string{value}.c_str ()), strings.begin (), "strings and a C string");
          MC_CHECK (uri::starts_with (strings, std::span{&value, 1}) == (x == value), "starts_with of strings and views");
        }
      }
}

// Types whose equality is their own: not that of their bytes.
struct Folded {  // letters of either case are equal
  char c;
  static constexpr char lower (char x) { return x >= 'A' && x <= 'Z' ? static_cast<char> (x + ('a' - 'A')) : x; }
  friend constexpr bool operator== (Folded x, Folded y) { return lower (x.c) == lower (y.c); }
};
struct Keyed {  // the note does not count
  int key;
  int note;
  friend constexpr bool operator== (Keyed const& x, Keyed const& y) { return x.key == y.key; }
};
struct Fraction {  // 1/2 equals 2/4
  int n;
  int d;
  friend constexpr bool operator== (Fraction const& x, Fraction const& y) { return x.n * y.d == y.n * x.d; }
};
struct Unequal {  // equal to nothing, itself included
  int n;
  friend constexpr bool operator== (Unequal, Unequal) { return false; }
};
struct Apart {  // the same bytes mean different things: equal by address of what they name
  int const* p;
  friend constexpr bool operator== (Apart const& x, Apart const& y) { return *x.p == *y.p; }
};
enum class Colour : unsigned char { red, green, blue };
constexpr int one = 1, again_one = 1, two = 2;
template <typename T> struct Values_of;
template <> struct Values_of<Folded> { static constexpr Folded all[] = {{'a'}, {'A'}, {'b'}, {'\0'}}; };
template <> struct Values_of<Keyed> { static constexpr Keyed all[] = {{1, 0}, {1, 7}, {2, 0}, {2, 7}}; };
template <> struct Values_of<Fraction> { static constexpr Fraction all[] = {{1, 2}, {2, 4}, {2, 1}, {1, 1}}; };
template <> struct Values_of<Unequal> { static constexpr Unequal all[] = {{0}, {0}, {1}, {2}}; };
template <> struct Values_of<Apart> { static constexpr Apart all[] = {{&one}, {&again_one}, {&two}, {&two}}; };
template <> struct Values_of<Colour> { static constexpr Colour all[] = {Colour::red, Colour::red, Colour::green, Colour::blue}; };
template <typename T> void own_equality (char const* name) {
  auto const& all = Values_of<T>::all;
  std::vector<std::vector<T>> ranges;
  gen::sequences (4, 4, [&] (auto const& w) {
    std::vector<T> v;
    for (auto i : w) v.push_back (all[i]);
    v.shrink_to_fit ();
    ranges.push_back (std::move (v));
  });
  for (auto const& v : ranges) {
    std::list<T> const l (v.begin (), v.end ());
    std::forward_list<T> const f (v.begin (), v.end ());
    std::deque<T> const d (v.begin (), v.end ());
    for (T const& value : all) {
      std::ptrdiff_t at = std::ssize (v);
      for (std::ptrdiff_t i = 0; i < std::ssize (v); ++i)
        if (v[static_cast<std::size_t> (i)] == value) at = i;
      auto const is = [&] (auto const& got, auto const& first, auto const& last, char const* how) {
        mc::step ();
        MC_CHECK (std::ranges::distance (first, got.begin ()) == at && got.end () == last, name, ", ", how, ": find_last in ", v.size (), " elements is wrong");
      };
      is (uri::find_last (v, value), v.begin (), v.end (), "vector");
      is (uri::find_last (v.begin (), v.end (), value), v.begin (), v.end (), "iterators");
      is (uri::find_last (l, value), l.begin (), l.end (), "list");
      is (uri::find_last (f, value), f.begin (), f.end (), "forward_list");
      is (uri::find_last (d, value), d.begin (), d.end (), "deque");
      std::span<T const> const span{v};
      is (uri::find_last (span, value), span.begin (), span.end (), "span");
    }
    for (auto const& w : ranges) {
      if (w.size () > 3) continue;
      bool expected = w.size () <= v.size ();
      for (std::size_t i = 0; expected && i < w.size (); ++i) expected = v[i] == w[i];
      auto const check = [&] (bool got, char const* how) {
        mc::step ();
        MC_CHECK (got == expected, name, ", ", how, ": starts_with is ", got, " for ", v.size (), " elements and a prefix of ", w.size ());
      };
      check (uri::starts_with (v, w), "vectors");
      check (uri::starts_with (v.begin (), v.end (), w.begin (), w.end ()), "iterators");
      check (uri::starts_with (std::span{v}, std::span{w}), "spans");
      check (uri::starts_with (l, w), "list and vector");
      check (uri::starts_with (v, std::list<T> (w.begin (), w.end ())), "vector and list");
      check (uri::starts_with (d, w), "deque and vector");
      check (uri::starts_with (f, w), "forward_list and vector");
      // the caller's idea of equality
      bool differing = w.size () <= v.size ();
      for (std::size_t i = 0; differing && i < w.size (); ++i) differing = !(v[i] == w[i]);
      mc::step ();
      MC_CHECK (uri::starts_with (v, w, [] (T const& x, T const& y) { return !(x == y); }) == differing, name, ": starts_with and the predicate 'differs' is wrong");
    }
  }
  mc::state (name);
}
void own_equalities () {
  own_equality<Folded> ("letters of either case");
  own_equality<Keyed> ("keys with notes");
  own_equality<Fraction> ("fractions");
  own_equality<Unequal> ("equal to nothing");
  own_equality<Apart> ("pointers to numbers");
  own_equality<Colour> ("enumeration");
  mc::outcome ("own equality");
}

void gen_cases (mc::Emit& emit, bool thorough) {
  for (unsigned which = 0; which <= std::tuple_size_v<Elements> + 1; ++which) {
    emit (3, mc::Writer{}.u32 (which).s);
    for (int i = 0; i < 15; ++i) emit.skip ();  // one to a shard
  }
  gen::sequences (3, thorough ? 9 : 7, [&] (auto const& w) {
    if (!emit.mine ()) {
      emit.skip ();
      return;
    }
    std::string s;
    for (auto i : w) s += static_cast<char> (i);
    emit (0, s);
  });
  for (unsigned n = 1; n <= (thorough ? 300U : 64U); ++n)
    for (unsigned at = 0; at <= n; ++at) {
      std::string s (n, '\1');
      if (at < n) s[at] = '\0';
      emit (0, s);
    }
  for (unsigned n : {127U, 128U, 129U, 255U, 256U, 257U, 1000U})
    for (unsigned at : {0U, 1U, n / 2, n - 128U + (n < 128), n - 2, n - 1, n}) {
      if (at > n) continue;
      std::string s (n, '\1');
      if (at < n) s[at] = '\0';
      emit (0, s);
    }
  for (unsigned n = 6; n <= (thorough ? 300U : 70U); ++n)
    for (unsigned m : {n - 1, n, n + 1})
      for (unsigned at = 0; at <= n; ++at) emit (2, mc::Writer{}.u32 (n).u32 (m).u32 (at).s);
  for (unsigned n : {127U, 128U, 129U, 255U, 256U, 257U, 1000U})
    for (unsigned m : {1U, n - 1, n, n + 1, 2 * n})
      for (unsigned at : {0U, 1U, n / 2, n - 2, n - 1, n}) emit (2, mc::Writer{}.u32 (n).u32 (m).u32 (at).s);
  gen::sequences (3, thorough ? 6 : 5, [&] (auto const& w) {
    gen::sequences (3, thorough ? 6 : 5, [&] (auto const& x) {
      if (!emit.mine ()) {
        emit.skip ();
        return;
      }
      mc::Writer wr;
      wr.u8 (static_cast<unsigned> (w.size ()));
      for (auto i : w) wr.u8 (static_cast<unsigned> (i));
      for (auto i : x) wr.u8 (static_cast<unsigned> (i));
      emit (1, wr.s);
    });
  });
}

}  // namespace

void mc_check (unsigned kind, std::string_view payload) {
  if (kind == 0) {
    std::vector<int> v;
    for (char c : payload) v.push_back (c);
    v.shrink_to_fit ();
    for (int value : {0, 1, 2, 3}) find (v, value);
  } else if (kind == 3) {
    auto const which = mc::Reader{payload}.u32 ();
    if (which < std::tuple_size_v<Elements>) mixed (which);
    else if (which == std::tuple_size_v<Elements>) mixed_strings ();
    else own_equalities ();
  } else if (kind == 2) {
    mc::Reader r{payload};
    auto const n = r.u32 (), m = r.u32 (), at = r.u32 ();
    std::vector<int> a (n), b (m);
    for (unsigned i = 0; i < n; ++i) a[i] = static_cast<int> (i % 3);
    for (unsigned i = 0; i < m; ++i) b[i] = static_cast<int> (i % 3) + (i == at ? 1 : 0);
    starts (a, b);
  } else {
    auto const n = static_cast<std::size_t> (payload[0]);
    std::vector<int> a, b;
    for (char c : payload.substr (1, n)) a.push_back (c);
    for (char c : payload.substr (1 + n)) b.push_back (c);
    a.shrink_to_fit ();
    b.shrink_to_fit ();
    starts (a, b);
  }
}

MC_MAIN (gen_cases)
