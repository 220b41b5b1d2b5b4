// C23: counting code points, finding the n-th one, and classifying code units.
#include <forward_list>
#include <list>
#include <ranges>
#include <span>
#include "cxx17.hpp"
#include "gen.hpp"
#include "unicode.hpp"

char const* const mc_kinds[] = {"text", "long text", "code units"};

namespace {

// A single-pass or forward iterator that refuses to leave [p, end].
template <typename U, typename Category> struct Watched {
  using iterator_concept = Category;
  using iterator_category = Category;
  using value_type = U;
  using difference_type = std::ptrdiff_t;
  using pointer = U const*;
  using reference = U const&;
  U const* p = nullptr;
  U const* end = nullptr;
  U const& operator* () const {
    MC_CHECK (p != end, "an element past the end of the range was read");
    return *p;
  }
  Watched& operator++ () {
    MC_CHECK (p != end, "the end of the range was passed");
    ++p;
    return *this;
  }
  Watched operator++ (int) {
    auto o = *this;
    ++*this;
    return o;
  }
  bool operator== (Watched const& o) const { return p == o.p; }
  bool operator== (std::default_sentinel_t) const { return p == end; }
};
// Single pass: not comparable with its own kind.
template <typename U> struct Once {
  using iterator_concept = std::input_iterator_tag;
  using iterator_category = std::input_iterator_tag;
  using value_type = U;
  using difference_type = std::ptrdiff_t;
  using pointer = U const*;
  using reference = U;
  U const* p = nullptr;
  U const* end = nullptr;
  U operator* () const {
    MC_CHECK (p != end, "an element past the end of the range was read");
    return *p;
  }
  Once& operator++ () {
    MC_CHECK (p != end, "the end of the range was passed");
    ++p;
    return *this;
  }
  void operator++ (int) { ++*this; }
  bool operator== (std::default_sentinel_t) const { return p == end; }
};

template <typename U> struct Boxed {
  int before;
  U unit;
};
template <typename U> U scramble (U u) { return static_cast<U> (u ^ static_cast<U> (0x5A)); }

// in: the units of `starts.size()` code points, which begin at the given places.
template <typename U> void one (uni::string<U> const& in, std::vector<std::size_t> const& starts, std::string const& text) {
  auto const n = starts.size ();
  auto const what = [&] (char const* how) { return mc::cat (uni::name<U> (), " ", text, " (", how, "): "); };
  auto const count = [&] (auto got, char const* how) {
    mc::step ();
    MC_CHECK (got >= 0 && static_cast<std::size_t> (got) == n, what (how), "length() is ", got, " instead of ", n);
  };
  auto const place = [&] (std::size_t k, auto got, char const* how) {
    mc::step ();
    auto const want = k < n ? starts[k] : in.size ();
    MC_CHECK (got >= 0 && static_cast<std::size_t> (got) == want, what (how), "index() of character ", k, " is ", got, " instead of ", want);
  };
  mc::Exact const raw{{reinterpret_cast<char const*> (in.data ()), in.size () * sizeof (U)}, sizeof (U)};
  auto const* const p = reinterpret_cast<U const*> (raw.view ().data ());
  auto const* const e = p + in.size ();
  std::vector<std::size_t> ks;
  if (n < 12) {
    for (std::size_t k = 0; k <= n + 2; ++k) ks.push_back (k);
  } else {
    ks = {0, 1, n / 2, n - 2, n - 1, n, n + 1};
  }
  ks.push_back (~std::size_t{0});

  std::span<U const> const span{p, in.size ()};
  count (icubaby::length (span), "span");
  count (icubaby::length (p, e), "pointers");
  for (auto k : ks) {
    place (k, icubaby::index (span, k) - span.begin (), "span");
    place (k, icubaby::index (p, e, k) - p, "pointers");
  }
#ifndef NO_VARIANTS
  {
    auto const units = cxx17::units (in);
    count (static_cast<std::ptrdiff_t> (cxx17::length (cxx17::of<U> (), units)), "compiled as C++17");
    for (auto k : ks) place (k, static_cast<std::ptrdiff_t> (cxx17::index (cxx17::of<U> (), units, k)), "compiled as C++17");
  }
#endif
  std::list<U> const list (p, e);
  count (icubaby::length (list), "list");
  count (icubaby::length (list.begin (), list.end ()), "list iterators");
  for (auto k : ks) place (k, std::distance (list.begin (), icubaby::index (list, k)), "list");
  std::forward_list<U> const flist (p, e);
  count (icubaby::length (flist), "forward list");
  for (auto k : ks) place (k, std::distance (flist.begin (), icubaby::index (flist.begin (), flist.end (), k)), "forward list");
  using F = Watched<U, std::forward_iterator_tag>;
  count (icubaby::length (F{p, e}, std::default_sentinel), "sentinel");
  count (icubaby::length (std::ranges::subrange{F{p, e}, F{e, e}}), "forward subrange");
  for (auto k : ks) {
    place (k, icubaby::index (F{p, e}, std::default_sentinel, k).p - p, "sentinel");
    place (k, icubaby::index (std::ranges::subrange{F{p, e}, F{e, e}}, k).p - p, "forward subrange");
  }
  count (icubaby::length (Once<U>{p, e}, std::default_sentinel), "single pass");
  count (icubaby::length (std::ranges::subrange{Once<U>{p, e}, std::default_sentinel}), "single-pass subrange");
  for (auto k : ks) place (k, icubaby::index (Once<U>{p, e}, std::default_sentinel, k).p - p, "single pass");
  // projections
  uni::string<U> hidden;
  for (auto u : in) hidden += scramble (u);
  count (icubaby::length (hidden, scramble<U>), "projection");
  count (icubaby::length (hidden.begin (), hidden.end (), scramble<U>), "projection of iterators");
  std::vector<Boxed<U>> boxes;
  for (auto u : in) boxes.push_back ({7, u});
  for (auto k : ks) {
    place (k, icubaby::index (hidden, k, scramble<U>) - hidden.begin (), "projection");
    place (k, icubaby::index (boxes, k, &Boxed<U>::unit) - boxes.begin (), "member projection");
    place (k, icubaby::index (boxes.begin (), boxes.end (), k, &Boxed<U>::unit) - boxes.begin (), "member projection of iterators");
  }
  // views, with elements that are values
  count (icubaby::length (hidden | std::views::transform (scramble<U>)), "transform view");
  auto const doubled = span | std::views::take (static_cast<std::ptrdiff_t> (in.size ()));
  count (icubaby::length (doubled), "take view");
  // a mutable range gives an iterator to write through
  auto copy = in;
  if (n > 0) {
    auto const it = icubaby::index (copy, n - 1);
    static_assert (std::is_same_v<decltype (*it), U&>);
    place (n - 1, it - copy.begin (), "mutable string");
  }
}

void all (std::u32string const& text, std::string const& what) {
  auto const each = [&]<typename U> (U) {
    std::vector<std::size_t> starts;
    uni::string<U> in;
    for (auto c : text) {
      starts.push_back (in.size ());
      uni::put (in, c);
    }
    one<U> (in, starts, what);
    mc::state (mc::cat (uni::name<U> (), in.size (), ',', starts.size ()));
  };
  each (char8_t{});
  each (char16_t{});
  each (char32_t{});
}

constexpr char32_t edge[] = {0x00, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF};

void gen_cases (mc::Emit& emit, bool thorough) {
  gen::sequences (std::size (edge), thorough ? 5 : 4, [&] (auto const& w) {
    if (!emit.mine ()) return emit.skip ();
    mc::Writer p;
    for (auto i : w) p.u32 (edge[i]);
    emit (0, p.s);
  });
  for (unsigned pattern = 0; pattern < 6; ++pattern) {
    for (unsigned n = 5; n <= (thorough ? 300U : 80U); ++n) emit (1, mc::Writer{}.u32 (pattern).u32 (n).s);
    for (unsigned n : {127U, 128U, 129U, 255U, 256U, 257U, 1000U, 65535U, 65536U, 65537U}) emit (1, mc::Writer{}.u32 (pattern).u32 (n).s);
  }
  for (std::uint32_t first = 0; first <= 0x120000; first += 0x1000) emit (2, mc::Writer{}.u32 (first).s);
  for (std::uint32_t high = 0x20; high < 0x10000; high += (thorough ? 1 : 61)) emit (2, mc::Writer{}.u32 (high << 16).s);
  for (std::uint32_t bit = 21; bit < 32; ++bit) emit (2, mc::Writer{}.u32 (std::uint32_t{1} << bit | 0xD000U).s);
  emit (2, mc::Writer{}.u32 (0xFFFFF000U).s);
}

void units (std::uint32_t first) {
  for (std::uint32_t i = 0; i < 0x1000; ++i) {
    auto const u = first + i;
    auto const c = static_cast<char32_t> (u);
    bool const hi = u >= 0xD800 && u <= 0xDBFF, lo = u >= 0xDC00 && u <= 0xDFFF;
    MC_CHECK (icubaby::is_high_surrogate (c) == hi, "is_high_surrogate() of ", u, " is ", !hi);
    MC_CHECK (icubaby::is_low_surrogate (c) == lo, "is_low_surrogate() of ", u, " is ", !lo);
    MC_CHECK (icubaby::is_surrogate (c) == (hi || lo), "is_surrogate() of ", u, " is ", !(hi || lo));
#ifndef NO_VARIANTS
    MC_CHECK (cxx17::high (u) == hi && cxx17::low (u) == lo && cxx17::surrogate (u) == (hi || lo), "the classification of ", u, " is wrong when compiled as C++17");
    MC_CHECK (cxx17::starts (cxx17::utf32, u) == uni::scalar (c) && (u >= 0x10000 || cxx17::starts (cxx17::utf16, u) == !lo) &&
                  (u >= 0x100 || cxx17::starts (cxx17::utf8, u) == (u < 0x80 || u > 0xBF)),
              "is_code_point_start() of the unit ", u, " is wrong when compiled as C++17");
#endif
    bool const scalar = uni::scalar (c);
    MC_CHECK (icubaby::is_code_point_start (c) == scalar, "is_code_point_start() of the UTF-32 unit ", u, " is ", !scalar);
    if (u < 0x10000) MC_CHECK (icubaby::is_code_point_start (static_cast<char16_t> (u)) == !lo, "is_code_point_start() of the UTF-16 unit ", u, " is ", lo);
    if (u < 0x100) {
      bool const start = u < 0x80 || u > 0xBF;
      MC_CHECK (icubaby::is_code_point_start (static_cast<char8_t> (u)) == start, "is_code_point_start() of the UTF-8 unit ", u, " is ", !start);
    }
  }
  mc::step (5 * 0x1000);
  mc::state (mc::cat ("units", first));
  mc::outcome ("code units");
}

}  // namespace

void mc_check (unsigned kind, std::string_view payload) {
  mc::Reader r{payload};
  if (kind == 0) {
    std::u32string text;
    while (!r.empty ()) text += static_cast<char32_t> (r.u32 ());
    all (text, uni::show<char32_t> (text));
    mc::outcome ("text");
  } else if (kind == 1) {
    auto const pattern = r.u32 (), n = r.u32 ();
    std::u32string text;
    for (unsigned i = 0; i < n; ++i) text += edge[pattern < 4 ? pattern * 3 : (i * (pattern - 3) + i / 3) % std::size (edge)];
    all (text, mc::cat ("of ", n, " characters (pattern ", pattern, ")"));
    mc::outcome ("long text");
  } else {
    units (r.u32 ());
  }
}

MC_MAIN (gen_cases)
