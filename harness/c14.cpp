// C14: decoding of byte streams which may begin with a byte-order mark.
#include <bit>
#include <list>
#include <optional>
#include <ranges>
#include <span>
#include "cxx17.hpp"
#include "gen.hpp"
#include "once.hpp"
#include "unicode.hpp"

char const* const mc_kinds[] = {"bytes", "long stream", "neighbours", "special", "two transcoders"};

namespace {

using icubaby::encoding;

struct Detected {
  encoding e = encoding::unknown;  // unknown: not decided by the bytes so far
  std::size_t mark = 0;
};
// Detection for a prefix of a stream; at_end: there is nothing after it.
Detected detect (std::string_view s, bool at_end) {
  using namespace std::string_view_literals;
  struct Mark {
    std::string_view bytes;
    encoding e;
  };
  static Mark const marks[] = {{"\xFF\xFE\0\0"sv, encoding::utf32le}, {"\0\0\xFE\xFF"sv, encoding::utf32be}, {"\xEF\xBB\xBF"sv, encoding::utf8},
                               {"\xFE\xFF"sv, encoding::utf16be},     {"\xFF\xFE"sv, encoding::utf16le}};
  for (auto const& m : marks) {
    if (s.starts_with (m.bytes)) return {m.e, m.bytes.size ()};
    if (!at_end && m.bytes.starts_with (s)) return {};  // may still become this one
  }
  return {encoding::utf8, 0};
}
char const* name (encoding e) {
  switch (e) {
  case encoding::utf8: return "UTF-8";
  case encoding::utf16be: return "UTF-16BE";
  case encoding::utf16le: return "UTF-16LE";
  case encoding::utf32be: return "UTF-32BE";
  case encoding::utf32le: return "UTF-32LE";
  default: return "unknown";
  }
}
std::size_t unit_size (encoding e) {
  return e == encoding::utf8 ? 1 : e == encoding::utf16be || e == encoding::utf16le ? 2 : 4;
}
template <typename U> U unit (std::string_view s, bool little) {
  std::uint32_t v = 0;
  for (std::size_t i = 0; i < sizeof (U); ++i) {
    auto const b = static_cast<unsigned char> (s[little ? sizeof (U) - 1 - i : i]);
    v = v << 8 | b;
  }
  return static_cast<U> (v);
}
std::string bytes_of (std::u32string const& text, encoding e) {
  std::string r;
  auto const units = [&] (auto const& s) {
    for (auto u : s)
      for (std::size_t i = 0; i < sizeof (u); ++i) {
        auto const shift = e == encoding::utf16le || e == encoding::utf32le ? i : sizeof (u) - 1 - i;
        r += static_cast<char> (static_cast<std::uint32_t> (u) >> (8 * shift) & 0xFF);
      }
  };
  if (e == encoding::utf8) units (uni::encode<char8_t> (text));
  else if (unit_size (e) == 2) units (uni::encode<char16_t> (text));
  else units (uni::encode<char32_t> (text));
  return r;
}

template <typename To> struct Want {
  Detected found;
  uni::string<To> before_end, total;
  bool partial = false, ok = true;
};
template <typename U, typename To> void decode (Want<To>& w, std::string_view rest) {
  icubaby::transcoder<U, To> t;  // property C13 decides this one
  bool const little = w.found.e == encoding::utf16le || w.found.e == encoding::utf32le;
  while (rest.size () >= sizeof (U)) {
    t (unit<U> (rest, little), std::back_inserter (w.before_end));
    rest.remove_prefix (sizeof (U));
  }
  w.partial = t.partial () || !rest.empty ();
  w.total = w.before_end;
  t.end_cp (std::back_inserter (w.total));
  w.ok = t.well_formed ();
  if (!rest.empty ()) {
    w.ok = false;
    uni::put (w.total, uni::bad);
  }
}
template <typename To> Want<To> model (std::string_view in, bool at_end) {
  Want<To> w;
  w.found = detect (in, at_end);
  auto const rest = in.substr (w.found.mark);
  switch (unit_size (w.found.e)) {
  case 1: decode<char8_t> (w, rest); break;
  case 2: decode<char16_t> (w, rest); break;
  default:
    if (w.found.e == encoding::unknown) break;
    decode<char32_t> (w, rest);
    break;
  }
  return w;
}

struct Stop {};
struct Pointer {
  using iterator_concept = std::forward_iterator_tag;
  using iterator_category = std::forward_iterator_tag;
  using value_type = std::byte;
  using difference_type = std::ptrdiff_t;
  using pointer = std::byte const*;
  using reference = std::byte const&;
  std::byte const* p = nullptr;
  std::byte const* end = nullptr;
  std::byte const& operator* () const {
    MC_CHECK (p != end, "the view read past the end of its range");
    return *p;
  }
  Pointer& operator++ () {
    MC_CHECK (p != end, "the view stepped past the end of its range");
    ++p;
    return *this;
  }
  Pointer operator++ (int) {
    auto o = *this;
    ++*this;
    return o;
  }
  bool operator== (Pointer const& o) const { return p == o.p; }
  bool operator== (Stop) const { return p == end; }
};

template <typename To, typename View> void view (View const& v, char const* kind, std::string_view in, Want<To> const& want) {
  auto const what = [&] { return mc::cat ("view (", kind, ") of ", mc::show (in), " as ", uni::name<To> (), ": "); };
  for (int pass = 0; pass < 2; ++pass) {
    uni::string<To> out;
    for (auto c : v) {
      out += c;
      MC_CHECK (out.size () <= 3 * in.size () + 8, what (), "does not end");
    }
    MC_CHECK (out == want.total, what (), "gives ", uni::show<To> (out), " instead of ", uni::show<To> (want.total));
    MC_CHECK (v.well_formed () == want.ok, what (), "well_formed() is ", v.well_formed ());
  }
  uni::string<To> out;
  auto it = v.begin ();
  auto const end = v.end ();
  while (!(it == end)) {
    auto const copy = it;
    out += *it++;
    MC_CHECK (*copy == out.back (), what (), "a copy of an iterator changed");
    MC_CHECK (out.size () <= 3 * in.size () + 8, what (), "does not end");
  }
  MC_CHECK (out == want.total, what (), "a third pass gives ", uni::show<To> (out));
}

#ifndef NO_VARIANTS
// The same transcoder compiled as C++17 does the same.
template <typename To> void as_cxx17 (std::string_view in, Want<To> const& want, std::string const& text, std::vector<char> const* partial) {
  auto const what = [&] { return mc::cat (text, " as ", uni::name<To> (), ", compiled as C++17: "); };
  cxx17::Units units;
  for (char c : in) units.push_back (static_cast<unsigned char> (c));
  auto const total = cxx17::units (want.total);
  for (bool adaptor : {false, true}) {
    cxx17::Result r;
    cxx17::transcode (cxx17::bytes, cxx17::of<To> (), units, adaptor, r);
    MC_CHECK (r.total == total, what (), "a different result of ", r.total.size (), " units");
    MC_CHECK (r.ok == want.ok && !r.partial_at_end, what (), "well_formed() is ", r.ok);
    MC_CHECK (r.encoding == static_cast<int> (want.found.e), what (), "the encoding is reported as ", r.encoding);
    if (!adaptor && partial != nullptr) MC_CHECK (r.partial == *partial, what (), "partial() differs");
  }
  mc::step (2 * in.size ());
}

#endif
template <typename To> void one (std::string_view in) {
  auto const what = [&] { return mc::cat (mc::show (in), " as ", uni::name<To> (), ": "); };
  auto const want = model<To> (in, true);
  icubaby::transcoder<std::byte, To> t;
  MC_CHECK (t.well_formed () && !t.partial () && t.selected_encoding () == encoding::unknown, what (), "wrong initial state");
  uni::string<To> out;
  std::vector<char> partial;
  for (std::size_t i = 0; i < in.size (); ++i) {
    To buffer[16];
    auto const e = t (static_cast<std::byte> (in[i]), buffer);
    out.append (buffer, static_cast<std::size_t> (e - buffer));
    partial.push_back (t.partial ());
    auto const sofar = model<To> (in.substr (0, i + 1), false);
    MC_CHECK (t.selected_encoding () == sofar.found.e, what (), "after byte ", i + 1, " the encoding is reported as ", name (t.selected_encoding ()));
    if (sofar.found.e != encoding::unknown) {
      MC_CHECK (t.partial () == sofar.partial, what (), "partial() is ", t.partial (), " after byte ", i + 1);
      MC_CHECK (out == sofar.before_end, what (), "after byte ", i + 1, " the output is ", uni::show<To> (out), " instead of ",
                uni::show<To> (sofar.before_end));
    } else {
      MC_CHECK (out.empty (), what (), "output before the encoding is known");
    }
  }
  To buffer[16];
  auto e = t.end_cp (buffer);
  out.append (buffer, static_cast<std::size_t> (e - buffer));
  MC_CHECK (out == want.total, what (), "gives ", uni::show<To> (out), " instead of ", uni::show<To> (want.total));
  MC_CHECK (t.well_formed () == want.ok, what (), "well_formed() is ", t.well_formed ());
  MC_CHECK (!t.partial (), what (), "partial() after end_cp()");
  MC_CHECK (t.selected_encoding () == want.found.e, what (), "the encoding is reported as ", name (t.selected_encoding ()), " instead of ",
            name (want.found.e));
  mc::state (mc::cat (name (want.found.e), want.found.mark, want.partial, want.ok, in.size () - want.found.mark));
  mc::outcome (name (want.found.e));
  mc::outcome (want.ok ? "well-formed" : "ill-formed");
  AS_CXX17 (as_cxx17 (in, want, mc::show (in), &partial);)
  // a second end adds nothing
  e = t.end_cp (buffer);
  MC_CHECK (e == buffer, what (), "a second end_cp() writes something");
  // text after the end is decoded in the same encoding
  std::u32string const next{U'a', 0xFEFF, 0x20AC, 0x1F600, U'z'};
  uni::string<To> more;
  for (auto c : bytes_of (next, want.found.e)) t (static_cast<std::byte> (c), std::back_inserter (more));
  t.end_cp (std::back_inserter (more));
  MC_CHECK (more == uni::encode<To> (next), what (), "text after the end of this one becomes ", uni::show<To> (more));
  MC_CHECK (t.well_formed () == want.ok, what (), "well_formed() becomes ", t.well_formed (), " after more, well-formed text");
  {  // adaptor, and copies of a transcoder
    icubaby::transcoder<std::byte, To> a;
    uni::string<To> out2;
    auto it = icubaby::iterator{&a, std::back_inserter (out2)};
    for (std::size_t i = 0; i < in.size () / 2; ++i) *(it++) = static_cast<std::byte> (in[i]);
    auto b = a;
    auto out3 = out2;
    for (std::size_t i = in.size () / 2; i < in.size (); ++i) *(it++) = static_cast<std::byte> (in[i]);
    it = a.end_cp (it);
    MC_CHECK (out2 == want.total && a.well_formed () == want.ok && a.selected_encoding () == want.found.e, what (), "the adaptor gives ",
              uni::show<To> (out2));
    for (std::size_t i = in.size () / 2; i < in.size (); ++i) b (static_cast<std::byte> (in[i]), std::back_inserter (out3));
    b.end_cp (std::back_inserter (out3));
    MC_CHECK (out3 == want.total && b.well_formed () == want.ok && b.selected_encoding () == want.found.e, what (), "a copied transcoder gives ",
              uni::show<To> (out3));
  }
  mc::Exact const raw{in};
  auto const* const p = reinterpret_cast<std::byte const*> (raw.view ().data ());
  view<To> (std::span<std::byte const>{p, in.size ()} | icubaby::views::transcode<std::byte, To>, "span", in, want);
  view<To> (std::ranges::subrange<Pointer, Stop>{Pointer{p, p + in.size ()}, Stop{}} | icubaby::views::transcode<std::byte, To>, "sentinel", in,
            want);
  std::list<std::byte> const l (p, p + in.size ());
  view<To> (l | icubaby::views::transcode<std::byte, To>, "list", in, want);
  once::each (p, in.size (), [&] (auto const& range, char const* kind) {
    auto const what = [&] { return mc::cat ("view (", kind, ") of ", mc::show (in), " as ", uni::name<To> (), ": "); };
    auto const v = range | icubaby::views::transcode<std::byte, To>;
    uni::string<To> once;
    auto const end = v.end ();
    for (auto it = v.begin (); !(it == end); ++it) {
      once += *it;
      MC_CHECK (once.size () <= 3 * in.size () + 8, what (), "does not end");
    }
    MC_CHECK (once == want.total, what (), "gives ", uni::show<To> (once), " instead of ", uni::show<To> (want.total));
    MC_CHECK (v.well_formed () == want.ok, what (), "well_formed() is ", v.well_formed ());
  });
  mc::step (14 * in.size ());
}

// A long stream: the whole result only.
template <typename To> void whole (std::string_view in, std::string const& text) {
  auto const want = model<To> (in, true);
  auto const same = [&] (uni::string<To> const& got, bool ok, char const* how) {
    if (got != want.total) {
      std::size_t at = 0;
      while (at < got.size () && at < want.total.size () && got[at] == want.total[at]) ++at;
      mc::fail (mc::cat (text, " as ", uni::name<To> (), ": ", how, " gives ", got.size (), " units instead of ", want.total.size (),
                         ", different from unit ", at + 1));
    }
    MC_CHECK (ok == want.ok, text, ": well_formed() of ", how, " is ", ok);
  };
  icubaby::transcoder<std::byte, To> t;
  uni::string<To> out;
  for (char c : in) t (static_cast<std::byte> (c), std::back_inserter (out));
  t.end_cp (std::back_inserter (out));
  same (out, t.well_formed (), "the transcoder");
  MC_CHECK (t.selected_encoding () == want.found.e, text, ": the encoding is reported as ", name (t.selected_encoding ()));
  AS_CXX17 (as_cxx17 (in, want, text, nullptr);)
  mc::Exact const raw{in};
  auto const* const p = reinterpret_cast<std::byte const*> (raw.view ().data ());
  auto const v = std::span<std::byte const>{p, in.size ()} | icubaby::views::transcode<std::byte, To>;
  uni::string<To> lazy;
  for (auto c : v) lazy += c;
  same (lazy, v.well_formed (), "the view");
  mc::step (2 * in.size ());
}
std::vector<std::string> const& marks () {
  using namespace std::string_literals;
  static std::vector<std::string> const m{""s, "\xEF\xBB\xBF"s, "\xFE\xFF"s, "\xFF\xFE"s, "\0\0\xFE\xFF"s, "\xFF\xFE\0\0"s};
  return m;
}
constexpr encoding encodings[] = {encoding::utf8, encoding::utf8, encoding::utf16be, encoding::utf16le, encoding::utf32be, encoding::utf32le};
// Text of n characters behind mark k; a byte-order mark as a character at place `at`; `cut` bytes missing.
void long_stream (unsigned k, unsigned n, unsigned at, unsigned cut) {
  static constexpr char32_t run[] = {0x41, 0xE9, 0x20AC, 0x1F600, 0xFFFE, 0xFEFE};
  std::u32string text;
  for (unsigned i = 0; i < n; ++i) text += i == at ? char32_t{0xFEFF} : run[(i * 5 + i / 6 + n) % std::size (run)];
  auto s = marks ()[k] + bytes_of (text, encodings[k]);
  s.resize (s.size () - cut);
  auto const what = mc::cat ("a ", name (encodings[k]), " stream of ", n, " characters, ", cut, " bytes short, U+FEFF at ", at);
  whole<char8_t> (s, what);
  whole<char16_t> (s, what);
  whole<char32_t> (s, what);
}

// One text in every encoding: whole result of the transcoder and of the view.
void in_every_encoding (std::u32string const& text, bool all_outputs) {
  for (std::size_t k = 0; k < marks ().size (); ++k) {
    // without a mark, a text must not begin with one
    if (marks ()[k].empty () && text[0] != U'~') continue;
    if (encodings[k] == encoding::utf16le && text[0] == 0) continue;  // FF FE 00 00 marks UTF-32LE
    auto const in = marks ()[k] + bytes_of (text, encodings[k]);
    auto const to = [&]<typename To> (To) {
      auto const want = uni::encode<To> (text);
      auto const is = [&] (bool good, char const* how) {
        if (!good) mc::fail (mc::cat (name (encodings[k]), " stream of ", uni::show<char32_t> (text), " as ", uni::name<To> (), ": ", how, " is wrong"));
      };
      static thread_local std::vector<To> buffer;
      buffer.resize (want.size () + 64);
      icubaby::transcoder<std::byte, To> t;
      auto* out = buffer.data ();
      for (char c : in) {
        out = t (static_cast<std::byte> (c), out);
        if (out > buffer.data () + want.size () + 16) break;
      }
      out = t.end_cp (out);
      is (std::basic_string_view<To> (buffer.data (), static_cast<std::size_t> (out - buffer.data ())) == want, "the transcoder's result");
      is (t.well_formed () && !t.partial (), "the transcoder's status");
      auto const v = std::span<std::byte const>{reinterpret_cast<std::byte const*> (in.data ()), in.size ()} | icubaby::views::transcode<std::byte, To>;
      is (std::ranges::equal (v, want) && v.well_formed (), "the view");
      mc::step (2 * in.size ());
    };
    // the decoders of the encodings meet every encoder in the first case only
    if (all_outputs || k < 2) to (char8_t{});
    if (all_outputs || k < 2) to (char16_t{});
    to (char32_t{});
  }
}

// Two transcoders fed alternately, in every order of their bytes; exchanged, copied and moved at any place of one of the orders.
template <typename To> void two (std::string const in[2], std::vector<unsigned> const& order, unsigned change, std::size_t at) {
  using T = icubaby::transcoder<std::byte, To>;
  T t[2];
  unsigned which[2] = {0, 1};  // the transcoder used for each stream
  uni::string<To> out[2];
  std::size_t next[2] = {0, 0};
  for (std::size_t i = 0; i <= order.size (); ++i) {
    if (i == at) {
      if (change == 1) {
        std::swap (t[0], t[1]);
        std::swap (which[0], which[1]);
      } else if (change == 2) {
        T c0 = t[0], c1 = t[1];
        t[0] = T{};
        t[1] = T{};
        t[1] = c1;
        t[0] = c0;
      } else if (change == 3) {
        T m0 = std::move (t[0]), m1 = std::move (t[1]);
        t[0] = std::move (m1);
        t[1] = std::move (m0);
        std::swap (which[0], which[1]);
      }
    }
    if (i == order.size ()) break;
    auto const k = order[i];
    t[which[k]] (static_cast<std::byte> (in[k][next[k]++]), std::back_inserter (out[k]));
  }
  for (unsigned k : {1U, 0U}) t[which[k]].end_cp (std::back_inserter (out[k]));
  for (unsigned k : {0U, 1U}) {
    auto const want = model<To> (in[k], true);
    auto const& x = t[which[k]];
    MC_CHECK (out[k] == want.total && x.well_formed () == want.ok && x.selected_encoding () == want.found.e, mc::show (in[k]), " as ", uni::name<To> (), " alternating with ",
              mc::show (in[1 - k]), " (change ", change, " at ", at, "): gives ", uni::show<To> (out[k]), ", well_formed() is ", x.well_formed (), ", the encoding ",
              name (x.selected_encoding ()));
  }
  mc::step (order.size () + 2);
}
void two_all (unsigned a, unsigned b) {
  auto const stream = [] (unsigned k) { return marks ()[k] + (k < 2 ? std::string{"\xF0\x9F"} : bytes_of (k < 4 ? U"\x100E9" : U"\x20AC", encodings[k]).substr (k < 4 ? 0 : 1)); };
  std::string const in[2] = {stream (a), stream (b)};
  auto const n = in[0].size () + in[1].size ();
  auto const every = [&] (std::vector<unsigned> const& order, unsigned change, std::size_t at) {
    two<char8_t> (in, order, change, at);
    two<char16_t> (in, order, change, at);
    two<char32_t> (in, order, change, at);
  };
  std::vector<unsigned> order;
  for (unsigned bits = 0; bits < 1U << n; ++bits) {
    if (static_cast<std::size_t> (std::popcount (bits)) != in[1].size ()) continue;
    order.clear ();
    for (unsigned i = 0; i < n; ++i) order.push_back (bits >> i & 1U);
    every (order, 0, 0);
  }
  order.clear ();
  for (unsigned i = 0; order.size () < n; ++i) {
    if (i < in[0].size ()) order.push_back (0);
    if (i < in[1].size ()) order.push_back (1);
  }
  for (unsigned change = 1; change < 4; ++change)
    for (std::size_t at = 0; at <= n; ++at) every (order, change, at);
}

void gen_cases (mc::Emit& emit, bool thorough) {
  for (char32_t c = 0; c <= 0x10FFFF; c += 64) emit (2, mc::Writer{}.u8 (thorough).u32 (c).s);
  gen::sequences (std::size (uni::special), thorough ? 4 : 3, [&] (auto const& w) {
    if (w.empty () || !emit.mine ()) return emit.skip ();
    mc::Writer p;
    p.u8 (thorough);
    for (auto i : w) p.u32 (uni::special[i]);
    emit (3, p.s);
  });
  for (unsigned a = 0; a < marks ().size (); ++a)
    for (unsigned b = 0; b < marks ().size (); ++b) emit (4, mc::Writer{}.u8 (a).u8 (b).s);
  for (unsigned k = 0; k < marks ().size (); ++k) {
    for (unsigned n = 3; n <= (thorough ? 140U : 70U); ++n)
      for (unsigned at = 0; at <= n; ++at) emit (1, mc::Writer{}.u32 (k).u32 (n).u32 (at).u32 (0).s);
    for (unsigned n : {127U, 128U, 129U, 255U, 256U, 257U, 1000U, 4096U, 65537U})
      for (unsigned at : {1U, n - 1, n})
        for (unsigned cut : {0U, 1U, 2U, 3U}) emit (1, mc::Writer{}.u32 (k).u32 (n).u32 (at).u32 (cut).s);
  }
  using namespace std::string_literals;
  auto const seq = [&] (std::string const& alphabet, std::string const& prefix, std::size_t n) {
    gen::sequences (alphabet.size (), n, [&] (auto const& w) {
      if (!emit.mine ()) return emit.skip ();
      auto s = prefix;
      for (auto i : w) s += alphabet[i];
      emit (0, s);
    });
  };
  std::string const twelve = "\0\xFE\xFF\xEF\xBB\xBF\x41\xD8\xDC\xC3\x01\x10"s;
  std::string const six = "\0\xFE\xFF\xD8\xDC\x10"s;
  seq (twelve, "", thorough ? 6 : 4);
  for (auto const& m : marks ()) {
    if (!m.empty ()) seq (twelve, m, thorough ? 5 : 3);
    seq (six, m, thorough ? 7 : 5);
    // every byte at every place of the mark and of the units after it
    std::string const tail = "\0\0\0\x41\x41\0\0\0\xD8\x3D\xDE\0\x3D\xD8\0\xDE"s;
    for (auto const& s : {m + tail, m + "\0\x01\xF6\x10"s, m + "\0\xF6\x01\0\0"s, m + "\xF0\x9F\x98\x80"s})
      for (std::size_t at = 0; at < s.size (); ++at)
        for (unsigned b = 0; b < 256; ++b) {
          auto x = s;
          x[at] = static_cast<char> (b);
          emit (0, x);
          emit (0, x.substr (0, at + 1));
        }
  }
  // well-formed text in each encoding, cut at every place
  std::u32string const scalars{0, 1, 'A', 0x7F, 0x80, 0xFF, 0x100, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFEFF, 0xFFFE, 0xFFFD, 0xFFFF, 0x10000, 0x1F600, 0xFFFFF, 0x100000, 0x10FFFF};
  for (std::size_t k = 0; k < marks ().size (); ++k)
    for (auto a : scalars)
      for (auto b : scalars) {
        auto const s = marks ()[k] + bytes_of ({a, b, a}, encodings[k]);
        for (std::size_t n = marks ()[k].size (); n <= s.size (); ++n) emit (0, s.substr (0, n));
      }
}

}  // namespace

void mc_check (unsigned kind, std::string_view payload) {
  if (kind == 1) {
    mc::Reader r{payload};
    auto const k = r.u32 (), n = r.u32 (), at = r.u32 (), cut = r.u32 ();
    return long_stream (k, n, at, cut);
  }
  if (kind == 2) {
    mc::Reader r{payload};
    bool const all = r.u8 () != 0;
    auto const first = static_cast<char32_t> (r.u32 ());
    for (auto c = first; c < first + 64; ++c)
      if (uni::scalar (c)) in_every_encoding (uni::among_special (c), all);
    mc::outcome ("neighbours");
    return;
  }
  if (kind == 3) {
    mc::Reader r{payload};
    bool const all = r.u8 () != 0;
    std::u32string text;
    while (!r.empty ()) text += static_cast<char32_t> (r.u32 ());
    in_every_encoding (text, all);
    in_every_encoding (U"~" + text, all);
    mc::outcome ("special");
    return;
  }
  if (kind == 4) {
    mc::Reader r{payload};
    auto const a = r.u8 (), b = r.u8 ();
    two_all (a, b);
    mc::outcome ("two transcoders");
    return;
  }
  one<char8_t> (payload);
  one<char16_t> (payload);
  one<char32_t> (payload);
}

MC_MAIN (gen_cases)
