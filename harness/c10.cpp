// C10: punycode.
#include <list>
#include <ranges>
#include "gen.hpp"
#include "uri/punycode.hpp"

char const* const mc_kinds[] = {"encode", "every code point", "decode", "overflow", "errors", "samples", "long texts"};

namespace {

namespace puny = uri::punycode;
using std::u32string;

std::string pack (u32string const& s) {
  mc::Writer w;
  for (char32_t c : s) w.u32 (c);
  return w.s;
}
std::string show (u32string const& s) {
  std::ostringstream os;
  for (char32_t c : s) os << "U+" << std::hex << static_cast<std::uint32_t> (c) << ' ';
  return os.str ();
}

// Decode by every kind of range; they must all give the same.
struct Got {
  bool ok = false;
  std::error_code error;
  u32string str;
  bool operator== (Got const&) const = default;
};
template <typename R, typename I> Got outcome_of (R const& r, I end, std::string_view text) {
  Got g;
  if (auto const* e = std::get_if<std::error_code> (&r)) {
    g.error = *e;
    MC_CHECK (static_cast<bool> (*e), "an error code that is no error, for ", mc::show (text));
  } else {
    g.ok = true;
    g.str = std::get<1> (r).str;
    MC_CHECK (std::get<1> (r).in == end, "decode stops before the end of ", mc::show (text));
  }
  return g;
}
// The overload for iterators takes any type of character.
template <typename C> void typed (std::string_view s, Got const& want) {
  if constexpr (requires (C const* p) { puny::decode (p, p); }) {
    std::vector<C> v;
    for (char c : s) v.push_back (static_cast<C> (static_cast<unsigned char> (c)));
    C const* const p = v.data ();
    MC_CHECK (outcome_of (puny::decode (p, p + v.size ()), p + v.size (), s) == want, "decode of characters of ", sizeof (C),
              " bytes differs for ", mc::show (s));
  }
}
// A character above 0x7F is neither a digit, a delimiter nor basic, whatever its low byte is.
template <typename C> void lifted (std::string_view s, std::initializer_list<std::uint32_t> by) {
  if constexpr (requires (C const* p) { puny::decode (p, p); }) {
    std::vector<C> v;
    for (char c : s) v.push_back (static_cast<C> (static_cast<unsigned char> (c)));
    C const* const p = v.data ();
    for (std::size_t i = 0; i < v.size (); ++i) {
      std::string t{s};
      t[i] = '\x80';
      auto const want = outcome_of (puny::decode (t), t.end (), t);
      for (auto const more : by) {
        auto const was = v[i];
        v[i] = static_cast<C> (static_cast<std::uint32_t> (was) + more);
        mc::step ();
        MC_CHECK (outcome_of (puny::decode (p, p + v.size ()), p + v.size (), t) == want, "a character of ", sizeof (C), " bytes, ",
                  static_cast<std::uint32_t> (v[i]), ", at ", i, " of ", mc::show (s), " is read as another");
        v[i] = was;
      }
    }
  }
}

Got decode (std::string_view s) {
  mc::Exact const e{s};
  std::string_view const in{e};
  mc::step (5);
  auto const g = outcome_of (puny::decode (in), in.end (), s);
  {
    char const* p = in.data ();
    MC_CHECK (outcome_of (puny::decode (p, p + in.size ()), p + in.size (), s) == g, "decode of pointers differs for ", mc::show (s));
  }
  {
    std::list<char> const l (s.begin (), s.end ());
    MC_CHECK (outcome_of (puny::decode (l), l.end (), s) == g, "decode of a list differs for ", mc::show (s));
  }
  {
    // A range whose end is a predicate, as decode() of a host label uses.
    std::string t{s};
    t += '\x01';
    t += "xyz-";
    auto const view = std::views::all (t) | std::views::take_while ([] (char c) { return c != '\x01'; });
    if (s.find ('\x01') == std::string_view::npos)
      MC_CHECK (outcome_of (puny::decode (view), t.begin () + static_cast<std::ptrdiff_t> (s.size ()), s) == g,
                "decode of a range with a sentinel differs for ", mc::show (s));
  }
  std::string const copy{s};
  MC_CHECK (outcome_of (puny::decode (copy), copy.end (), s) == g, "decode of a string differs for ", mc::show (s));
  MC_CHECK (e.view () == s, "the input was modified");
  return g;
}

void check_decode (std::string_view s) {
  using ref::puny::Decoded;
  auto const want = ref::puny::decode (s);
  auto const got = decode (s);
  typed<char8_t> (s, got);
  typed<signed char> (s, got);
  typed<unsigned char> (s, got);
  typed<char16_t> (s, got);
  typed<char32_t> (s, got);
  typed<wchar_t> (s, got);
  if (s.size () <= 40) {
    lifted<char16_t> (s, {0x100, 0x300, 0x8000, 0xFF00});
    lifted<char32_t> (s, {0x100, 0x10000, 0x100000, 0x80000000, 0xFFFFFF00});
    lifted<wchar_t> (s, {0x100, 0x10000});
  }
  auto const bad = puny::make_error_code (puny::decode_error_code::bad_input);
  auto const over = puny::make_error_code (puny::decode_error_code::overflow);
  auto const said = [&] { return got.ok ? "the value " + show (got.str) : got.error.message (); };
  if (!got.ok) MC_CHECK (got.error == bad || got.error == over, "an unknown error: ", got.error.message (), " for ", mc::show (s));
  mc::state (got.ok ? mc::cat ("v", show (got.str)) : got.error.message ());
  if (want.leading_delimiter && !got.ok) {
    MC_CHECK (want.what == Decoded::value ? got.error == bad : true, "decoding ", mc::show (s), " gives ", said ());
    return;
  }
  switch (want.what) {
  case Decoded::value:
    mc::outcome (want.outside_unicode ? "value outside Unicode" : "value");
    if (want.outside_unicode) {
      if (!got.ok) return;
      MC_CHECK (got.str.size () == want.str.size (), "decoding ", mc::show (s), " gives ", said (), " instead of ", show (want.str));
      for (std::size_t i = 0; i < want.str.size (); ++i)
        MC_CHECK (got.str[i] == want.str[i] || (!ref::scalar (want.str[i]) && got.str[i] == 0xFFFD), "decoding ", mc::show (s), " gives ",
                  said (), " instead of ", show (want.str));
      return;
    }
    MC_CHECK (got.ok && got.str == want.str, "decoding ", mc::show (s), " gives ", said (), " instead of ", show (want.str));
    break;
  case Decoded::bad_input:
    mc::outcome ("bad input");
    // What lies outside Unicode may have been refused as overflow before the bad digit is met.
    MC_CHECK (!got.ok && (got.error == bad || (want.outside_unicode && got.error == over)), "decoding ", mc::show (s), " gives ", said (),
              " instead of bad input");
    break;
  case Decoded::overflow:
    mc::outcome ("overflow");
    MC_CHECK (!got.ok && got.error == over, "decoding ", mc::show (s), " gives ", said (), " instead of overflow");
    break;
  case Decoded::bad_or_overflow:
    mc::outcome ("bad input or overflow");
    MC_CHECK (!got.ok, "decoding ", mc::show (s), " gives ", said (), " instead of an error");
    break;
  }
}

void check_encode (u32string const& s) {
  bool non_ascii = false;
  for (char32_t c : s) non_ascii |= c >= 0x80;
  for (bool plain : {true, false}) {
    auto const want = ref::puny::encode (s, plain);
    auto const is = [&] (std::string const& got, bool any, bool at_end, char const* how) {
      mc::step ();
      MC_CHECK (got == want, "encoding ", show (s), " from ", how, " (plain=", plain, ") gives ", mc::show (got), " instead of ", mc::show (want));
      MC_CHECK (any == non_ascii, "encode reports ", any ? "non-ASCII" : "only ASCII", " for ", show (s));
      MC_CHECK (at_end, "encode does not return the end of its input for ", show (s));
    };
    {
      std::string out;
      auto const [in, o, any] = puny::encode (s, plain, std::back_inserter (out));
      is (out, any, in == s.end (), "a u32string");
    }
    {
      std::string out (want.size () + 1, '\x5A');
      std::u32string_view const v{s};
      auto const [in, o, any] = puny::encode (v, plain, out.data ());
      MC_CHECK (o == out.data () + want.size () && out.back () == '\x5A', "encode returns another output position for ", show (s));
      out.pop_back ();
      is (out, any, in == v.end (), "a view, into an array");
    }
    {
      std::list<char32_t> const l (s.begin (), s.end ());
      std::string out;
      auto const [in, o, any] = puny::encode (l, plain, std::back_inserter (out));
      is (out, any, in == l.end (), "a list");
    }
    {
      u32string t = s + u32string{0xFFFFFFFF, 0x5A5A, U'x'};
      auto const view = std::ranges::subrange{t.begin (), t.end ()} | std::views::take_while ([] (char32_t c) { return c != 0xFFFFFFFF; });
      std::string out;
      auto const [in, o, any] = puny::encode (view, plain, std::back_inserter (out));
      is (out, any, in == t.begin () + static_cast<std::ptrdiff_t> (s.size ()), "a range with a sentinel");
    }
    if (!plain || non_ascii) {
      auto const back = decode (want);
      bool scalars = true;
      for (char32_t c : s) scalars = scalars && ref::scalar (c);
      if (scalars || back.ok) MC_CHECK (back.ok && back.str == s, "decoding ", mc::show (want), " does not give back ", show (s));
      auto upper = want;
      for (auto i = want.rfind ('-') == std::string::npos ? 0 : want.rfind ('-'); i < upper.size (); ++i)
        if (upper[i] >= 'a' && upper[i] <= 'z') upper[i] = static_cast<char> (upper[i] - 32);
      MC_CHECK (decode (upper) == back, "upper-case digits decode differently in ", mc::show (upper));
    }
    mc::state (want);
  }
  mc::outcome (non_ascii ? "non-ASCII" : "ASCII");
}

struct Sample {
  char32_t const* text;
  char const* puny;
};
// RFC 3492 section 7.1 and others in wide use.
constexpr Sample samples[] = {
  {U"ليهمابتكلموشعربي؟", "egbpdaj6bu4bxfgehfvwxn"},
  {U"他们为什么不说中文", "ihqwcrb4cv8a8dqg056pqjye"},
  {U"他們爲什麽不說中文", "ihqwctvzc91f659drss3x8bo0yb"},
  {U"Pročprostěnemluvíčesky", "Proprostnemluvesky-uyb24dma41a"},
  {U"למההםפשוטלאמדבריםעברית", "4dbcagdahymbxekheh6e0a7fei0b"},
  {U"почемужеонинеговорятпорусски", "b1abfaaepdrnnbgefbadotcwatmq2g4l"},
  {U"PorquénopuedensimplementehablarenEspañol", "PorqunopuedensimplementehablarenEspaol-fmd56a"},
  {U"TạisaohọkhôngthểchỉnóitiếngViệt", "TisaohkhngthchnitingVit-kjcr8268qyxafd2f1b9g"},
  {U"3年B組金八先生", "3B-ww4c5e180e575a65lsy2b"},
  {U"Hello-Another-Way-それぞれの場所", "Hello-Another-Way--fc4qua05auwb3674vfr0b"},
  {U"MajiでKoiする5秒前", "MajiKoi5-783gue6qz075azm5e"},
  {U"-> $1.00 <-", "-> $1.00 <--"},
  {U"bücher", "bcher-kva"},
};

constexpr unsigned char long_patterns = 6;
u32string long_text (std::uint32_t n, char32_t c, std::uint32_t pattern) {
  switch (pattern) {
  case 0: return u32string (n, U'x') + c;
  case 1: return c + u32string (n, U'x');
  case 2: return u32string (n / 2, U'x') + c + u32string (n - n / 2, U'y') + U'\xE9';
  case 3: return u32string (n, c);
  case 4: return u32string{c, 0x80} + u32string (n, U'-') + u32string{c - 1 < 0x80 ? U'\x80' : c - 1, c};
  default: return u32string (n, U'\xFC') + c + u32string (n, U'q') + c;
  }
}

void gen_cases (mc::Emit& emit, bool thorough) {
  emit (4, "");
  for (unsigned i = 0; i < std::size (samples); ++i) emit (5, std::string (1, static_cast<char> (i)));
  char32_t const cps[] = {U'a', U'-', U'Z', 0x7F, 0x80, 0xFC, 0x3B1, 0x4E2D, 0xFFFF, 0x10000, 0x10FFFF, 0};
  gen::sequences (std::size (cps), thorough ? 6 : 5, [&] (auto const& w) {
    if (!emit.mine ()) {
      emit.skip ();
      return;
    }
    u32string s;
    for (auto i : w) s += cps[i];
    emit (0, pack (s));
  });
  // every code point alone, and among others
  for (std::uint32_t c = 0; c <= 0x10FFFF; ++c) {
    if (!emit.mine ()) {
      emit.skip ();
      continue;
    }
    emit (1, mc::Writer{}.u32 (c).s);
  }
  // runs: equal, ascending, descending and alternating code points, up to long
  for (unsigned n = 1; n <= (thorough ? 500U : 130U); ++n)
    for (unsigned pat = 0; pat < 8; ++pat) {
      if (!emit.mine ()) {
        emit.skip ();
        continue;
      }
      u32string s;
      for (unsigned i = 0; i < n; ++i) {
        char32_t const c = pat == 0   ? 0x80
                           : pat == 1 ? 0x80 + i
                           : pat == 2 ? 0x80 + n - i
                           : pat == 3 ? (i % 2 ? 0x10FFFF : 'a')
                           : pat == 4 ? (i % 3 ? 0xFC : 0x4E00 + i)
                           : pat == 5 ? 0x1000U * (i % 250) + 0x80
                           : pat == 6 ? (i + 1 == n ? 0x10FFFF : 'x')
                                      : (i == 0 ? 0x3B1 : 'y');
        s += c;
      }
      emit (0, pack (s));
    }
  // long texts: deltas far beyond 32 bits, few code points among very many
  for (unsigned bits = 8; bits <= (thorough ? 18U : 14U); ++bits)
    for (int off : {-1, 0, 1, 100})
      for (unsigned char pat = 0; pat < long_patterns; ++pat)
        for (char32_t c : {0x80, 0x3B1, 0xFFFF, 0x10FFFF}) {
          if (!emit.mine ()) {
            emit.skip ();
            continue;
          }
          emit (6, mc::Writer{}.u32 ((1U << bits) + static_cast<unsigned> (off)).u32 (c).u32 (pat).s);
        }
  // decoding: every string over all digits, the delimiter and some others
  std::string const all = "abcdefghijklmnopqrstuvwxyz0123456789-\x80";
  gen::sequences (all.size (), thorough ? 4 : 3, [&] (auto const& w) {
    if (!emit.mine ()) {
      emit.skip ();
      return;
    }
    std::string s;
    for (auto i : w) s += all[i];
    emit (2, s);
  });
  std::string const few = "aAkZ09-\x80.";
  gen::sequences (few.size (), thorough ? 7 : 6, [&] (auto const& w) {
    if (!emit.mine () || w.size () < 4) {
      emit.skip ();
      return;
    }
    std::string s;
    for (auto i : w) s += few[i];
    emit (2, s);
  });
  // every byte at every position of some encodings
  for (auto const& sample : samples) {
    std::string const p = sample.puny;
    for (std::size_t at = 0; at <= p.size (); ++at)
      for (unsigned b = 0; b < 256; ++b) {
        if (!emit.mine ()) {
          emit.skip ();
          continue;
        }
        auto s = p;
        if (at < p.size ()) s[at] = static_cast<char> (b);
        emit (2, s);
        emit (2, p.substr (0, at) + static_cast<char> (b) + p.substr (at));
        emit (2, p.substr (0, at));
      }
  }
  // large numbers: runs of high digits, closed by every digit, at every length
  for (char const* prefix : {"", "a-", "abc-", "kva", "aaaa", "9999a", "\x7F-"})
    for (char const* run : {"9", "z", "98", "a9", "90", "y"})
      for (unsigned n = 1; n <= 40; ++n)
        for (char last : std::string ("abckmz059-A\x80") + '\0') {
          if (!emit.mine ()) {
            emit.skip ();
            continue;
          }
          std::string s = prefix;
          for (unsigned i = 0; i < n; ++i) s += run;
          if (last != '\0') s += last;
          emit (3, s);
          emit (3, s + "b");
        }
  // around the largest code points: delta values near n - 0x80
  for (std::uint64_t target : {0x7FULL, 0xFFFFULL, 0x10FFFFULL, 0x110000ULL, 0x7FFFFFFFULL, 0x80000000ULL, 0xFFFFFFFFULL, 0x100000000ULL, 0x1FFFFFFFFULL,
                               0xFFFFFFFFFFULL, 0x7FFFFFFFFFFFFFFFULL, 0xFFFFFFFFFFFFFFFFULL})
    for (std::uint64_t off = 0; off < 300; ++off)
      for (char const* prefix : {"", "a-", "abcdefg-"}) {
        if (!emit.mine ()) {
          emit.skip ();
          continue;
        }
        // the variable-length integer whose value is target - off (bias 72)
        std::uint64_t q = target - off;
        std::string s = prefix;
        char const* digits = "abcdefghijklmnopqrstuvwxyz0123456789";
        for (std::uint64_t k = 36;; k += 36) {
          auto const t = ref::puny::threshold (k, 72);
          if (q < t) break;
          s += digits[t + (q - t) % (36 - t)];
          q = (q - t) / (36 - t);
        }
        s += digits[q];
        emit (3, s);
        emit (3, s + "a");
      }
}

void check_errors () {
  using enum puny::decode_error_code;
  auto const bad = puny::make_error_code (bad_input);
  auto const over = puny::make_error_code (overflow);
  auto const ok = puny::make_error_code (none);
  MC_CHECK (bad && over && !ok, "an error code converts to the wrong truth value");
  MC_CHECK (bad.value () == 1 && over.value () == 2 && ok.value () == 0, "error values changed: ", bad.value (), ' ', over.value ());
  MC_CHECK (bad != over && bad != ok && over != ok, "error codes are not distinct");
  MC_CHECK (bad.category () == over.category () && &bad.category () == &over.category (), "error codes of different categories");
  MC_CHECK (bad == puny::make_error_code (bad_input) && over == puny::make_error_code (overflow), "error codes are not stable");
  MC_CHECK (bad.category () != std::generic_category () && bad.category () != std::system_category (), "not a category of its own");
  std::string const name = bad.category ().name ();
  MC_CHECK (!name.empty () && name == over.category ().name (), "the category has no name");
  for (auto const& e : {bad, over, ok}) {
    MC_CHECK (!e.message ().empty (), "empty message for ", e.value ());
    MC_CHECK (e.message () == e.category ().message (e.value ()), "messages differ between calls");
    for (auto const& f : {bad, over, ok}) MC_CHECK ((e.value () == f.value ()) == (e.message () == f.message ()), "messages are not distinct");
  }
  for (int v : {-1, 3, 1000}) (void)bad.category ().message (v);
  mc::step (12);
  mc::outcome ("errors");
}

}  // namespace

void mc_check (unsigned kind, std::string_view payload) {
  switch (kind) {
  case 0:
  case 1: {
    mc::Reader r{payload};
    u32string s;
    while (!r.empty ()) s += static_cast<char32_t> (r.u32 ());
    if (kind == 1) {
      char32_t const c = s[0];
      check_encode (s);
      check_encode (u32string{U'a', c, U'b'});
      check_encode (u32string{0xE9, c});
    } else {
      check_encode (s);
    }
    break;
  }
  case 4: check_errors (); break;
  case 5: {
    auto const& s = samples[static_cast<unsigned char> (payload[0])];
    MC_CHECK (ref::puny::encode (s.text, false) == s.puny && ref::puny::decode (s.puny).str == s.text, "the model disagrees with sample ", s.puny);
    check_encode (s.text);
    check_decode (s.puny);
    break;
  }
  case 6: {
    mc::Reader r{payload};
    auto const n = r.u32 ();
    auto const c = static_cast<char32_t> (r.u32 ());
    check_encode (long_text (n, c, r.u32 ()));
    break;
  }
  default: check_decode (payload);
  }
}

MC_MAIN (gen_cases)
