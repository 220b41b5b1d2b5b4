// C20: no input makes any operation read or write out of bounds, perform an undefined
// operation, fail an assertion or run for ever.  The monitors are AddressSanitizer,
// UndefinedBehaviorSanitizer, libstdc++'s debug mode, the library's own assertions, a
// contract check on the <cctype> functions and the runner's limit on the time of a case.
#include "everything.hpp"

char const* const mc_kinds[] = {"text", "long text", "code units"};

// ---------------------------------------------------------------- <cctype> arguments must be EOF or an unsigned char
namespace {
int checked (char const* name, int c) {
  if (c < -1 || c > 255) {
    std::fprintf (stderr, "%s() is called with %d\n", name, c);
    std::abort ();
  }
  return c;
}
bool in (int c, int a, int b) { return c >= a && c <= b; }
}  // namespace
#define CTYPE(name, expr)                         \
  extern "C" int name (int ch) noexcept {         \
    int const c = checked (#name, ch);            \
    return (expr);                                \
  }
CTYPE (isdigit, in (c, '0', '9'))
CTYPE (isxdigit, in (c, '0', '9') || in (c, 'a', 'f') || in (c, 'A', 'F'))
CTYPE (isalpha, in (c, 'a', 'z') || in (c, 'A', 'Z'))
CTYPE (isalnum, in (c, 'a', 'z') || in (c, 'A', 'Z') || in (c, '0', '9'))
CTYPE (isupper, in (c, 'A', 'Z'))
CTYPE (islower, in (c, 'a', 'z'))
CTYPE (isspace, c == ' ' || in (c, 9, 13))
CTYPE (isprint, in (c, 32, 126))
CTYPE (isgraph, in (c, 33, 126))
CTYPE (iscntrl, in (c, 0, 31) || c == 127)
CTYPE (ispunct, in (c, 33, 47) || in (c, 58, 64) || in (c, 91, 96) || in (c, 123, 126))
CTYPE (tolower, in (c, 'A', 'Z') ? c + 32 : c)
CTYPE (toupper, in (c, 'a', 'z') ? c - 32 : c)

namespace {

using everything::sink, everything::use, everything::text_operations, everything::component_operations, everything::unit_operations;

void gen_cases (mc::Emit& emit, bool thorough) {
  std::vector<std::string> const classes{"s", ":", "/", "?", "#", "@", "[", "]", ".", "1", "%", "a", std::string (1, '\0'), "\xC3", " ", "x", "n", "-", "\xFF", "v"};
  std::vector<std::string> const pieces{"xn--", "%41", "%", "..", "/", "//", ":", "@", "[", "::", "]", "a-9", "\xC3\xBC", "999999999999", "1.2.3.4", "v1.", "\xF0\x9F"};
  emit (0, "");
  for (unsigned a = 0; a < 256; ++a) {
    emit (0, std::string (1, static_cast<char> (a)));
    for (unsigned b = 0; b < 256; b += thorough ? 1 : 5) emit (0, std::string{static_cast<char> (a), static_cast<char> (b)});
    for (auto const* f : {"s://h/%", "s://[v", "xn--", "//h:", "s:?", "http://u@[::", "s://1.2.3."}) emit (0, f + std::string (1, static_cast<char> (a)));
  }
  auto const seq = [&] (std::vector<std::string> const& a, std::size_t n, std::string const& prefix) {
    gen::sequences (a.size (), n, [&] (auto const& w) {
      if (!emit.mine ()) return emit.skip ();
      emit (0, prefix + gen::join (a, w));
    });
  };
  seq (classes, thorough ? 4 : 3, "");
  seq (pieces, thorough ? 4 : 3, "");
  for (auto const* p : {"s://", "s://[", "s://xn--", "s:/"}) seq (classes, thorough ? 3 : 2, p);
  // units
  std::vector<std::uint32_t> const units{0, 0x41, 0x80, 0x7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF};
  gen::sequences (units.size (), thorough ? 4 : 3, [&] (auto const& w) {
    if (!emit.mine ()) return emit.skip ();
    mc::Writer p;
    for (auto i : w) p.u32 (units[i]);
    emit (2, p.s);
  });
  // growing texts: one piece repeated, alone and between others
  std::vector<std::string> const repeated{"a", "/", "/a", "../", "a/../", "./", ":", "1.", "1", "%41", "%", "[", "]", ":1", "::", "\xC3\xBC", "\xF0", "xn--a.", "xn--", "-", "a-", "9", ".",
                                          "\xC3\xBC.", "?", "#", "@", "@:", "a@", std::string (1, '\0'), "\xFF", "//", "x%", "1:"};
  for (auto const& r : repeated)
    for (unsigned n : {20U, 30U, 45U, 64U, 300U, thorough ? 20000U : 4000U})
      for (auto const& [pre, post] : std::vector<std::pair<std::string, std::string>>{{"", ""}, {"s:", ""}, {"s://", "/x"}, {"s://h/", "?q"}, {"s://[", "]"}, {"s://h:", "\x01"}, {"xn--", ""}, {"s://u@", "^"}, {"s:a?", "#"}}) {
        if (!emit.mine ()) {
          emit.skip ();
          continue;
        }
        std::string t = pre;
        for (unsigned i = 0; i < n; ++i) t += r;
        emit (1, t + post);
      }
}

}  // namespace

void mc_check (unsigned kind, std::string_view payload) {
  if (kind == 2) {
    mc::Reader r{payload};
    std::u32string u32;
    std::u16string u16;
    while (!r.empty ()) {
      auto const u = r.u32 ();
      u32 += static_cast<char32_t> (u);
      u16 += static_cast<char16_t> (u);
    }
    unit_operations (u32);
    unit_operations (u16);
  } else {
    mc::Exact const t{payload};
    text_operations (t.view ());
    if (kind == 0 || payload.size () < 2000) component_operations (t.view ());
    if (payload.empty ()) {
      text_operations (std::string_view{});
      component_operations (std::string_view{});
    }
  }
  mc::state (mc::cat (sink % 65536));
  sink = 0;
  mc::maximum ("longest text", payload.size ());
  for (int e = -2; e < 6; ++e) use (uri::punycode::make_error_code (static_cast<uri::punycode::decode_error_code> (e)).message ());
}

MC_MAIN (gen_cases)
