// C08: percent-encoding.
#include <list>
#include "gen.hpp"
#include "uri/pctdecode.hpp"
#include "uri/pctencode.hpp"

char const* const mc_kinds[] = {"string", "long"};

namespace {

struct Set {
  char const* name;
  uri::pctencode_set lib;
  ref::set ref;
};
constexpr Set sets[] = {
  {"none", uri::pctencode_set::none, ref::set::none},
  {"fragment", uri::pctencode_set::fragment, ref::set::fragment},
  {"query", uri::pctencode_set::query, ref::set::query},
  {"special_query", uri::pctencode_set::special_query, ref::set::special_query},
  {"path", uri::pctencode_set::path, ref::set::path},
  {"userinfo", uri::pctencode_set::userinfo, ref::set::userinfo},
  {"component", uri::pctencode_set::component, ref::set::component},
  {"form_urlencoded", uri::pctencode_set::form_urlencoded, ref::set::form},
};

// An input iterator and nothing more, over bytes that must not be read past the end.
struct Once {
  using iterator_category = std::input_iterator_tag;
  using value_type = char;
  using difference_type = std::ptrdiff_t;
  using pointer = char const*;
  using reference = char;
  char const* p = nullptr;
  char operator* () const { return *p; }
  Once& operator++ () {
    ++p;
    return *this;
  }
  Once operator++ (int) {
    auto o = *this;
    ++p;
    return o;
  }
  bool operator== (Once const&) const = default;
};

void gen_cases (mc::Emit& emit, bool thorough) {
  auto const out = [&emit] (unsigned kind, unsigned set, std::string const& s) {
    emit (kind, std::string (1, static_cast<char> (set)) + s);
  };
  for (unsigned set = 0; set < 8; ++set) {
    out (0, set, "");
    for (unsigned a = 0; a < 256; ++a) {
      out (0, set, std::string (1, static_cast<char> (a)));
      for (unsigned b = 0; b < 256; ++b) {
        if (!emit.mine ()) {
          emit.skip ();
          continue;
        }
        out (0, set, {static_cast<char> (a), static_cast<char> (b)});
      }
    }
    // one member of each class of bytes, boundaries included
    std::string const reps ("\0\x1F !\"#%&'(/:;=?@[^`{|~\x7F\x80\xFF" "0aF", 28);
    gen::sequences (reps.size (), thorough ? 4 : 3, [&] (auto const& w) {
      if (!emit.mine () || w.size () < 3) {
        emit.skip ();
        return;
      }
      std::string s;
      for (auto i : w) s += reps[i];
      out (0, set, s);
    });
    gen::sequences (gen::known::bits.size (), thorough ? 3 : 2, [&] (auto const& w) {
      if (!emit.mine ()) {
        emit.skip ();
        return;
      }
      out (0, set, gen::join (gen::known::bits, w));
    });
    // a single unusual byte at every position of a longer text
    for (unsigned n = 1; n <= (thorough ? 300U : 70U); ++n)
      for (char c : {'%', ' ', '\xC3', '\0', '~', '`', 'a'})
        for (char fill : {'x', '%', '\x80'})
          for (unsigned at = 0; at < n; at += n < 40 ? 1 : 7) {
            if (!emit.mine ()) {
              emit.skip ();
              continue;
            }
            std::string s (n, fill);
            s[at] = c;
            out (1, set, s);
          }
    for (unsigned n : {1000U, 4095U, 4096U, 65536U}) out (1, set, std::string (n, '\xE2') + std::string (n, 'a'));
  }
}

}  // namespace

void mc_check (unsigned, std::string_view payload) {
  auto const& set = sets[static_cast<unsigned char> (payload[0])];
  auto const s = payload.substr (1);
  mc::Exact const e{s};
  std::string_view const in{e};
  char const* const first = in.data ();
  char const* const last = first + in.size ();
  auto const want = ref::pct_encode (s, set.ref);
  auto const got = uri::pctencode (in, set.lib);
  mc::step (12);
  bool is_known = false;
  if (got != want) {
    // The fragment set has no U+0060 (a recorded finding): everything else still has to hold.
    std::string relaxed;
    for (char c : s) {
      if (set.ref == ref::set::fragment && c == '`')
        relaxed += c;
      else
        relaxed += ref::pct_encode (std::string_view{&c, 1}, set.ref);
    }
    is_known = got == relaxed;
    MC_CHECK (is_known, "encoding ", mc::show (s), " with the ", set.name, " set gives ", mc::show (got), " instead of ", mc::show (want));
  }
  auto const same = [&] (std::string_view v, char const* how) {
    MC_CHECK (v == got, how, " gives ", mc::show (v), " instead of ", mc::show (got), " for ", mc::show (s), " and the ", set.name, " set");
  };
  {
    std::string out;
    uri::pctencode (std::begin (in), std::end (in), std::back_inserter (out), set.lib);
    same (out, "pctencode of iterators");
  }
  {
    std::string out (got.size () + 1, '\x5A');
    auto* const end = uri::pctencode (first, last, out.data (), set.lib);
    MC_CHECK (end == out.data () + got.size () && out.back () == '\x5A', "pctencode into an array of the right size stops elsewhere for ",
              mc::show (s));
    out.pop_back ();
    same (out, "pctencode into an array");
  }
  {
    std::string out;
    uri::pctencode (Once{first}, Once{last}, std::back_inserter (out), set.lib);
    same (out, "pctencode of an input iterator");
  }
  {
    std::basic_string<unsigned char> u;
    for (char c : s) u += static_cast<unsigned char> (c);
    std::string out;
    uri::pctencode (u.begin (), u.end (), std::back_inserter (out), set.lib);
    same (out, "pctencode of unsigned char");
    std::list<signed char> l;
    for (char c : s) l.push_back (static_cast<signed char> (c));
    out.clear ();
    uri::pctencode (l.begin (), l.end (), std::back_inserter (out), set.lib);
    same (out, "pctencode of signed char");
  }
  bool const needs = got != s;
  MC_CHECK (uri::needs_pctencode (in, set.lib) == needs, "needs_pctencode(string) is ", !needs, " for ", mc::show (s), " and the ", set.name, " set");
  MC_CHECK (uri::needs_pctencode (first, last, set.lib) == needs, "needs_pctencode(iterators) is ", !needs, " for ", mc::show (s), " and the ",
            set.name, " set");
  MC_CHECK (uri::needs_pctencode (Once{first}, Once{last}, set.lib) == needs, "needs_pctencode(input iterators) is ", !needs, " for ", mc::show (s));
  for (char c : s)
    MC_CHECK (uri::needs_pctencode (static_cast<std::uint_least8_t> (c), set.lib) == (uri::pctencode (std::string_view{&c, 1}, set.lib).size () != 1),
              "needs_pctencode(byte) disagrees with encoding of byte ", static_cast<unsigned> (static_cast<unsigned char> (c)), " and the ",
              set.name, " set");
  if (set.ref != ref::set::none) {
    MC_CHECK (ref::pct_decode (got) == s, "decoding does not restore ", mc::show (s));
    MC_CHECK (uri::pctdecode (got) == s, "pctdecode(pctencode()) of ", mc::show (s), " with the ", set.name, " set gives ",
              mc::show (uri::pctdecode (got)));
  }
  MC_CHECK (e.view () == s, "the input was modified");
  if (is_known) mc::finding ("fragment-grave-accent", "the fragment set does not escape U+0060, in " + mc::show (s));
  mc::state (mc::cat (set.name, got.substr (0, 12), got.size ()));
  mc::outcome (needs ? "escapes" : "unchanged");
}

MC_MAIN (gen_cases)
