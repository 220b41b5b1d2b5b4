// C01: accepted language of split() and split_reference().
//
// Model: the minimal deterministic automata of URI and URI-reference, built from the RFC's
// grammar. Conformance: W-method test suite (state cover x all class words up to length
// k+1 x characterisation set), which proves language equality for every implementation
// automaton with at most k more states; all bytes on the transition cover; all words up
// to a length; structured IP-literal, octet and percent families; pumped words.
#include "gen.hpp"
#include "wmethod.hpp"

char const* const mc_kinds[] = {"w-method", "all-bytes", "short", "ip-literal", "dec-octet", "percent", "pumped", "well-known names"};

namespace {

using wm::Dfa;
using wm::Reps;
using wm::word;
using wm::words_of_length;
Dfa const uri_dfa = WM_DFA (uri);
Dfa const ref_dfa = WM_DFA (ref);

void ip_literals (mc::Emit& emit) {
  static char const* const h16s[] = {"1", "aB", "00f", "FfF0", "12345", "g", ""};
  static char const* const tails[] = {"", "1.2.3.4", "255.255.255.255", "256.1.1.1", "1.2.3", "1.2.3.4.5", "01.2.3.4", "1.2.3.4:"};
  static char const* const frames[] = {"s://[", "//u@[", "s://["};
  static char const* const ends[] = {"]", "]:8/x", ""};
  for (unsigned f = 0; f < 3; ++f)
    for (auto const* h : h16s)
      for (auto const* odd : h16s)
        for (unsigned left = 0; left <= 9; ++left)
          for (unsigned right = 0; right <= 9; ++right)
            for (unsigned sep = 0; sep < 4; ++sep) {  // none, "::", leading ':' and ":::"
              if (sep == 0 && right > 0) continue;
              for (auto const* tail : tails) {
                for (unsigned at : {0U, left / 2, left + right / 2}) {
                  if (!emit.mine ()) {
                    emit.skip ();
                    continue;
                  }
                  std::string s = frames[f];
                  unsigned g = 0;
                  if (sep == 2) s += ':';
                  for (unsigned i = 0; i < left; ++i, ++g) {
                    if (i > 0) s += ':';
                    s += g == at ? odd : h;
                  }
                  if (sep == 1 || sep == 2) s += "::";
                  if (sep == 3) s += ":::";
                  for (unsigned i = 0; i < right; ++i, ++g) {
                    if (i > 0) s += ':';
                    s += g == at ? odd : h;
                  }
                  if (*tail != 0) {
                    if ((sep == 0 ? left : right) > 0) s += ':';
                    s += tail;
                  }
                  s += ends[f];
                  emit (3, s);
                }
              }
            }
}

void octets (mc::Emit& emit) {
  for (unsigned zeros = 0; zeros < 3; ++zeros)
    for (unsigned v = 0; v < 1100; ++v)
      for (unsigned pos = 0; pos < 4; ++pos)
        for (unsigned frame = 0; frame < 3; ++frame) {
          if (!emit.mine ()) {
            emit.skip ();
            continue;
          }
          std::string a;
          for (unsigned i = 0; i < 4; ++i) {
            if (i > 0) a += '.';
            a += i == pos ? std::string (zeros, '0') + std::to_string (v) : std::to_string (250 + i % 6);
          }
          emit (4, frame == 0 ? "s://[::" + a + "]" : frame == 1 ? "//" + a + ":80" : "s://[1:2:3:4:5:6:" + a + "]/");
        }
}

void percents (mc::Emit& emit) {
  static char const* const frames[][2] = {{"s://", "@h"}, {"s://", ""}, {"//h:", ""}, {"s:", ""}, {"s:/", "/"},
                                          {"s:?", ""},   {"#", ""},    {"", "/b"},   {"", ":x"}, {"s://[v1.", "]"}};
  for (auto const& fr : frames)
    for (unsigned a = 0; a < 256; ++a)
      for (unsigned b = 0; b < 256; ++b) {
        if (!emit.mine ()) {
          emit.skip ();
          continue;
        }
        emit (5, std::string{fr[0]} + "%" + static_cast<char> (a) + static_cast<char> (b) + fr[1]);
      }
}

// u v^n w for short cycles v of the automaton.
void pumped (mc::Emit& emit, Dfa const& d, std::vector<word> const& access, std::vector<std::vector<word>> const& identify,
             bool thorough) {
  Reps const reps{d};
  std::vector<unsigned> counts;
  for (unsigned n = 2; n <= (thorough ? 300U : 40U); ++n) counts.push_back (n);
  for (unsigned k = 6; k <= 12; ++k)
    for (int e : {-1, 0, 1}) counts.push_back (static_cast<unsigned> ((1 << k) + e));
  for (unsigned s = 0; s < d.num_states; ++s)
    for (unsigned len = 1; len <= 3; ++len)
      words_of_length (len, d.num_classes, [&] (word const& v) {
        unsigned t = s;
        for (auto c : v) t = d.delta[t * d.num_classes + c];
        if (t != s) return;
        // the dead state loops on everything: one letter is enough
        bool live = false;
        for (unsigned c = 0; c < d.num_classes; ++c) live |= d.delta[s * d.num_classes + c] != s;
        if (!live && len > 1) return;
        for (auto n : counts) {
          if (len == 3 && (n > 16 || !thorough) && (n != 300 && n != 127)) continue;
          if (len == 2 && n > 20 && n != 255 && n != 256 && n != 257) continue;
          auto const& w = identify[s][n % identify[s].size ()];
          if (!emit.mine ()) {
            emit.skip ();
            continue;
          }
          std::string text = reps.text (access[s], n);
          for (unsigned i = 0; i < n; ++i) text += reps.text (v, n + i);
          emit (6, text + reps.text (w, n));
        }
      });
}

void generate (mc::Emit& emit, bool thorough) {
  // simplest first
  Reps const reps{ref_dfa};
  for (unsigned n = 0; n <= (thorough ? 6U : 4U); ++n) {
    std::uint64_t salt = 0;
    words_of_length (n, ref_dfa.num_classes, [&] (word const& w) {
      ++salt;
      if (!emit.mine ()) {
        emit.skip ();
        return;
      }
      emit (2, reps.text (w, salt));
    });
  }
  gen::wellknown ([&] (std::string const& s) { emit (7, s); });
  gen::component_words (thorough ? 6 : 4, [&] (std::string const& s) { emit (7, s); });
  percents (emit);
  octets (emit);
  ip_literals (emit);
  auto const w_case = [&emit] (std::string const& s, bool all_bytes) { emit (all_bytes ? 1 : 0, s); };
  WM_SUITE (emit, uri, thorough ? 3 : 2, w_case);
  WM_SUITE (emit, ref, thorough ? 3 : 2, w_case);
  pumped (emit, uri_dfa, model::uri::access_words, model::uri::identify, thorough);
  pumped (emit, ref_dfa, model::ref::access_words, model::ref::identify, thorough);
  // very long members and near-members
  for (unsigned n : {20000U, 65535U, 65536U, 65537U})
    for (char const* fmt : {"s://@", "//h@", "s:@", "@", "?@", "s:?#@", "@:"}) {
      for (char c : {'a', '%', '/', '\xFF', '1'}) {
        std::string s;
        for (char const* p = fmt; *p != 0; ++p) s += *p == '@' ? std::string (n, c) : std::string (1, *p);
        emit (6, s);
        if (n < 65535) emit (6, s + "\x01");
      }
    }
}

}  // namespace

void mc_check (unsigned, std::string_view s) {
  unsigned u = 0, r = 0;
  for (char c : s) {
    u = uri_dfa.step (u, static_cast<unsigned char> (c));
    r = ref_dfa.step (r, static_cast<unsigned char> (c));
    mc::state (u * 1000U + r);
  }
  mc::state (u * 1000U + r);
  mc::step (s.size ());
  bool const is_uri = uri_dfa.accept[u];
  bool const is_ref = ref_dfa.accept[r];
  // The two models (automaton, recursive parser) have to agree before either judges the code.
  if (s.size () < 4096) {
    MC_CHECK (ref::parse (s, false).has_value () == is_uri, "the two models disagree on URI ", mc::show (s));
    MC_CHECK (ref::parse (s, true).has_value () == is_ref, "the two models disagree on URI-reference ", mc::show (s));
  }
  mc::Exact const in{s};
  mc::outcome (is_uri ? "uri" : is_ref ? "reference only" : "neither");
  mc::maximum ("longest input", s.size ());
  auto const a = uri::split (in).has_value ();
  MC_CHECK (a == is_uri, "split(", mc::show (s), ") ", a ? "succeeds" : "fails", ", but RFC 3986 says it is ", is_uri ? "a URI" : "not a URI");
  auto const b = uri::split_reference (in).has_value ();
  MC_CHECK (b == is_ref, "split_reference(", mc::show (s), ") ", b ? "succeeds" : "fails", ", but RFC 3986 says it is ",
            is_ref ? "a URI reference" : "not a URI reference");
}

MC_MAIN (generate)
