// W-method conformance suites against the minimal automata of grammar.inc.
#ifndef VERIF_WMETHOD_HPP
#define VERIF_WMETHOD_HPP

#include "mc.hpp"
#include "grammar.inc"

namespace wm {

using word = std::vector<unsigned char>;

struct Dfa {
  unsigned num_states, num_classes;
  unsigned char const* class_of;
  unsigned short const* delta;
  bool const* accept;
  unsigned step (unsigned s, unsigned char c) const { return delta[s * num_classes + class_of[c]]; }
  bool accepts (std::string_view text) const {
    unsigned s = 0;
    for (char c : text) s = step (s, static_cast<unsigned char> (c));
    return accept[s];
  }
};
#define WM_DFA(ns) \
  wm::Dfa { model::ns::num_states, model::ns::num_classes, model::ns::class_of, &model::ns::delta[0][0], model::ns::accept }

struct Reps {
  std::vector<std::string> bytes;
  explicit Reps (Dfa const& d) : bytes (d.num_classes) {
    for (unsigned b = 0; b < 256; ++b) bytes[d.class_of[b]] += static_cast<char> (b);
  }
  // A member of class c; which one rotates with salt.
  char of (unsigned c, std::uint64_t salt) const { return bytes[c][(salt * 2654435761U >> 7) % bytes[c].size ()]; }
  std::string text (word const& w, std::uint64_t salt) const {
    std::string r;
    for (auto c : w) r += of (c, salt++);
    return r;
  }
};

template <typename F> void words_of_length (unsigned n, unsigned classes, F f) {
  word w (n, 0);
  for (;;) {
    f (w);
    unsigned i = n;
    while (i > 0 && ++w[i - 1] == classes) w[--i] = 0;
    if (i == 0) return;
  }
}

// Access words x words up to the given length x characterisation set, and all bytes out of
// every state followed by that state's identification set. f(text, all_bytes).
template <typename F>
void suite (mc::Emit& emit, Dfa const& d, std::vector<word> const& access, std::vector<word> const& charset,
            std::vector<std::vector<word>> const& identify, unsigned depth, F f) {
  Reps const reps{d};
  std::uint64_t salt = 1;
  for (unsigned s = 0; s < d.num_states; ++s) {
    for (unsigned b = 0; b < 256; ++b) {
      auto const t = d.step (s, static_cast<unsigned char> (b));
      for (auto const& w : identify[t]) {
        if (!emit.mine ()) {
          emit.skip ();
          continue;
        }
        f (reps.text (access[s], s + b) + static_cast<char> (b) + reps.text (w, b), true);
      }
    }
  }
  for (unsigned n = 0; n <= depth; ++n) {
    for (unsigned s = 0; s < d.num_states; ++s) {
      words_of_length (n, d.num_classes, [&] (word const& mid) {
        for (auto const& w : charset) {
          ++salt;
          if (!emit.mine ()) {
            emit.skip ();
            continue;
          }
          f (reps.text (access[s], salt) + reps.text (mid, salt * 3) + reps.text (w, salt * 5), false);
        }
      });
    }
  }
}
#define WM_SUITE(emit, ns, depth, f) \
  wm::suite (emit, WM_DFA (ns), model::ns::access_words, model::ns::charset, model::ns::identify, depth, f)

}  // namespace wm

#endif  // VERIF_WMETHOD_HPP
