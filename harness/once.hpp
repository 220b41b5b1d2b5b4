// Ranges that can be read once: copies of an iterator share their position, and moving one makes the others stale.
#ifndef VERIF_ONCE_HPP
#define VERIF_ONCE_HPP

#include <iterator>
#include <ranges>

#include "mc.hpp"

namespace once {

template <typename U> struct Source {
  U const* p;
  U const* end;
  unsigned moves = 0;
};

template <typename U> struct Iterator {
  using iterator_concept = std::input_iterator_tag;
  using iterator_category = std::input_iterator_tag;
  using value_type = U;
  using difference_type = std::ptrdiff_t;
  using pointer = U const*;
  using reference = U;
  Source<U>* source = nullptr;  // null: the end
  unsigned moves = 0;
  bool at_end () const {
    if (source == nullptr) return true;
    MC_CHECK (moves == source->moves, "a stale copy of the iterator of a range that can be read once was used");
    return source->p == source->end;
  }
  U operator* () const {
    MC_CHECK (!at_end (), "read past the end of the range");
    return *source->p;
  }
  Iterator& operator++ () {
    MC_CHECK (!at_end (), "stepped past the end of the range");
    ++source->p;
    moves = ++source->moves;
    return *this;
  }
  void operator++ (int) { ++*this; }
  friend bool operator== (Iterator const& a, Iterator const& b) { return a.at_end () == b.at_end (); }
  friend bool operator== (Iterator const& a, std::default_sentinel_t) { return a.at_end (); }
};

// f (range, kind) for both kinds of range over the units.
template <typename U, typename F> void each (U const* p, std::size_t n, F const& f) {
  Source<U> a{p, p + n}, b{p, p + n};
  f (std::ranges::subrange<Iterator<U>, std::default_sentinel_t>{Iterator<U>{&a}, std::default_sentinel}, "single pass, sentinel");
  f (std::ranges::subrange<Iterator<U>, Iterator<U>>{Iterator<U>{&b}, Iterator<U>{}}, "single pass, common");
}

}  // namespace once

#endif
