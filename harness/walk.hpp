// Sequences of operations on two iterators of one sequence, against its items.
#ifndef VERIF_WALK_HPP
#define VERIF_WALK_HPP

#include <memory>

#include "mc.hpp"

namespace walk {

constexpr unsigned operations = 10;

// r: the operations. shown: the text, for messages.
template <typename Items, typename It, typename End>
void run (mc::Reader& r, Items const& items, It first, End last, std::string const& shown) {
  struct Cursor {
    It it;
    std::size_t pos;
  };
  Cursor c[2] = {{first, 0}, {first, 0}};
  auto const n = items.size ();
  while (!r.empty ()) {
    auto const op = r.u8 ();
    auto& x = c[op & 1U];
    auto& y = c[1 - (op & 1U)];
    mc::step ();
    switch (op >> 1U) {
    case 0:  // ++x
      if (x.pos < n) {
        MC_CHECK (&++x.it == &x.it, "pre-increment does not return the iterator");
        ++x.pos;
      }
      break;
    case 1:  // x++
      if (x.pos < n) {
        auto const old = x.it++;
        MC_CHECK (*old == items[x.pos], "the iterator returned by post-increment has another value, in ", shown);
        ++x.pos;
      }
      break;
    case 2:  // y = x
      y.it = x.it;
      y.pos = x.pos;
      break;
    case 3:  // read twice
      if (x.pos < n) {
        MC_CHECK (*x.it == items[x.pos], "read ", static_cast<std::uint32_t> (*x.it), " at item ", x.pos, " of ", shown);
        MC_CHECK (*x.it == items[x.pos], "a second read differs, in ", shown);
      }
      break;
    default: {  // a copy moves without disturbing the original
      auto copy = x.it;
      auto p = x.pos;
      for (; !(copy == last); ++copy, ++p) {
        MC_CHECK (p < n, "an iterator runs past the last item of ", shown);
        MC_CHECK (*copy == items[p], "a copy reads ", static_cast<std::uint32_t> (*copy), " at item ", p, " of ", shown);
      }
      MC_CHECK (p == n, "a copy ends at item ", p, " of ", shown);
      break;
    }
    }
    MC_CHECK ((c[0].it == c[1].it) == (c[0].pos == c[1].pos), "== of iterators at items ", c[0].pos, " and ", c[1].pos, " is wrong, in ", shown);
    MC_CHECK ((c[0].it != c[1].it) == (c[0].pos != c[1].pos), "!= of iterators at items ", c[0].pos, " and ", c[1].pos, " is wrong, in ", shown);
    for (auto& k : c) {
      MC_CHECK ((k.it == last) == (k.pos == n), "comparison with the end is wrong, in ", shown);
      if (k.pos < n) MC_CHECK (*k.it == items[k.pos], "an iterator's value changed by itself, in ", shown);
    }
    mc::state (mc::cat (shown, c[0].pos, ',', c[1].pos));
  }
}

// Sequences of operations on two views, each on the heap so that its storage goes when it does.
constexpr unsigned life_operations = 22;

// make(k): a new view of text k (0 or 1). want(k): its items. shown(k): for messages.
template <typename Make, typename Want, typename Shown> void life (mc::Reader& r, Make make, Want want, Shown shown) {
  using View = decltype (make (0U));
  struct Slot {
    std::unique_ptr<View> v;
    unsigned text = 0;
  };
  Slot slot[2];
  std::string history;
  auto const read = [&] (View const& v, unsigned text, char const* what) {
    auto const& items = want (text);
    std::size_t n = 0;
    for (auto it = v.begin (); it != v.end (); ++it, ++n) {
      MC_CHECK (n < items.size (), what, " of ", shown (text), " does not end, after ", history);
      MC_CHECK (*it == items[n], what, " of ", shown (text), " reads ", static_cast<std::uint32_t> (*it), " at item ", n, ", after ", history);
    }
    MC_CHECK (n == items.size (), what, " of ", shown (text), " ends at item ", n, ", after ", history);
    mc::step ();
  };
  while (!r.empty ()) {
    auto const op = r.u8 ();
    unsigned const i = op & 1U;
    auto& x = slot[i];
    auto& y = slot[1 - i];
    auto const name = [&] (std::string_view what) { history += mc::cat (' ', what, ' ', i, ';'); };
    switch (unsigned const what = op >> 1U) {
    case 0:
    case 1:
      name (what ? "make second" : "make first");
      x.v = std::make_unique<View> (make (what));
      x.text = what;
      break;
    case 2:
    case 3:
      if (!x.v) break;
      name (what == 2 ? "assign first" : "assign second");
      *x.v = make (what - 2);
      x.text = what - 2;
      break;
    case 4:
      if (!y.v) break;
      name ("copy other to");
      if (x.v)
        *x.v = *y.v;
      else
        x.v = std::make_unique<View> (*y.v);
      x.text = y.text;
      break;
    case 5:
      if (!y.v) break;
      name ("move other to");
      if (x.v)
        *x.v = std::move (*y.v);
      else
        x.v = std::make_unique<View> (std::move (*y.v));
      x.text = y.text;
      y.v.reset ();
      break;
    case 6:
      if (!x.v) break;
      name ("read");
      read (*x.v, x.text, "a view");
      break;
    case 7:
      if (!x.v) break;
      name ("read start of");
      if (auto const it = x.v->begin (); it != x.v->end ()) MC_CHECK (*it == want (x.text)[0], "the first item of ", shown (x.text), " is wrong, after ", history);
      break;
    case 8:
      name ("destroy");
      x.v.reset ();
      break;
    case 9:
      if (!x.v || !y.v) break;
      name ("swap with");
      std::swap (*x.v, *y.v);
      std::swap (x.text, y.text);
      break;
    default:
      if (!x.v) break;
      name ("read copy of");
      {
        View const copy{*x.v};
        read (copy, x.text, "a copy of a view");
      }
      break;
    }
  }
  for (auto& x : slot)
    if (x.v) {
      read (*x.v, x.text, "a view");
      read (*x.v, x.text, "a view, read again,");
    }
  mc::state (history);
}

}  // namespace walk

#endif  // VERIF_WALK_HPP
