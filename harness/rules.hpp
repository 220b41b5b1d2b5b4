// Rule programs: a small language of grammar rules, an interpreter (the model) and the translation to uri::rule.
#ifndef VERIF_RULES_HPP
#define VERIF_RULES_HPP

#include <array>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string_view>
#include <utility>
#include <vector>

#include "uri/rule.hpp"

namespace rules {

using uri::rule;
using Match = std::function<rule::matched_result (rule const&)>;

// ---------------------------------------------------------------- programs
//   a b c   a character          e   the empty text        f   never matches
//   |2xy    ordered choice (2-3) ;Nxy...  a sequence of N steps, each: how, node
// how: . concat   ! concat with an action   ? optional   + optional with an action (a function pointer)
//      * star   0-9: star with the bounds below
struct Bounds {
  unsigned min, max;
};
inline constexpr unsigned inf = ~0U;
inline constexpr Bounds bounds[] = {{1, 2}, {2, 2}, {0, 1}, {0, 0}, {3, inf}, {1, inf}, {0, 2}, {1, 1}, {2, 3}, {0, 3}};

struct Action {
  unsigned id;
  std::size_t at, len;
  bool operator== (Action const&) const = default;
};
struct Node {
  char type = 'e';
  std::vector<std::pair<char, std::shared_ptr<Node>>> steps;
  std::vector<unsigned> ids;  // of the actions
};
using NodePtr = std::shared_ptr<Node>;

inline NodePtr parse (std::string_view& s, unsigned& ids) {
  auto const next = [&s] {
    if (s.empty ()) throw std::runtime_error ("bad program");
    char const c = s.front ();
    s.remove_prefix (1);
    return c;
  };
  auto n = std::make_shared<Node> ();
  n->type = next ();
  if (n->type == '|' || n->type == ';') {
    for (int k = next () - '0'; k > 0; --k) {
      char const how = n->type == ';' ? next () : '.';
      n->steps.emplace_back (how, parse (s, ids));
      n->ids.push_back (ids++);
    }
  }
  return n;
}

// ---------------------------------------------------------------- the model
struct Out {
  bool ok = false;
  std::size_t len = 0;
  std::vector<Action> actions;
};
inline void append (Out& to, Out const& o) {
  to.len += o.len;
  to.actions.insert (to.actions.end (), o.actions.begin (), o.actions.end ());
}
inline Out interpret (Node const& n, std::string_view s, std::size_t at, bool& empty_repeat) {
  Out r;
  switch (n.type) {
  case 'e': r.ok = true; return r;
  case 'f': return r;
  case '|':
    for (auto const& st : n.steps)
      if (auto o = interpret (*st.second, s, at, empty_repeat); o.ok) return o;
    return r;
  case ';':
    for (std::size_t i = 0; i < n.steps.size (); ++i) {
      auto const& [how, child] = n.steps[i];
      auto const here = at + r.len;
      if (how == '*' || (how >= '0' && how <= '9')) {
        auto const b = how == '*' ? Bounds{0, inf} : bounds[how - '0'];
        for (unsigned k = 0; k < b.max; ++k) {
          auto const o = interpret (*child, s, at + r.len, empty_repeat);
          if (!o.ok) {
            if (k < b.min) return Out{};
            break;
          }
          append (r, o);
          if (o.len == 0) {  // it would do so for ever
            empty_repeat = true;
            break;
          }
        }
        continue;
      }
      auto o = interpret (*child, s, here, empty_repeat);
      bool const optional = how == '?' || how == '+';
      if (!o.ok) {
        if (!optional) return Out{};
        continue;
      }
      if (how == '!' || how == '+') o.actions.push_back ({n.ids[i], here, o.len});
      append (r, o);
    }
    r.ok = true;
    return r;
  default:
    if (at < s.size () && s[at] == n.type) r.ok = true, r.len = 1;
    return r;
  }
}

// ---------------------------------------------------------------- the real thing
struct Ran {
  unsigned id;
  std::string_view text;
};
inline bool predicates = false;  // characters are matched by predicates
inline void (*tick) () = [] {};  // called by everything a program gives to the library
inline std::vector<Ran> ran;
template <unsigned Id> void pointer_action (std::string_view s) { tick (), ran.push_back ({Id, s}); }
template <unsigned... I> constexpr auto table (std::integer_sequence<unsigned, I...>) {
  return std::array<void (*) (std::string_view), sizeof...(I)>{&pointer_action<I>...};
}
inline constexpr auto pointers = table (std::make_integer_sequence<unsigned, 48>{});

inline std::uint64_t calls = 0;
inline Match build (NodePtr n) {
  switch (n->type) {
  case 'e': return [] (rule const& r) { ++calls, tick (); return r.matched ("empty", r); };
  case 'f': return [] (rule const& r) { ++calls, tick (); return r.single_char ([] (char) { return tick (), false; }); };
  case '|': {
    std::vector<Match> m;
    for (auto const& st : n->steps) m.push_back (build (st.second));
    if (m.size () == 1) return [m] (rule const& r) { return r.alternative (m[0]).matched ("alt", r); };
    if (m.size () == 2) return [m] (rule const& r) { return r.alternative (m[0], m[1]).matched ("alt", r); };
    return [m] (rule const& r) { return r.alternative (m[0], m[1], m[2]).matched ("alt", r); };
  }
  case ';': {
    std::vector<Match> m;
    for (auto const& st : n->steps) m.push_back (build (st.second));
    return [n, m] (rule const& r0) {
      rule r = r0;
      for (std::size_t i = 0; i < m.size (); ++i) {
        auto const how = n->steps[i].first;
        auto const id = n->ids[i];
        switch (how) {
        case '.': r = r.concat (m[i]); break;
        case '!': r = r.concat (m[i], [id] (std::string_view s) { tick (), ran.push_back ({id, s}); }); break;
        case '?': r = r.optional (m[i]); break;
        case '+': r = r.optional (m[i], pointers[id % pointers.size ()]); break;
        case '*': r = r.star (m[i]); break;
        default: {
          auto const b = bounds[how - '0'];
          r = b.max == inf ? r.star (m[i], b.min) : r.star (m[i], b.min, b.max);
        }
        }
      }
      return r.matched ("seq", r0);
    };
  }
  default:
    return [c = n->type, m = uri::single_char (n->type)] (rule const& r) {
      tick ();
      return predicates ? r.single_char ([c] (char d) { return tick (), c == d; }) : m (r);
    };
  }
}

}  // namespace rules

#endif
