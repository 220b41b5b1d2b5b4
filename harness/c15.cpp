// C15: grammar rules behave as ordered-choice, greedy recognisers with deferred actions.
#include <array>
#include <functional>
#include <memory>
#include <optional>
#include "gen.hpp"
#include "rules.hpp"

char const* const mc_kinds[] = {"program", "characters", "chain", "rules as values"};

namespace {

using namespace rules;

// How often an empty match is repeated is open: of equal actions on empty text only the first counts then.
std::vector<Action> visible (std::vector<Action> v, bool repeats) {
  if (repeats) {
    std::vector<Action> r;
    for (auto const& a : v)
      if (a.len != 0 || std::find (r.begin (), r.end (), a) == r.end ()) r.push_back (a);
    v = std::move (r);
  }
  return v;
}
std::string show (std::vector<Action> const& v) {
  std::string r = "[";
  for (auto const& a : v) r += mc::cat (a.id, "@", a.at, "+", a.len, " ");
  return r + "]";
}

void check_one (NodePtr const& top, Match const& m, std::string_view program, std::string_view text) {
  constexpr unsigned top_id = 47;
  bool empty_repeat = false;
  auto want = interpret (*top, text, 0, empty_repeat);
  auto const what = [&] { return mc::cat ("program ", program, " on ", mc::show (text), ": "); };
  auto const collect = [&] {
    std::vector<Action> got;
    for (auto const& a : ran) {
      MC_CHECK (a.text.data () >= text.data () && a.text.data () + a.text.size () <= text.data () + text.size (), what (),
                "an action received text which is not part of the input");
      got.push_back ({a.id, static_cast<std::size_t> (a.text.data () - text.data ()), a.text.size ()});
    }
    ran.clear ();
    return got;
  };
  // as a function
  rule const start{text};
  ran.clear ();
  auto const direct = m (start);
  MC_CHECK (direct.has_value () == want.ok, what (), want.ok ? "does not match" : "matches");
  if (direct) {
    auto const& head = std::get<std::string_view> (*direct);
    MC_CHECK (head.size () == want.len, what (), "matches ", mc::show (head));
    if (!text.empty ()) MC_CHECK (head.data () == text.data (), what (), "the matched text is not a prefix of the input");
  }
  MC_CHECK (ran.empty (), what (), "actions ran during matching");
  // as part of a larger rule, at the start of it, with an action of its own
  for (int form = 0; form < 4; ++form) {
    std::optional<rule> r;
    bool ok = want.ok;
    auto actions = want.actions;
    auto len = want.len;
    switch (form) {
    case 0: r = start.concat (m); break;
    case 1:
      r = start.concat (m, [] (std::string_view s) { ran.push_back ({top_id, s}); });
      if (ok) actions.push_back ({top_id, 0, want.len});
      break;
    case 2:
      r = start.optional (m, pointers[top_id]);
      if (ok) actions.push_back ({top_id, 0, want.len});
      if (!ok) ok = true, len = 0, actions.clear ();
      break;
    default:
      r = start.alternative ([] (rule const& x) { return x.single_char ('x'); }, m);
      break;
    }
    MC_CHECK (r->tail ().has_value () == ok, what (), ok ? "does not succeed" : "succeeds", " (form ", form, ")");
    if (ok) MC_CHECK (*r->tail () == text.substr (len) && (text.empty () || r->tail ()->data () == text.data () + len), what (), "leaves ",
                      mc::show (*r->tail ()), " (form ", form, ")");
    MC_CHECK (ran.empty (), what (), "actions ran before done()");
    bool const all = ok && len == text.size ();
    auto const finish = [&] (rule const& x, char const* how) {
      bool const d = x.done ();
      MC_CHECK (d == all, what (), "done() is ", d, how, " (form ", form, ")");
      auto const got = collect ();
      if (!all) {
        MC_CHECK (got.empty (), what (), "actions ran although the input was not matched completely", how);
      } else {
        MC_CHECK (visible (got, empty_repeat) == visible (actions, empty_repeat), what (), "actions are ", show (got), " instead of ",
                  show (actions), how, " (form ", form, ")");
      }
    };
    rule const copy = *r;
    finish (*r, "");
    finish (copy, " of a copy");
    rule const moved = std::move (*r);
    finish (moved, " of a moved rule");
    mc::step (4);
    mc::outcome (!ok ? "no match" : all ? "matched all" : "matched a prefix");
  }
  // a rule that failed stays failed, whatever follows
  auto const failed = start.concat ([] (rule const& x) { return x.single_char ([] (char) { return false; }); });
  MC_CHECK (!failed.tail () && !failed.done () && !failed.concat (m).tail () && !failed.optional (m).tail () && !failed.star (m).tail () &&
                !failed.alternative (m, m).tail () && !m (failed) && ran.empty (),
            what (), "matching goes on after a failure");
  // and the starting rule is unchanged
  MC_CHECK (start.tail () && start.tail ()->size () == text.size (), what (), "the rule that was extended has changed");
  mc::state (mc::hash (mc::cat (want.ok, want.len, show (want.actions), text.size ())));
}

std::vector<std::string> const& texts (bool longer) {
  static std::vector<std::string> const small = [] {
    std::vector<std::string> v;
    gen::sequences (2, 4, [&] (auto const& w) { v.push_back (gen::join ({"a", "b"}, w)); });
    v.push_back ("abc");
    return v;
  }();
  static std::vector<std::string> const large = [] {
    std::vector<std::string> v;
    gen::sequences (2, 7, [&] (auto const& w) { v.push_back (gen::join ({"a", "b"}, w)); });
    return v;
  }();
  return longer ? large : small;
}

void check_program (std::string_view payload) {
  auto s = payload;
  unsigned ids = 0;
  auto const n = parse (s, ids);
  if (!s.empty ()) throw std::runtime_error ("bad program");
  auto const m = build (n);
  for (auto const& t : texts (payload.size () <= 6)) {
    mc::Exact const e{t};
    check_one (n, m, payload, e.view ());
  }
}

// Characters: every matcher on every byte.
int lower (int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
bool accepts (auto const& m, unsigned c, char const* what) {
  char const text[2] = {static_cast<char> (c), 'x'};
  rule const r{std::string_view{text, 2}};
  auto const res = m (r);
  if (res) {
    auto const& head = std::get<std::string_view> (*res);
    MC_CHECK (head.data () == text && head.size () == 1, what, ": matches other text than one character");
    MC_CHECK (std::get<1> (*res).empty (), what, ": adds actions");
  }
  MC_CHECK (!m (rule{std::string_view{text, 0}}), what, " matches the end of the input");
  MC_CHECK (!m (rule{std::string_view{}}), what, " matches a null view");
  mc::step (3);
  return res.has_value ();
}
void check_characters (std::string_view payload) {
  unsigned const a = static_cast<unsigned char> (payload[0]);
  for (unsigned c = 0; c < 256; ++c) {
    auto const ca = static_cast<char> (a);
    bool const is = accepts (uri::single_char (ca), c, "single_char");
    MC_CHECK (is == (lower (static_cast<int> (a)) == lower (static_cast<int> (c))), "single_char(", a, ") is ", is, " for ", c);
    bool const pred = accepts ([&] (rule const& r) { return r.single_char ([&] (char x) { return x == ca; }); }, c, "predicate");
    MC_CHECK (pred == (a == c), "single_char(predicate) calls it with another character than ", c);
    // ranges of letters or digits, as grammars have them
    for (unsigned b = a; b < 256; ++b) {
      auto const cls = [] (unsigned x) { return x >= '0' && x <= '9' ? 1 : x >= 'a' && x <= 'z' ? 2 : x >= 'A' && x <= 'Z' ? 3 : 0; };
      if (cls (a) == 0 || cls (a) != cls (b)) continue;
      bool const in = accepts (uri::char_range (ca, static_cast<char> (b)), c, "char_range");
      auto const l = static_cast<unsigned> (lower (static_cast<int> (c)));
      bool const want = l >= static_cast<unsigned> (lower (static_cast<int> (a))) && l <= static_cast<unsigned> (lower (static_cast<int> (b)));
      MC_CHECK (in == want, "char_range(", a, ",", b, ") is ", in, " for ", c);
    }
  }
  bool const letter = (a >= 'a' && a <= 'z') || (a >= 'A' && a <= 'Z'), dig = a >= '0' && a <= '9';
  bool const hex = dig || (a >= 'a' && a <= 'f') || (a >= 'A' && a <= 'F');
  MC_CHECK (accepts (uri::alpha, a, "alpha") == letter, "alpha is wrong for ", a);
  MC_CHECK (accepts (uri::digit, a, "digit") == dig, "digit is wrong for ", a);
  MC_CHECK (accepts (uri::hexdig, a, "hexdig") == hex, "hexdig is wrong for ", a);
  mc::state (mc::cat ("char", a));
}

// Long inputs: repetition counts, and the number of actions.
void check_chain (std::string_view payload) {
  mc::Reader r{payload};
  auto const n = r.u32 ();
  auto const at_least = r.u32 (), at_most = r.u32 ();
  std::string const text (n, 'a');
  unsigned count = 0;
  std::size_t pos = 0;
  bool in_order = true;
  auto const element = [&] (rule const& x) {
    return x.concat (uri::single_char ('a'), [&] (std::string_view s) {
      in_order = in_order && s.data () == text.data () + pos && s.size () == 1;
      ++pos, ++count;
    }).matched ("element", x);
  };
  auto const res = rule{text}.star (element, at_least, at_most);
  auto const taken = std::min<std::uint64_t> (n, at_most);
  bool const ok = taken >= at_least;
  MC_CHECK (res.tail ().has_value () == ok, n, " repetitions, ", at_least, " to ", at_most, ": matching ", ok ? "fails" : "succeeds");
  if (ok) MC_CHECK (res.tail ()->size () == n - taken, n, " repetitions, ", at_least, " to ", at_most, ": ", res.tail ()->size (), " left");
  bool const all = ok && taken == n;
  MC_CHECK (res.done () == all, n, " repetitions, ", at_least, " to ", at_most, ": done() is ", !all);
  MC_CHECK (count == (all ? n : 0) && in_order, n, " repetitions, ", at_least, " to ", at_most, ": ", count, " actions");
  mc::step (n + 1);
}

// Rules are values: whatever is done with one changes no other, and one may be continued, and
// finished, any number of times.  A history of operations on two rules, against a model of each.
struct Continued {
  bool ok = true;
  std::size_t at = 0;
  std::vector<Action> actions;
};
constexpr unsigned continuations = 9;
rule go_on (rule const& r, unsigned step) {
  auto const acting = [] (rule const& x) {
    return x.concat (uri::single_char ('a'), pointers[5]).matched ("acting", x);
  };
  switch (step) {
  case 0: return r.concat (uri::single_char ('a'), pointers[0]);
  case 1: return r.concat (uri::single_char ('b'), [] (std::string_view s) { ran.push_back ({1, s}); });
  case 2: return r.concat (uri::single_char ('a'));
  case 3: return r.optional (uri::single_char ('a'), pointers[3]);
  case 4: return r.optional (uri::single_char ('b'));
  case 5: return r.star (acting);
  case 6: return r.star (uri::single_char ('b'), 1U, 2U);
  case 7: return r.alternative (acting, uri::single_char ('b'));
  default: return r.concat ([] (rule const& x) { return x.matched ("nothing", x); }, pointers[8]);
  }
}
void go_on (Continued& c, std::string_view t, unsigned step) {
  if (!c.ok) return;
  bool const a = c.at < t.size () && t[c.at] == 'a', b = c.at < t.size () && t[c.at] == 'b';
  auto const take = [&] (std::size_t n, unsigned id = 99) {
    if (id != 99) c.actions.push_back ({id, c.at, n});
    c.at += n;
  };
  auto const need = [&] (bool is, unsigned id = 99) {
    if (is) take (1, id);
    else c = Continued{false, 0, {}};
  };
  switch (step) {
  case 0: return need (a, 0);
  case 1: return need (b, 1);
  case 2: return need (a);
  case 3:
    if (a) take (1, 3);
    return;
  case 4:
    if (b) take (1);
    return;
  case 5:
    while (c.at < t.size () && t[c.at] == 'a') take (1, 5);
    return;
  case 6:
    need (b);
    if (c.ok && c.at < t.size () && t[c.at] == 'b') take (1);
    return;
  case 7: return a ? take (1, 5) : need (b);
  default: return take (0, 8);
  }
}
constexpr char const* value_texts[] = {"ab", "aab", "abb", "bab", ""};
// Operations: continue rule i to become rule j (36), finish rule i (2), copy, self-assign and move-assign (4).
constexpr unsigned value_ops = continuations * 4 + 6;
void check_values (std::string_view payload) {
  std::string_view const t = value_texts[static_cast<unsigned char> (payload[0])];
  mc::Exact const e{t};
  std::string_view const text = e.view ();
  rule r[2] = {rule{text}, rule{text}};
  Continued c[2];
  auto const what = [&] {
    std::string s = mc::cat ("on ", mc::show (text), ", after the operations");
    for (unsigned char op : payload.substr (1)) s += mc::cat (' ', static_cast<unsigned> (op));
    return s + ": ";
  };
  auto const finish = [&] (unsigned i) {
    ran.clear ();
    bool const d = r[i].done (), all = c[i].ok && c[i].at == text.size ();
    MC_CHECK (d == all, what (), "done() of rule ", i, " is ", d);
    std::vector<Action> got;
    for (auto const& a : ran) got.push_back ({a.id, static_cast<std::size_t> (a.text.data () - text.data ()), a.text.size ()});
    MC_CHECK (got == (all ? c[i].actions : std::vector<Action>{}), what (), "the actions of rule ", i, " are ", show (got), " instead of ", show (c[i].actions));
    ran.clear ();
  };
  for (unsigned char op : payload.substr (1)) {
    ran.clear ();
    if (op < continuations * 4) {
      unsigned const from = op % 2, to = op / 2 % 2, step = op / 4;
      r[to] = go_on (r[from], step);
      if (from != to) c[to] = c[from];
      go_on (c[to], text, step);
    } else {
      switch (op - continuations * 4) {
      case 0: finish (0); break;
      case 1: finish (1); break;
      case 2:
        r[1] = r[0];
        c[1] = c[0];
        break;
      case 3: {
        auto const& same = r[0];
        r[0] = same;
        break;
      }
      case 4:
        r[1] = std::move (r[0]);
        r[0] = rule{text};
        c[1] = c[0];
        c[0] = {};
        break;
      default: {
        rule copy = r[1];
        std::swap (copy, r[0]);
        r[1] = copy;
        std::swap (c[0], c[1]);
        break;
      }
      }
    }
    MC_CHECK (ran.empty (), what (), "actions ran before done()");
    for (unsigned i = 0; i < 2; ++i) {
      MC_CHECK (r[i].tail ().has_value () == c[i].ok, what (), "rule ", i, c[i].ok ? " has failed" : " has not failed");
      if (c[i].ok)
        MC_CHECK (r[i].tail ()->size () == text.size () - c[i].at && (text.empty () || r[i].tail ()->data () == text.data () + c[i].at), what (), "rule ", i, " leaves ",
                  mc::show (*r[i].tail ()));
    }
  }
  for (unsigned i : {0U, 1U, 1U, 0U}) finish (i);
  mc::step (payload.size () + 3);
  mc::state (mc::cat ("values", c[0].ok, c[0].at, show (c[0].actions), c[1].ok, c[1].at, show (c[1].actions)));
}

std::vector<std::string> nodes (std::vector<std::string> const& children, std::string_view hows, bool pairs) {
  std::vector<std::string> steps, r;
  for (auto const& c : children)
    for (auto h : hows) steps.push_back (std::string{h} + c);
  for (auto const& s : steps) r.push_back (";1" + s);
  if (pairs)
    for (auto const& s : steps)
      for (auto const& t : steps) r.push_back (";2" + s + t);
  return r;
}

void gen_cases (mc::Emit& emit, bool thorough) {
  for (unsigned c = 0; c < 256; ++c) emit (1, std::string (1, static_cast<char> (c)));
  for (unsigned n : {0U, 1U, 2U, 3U, 7U, 16U, 255U, 256U, 1000U})
    for (unsigned lo : {0U, 1U, 2U, 7U, 255U, 256U, 257U})
      for (unsigned hi : {0U, 1U, 2U, 7U, 255U, 256U, 257U, inf})
        if (lo <= hi) emit (2, mc::Writer{}.u32 (n).u32 (lo).u32 (hi).s);
  for (unsigned t = 0; t < std::size (value_texts); ++t)
    gen::sequences (value_ops, thorough && t < 3 ? 4 : 3, [&] (auto const& w) {
      if (!emit.mine ()) return emit.skip ();
      std::string s (1, static_cast<char> (t));
      for (auto i : w) s += static_cast<char> (i);
      emit (3, s);
    });
  // four operations of a smaller choice
  static constexpr unsigned few[] = {0, 4, 8, 1, 5, 2, 6, 12, 14, 20, 22, 28, 30, continuations * 4, continuations * 4 + 1, continuations * 4 + 2, continuations * 4 + 4};
  for (unsigned t : {0U, 1U})
    gen::sequences (std::size (few), thorough ? 5 : 4, [&] (auto const& w) {
      if (!emit.mine ()) return emit.skip ();
      std::string s (1, static_cast<char> (t));
      for (auto i : w) s += static_cast<char> (few[i]);
      emit (3, s);
    });
  std::vector<std::string> const leaves{"a", "b", "e", "f"};
  std::vector<std::string> level1 = leaves;
  auto const add = [] (std::vector<std::string>& to, std::vector<std::string> const& v) { to.insert (to.end (), v.begin (), v.end ()); };
  auto const alts = [] (std::vector<std::string> const& x, std::vector<std::string> const& y) {
    std::vector<std::string> r;
    for (auto const& a : x)
      for (auto const& b : y) r.push_back ("|2" + a + b);
    return r;
  };
  add (level1, nodes ({"a", "b", "e"}, "!+*01", true));
  add (level1, nodes (leaves, ".?23456789", false));
  add (level1, alts (leaves, leaves));
  for (auto const& a : leaves)
    for (auto const& b : leaves)
      for (auto const& c : leaves) level1.push_back ("|3" + a + b + c);
  for (auto const& p : level1) emit (0, p);
  // sequences of three and four steps over characters
  std::vector<std::string> steps;
  for (auto h : std::string_view{"!+*2"})
    for (auto c : {"a", "b"}) steps.push_back (std::string{h} + c);
  gen::sequences (steps.size (), thorough ? 5 : 4, [&] (auto const& w) {
    if (w.size () < 3) return;
    emit (0, mc::cat (';', w.size (), gen::join (steps, w)));
  });
  // level 2: one step over any of these, alone and between characters; choices between any two
  for (auto const& p : level1)
    for (auto h : std::string_view{".!?+*0123456789"}) {
      emit (0, mc::cat (";1", h, p));
      for (auto const* s : {"!a", "!b", "+a", "*b", "!|2ab"}) {
        emit (0, mc::cat (";2", s, h, p));
        emit (0, mc::cat (";2", h, p, s));
        if (thorough) emit (0, mc::cat (";3", s, h, p, s));
      }
    }
  std::size_t k = 0;
  for (auto const& p : level1)
    for (auto const& q : level1) {
      // quick: every pair with one of 31 fixed partners; thorough: all
      if (!thorough && (++k % level1.size ()) % 17 != 0) continue;
      emit (0, "|2" + p + q);
      emit (0, mc::cat (";2!", p, "!", q));
    }
  // level 3
  auto const some = nodes ({"a", "b", "e"}, "!+*0", true);
  for (std::size_t i = 0; i < some.size (); ++i)
    for (auto h : std::string_view{"!+*01"})
      for (auto g : std::string_view{"!+*01"})
        for (auto const* s : {"!a", "!b", "*a"}) {
          if (emit.mine ()) {
            emit (0, mc::cat (";2", g, ";2", h, some[i], s, s));
          } else {
            emit.skip ();
          }
          emit (0, mc::cat (";1", g, "|2;2", h, some[i], s, some[(i * 7 + 3) % some.size ()]));
        }
}

}  // namespace

void mc_check (unsigned kind, std::string_view payload) {
  switch (kind) {
  case 0: check_program (payload); break;
  case 1: check_characters (payload); break;
  case 2: check_chain (payload); break;
  case 3: check_values (payload); break;
  default: mc::fail ("unknown kind");
  }
}

MC_MAIN (gen_cases)
