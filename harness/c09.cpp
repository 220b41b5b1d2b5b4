// C09: percent-decoding through every interface.
#include <deque>
#include <span>
#include "gen.hpp"
#include "walk.hpp"
#include "uri/pctdecode.hpp"

char const* const mc_kinds[] = {"escape", "text", "walk", "long", "life", "other types"};

namespace {

// Offsets of the items of the decoded text, and the items.
struct Model {
  std::vector<std::size_t> at;  // start of each item, then the end
  std::string items;
  explicit Model (std::string_view s) {
    std::size_t i = 0;
    while (i < s.size ()) {
      at.push_back (i);
      if (s[i] == '%' && s.size () - i >= 3 && ref::hexd (s[i + 1]) && ref::hexd (s[i + 2])) {
        items += static_cast<char> (ref::hexval (s[i + 1]) * 16 + ref::hexval (s[i + 2]));
        i += 3;
      } else {
        items += s[i++];
      }
    }
    at.push_back (i);
  }
};

// In the wider types, some of these become '%' or a digit when they are cut to eight bits.
constexpr std::uint32_t units[] = {'%', '4', 'a', 'F', 'g', 0xFF, 0x125, 0x134, 0x10061, 0x4100};

void gen_cases (mc::Emit& emit, bool thorough) {
  for (unsigned a = 0; a < 256; ++a)
    for (unsigned b = 0; b < 256; ++b) {
      if (!emit.mine ()) {
        emit.skip ();
        continue;
      }
      std::string const e{'%', static_cast<char> (a), static_cast<char> (b)};
      emit (0, e);
      emit (0, "%" + e + "4");
      emit (0, "x" + e.substr (0, 2));
      emit (0, std::string{static_cast<char> (a), static_cast<char> (b), '1'});
    }
  std::string const alphabet ("%4aFgz\0\xFF", 8);
  gen::sequences (alphabet.size (), thorough ? 8 : 6, [&] (auto const& w) {
    if (!emit.mine ()) {
      emit.skip ();
      return;
    }
    std::string s;
    for (auto i : w) s += alphabet[i];
    emit (1, s);
  });
  gen::sequences (gen::known::bits.size (), thorough ? 3 : 2, [&] (auto const& w) {
    if (!emit.mine ()) {
      emit.skip ();
      return;
    }
    emit (1, gen::join (gen::known::bits, w));
  });
  // every sequence of operations on two iterators of one text
  for (char const* s : {"", "a", "%41", "%4", "%", "%%41", "%41%42", "a%2", "%zz%30", "b%C3%28", "%254", "%2541%"})
    gen::sequences (walk::operations, thorough ? 6 : 5, [&] (auto const& w) {
      if (!emit.mine ()) {
        emit.skip ();
        return;
      }
      mc::Writer wr;
      wr.str (s);
      for (auto i : w) wr.u8 (static_cast<unsigned> (i));
      emit (2, wr.s);
    });
  gen::sequences (std::size (units), thorough ? 6 : 5, [&] (auto const& w) {
    if (!emit.mine ()) return emit.skip ();
    std::string s;
    for (auto i : w) s += static_cast<char> (i);
    emit (5, s);
  });
  // every sequence of operations on two views
  gen::sequences (walk::life_operations, thorough ? 5 : 4, [&] (auto const& w) {
    if (!emit.mine ()) return emit.skip ();
    mc::Writer wr;
    for (auto i : w) wr.u8 (static_cast<unsigned> (i));
    emit (4, wr.s);
  });
  for (unsigned n = 1; n <= (thorough ? 400U : 100U); ++n)
    for (char const* unit : {"%41", "%4", "%", "a", "%zz", "%c3%A9", "%25"})
      for (char const* tail : {"", "%", "%4", "%41", "\xFF"}) {
        std::string s;
        for (unsigned i = 0; i < n; ++i) s += unit;
        emit (3, s + tail);
      }
  for (unsigned n : {4096U, 65536U}) {
    std::string s;
    for (unsigned i = 0; i < n; ++i) s += "%e2";
    emit (3, s);
    emit (3, s + "%e");
  }
}

// The same in other types of character, for indices of `units`.
template <typename C> void typed (std::string_view indices, char const* type) {
  std::vector<C> in, want;
  for (char i : indices) in.push_back (static_cast<C> (units[static_cast<unsigned char> (i)]));
  in.shrink_to_fit ();
  auto const hex = [] (C c) -> int {
    static constexpr char digits[] = "0123456789abcdefABCDEF";
    for (int k = 0; k < 22; ++k)
      if (c == static_cast<C> (digits[k])) return k < 16 ? k : k - 6;
    return -1;
  };
  for (std::size_t i = 0; i < in.size (); ++i) {
    if (in[i] == static_cast<C> ('%') && in.size () - i >= 3 && hex (in[i + 1]) >= 0 && hex (in[i + 2]) >= 0) {
      want.push_back (static_cast<C> (hex (in[i + 1]) * 16 + hex (in[i + 2])));
      i += 2;
    } else {
      want.push_back (in[i]);
    }
  }
  auto const is = [&] (std::vector<C> const& got, char const* how) {
    mc::step ();
    if (got == want) return;
    std::string t;
    for (auto c : in) t += mc::cat (' ', static_cast<std::uint32_t> (c));
    mc::fail (mc::cat (how, " over ", type, " is wrong for the units", t));
  };
  std::vector<C> out;
  C const* const p = in.data ();
  std::copy (uri::pctdecode_iterator{p, p + in.size ()}, uri::pctdecode_iterator{p + in.size (), p + in.size ()}, std::back_inserter (out));
  is (out, "pctdecode_iterator");
  out.assign (uri::pctdecode_begin (in), uri::pctdecode_end (in));
  is (out, "pctdecode_begin/pctdecode_end");
  out.clear ();
  for (auto const& c : uri::pctdecoder{in}) out.push_back (c);
  is (out, "pctdecoder");
  out.clear ();
  std::ranges::copy (in | uri::views::pctdecode, std::back_inserter (out));
  is (out, "views::pctdecode");
  out.clear ();
  auto const view = std::span<C const>{in} | uri::views::pctdecode;
  for (auto it = view.begin (); it != view.end ();) out.push_back (*it++);
  is (out, "views::pctdecode of a span");
  if (!uri::needs_pctdecode (in.begin (), in.end ()) && want != in) is ({}, "needs_pctdecode");
}

auto view_of (std::string_view s) { return s | uri::views::pctdecode; }

void all_interfaces (std::string_view s) {
  Model const m{s};
  mc::Exact const e{s};
  std::string_view const in{e};
  auto const is = [&] (std::string const& got, char const* how) {
    mc::step ();
    MC_CHECK (got == m.items, how, " gives ", mc::show (got), " instead of ", mc::show (m.items), " for ", mc::show (s));
  };
  is (uri::pctdecode (in), "pctdecode(string_view)");
  {
    std::string out;
    char const* p = in.data ();
    uri::pctdecode_iterator first{p, p + in.size ()};
    uri::pctdecode_iterator const last{p + in.size (), p + in.size ()};
    std::copy (first, last, std::back_inserter (out));
    is (out, "pctdecode_iterator over pointers");
    out.clear ();
    while (first != last) out += *first++;
    is (out, "pctdecode_iterator with post-increment");
  }
  {
    std::string out;
    for (auto it = uri::pctdecode_begin (in); it != uri::pctdecode_end (in); ++it) out += *it.operator->();
    is (out, "pctdecode_begin/pctdecode_end");
    std::vector<char> const v (in.begin (), in.end ());
    out.assign (uri::pctdecode_begin (v), uri::pctdecode_end (v));
    is (out, "pctdecode_begin/pctdecode_end of a vector");
    MC_CHECK (std::distance (uri::pctdecode_begin (in), uri::pctdecode_end (in)) == static_cast<std::ptrdiff_t> (m.items.size ()),
              "distance between the iterators is wrong for ", mc::show (s));
  }
  {
    std::string out;
    for (auto c : uri::pctdecoder{in}) out += c;
    is (out, "pctdecoder");
    uri::pctdecoder<char const*> const d{in.data (), in.data () + in.size ()};
    out.clear ();
    for (auto c : d) out += c;
    is (out, "pctdecoder of pointers");
    std::string const str{s};
    out.clear ();
    for (auto const& c : uri::pctdecoder{str}) out += c;
    is (out, "pctdecoder of a string");
    std::deque<char> const dq (s.begin (), s.end ());
    out.clear ();
    for (auto const& c : uri::pctdecoder{dq}) out += c;
    is (out, "pctdecoder of a deque");
    // iterators that produce values, not references to elements
    auto const values = in | std::views::transform ([] (char c) { return c; });
    uri::pctdecode_iterator first{values.begin (), values.end ()};
    uri::pctdecode_iterator const last{values.end (), values.end ()};
    out.clear ();
    for (auto it = first; it != last; ++it) out += *it.operator->();
    is (out, "pctdecode_iterator over iterators that produce values");
    out.clear ();
    while (first != last) {
      auto const was = first++;
      char const& c = *was;
      if (first != last) (void)*first;
      out += c;
    }
    is (out, "pctdecode_iterator over iterators that produce values, with post-increment");
    out.clear ();
    for (auto const& c : uri::pctdecoder{values.begin (), values.end ()}) out += c;
    is (out, "pctdecoder over iterators that produce values");
  }
  {
    auto const view = in | uri::views::pctdecode;
    std::string out;
    for (auto c : view) out += c;
    is (out, "views::pctdecode");
    out.clear ();
    std::ranges::copy (view, std::back_inserter (out));
    is (out, "copy of views::pctdecode, second pass");
    out.clear ();
    for (auto it = view.begin (); it != view.end (); ++it) out += std::ranges::iter_move (it);
    is (out, "iter_move over views::pctdecode");
    out.clear ();
    for (auto it = view.begin (); it != view.end ();) out += *it++;
    is (out, "views::pctdecode with post-increment");
    MC_CHECK (std::ranges::distance (view) == static_cast<std::ptrdiff_t> (m.items.size ()), "distance over the view is wrong for ", mc::show (s));
    MC_CHECK (view.empty () == m.items.empty (), "empty() of the view is wrong for ", mc::show (s));
    if (!m.items.empty ()) MC_CHECK (view.front () == m.items[0], "front() of the view is wrong for ", mc::show (s));
    MC_CHECK (view.base ().data () == in.data () && view.base ().size () == in.size (), "base() is not the underlying view");
    std::size_t k = 0;
    for (auto it = view.begin (); it != view.end (); ++it, ++k)
      MC_CHECK (it.base () == in.begin () + static_cast<std::ptrdiff_t> (m.at[k]), "base() of the view's iterator is wrong at item ", k, " of ",
                mc::show (s));
    auto const copy = view;
    out.clear ();
    for (auto c : copy) out += c;
    is (out, "a copy of the view");
  }
  {
    std::string str{s};
    std::string out;
    std::ranges::copy (str | uri::views::pctdecode, std::back_inserter (out));
    is (out, "views::pctdecode over a string");
    MC_CHECK (str == s, "reading the view modified the string ", mc::show (s));
    std::vector<char> const v (s.begin (), s.end ());
    out.clear ();
    std::ranges::copy (uri::pctdecode_view{v}, std::back_inserter (out));
    is (out, "pctdecode_view over a vector");
    std::deque<char> const dq (s.begin (), s.end ());
    out.clear ();
    std::ranges::copy (dq | uri::views::pctdecode | std::views::transform ([] (char c) { return c; }), std::back_inserter (out));
    is (out, "views::pctdecode over a deque and onwards");
    out.clear ();
    std::ranges::copy (in | std::views::drop (0) | uri::views::pctdecode | std::views::take (1000000), std::back_inserter (out));
    is (out, "views::pctdecode between other adaptors");
    // a view is read afresh each time: the text under it may have changed
    std::string changing = "%4" + std::string{s};
    auto const late = changing | uri::views::pctdecode;
    auto const copied = late;
    out.assign (late.begin (), late.end ());
    changing = s;
    for (auto const& w : {late, copied}) {
      out.clear ();
      for (auto c : w) out += c;
      is (out, "a view of a string that was assigned to since it was last read");
    }
    auto assigned = std::string_view{"%41%"} | uri::views::pctdecode;
    (void)*assigned.begin ();
    assigned = view_of (in);
    out.clear ();
    for (auto c : assigned) out += c;
    is (out, "a view that was assigned to");
  }
  bool const percent = s.find ('%') != std::string_view::npos;
  if (!uri::needs_pctdecode (in.begin (), in.end ()))
    MC_CHECK (m.items == s, "needs_pctdecode is false but decoding changes ", mc::show (s));
  else
    MC_CHECK (percent, "needs_pctdecode is true without any '%' in ", mc::show (s));
  MC_CHECK (e.view () == s, "the input was modified");
  mc::state (m.items.substr (0, 16));
  mc::outcome (m.items == s ? "unchanged" : "decoded");
}

}  // namespace

void mc_check (unsigned kind, std::string_view payload) {
  if (kind == 5) {
    std::string narrow;  // without the units that do not fit
    for (char c : payload)
      if (c < 6) narrow += c;
    typed<signed char> (narrow, "signed char");
    typed<unsigned char> (narrow, "unsigned char");
    typed<char8_t> (narrow, "char8_t");
    typed<char16_t> (payload, "char16_t");
    typed<char32_t> (payload, "char32_t");
    typed<wchar_t> (payload, "wchar_t");
    mc::outcome ("other types");
    return;
  }
  if (kind == 4) {
    mc::Reader r{payload};
    std::string const texts[] = {"%41b%4", "x%4zC%43"};
    mc::Exact const e[] = {mc::Exact{texts[0]}, mc::Exact{texts[1]}};
    auto const want = [] (unsigned k) { return std::string_view{k ? "x%4zCC" : "Ab%4"}; };
    auto const shown = [&] (unsigned k) { return mc::show (texts[k]); };
    {
      auto again = r;
      walk::life (again, [&] (unsigned k) { return view_of (e[k].view ()); }, want, shown);
    }
    walk::life (r, [&] (unsigned k) { return uri::pctdecode_view{std::views::all (std::span<char const>{e[k].view ()})}; }, want, shown);
    mc::outcome ("life");
    return;
  }
  if (kind == 2) {
    mc::Reader r{payload};
    auto const s = r.str ();
    Model const m{s};
    mc::Exact const e{s};
    std::string_view const in{e};
    {
      auto again = r;
      walk::run (again, m.items, uri::pctdecode_begin (in), uri::pctdecode_end (in), mc::show (s));
    }
    {
      auto again = r;
      auto const view = in | uri::views::pctdecode;
      walk::run (again, m.items, view.begin (), view.end (), mc::show (s));
    }
    mc::outcome ("walk");
    return;
  }
  all_interfaces (payload);
}

MC_MAIN (gen_cases)
