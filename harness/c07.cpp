// C07: equality of parts, path and authority values.
#include "gen.hpp"

char const* const mc_kinds[] = {"pair", "triple", "split pair", "one difference"};

namespace {

using opt = std::optional<std::string>;

struct Expect {
  bool equal;
  bool free;  // differ in the absolute flag only where that does not show in the text
};
Expect whole (gen::Value const& a, gen::Value const& b) {
  auto x = a, y = b;
  bool const flags = a.absolute == b.absolute;
  x.absolute = y.absolute = false;
  bool const rest = x == y;
  if (!rest || flags) return {rest, false};
  bool const free = lib::compose_text (a.parts ()) == lib::compose_text (b.parts ());
  return {false, free};
}

// All the operators on two values.
bool compare (gen::Value const& a, gen::Value const& b) {
  gen::ExactParts const x{a}, y{b};
  auto const in = [&] { return lib::show (x.p) + " and " + lib::show (y.p); };
  mc::step (10);
  bool const eq = x.p == y.p;
  MC_CHECK ((y.p == x.p) == eq, "== is not symmetric for ", in ());
  MC_CHECK ((x.p != y.p) == !eq && (y.p != x.p) == !eq, "!= is not the negation of == for ", in ());
  auto const want = whole (a, b);
  if (!want.free) MC_CHECK (eq == want.equal, "== is ", eq, " for ", in ());
  if (eq) MC_CHECK (uri::compose (x.p) == uri::compose (y.p), "equal values compose differently: ", in ());
  MC_CHECK (x.p == x.p && !(x.p != x.p), "not equal to itself: ", in ());
  {
    auto const copy = x.p;
    MC_CHECK (copy == x.p && x.p == copy, "not equal to its copy: ", in ());
  }
  bool const peq = x.p.path == y.p.path;
  MC_CHECK ((y.p.path == x.p.path) == peq && (x.p.path != y.p.path) == !peq && (y.p.path != x.p.path) == !peq,
            "path operators disagree for ", in ());
  if (a.absolute == b.absolute || !a.segments.empty () || !b.segments.empty ())
    MC_CHECK (peq == (a.absolute == b.absolute && a.segments == b.segments), "path == is ", peq, " for ", in ());
  if (x.p.authority && y.p.authority) {
    auto const& p = *x.p.authority;
    auto const& q = *y.p.authority;
    bool const aeq = p == q;
    MC_CHECK ((q == p) == aeq && (p != q) == !aeq && (q != p) == !aeq, "authority operators disagree for ", in ());
    MC_CHECK (aeq == (a.userinfo == b.userinfo && a.host == b.host && a.port == b.port), "authority == is ", aeq, " for ", in ());
  }
  mc::outcome (eq ? "equal" : "different");
  return eq;
}

std::vector<gen::Value> values (bool small) {
  std::vector<gen::Value> r;
  std::string const nul1 ("a\0b", 3), nul2 ("a\0c", 3);
  std::vector<opt> const some = small ? std::vector<opt>{std::nullopt, "", "a"} : std::vector<opt>{std::nullopt, "", "a", "A", "aa", nul1, nul2};
  auto const add = [&r] (auto f) {
    gen::Value v;
    f (v);
    r.push_back (v);
  };
  for (auto const& s : some) add ([&] (auto& v) { v.scheme = s; });
  for (auto const& s : some) add ([&] (auto& v) { v.query = s; });
  for (auto const& s : some) add ([&] (auto& v) { v.fragment = s; });
  std::vector<gen::texts> const seqs{{}, {""}, {"a"}, {"a", ""}, {"", "a"}, {"a", "b"}, {"a/b"}, {"b", "a"}, {"", ""}, {"A"}, {nul1}, {nul2}, {"ab"}};
  for (auto const& u : some)
    for (auto const& h : some)
      for (auto const& p : some) {
        if (!h || (!small && u && p && *u == *p && u->size () > 1)) continue;
        add ([&] (auto& v) {
          v.has_authority = true;
          v.userinfo = u;
          v.host = *h;
          v.port = p;
        });
      }
  for (int auth = 0; auth < 2; ++auth)
    for (int absolute = 0; absolute < 2; ++absolute)
      for (auto const& s : seqs) {
        if (small && s.size () > 1) continue;
        add ([&] (auto& v) {
          v.has_authority = auth != 0;
          v.absolute = absolute != 0;
          v.segments = s;
        });
      }
  // the same string in different places
  for (unsigned mask = 0; mask < 64; ++mask) {
    if (small && mask % 3 != 0) continue;
    add ([&] (auto& v) {
      if (mask & 1U) v.scheme = "a";
      if (mask & 2U) v.query = "a";
      if (mask & 4U) v.fragment = "a";
      if (mask & 8U) {
        v.has_authority = true;
        v.host = "a";
        if (mask & 32U) v.port = "a";
      } else if (mask & 32U) {
        v.absolute = true;
      }
      if (mask & 16U) v.segments.push_back ("a");
    });
  }
  return r;
}

void gen_cases (mc::Emit& emit, bool thorough) {
  auto const vs = values (false);
  for (std::size_t i = 0; i < vs.size (); ++i)
    for (std::size_t j = i; j < vs.size (); ++j) {
      if (!emit.mine ()) {
        emit.skip ();
        continue;
      }
      emit (0, vs[i].pack () + vs[j].pack ());
    }
  auto const sm = values (true);
  for (auto const& a : sm)
    for (auto const& b : sm)
      for (auto const& c : sm) {
        if (!emit.mine ()) {
          emit.skip ();
          continue;
        }
        emit (1, a.pack () + b.pack () + c.pack ());
      }
  // one byte different at every position of every component, for growing lengths
  std::vector<std::pair<unsigned, unsigned>> places;
  for (unsigned n = 1; n <= (thorough ? 200U : 40U); ++n)
    for (unsigned at = 0; at < n; ++at) places.emplace_back (n, at);
  for (unsigned n : {63U, 64U, 65U, 127U, 128U, 129U, 255U, 256U, 257U, 1000U})
    for (unsigned at : {0U, 1U, n / 2, n - 2, n - 1}) places.emplace_back (n, at);
  for (auto const [n, at] : places)
      for (unsigned c = 0; c < 7; ++c) {
        gen::Value v;
        v.scheme = v.query = v.fragment = v.userinfo = v.port = std::string (n, 'x');
        v.has_authority = c != 6;
        if (!v.has_authority) v.userinfo = v.port = std::nullopt;
        v.host = v.has_authority ? std::string (n, 'x') : "";
        v.absolute = true;
        v.segments.assign (n, std::string (n % 7 + 1, 'x'));
        auto w = v;
        switch (c) {
        case 0: (*w.scheme)[at] = '\xF8'; break;
        case 1: (*w.userinfo)[at] = 'X'; break;
        case 2: w.host[at] = '\0'; break;
        case 3: (*w.port)[at] = 'y'; break;
        case 4: (*w.query)[at] = 'y'; break;
        case 5: (*w.fragment)[at] = 'y'; break;
        default: w.segments[at].back () = 'y'; break;
        }
        emit (3, v.pack () + w.pack ());
      }
  // all pairs of words in one component
  gen::texts words;
  gen::texts const letters{"0", "1", "a", "A", "%", "."};
  gen::sequences (letters.size (), thorough ? 4 : 3, [&] (auto const& w) { words.push_back (gen::join (letters, w)); });
  for (unsigned c = 0; c < 7; ++c)
    for (auto const& x : words)
      for (auto const& y : words) {
        if (!emit.mine ()) {
          emit.skip ();
          continue;
        }
        gen::Value v;
        v.has_authority = c >= 3 && c < 6;
        auto w = v;
        auto const put = [c] (gen::Value& z, std::string const& s) {
          switch (c) {
          case 0: z.scheme = s; break;
          case 1: z.query = s; break;
          case 2: z.fragment = s; break;
          case 3: z.userinfo = s; break;
          case 4: z.host = s; break;
          case 5: z.port = s; break;
          default: z.segments = {"x", s}; break;
          }
        };
        put (v, x);
        put (w, y);
        emit (0, v.pack () + w.pack ());
      }
  // split results
  gen::texts texts;
  gen::short_texts (thorough ? 4 : 3, [&] (std::string const& s) {
    if (ref::parse (s, true)) texts.push_back (s);
  });
  unsigned k = 0;
  gen::product ([&] (std::string const& s) {
    if (++k % (thorough ? 41 : 173) == 0 && ref::parse (s, true)) texts.push_back (s);
  });
  for (std::size_t i = 0; i < texts.size (); ++i)
    for (std::size_t j = i; j < texts.size (); ++j) {
      if (!emit.mine ()) {
        emit.skip ();
        continue;
      }
      emit (2, mc::Writer{}.str (texts[i]).str (texts[j]).s);
    }
  gen::wellknown_pairs ([&] (std::string const& a, std::string const& b) { emit (2, mc::Writer{}.str (a).str (b).s); });
}

}  // namespace

void mc_check (unsigned kind, std::string_view payload) {
  mc::Reader r{payload};
  if (kind == 0 || kind == 3) {
    auto const a = gen::Value::unpack (r);
    auto const b = gen::Value::unpack (r);
    compare (a, b);
    mc::state (b.pack ());
  } else if (kind == 1) {
    auto const a = gen::Value::unpack (r);
    auto const b = gen::Value::unpack (r);
    auto const c = gen::Value::unpack (r);
    auto const x = a.parts (), y = b.parts (), z = c.parts ();
    mc::step (3);
    if (x == y && y == z) MC_CHECK (x == z, "== is not transitive for ", lib::show (x), ", ", lib::show (y), " and ", lib::show (z));
    if (x.path == y.path && y.path == z.path) MC_CHECK (x.path == z.path, "path == is not transitive");
  } else {
    mc::Exact const s{r.str ()}, t{r.str ()};
    for (bool reference : {false, true}) {
      auto const x = reference ? uri::split_reference (s) : uri::split (s);
      auto const y = reference ? uri::split_reference (t) : uri::split (t);
      if (!x || !y) continue;
      mc::step (2);
      bool const same = s.view () == t.view ();
      MC_CHECK ((*x == *y) == same && (*y == *x) == same && (*x != *y) == !same, "the split results of ", mc::show (s), " and ", mc::show (t),
                same ? " differ" : " are equal");
    }
    mc::outcome ("split results");
  }
}

MC_MAIN (gen_cases)
