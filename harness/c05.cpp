// C05: reference resolution, by all ways of calling it.
#include "gen.hpp"

char const* const mc_kinds[] = {"pair", "relative", "chain", "parts"};

namespace {

struct Snapshot {  // a parts value with the identity of its views
  uri::parts p;
  explicit Snapshot (uri::parts const& v) : p{v} {}
  static bool same (std::string_view a, std::string_view b) { return a.data () == b.data () && a.size () == b.size (); }
  static bool same (std::optional<std::string_view> const& a, std::optional<std::string_view> const& b) {
    return a.has_value () == b.has_value () && (!a || same (*a, *b));
  }
  bool unchanged (uri::parts const& v) const {
    bool r = same (p.scheme, v.scheme) && same (p.query, v.query) && same (p.fragment, v.fragment) &&
             p.authority.has_value () == v.authority.has_value () && p.path.absolute == v.path.absolute &&
             p.path.segments.size () == v.path.segments.size ();
    if (r && p.authority)
      r = same (p.authority->userinfo, v.authority->userinfo) && same (p.authority->host, v.authority->host) &&
          same (p.authority->port, v.authority->port);
    for (std::size_t i = 0; r && i < p.path.segments.size (); ++i) r = same (p.path.segments[i], v.path.segments[i]);
    return r;
  }
};

void expect (uri::parts const& got, ref::Comp const& want, bool strict, std::string_view base, std::string_view refr, char const* how) {
  MC_CHECK (lib::comp (got) == want, how, strict ? "" : " (non-strict)", " of ", mc::show (base), " and ", mc::show (refr), " gives ",
            lib::show (lib::comp (got)), " instead of ", lib::show (want));
}

// Resolve texts; returns the target.
std::optional<ref::Comp> pair (std::string_view base, std::string_view refr, bool strict) {
  mc::Exact const b{base}, r{refr};
  auto const cb = ref::parse (base, false);
  auto const cr = ref::parse (refr, true);
  auto const got = uri::join (b, r, strict);
  mc::step ();
  MC_CHECK (got.has_value () == (cb && cr), "join(", mc::show (base), ", ", mc::show (refr), ") ", got ? "succeeds" : "fails");
  MC_CHECK (b.view () == base && r.view () == refr, "an argument was modified");
  if (!got) {
    mc::outcome (cb ? "bad reference" : "bad base");
    return {};
  }
  auto const want = ref::resolve (*cb, *cr, strict);
  expect (*got, want, strict, base, refr, "join");
  if (strict) {
    auto const d = uri::join (b, r);
    MC_CHECK (d && *d == *got && lib::comp (*d) == want, "join without the strict argument differs from strict for ", mc::show (base), " and ",
              mc::show (refr));
  }
  auto const pb = uri::split (b);
  auto const pr = uri::split_reference (r);
  MC_CHECK (pb && pr, "split rejects an argument join accepts");
  Snapshot const sb{*pb}, sr{*pr};
  auto const q = uri::join (*pb, *pr, strict);
  mc::step (2);
  MC_CHECK (sb.unchanged (*pb) && sr.unchanged (*pr), "join modifies its arguments ", mc::show (base), " and ", mc::show (refr));
  expect (q, want, strict, base, refr, "join of parts");
  MC_CHECK (q == *got && q.path.absolute == got->path.absolute && q.path.segments == got->path.segments, "the two forms of join differ");
  // argument aliasing: the same object as base and reference
  if (base == refr) {
    auto const self = uri::join (*pb, *pb, strict);
    expect (self, want, strict, base, refr, "join of one object with itself");
  }
  bool const canonical = want.path.empty () || want.path[0] != '/' || want.authority || !want.path.starts_with ("//");
  if (canonical && want.scheme) {
    MC_CHECK (uri::compose (q) == ref::compose (want), "the target composes to ", mc::show (uri::compose (q)), " instead of ",
              mc::show (ref::compose (want)));
    mc::state (ref::compose (want));
  }
  mc::outcome (!cr->scheme ? cr->authority ? "authority reference" : cr->path.empty () ? "empty path" : cr->path[0] == '/' ? "absolute path" : "merged"
                           : *cr->scheme == *cb->scheme ? "same scheme" : "other scheme");
  return want;
}

gen::texts const bases{"s:", "s://h", "s://h/", "s://h/a", "s://h/a/b", "s://h/a/b/c/d", "s://h/a/", "s:a", "s:a/b", "s:a/b/", "s:/", "s:/a",
                       "s:/a/b", "s://u@h:1/a?q#f", "s:?q", "s:#f", "s://h?q", "s://h#f", "s://@/a//b", "s://h//", "s:/a//b//c", "s:..", "s:/..",
                       "s://h/a/../b", "s:/./a", "S://H/a;p?x#y", "s:a//", "s://h/a/.", "s://h/a/..", "http://a/b/c/d;p?q", "s://h/?", "s://h/a/b?"};
gen::texts const refs{"", "#", "#g", "?", "?y", "?y#z", "//", "//g", "//u@g:1/x/../y", "//g?y", "//g/..", "/", "/.", "/..", "/a", "/a/../b",
                      "/./b//c", "//g//", "s:", "s:g", "s:/g", "s://g/x", "S:g", "t:", "t:g/../h", "t://g", "t:?y", "s:?y", "s:#z", "s:.", "s:..",
                      ".", "./", "..", "../", "../..", "../../..", "../g", "./g", "g", "g/", "g/.", "g/..", "g/./h", "g/../h", ";x", "g;x=1/../y",
                      "g?y/./x", "g#s/../x", "./g:h", "a/b/c/../../d", ".//g", "..//g", "g//", "//@", "/a//..", "s:/../g", "http:g", "t:/./a/..",
                      "1:g", ":", "%", "a b", "//h:x", "?[", "s:/..//g", "/..//g"};

void gen_cases (mc::Emit& emit, bool thorough) {
  auto const two = [&emit] (unsigned kind, std::string const& a, std::string const& b) {
    emit (kind, mc::Writer{}.str (a).str (b).s);
  };
  auto all_bases = bases;
  for (char const* bad : {"", "a", "//h", "1:", "s:%", "s://h:x"}) all_bases.push_back (bad);
  for (auto const& b : all_bases)
    for (auto const& r : refs) two (0, b, r);
  for (auto const& b : bases)
    for (auto const& r : bases) two (0, b, r);
  // all relative references of up to n tokens against every base
  gen::texts const tok{"a", ".", "..", "/", "?", "#", "s:", "b:c"};
  gen::sequences (tok.size (), thorough ? 6 : 4, [&] (auto const& w) {
    auto const r = gen::join (tok, w);
    for (auto const& b : bases) {
      if (!emit.mine ()) {
        emit.skip ();
        continue;
      }
      two (1, b, r);
    }
  });
  // all base paths against a few references
  gen::texts const btok{"a", ".", "..", "/", "//"};
  gen::sequences (btok.size (), thorough ? 8 : 6, [&] (auto const& w) {
    for (char const* prefix : {"s:", "s://h"})
      for (char const* r : {"", "g", "../g", "../../g", "./", "..", "?y", "#z", "/g", "g/../..", ".//g"}) {
        if (!emit.mine ()) {
          emit.skip ();
          continue;
        }
        two (1, prefix + gen::join (btok, w), r);
      }
  });
  // climbing and descending by any amount
  for (unsigned up = 0; up < (thorough ? 60U : 20U); ++up)
    for (unsigned depth = 0; depth < (thorough ? 60U : 20U); ++depth)
      for (char const* prefix : {"s:", "s:/", "s://h/", "s://h//"})
        for (char const* end : {"", "g", "."}) {
          std::string b = prefix, r;
          for (unsigned i = 0; i < depth; ++i) b += "d" + std::to_string (i) + (i % 3 == 2 ? "//" : "/");
          for (unsigned i = 0; i < up; ++i) r += "../";
          two (1, b, r + end);
        }
  // many segments, and long components, on both sides
  {
    std::vector<unsigned> counts;
    for (unsigned n = 7; n <= (thorough ? 300U : 40U); ++n) counts.push_back (n);
    for (unsigned n : {63U, 64U, 65U, 100U, 127U, 128U, 129U, 255U, 256U, 257U, 1000U}) counts.push_back (n);
    auto const rep = [] (unsigned n, std::string const& s) {
      std::string r;
      for (unsigned i = 0; i < n; ++i) r += s;
      return r;
    };
    for (auto n : counts) {
      gen::texts const base_texts{"s://h/" + rep (n, "d/"), "s:" + rep (n, "d/") + "e",   "s:/" + rep (n, "dd") + "/e",     "s://h" + rep (n, "/") + "a",
                                  "s://h/" + rep (n, "../"), "s://h/a/" + rep (n, "x/../"), "s://" + rep (n, "h") + "/a?" + rep (n, "q"), "s://u@h:" + rep (n, "1"),
                                  rep (n, "s") + "://h/a/b?q"};
      gen::texts const ref_texts{rep (n, "../") + "g", rep (n, "../"), rep (n - 1, "../") + "..", rep (n + 1, "../") + "g", "g" + rep (n, "/g"), "/" + rep (n, "x/../") + "y",
                                 "./" + rep (n, "./"), rep (n, "a/") + rep (n, "../") + "b", "?" + rep (n, "y/../"), "#" + rep (n, "z"), "//" + rep (n, "k") + ":1/..",
                                 rep (n, "s") + ":g", "g" + rep (n, "/") + "..", ""};
      for (auto const& b : base_texts)
        for (auto const& r : ref_texts) two (1, b, r);
    }
  }
  // well-known names on both sides
  {
    gen::texts some_bases, some_refs;
    for (char const* s : {"http:", "HTTP:", "https:", "file:", "urn:", "mailto:", "data:", "c:"})
      for (char const* rest : {"", "//", "///c:/a/b", "//localhost/a/b", "//example.com:80", "//user:pw@h:443/a/b?q", "/c:/a/b", "x:y/z", "user@example.com?subject=x"})
        some_bases.push_back (std::string{s} + rest);
    for (char const* s : {"", "http:", "HTTP:", "https:", "file:", "urn:", "c:"}) {
      for (auto const& p : gen::known::paths) some_refs.push_back (s + p);
      for (auto const& q : gen::known::queries) some_refs.push_back (s + q);
      for (auto const& f : gen::known::fragments) some_refs.push_back (s + f);
      for (auto const& h : gen::known::hosts)
        for (char const* p : {"", ":80", ":443"}) some_refs.push_back (std::string{s} + "//" + h + p + "/../x");
      for (char const* p : {"%2e%2e/x", ".%2e/x", "%2E/x", "a/%2e%2e/x", "..%2fx", "..;/x", "a/..;a/x", "../%2e", "..\\x", "...//x"}) some_refs.push_back (std::string{s} + p);
    }
    for (auto const& b : some_bases)
      for (auto const& r : some_refs) {
        if (!emit.mine ()) {
          emit.skip ();
          continue;
        }
        two (1, b, r);
      }
  }
  // every word in one component
  gen::component_words (thorough ? 5 : 3, [&] (std::string const& s) {
    two (1, "t://a/b/c?d", s);
    two (1, s, "../k?l");
  });
  // the product of component texts
  gen::texts few_refs;
  for (std::string s : {"", "s:", "t:"})
    for (std::string a : {"", "//", "//u@g:2"})
      for (std::string p : {"", "/", "/x", "x", "x/../y", "..", "/x/../.."})
        for (std::string q : {"", "?", "?y"})
          for (std::string f : {"", "#", "#z"}) few_refs.push_back (s + a + p + q + f);
  for (std::string a : {"", "//", "//h", "//v@h:3"})
    for (std::string p : {"", "/", "/b", "b", "/b/c", "b/c/", "/b/../c/.", "//b"})
      for (std::string q : {"", "?", "?w"})
        for (std::string f : {"", "#", "#v"})
          for (auto const& r : few_refs) {
            if (!emit.mine ()) {
              emit.skip ();
              continue;
            }
            two (0, "s:" + a + p + q + f, r);
          }
  // chains of joins: breadth-first from every base, by sequences of references
  gen::texts const walk{"g", "../g", "./", "..", "/r", "//k/x/y", "?y", "#z", "", "t:m/n", ".//e", "s:o"};
  for (auto const& b : bases)
    gen::sequences (walk.size (), thorough ? 4 : 3, [&] (auto const& w) {
      if (!emit.mine () || w.size () < 2) {
        emit.skip ();
        return;
      }
      mc::Writer wr;
      wr.str (b);
      for (auto i : w) wr.str (walk[i]);
      emit (2, wr.s);
    });
  // values that no split produces: base without a scheme, empty strings, rootless after an authority
  using opt = std::optional<std::string>;
  std::vector<std::pair<gen::Value, gen::Value>> pairs;
  std::vector<gen::Value> values;
  for (opt s : {opt{}, opt{"s"}, opt{""}, opt{"t"}})
    for (int a = 0; a < 3; ++a)
      for (int absolute = 0; absolute < 2; ++absolute)
        for (gen::texts segs : {gen::texts{}, {"a"}, {"a", "b"}, {"..", "c"}, {"a", ""}})
          for (opt q : {opt{}, opt{"q"}})
            for (opt f : {opt{}, opt{"f"}}) {
              gen::Value v;
              v.scheme = s;
              v.has_authority = a > 0;
              if (a > 1) {
                v.userinfo = "u";
                v.host = "h";
                v.port = "";
              }
              v.absolute = absolute != 0;
              if (absolute && segs.empty ()) continue;
              v.segments = segs;
              v.query = q;
              v.fragment = f;
              values.push_back (v);
            }
  for (auto const& b : values)
    for (auto const& r : values) {
      if (!emit.mine ()) {
        emit.skip ();
        continue;
      }
      emit (3, b.pack () + r.pack ());
    }
}

}  // namespace

void mc_check (unsigned kind, std::string_view payload) {
  mc::Reader r{payload};
  if (kind < 2) {
    auto const base = r.str ();
    auto const refr = r.str ();
    pair (base, refr, true);
    pair (base, refr, false);
  } else if (kind == 2) {
    // The parts results serve as bases themselves; the text form has to keep pace.
    std::string text{r.str ()};
    std::vector<std::unique_ptr<mc::Exact>> blocks;
    blocks.push_back (std::make_unique<mc::Exact> (text));
    auto parts = uri::split (blocks.back ()->view ());
    MC_CHECK (parts.has_value (), "base rejected");
    while (!r.empty ()) {
      std::string const refr{r.str ()};
      auto const want = pair (text, refr, true);
      MC_CHECK (want.has_value (), "step failed");
      blocks.push_back (std::make_unique<mc::Exact> (refr));
      parts = uri::join (*parts, *uri::split_reference (blocks.back ()->view ()));
      mc::step ();
      MC_CHECK (lib::comp (*parts) == *want, "after a chain of joins: ", lib::show (lib::comp (*parts)), " instead of ", lib::show (*want));
      text = ref::compose (*want);
      // A target whose text reads differently (RFC 3986 leaves "s:" + "//x" as it is), or whose
      // rootless path lost its first segment, ends the comparison with the text form.
      auto const back = ref::parse (text, false);
      if (!back || *back != *want || (!parts->path.absolute && want->path.starts_with ("/"))) {
        mc::outcome ("chain ended: text reads differently");
        return;
      }
    }
    mc::outcome ("chain completed");
  } else {
    auto const b = gen::Value::unpack (r);
    auto const v = gen::Value::unpack (r);
    gen::ExactParts const eb{b}, ev{v};
    Snapshot const sb{eb.p}, sv{ev.p};
    for (bool strict : {true, false}) {
      auto const got = uri::join (eb.p, ev.p, strict);
      mc::step ();
      MC_CHECK (sb.unchanged (eb.p) && sv.unchanged (ev.p), "join modifies its arguments");
      // A rootless path after an authority is composed with a slash: take it as absolute.
      auto cb = b.comp (), cv = v.comp ();
      auto const want = ref::resolve (cb, cv, strict);
      expect (got, want, strict, lib::show (eb.p), lib::show (ev.p), "join of parts");
    }
  }
}

MC_MAIN (gen_cases)
