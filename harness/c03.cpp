// C03: composition.
#include <iomanip>
#include "gen.hpp"

char const* const mc_kinds[] = {"split-compose", "value"};

namespace {

template <typename T> std::string streamed (T const& v) {
  std::ostringstream os;
  os << v;
  return os.str ();
}

void all_ways (uri::parts const& p, std::string const& want) {
  auto const is = [&] (std::string const& got, char const* how) {
    mc::step ();
    MC_CHECK (got == want, how, " gives ", mc::show (got), " instead of ", mc::show (want), " for ", lib::show (p));
  };
  is (uri::compose (p), "compose(parts)");
  {
    std::ostringstream os;
    auto& r = uri::compose (os, p);
    MC_CHECK (&r == &os, "compose(ostream) returns another stream");
    is (os.str (), "compose(ostream, parts)");
  }
  is (streamed (p), "operator<<(parts)");
  {
    std::ostringstream os;
    os << "x=" << p << ";" << p;
    is (os.str ().substr (2, want.size ()), "operator<<(parts) after other output");
    MC_CHECK (os.str () == "x=" + want + ";" + want, "streaming twice gives ", mc::show (os.str ()));
  }
  mc::step (3);
  auto const path = lib::text (p.path);
  MC_CHECK (static_cast<std::string> (p.path) == path, "string(path) is ", mc::show (static_cast<std::string> (p.path)), " instead of ",
            mc::show (path));
  MC_CHECK (streamed (p.path) == path, "operator<<(path) gives ", mc::show (streamed (p.path)), " instead of ", mc::show (path));
  if (p.authority) {
    ref::Comp c;
    c.authority = lib::comp (p).authority;
    auto const a = ref::compose (c).substr (2);
    MC_CHECK (streamed (*p.authority) == a, "operator<<(authority) gives ", mc::show (streamed (*p.authority)), " instead of ", mc::show (a));
  }
  mc::state (want);
}

void gen_cases (mc::Emit& emit, bool thorough) {
  gen::short_texts (thorough ? 7 : 5, [&] (std::string const& s) { emit (0, s); });
  gen::product ([&] (std::string const& s) { emit (0, s); });
  gen::wellknown ([&] (std::string const& s) { emit (0, s); });
  gen::component_words (thorough ? 6 : 5, [&] (std::string const& s) { emit (0, s); });
  std::vector<unsigned> ns;
  for (unsigned n = 1; n <= (thorough ? 600U : 60U); ++n) ns.push_back (n);
  for (unsigned n : {255U, 256U, 257U, 1000U, 4096U}) ns.push_back (n);
  gen::sizes (ns, [&] (std::string const& s) { emit (0, s); });

  // arbitrary values, valid or not
  using opt = std::optional<std::string>;
  std::string const nul ("a\0b", 3);
  std::vector<opt> const scheme{std::nullopt, "", "s", "S:/"}, info{std::nullopt, "", "u", "u@:"}, port{std::nullopt, "", "80", ":x"},
    query{std::nullopt, "", "q", "?#"}, fragment{std::nullopt, "", "f", "#"};
  gen::texts const host{"", "h", "[::1]", "a/b@", nul};
  gen::texts const seg{"", "a", ".", "..", "b/c", "\xFF"};
  for (auto const& s : scheme)
    for (unsigned a = 0; a <= info.size () * host.size () * port.size (); ++a)
      for (auto const& q : query)
        for (auto const& f : fragment)
          for (int absolute = 0; absolute < 2; ++absolute)
            gen::sequences (seg.size (), thorough ? 4 : 2, [&] (auto const& w) {
              if (!emit.mine ()) {
                emit.skip ();
                return;
              }
              gen::Value v;
              v.scheme = s;
              v.query = q;
              v.fragment = f;
              v.absolute = absolute != 0;
              for (auto i : w) v.segments.push_back (seg[i]);
              if (a > 0) {
                v.has_authority = true;
                auto k = a - 1;
                v.userinfo = info[k % info.size ()];
                k /= static_cast<unsigned> (info.size ());
                v.host = host[k % host.size ()];
                v.port = port[k / host.size ()];
              }
              emit (1, v.pack ());
            });
}

}  // namespace

void mc_check (unsigned kind, std::string_view payload) {
  if (kind == 0) {
    mc::Exact const in{payload};
    unsigned n = 0;
    for (auto const& p : {uri::split (in), uri::split_reference (in)}) {
      if (!p) continue;
      ++n;
      all_ways (*p, std::string{payload});
    }
    mc::outcome (n == 2 ? "uri" : n == 1 ? "reference only" : "neither");
  } else {
    auto const v = gen::Value::unpack (payload);
    gen::ExactParts const e{v};
    all_ways (e.p, lib::compose_text (e.p));
    // asking for the authority adds an empty one where there is none, and changes nothing else
    auto q = e.p;
    auto& a = q.ensure_authority ();
    auto& b = q.ensure_authority ();
    MC_CHECK (q.authority && &a == &*q.authority && &a == &b, "ensure_authority() does not give the value's authority");
    auto want = lib::comp (e.p);
    if (!want.authority) want.authority.emplace ();
    if (!e.p.path.absolute && !e.p.path.segments.empty ()) want.path = "/" + want.path;
    MC_CHECK (uri::compose (q) == ref::compose (want), "after ensure_authority() ", lib::show (e.p), " composes to ", mc::show (uri::compose (q)),
              " instead of ", mc::show (ref::compose (want)));
    mc::outcome (v.has_authority ? "value with authority" : "value without authority");
  }
}

MC_MAIN (gen_cases)
