// C04: valid() of parts, path and authority.
#include "gen.hpp"
#include "wmethod.hpp"

char const* const mc_kinds[] = {"component", "component all bytes", "product", "split"};

namespace {

bool host_ok (std::string_view s) { return ref::is_host (s); }

struct Verdict {
  bool authority = true, path = true, whole = true;
};
Verdict oracle (gen::Value const& v) {
  Verdict r;
  if (v.has_authority)
    r.authority = (!v.userinfo || ref::is_userinfo (*v.userinfo)) && host_ok (v.host) && (!v.port || ref::is_port (*v.port));
  for (auto const& s : v.segments) r.path = r.path && ref::is_segment (s);
  r.whole = v.scheme && ref::is_scheme (*v.scheme) && r.authority && r.path && (!v.query || ref::is_query (*v.query)) &&
            (!v.fragment || ref::is_query (*v.fragment)) && (v.has_authority || !v.comp ().path.starts_with ("//"));
  return r;
}

gen::Value simple () {
  gen::Value v;
  v.scheme = "s";
  v.has_authority = true;
  v.host = "h";
  v.absolute = true;
  v.segments = {"p"};
  return v;
}

void gen_cases (mc::Emit& emit, bool thorough) {
  // every component on its own: complete conformance suites of its grammar
  auto const with = [&emit] (auto set) {
    return [&emit, set] (std::string const& s, bool bytes) {
      auto v = simple ();
      set (v, s);
      emit (bytes ? 1 : 0, v.pack ());
    };
  };
  unsigned const k = thorough ? 4 : 3;
  WM_SUITE (emit, scheme, k, with ([] (gen::Value& v, std::string const& s) { v.scheme = s; }));
  WM_SUITE (emit, userinfo, k, with ([] (gen::Value& v, std::string const& s) { v.userinfo = s; }));
  WM_SUITE (emit, host, thorough ? 3 : 2, with ([] (gen::Value& v, std::string const& s) { v.host = s; }));
  WM_SUITE (emit, port, k + 2, with ([] (gen::Value& v, std::string const& s) { v.port = s; }));
  WM_SUITE (emit, query, k, with ([] (gen::Value& v, std::string const& s) { v.query = s; }));
  WM_SUITE (emit, query, k, with ([] (gen::Value& v, std::string const& s) { v.fragment = s; }));
  for (unsigned count = 1; count <= 4; ++count)
    for (unsigned at = 0; at < count; ++at)
      for (unsigned f = 0; f < 4; ++f)
        WM_SUITE (emit, segment, f == 0 && count < 3 ? k : 1U, with ([=] (gen::Value& v, std::string const& s) {
          v.segments.assign (count, "x");
          v.segments[at] = s;
          v.absolute = (f & 1U) == 0;
          v.has_authority = (f & 2U) == 0;
        }));

  // products of good and bad components
  using opt = std::optional<std::string>;
  std::vector<opt> const scheme{std::nullopt, "", "s", "S1+.-", "1s", "s:"}, info{std::nullopt, "", "u:%41", "u@"},
    port{std::nullopt, "", "80", "8a"}, query{std::nullopt, "", "q?/", "#"}, fragment{std::nullopt, "", "f", "%4"};
  gen::texts const host{"", "h", "[::1]", "1.2.3.4", "1.2.3.4.x", "[::", "h:1"};
  gen::texts const seg{"", "a:@", ".", "..", "/", "%2f", "%"};
  for (auto const& s : scheme)
    for (unsigned a = 0; a <= info.size () * host.size () * port.size (); ++a)
      for (auto const& q : query)
        for (auto const& f : fragment)
          for (int absolute = 0; absolute < 2; ++absolute)
            gen::sequences (seg.size (), thorough ? 4 : 2, [&] (auto const& w) {
              if (!emit.mine ()) {
                emit.skip ();
                return;
              }
              gen::Value v;
              v.scheme = s;
              v.query = q;
              v.fragment = f;
              v.absolute = absolute != 0;
              for (auto i : w) v.segments.push_back (seg[i]);
              if (a > 0) {
                v.has_authority = true;
                auto n = a - 1;
                v.userinfo = info[n % info.size ()];
                n /= static_cast<unsigned> (info.size ());
                v.host = host[n % host.size ()];
                v.port = port[n / host.size ()];
              }
              emit (2, v.pack ());
            });
  // empty segments in every arrangement
  for (int auth = 0; auth < 2; ++auth)
    for (int absolute = 0; absolute < 2; ++absolute)
      gen::sequences (4, thorough ? 8 : 6, [&] (auto const& w) {
        if (!emit.mine ()) {
          emit.skip ();
          return;
        }
        auto v = simple ();
        v.has_authority = auth != 0;
        v.absolute = absolute != 0;
        v.segments.clear ();
        char const* const what[] = {"", "a", ":", "."};
        for (auto i : w) v.segments.push_back (what[i]);
        emit (2, v.pack ());
      });
  // long components, the last byte good or bad
  std::vector<unsigned> lengths;
  for (unsigned n = 1; n <= (thorough ? 600U : 130U); ++n) lengths.push_back (n);
  for (unsigned n : {254U, 255U, 256U, 257U, 511U, 512U, 1000U, 4096U, 65536U}) lengths.push_back (n);
  for (auto n : lengths)
    for (char const* last : {"a", "1", "%41", "%4", "/", "\xC3", "#"}) {
      for (unsigned c = 0; c < 7; ++c) {
        auto v = simple ();
        auto const t = std::string (n, '1') + last;
        if (c == 0) v.scheme = "s" + t;
        if (c == 1) v.userinfo = t;
        if (c == 2) v.host = t;
        if (c == 3) v.port = t;
        if (c == 4) v.query = t;
        if (c == 5) v.fragment = t;
        if (c == 6) {
          v.segments.assign (n, "x");
          v.segments.back () = last;
        }
        emit (2, v.pack ());
      }
    }
  gen::short_texts (thorough ? 6 : 5, [&] (std::string const& s) { emit (3, s); });
  gen::product ([&] (std::string const& s) { emit (3, s); });
  gen::wellknown ([&] (std::string const& s) { emit (3, s); });
  gen::component_words (thorough ? 6 : 5, [&] (std::string const& s) { emit (3, s); });
}

// What a valid value guarantees.
void round_trip (uri::parts const& p) {
  auto const text = uri::compose (p);
  mc::Exact const in{text};
  auto const again = uri::split (in);
  mc::step (3);
  MC_CHECK (again.has_value (), "valid, but its composition ", mc::show (text), " does not split: ", lib::show (p));
  MC_CHECK (uri::compose (*again) == text, "valid, but ", mc::show (text), " recomposes to ", mc::show (uri::compose (*again)));
  MC_CHECK (again->scheme == p.scheme && again->query == p.query && again->fragment == p.fragment &&
              lib::comp (*again).authority == lib::comp (p).authority,
            "valid, but its composition splits differently: ", lib::show (p), " became ", lib::show (*again));
  MC_CHECK (again->valid (), "the split of ", mc::show (text), " is not valid");
  mc::state (text);
}

}  // namespace

void mc_check (unsigned kind, std::string_view payload) {
  if (kind == 3) {
    mc::Exact const in{payload};
    if (auto const p = uri::split (in)) {
      mc::step (2);
      MC_CHECK (p->valid (), "split succeeds but the result is not valid: ", mc::show (payload));
      MC_CHECK (p->path.valid () && (!p->authority || p->authority->valid ()), "split path or authority is not valid: ", mc::show (payload));
      mc::outcome ("split URI");
    }
    return;
  }
  auto const v = gen::Value::unpack (payload);
  gen::ExactParts const e{v};
  auto const want = oracle (v);
  mc::step (3);
  auto const in = [&] { return lib::show (e.p); };
  if (e.p.authority)
    MC_CHECK (e.p.authority->valid () == want.authority, "authority.valid() is ", !want.authority, " for ", in ());
  MC_CHECK (e.p.path.valid () == want.path, "path.valid() is ", !want.path, " for ", in ());
  MC_CHECK (e.p.valid () == want.whole, "valid() is ", !want.whole, " for ", in ());
  mc::outcome (want.whole ? "valid" : "not valid");
  if (want.whole) round_trip (e.p);
  if (kind < 2) {
    // The automaton and the plain predicates have to agree as well.
    MC_CHECK (!v.scheme || WM_DFA (scheme).accepts (*v.scheme) == ref::is_scheme (*v.scheme), "models disagree");
    MC_CHECK (WM_DFA (host).accepts (v.host) == ref::is_host (v.host), "models disagree");
    MC_CHECK (!v.userinfo || WM_DFA (userinfo).accepts (*v.userinfo) == ref::is_userinfo (*v.userinfo), "models disagree");
    MC_CHECK (!v.query || WM_DFA (query).accepts (*v.query) == ref::is_query (*v.query), "models disagree");
    for (auto const& s : v.segments) MC_CHECK (WM_DFA (segment).accepts (s) == ref::is_segment (s), "models disagree");
  }
}

MC_MAIN (gen_cases)
