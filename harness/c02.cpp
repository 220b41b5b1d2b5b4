// C02: the components of an accepted text, and where their views point.
#include "gen.hpp"

char const* const mc_kinds[] = {"product", "short", "size", "bytes"};

namespace {

struct Buffer {
  char const* base;
  std::size_t size;
  std::string source;
  // v must be text, and either empty or exactly the bytes at offset.
  void view (std::string_view v, std::string_view expected, std::size_t offset, char const* what) const {
    MC_CHECK (v == expected, what, " is ", mc::show (v), " instead of ", mc::show (expected), " in ", mc::show (source));
    if (v.empty ()) {
      MC_CHECK (v.data () == nullptr || (v.data () >= base && v.data () <= base + size), "empty ", what,
                " points outside the input ", mc::show (source));
    } else {
      MC_CHECK (v.data () == base + offset, what, " does not view its own bytes in ", mc::show (source));
    }
  }
  void opt (std::optional<std::string_view> const& v, std::optional<std::string> const& e, std::size_t offset, char const* what) const {
    MC_CHECK (v.has_value () == e.has_value (), what, v ? " is present" : " is absent", " but RFC 3986 says otherwise in ", mc::show (source));
    if (v) view (*v, *e, offset, what);
  }
};

void examine (std::optional<uri::parts> const& got, std::optional<ref::Comp> const& want, ref::Where const& at, Buffer const& b,
              char const* fn) {
  mc::step ();
  MC_CHECK (got.has_value () == want.has_value (), fn, " ", got ? "accepts" : "rejects", " ", mc::show (b.source));
  if (!got) return;
  b.opt (got->scheme, want->scheme, 0, "scheme");
  MC_CHECK (got->authority.has_value () == want->authority.has_value (), "presence of the authority is wrong in ", mc::show (b.source));
  if (got->authority) {
    b.opt (got->authority->userinfo, want->authority->userinfo, at.userinfo, "userinfo");
    b.view (got->authority->host, want->authority->host, at.host, "host");
    b.opt (got->authority->port, want->authority->port, at.port, "port");
  }
  b.opt (got->query, want->query, at.query, "query");
  b.opt (got->fragment, want->fragment, at.fragment, "fragment");
  bool const absolute = !want->path.empty () && want->path[0] == '/';
  MC_CHECK (got->path.absolute == absolute, "absolute flag is ", got->path.absolute, " for ", mc::show (b.source));
  std::vector<std::string> segs;
  if (!want->path.empty ()) segs = ref::split_on (absolute ? want->path.substr (1) : want->path, '/');
  MC_CHECK (got->path.segments.size () == segs.size (), got->path.segments.size (), " segments instead of ", segs.size (), " in ",
            mc::show (b.source));
  auto off = at.path + (absolute ? 1 : 0);
  for (std::size_t i = 0; i < segs.size (); ++i) {
    b.view (got->path.segments[i], segs[i], off, "path segment");
    off += segs[i].size () + 1;
  }
  auto const shape = mc::cat (want->scheme.has_value (), want->authority.has_value (),
                              want->authority && want->authority->userinfo ? 1 + want->authority->userinfo->empty () : 0,
                              want->authority ? 1 + want->authority->host.empty () : 0,
                              want->authority && want->authority->port ? 1 + want->authority->port->empty () : 0, absolute,
                              std::min<std::size_t> (segs.size (), 5), want->query ? 1 + want->query->empty () : 0,
                              want->fragment ? 1 + want->fragment->empty () : 0);
  mc::state (shape);
  mc::outcome (want->authority ? "authority" : absolute ? "absolute path" : "rootless or empty path");
}

void gen_cases (mc::Emit& emit, bool thorough) {
  gen::short_texts (thorough ? 7 : 5, [&] (std::string const& s) { emit (1, s); });
  gen::product ([&] (std::string const& s) { emit (0, s); });
  gen::wellknown ([&] (std::string const& s) { emit (0, s); });
  gen::component_words (thorough ? 6 : 5, [&] (std::string const& s) { emit (0, s); });
  // every byte in every kind of place
  for (unsigned b = 0; b < 256; ++b) {
    std::string const c (1, static_cast<char> (b));
    for (auto const& s : {"s" + c + ":", "s://" + c + "u@h", "s://u" + c + "@h", "s://h" + c, "s://" + c + "h:1", "s://h:" + c, "s:" + c,
                          "s:/a" + c + "b", c + "a/b", "a" + c + "/b", "a/" + c, "s:?" + c, "s:#" + c, "//[v1." + c + "]", "//[" + c + "::]"})
      emit (3, s);
  }
  std::vector<unsigned> ns;
  for (unsigned n = 1; n <= (thorough ? 600U : 130U); ++n) ns.push_back (n);
  for (unsigned n : {255U, 256U, 257U, 1000U, 4096U}) ns.push_back (n);
  if (thorough) ns.insert (ns.end (), {65535U, 65536U, 65537U});
  gen::sizes (ns, [&] (std::string const& s) { emit (2, s); });
}

}  // namespace

void mc_check (unsigned, std::string_view s) {
  mc::Exact const in{s};
  Buffer const b{in.view ().data (), s.size (), std::string{s}};
  ref::Where at;
  auto const as_uri = ref::parse (s, false, &at);
  examine (uri::split (in), as_uri, at, b, "split");
  auto const as_ref = ref::parse (s, true, &at);
  examine (uri::split_reference (in), as_ref, at, b, "split_reference");
  MC_CHECK (in.view () == s, "the input was modified");
  mc::maximum ("longest input", s.size ());
}

MC_MAIN (gen_cases)
