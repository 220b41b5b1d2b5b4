// C22: conversions of a path to text and to a filesystem path.
#include <filesystem>
#include "gen.hpp"

char const* const mc_kinds[] = {"sequence", "long"};

namespace {
void gen_cases (mc::Emit& emit, bool thorough) {
  std::string const nul ("a\0b", 3);
  gen::texts const seg{"", "a", ".", "..", "b c", "%2F", "\xFF", nul, "c:\\d", "~"};
  for (int absolute = 0; absolute < 2; ++absolute)
    gen::sequences (seg.size (), thorough ? 6 : 5, [&] (auto const& w) {
      if (!emit.mine ()) {
        emit.skip ();
        return;
      }
      gen::Value v;
      v.absolute = absolute != 0;
      for (auto i : w) v.segments.push_back (seg[i]);
      emit (0, v.pack ());
    });
  gen::texts const like{"", ".", "..", "c:", "C|", "%2e", "...", "~root", "-", "*", "$HOME", "con", "a\\b", ".hidden", "tmp", "\xC3\xA9", "\xE2\x82\xAC", "a b", "x\n", "%00"};
  for (int absolute = 0; absolute < 2; ++absolute)
    gen::sequences (like.size (), thorough ? 4 : 3, [&] (auto const& w) {
      gen::Value v;
      v.absolute = absolute != 0;
      for (auto i : w) v.segments.push_back (like[i]);
      emit (0, v.pack ());
    });
  gen::texts const decoded{"", "a", "/", "/b", "//", "c/", "d/e", "//f//", "..", "/../g"};
  for (int absolute = 0; absolute < 2; ++absolute)
    gen::sequences (decoded.size (), thorough ? 5 : 4, [&] (auto const& w) {
      gen::Value v;
      v.absolute = absolute != 0;
      for (auto i : w) v.segments.push_back (decoded[i]);
      emit (0, v.pack ());
    });
  for (int absolute = 0; absolute < 2; ++absolute)
    gen::sequences (2, thorough ? 16 : 12, [&] (auto const& w) {
      gen::Value v;
      v.absolute = absolute != 0;
      for (auto i : w) v.segments.push_back (i == 0 ? "" : "x");
      emit (1, v.pack ());
    });
  std::vector<unsigned> counts;
  for (unsigned n = 1; n < (thorough ? 600U : 150U); ++n) counts.push_back (n);
  for (unsigned n : {255U, 256U, 257U, 1000U, 5000U}) counts.push_back (n);
  for (auto n : counts)
    for (unsigned pat = 0; pat < 8; ++pat) {
      gen::Value v;
      v.absolute = (pat & 1U) != 0;
      for (unsigned i = 0; i < n; ++i) v.segments.push_back (pat & 2U ? "" : std::string (i % 40 + 1, 'n'));
      if (pat & 4U) v.segments.push_back ("");
      emit (1, v.pack ());
      // one long name, and a name of every length in the middle
      gen::Value w;
      w.absolute = (pat & 1U) != 0;
      w.segments = {std::string (n, pat & 2U ? '.' : 'n'), "m"};
      if (pat & 4U) w.segments.push_back ("");
      emit (1, w.pack ());
    }
}
}  // namespace

void mc_check (unsigned, std::string_view payload) {
  auto const v = gen::Value::unpack (payload);
  gen::ExactParts const e{v};
  auto const& path = e.p.path;
  auto const in = [&] { return lib::show (e.p); };
  mc::step (3);
  std::string want;
  for (std::size_t i = 0; i < v.segments.size (); ++i) {
    if (i > 0 || v.absolute) want += '/';
    want += v.segments[i];
  }
  auto const text = static_cast<std::string> (path);
  MC_CHECK (text == want, "string(path) is ", mc::show (text), " instead of ", mc::show (want), " for ", in ());
  MC_CHECK (path.empty () == v.segments.empty (), "empty() is wrong for ", in ());

  // The filesystem path, read name by name from its native text.
  auto const fs = static_cast<std::filesystem::path> (path);
  auto const& native = fs.native ();
  gen::texts names, want_names;
  for (auto const& s : ref::split_on (native, '/'))
    if (!s.empty ()) names.push_back (s);
  for (auto const& s : v.segments)  // a segment that was decoded may hold separators
    for (auto const& part : ref::split_on (s, '/'))
      if (!part.empty ()) want_names.push_back (part);
  MC_CHECK (names == want_names, "the filesystem path ", mc::show (native), " has other names than ", in ());
  bool const absolute = !native.empty () && native[0] == '/';
  MC_CHECK (absolute == v.absolute, "the filesystem path ", mc::show (native), " is ", absolute ? "absolute" : "relative",
            " for ", in ());
  MC_CHECK (fs.is_absolute () == absolute, "is_absolute() disagrees with the text ", mc::show (native));
  if (!want_names.empty ()) {
    bool const trailing = !native.empty () && native.back () == '/';
    MC_CHECK (trailing == (v.segments.back ().empty () || v.segments.back ().back () == '/'), "the filesystem path ", mc::show (native), trailing ? " has a" : " has no",
              " trailing separator for ", in ());
  }
  mc::state (mc::cat (native));
  mc::outcome (v.absolute ? "absolute" : "relative");
}

MC_MAIN (gen_cases)
