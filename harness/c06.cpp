// C06: dot-segment removal on path values.
#include "gen.hpp"

char const* const mc_kinds[] = {"sequence", "long"};

namespace {

void gen_cases (mc::Emit& emit, bool thorough) {
  gen::texts const seg{"", ".", "..", "a", "...", ".b", "%2E"};
  for (int absolute = 1; absolute >= 0; --absolute)
    gen::sequences (seg.size (), thorough ? 8 : 6, [&] (auto const& w) {
      if (!emit.mine ()) {
        emit.skip ();
        return;
      }
      gen::Value v;
      v.absolute = absolute != 0;
      for (auto i : w) v.segments.push_back (seg[i]);
      emit (0, v.pack ());
    });
  // longer, over the four segments that matter
  gen::texts const few{"", ".", "..", "a"};
  for (int absolute = 1; absolute >= 0; --absolute)
    gen::sequences (few.size (), thorough ? 10 : 8, [&] (auto const& w) {
      if (!emit.mine () || w.size () < 7) {
        emit.skip ();
        return;
      }
      gen::Value v;
      v.absolute = absolute != 0;
      for (auto i : w) v.segments.push_back (few[i]);
      emit (0, v.pack ());
    });
  // names that resemble dot segments, in between
  gen::texts const like{"",     ".",     "..",     "%2e", "%2E%2E", ".%2e", "%2e.", "...", "....", ".a",  "a.",   "..a", "a..", ". ", " ..", std::string ("..\0", 3), std::string (".\0.", 3),
                        "..;a", ".;",    "..\\", "\xE2\x80\xA5", "\xEF\xBC\x8E", "*", "~", "c:", "c|", "index.html", "%252e"};
  for (int absolute = 1; absolute >= 0; --absolute)
    gen::sequences (like.size (), thorough ? 4 : 3, [&] (auto const& w) {
      if (!emit.mine ()) {
        emit.skip ();
        return;
      }
      gen::Value v;
      v.absolute = absolute != 0;
      for (auto i : w) v.segments.push_back (like[i]);
      emit (0, v.pack ());
    });
  // short sequences between runs of any length
  std::vector<unsigned> counts;
  for (unsigned n = 7; n <= (thorough ? 300U : 70U); ++n) counts.push_back (n);
  for (unsigned n : {127U, 128U, 129U, 255U, 256U, 257U, 1000U}) counts.push_back (n);
  for (int absolute = 1; absolute >= 0; --absolute)
    for (auto n : counts)
      for (char const* run : {"x", "", ".", ".."})
        for (unsigned before : {0U, 1U, 2U})
          gen::sequences (few.size (), thorough ? 3 : 2, [&] (auto const& w) {
            if (!emit.mine ()) {
              emit.skip ();
              return;
            }
            gen::Value v;
            v.absolute = absolute != 0;
            auto const rep = [&] { for (unsigned i = 0; i < n; ++i) v.segments.push_back (run); };
            if (before == 2) v.segments.assign (n, "y");
            if (before != 1) rep ();
            for (auto i : w) v.segments.push_back (few[i]);
            if (before == 1) rep ();
            emit (1, v.pack ());
          });
  // climbs and descents of every depth
  for (int absolute = 1; absolute >= 0; --absolute)
    for (unsigned up = 0; up < (thorough ? 80U : 24U); ++up)
      for (unsigned down = 0; down < (thorough ? 80U : 24U); ++down)
        for (unsigned pat = 0; pat < 6; ++pat) {
          gen::Value v;
          v.absolute = absolute != 0;
          for (unsigned i = 0; i < down; ++i) v.segments.push_back (pat & 1 ? "" : "seg" + std::to_string (i));
          if (pat >= 2) v.segments.push_back (pat >= 4 ? "." : "");
          for (unsigned i = 0; i < up; ++i) v.segments.push_back ("..");
          if (pat % 3 == 0) v.segments.push_back ("z");
          emit (1, v.pack ());
        }
}

}  // namespace

void mc_check (unsigned, std::string_view payload) {
  auto const v = gen::Value::unpack (payload);
  gen::ExactParts const e{v};
  std::string joined;
  for (std::size_t i = 0; i < v.segments.size (); ++i) joined += (i > 0 ? "/" : "") + v.segments[i];
  std::string want;
  if (!v.segments.empty ()) {
    want = ref::remove_dots_rfc ("/" + joined);
    if (!v.absolute) want.erase (0, 1);
  }
  auto path = e.p.path;
  path.remove_dot_segments ();
  mc::step (2);
  auto const got = lib::text (path);
  auto const in = lib::show (e.p);
  MC_CHECK (got == want, "removing dot segments gives ", mc::show (got), " instead of ", mc::show (want), " for ", in);
  MC_CHECK (path.absolute == v.absolute, "the absolute flag changed for ", in);
  for (auto const& s : path.segments) {
    MC_CHECK (s != "." && s != "..", "a dot segment remains for ", in);
    if (s.empty ()) continue;
    bool found = false;
    for (auto const& o : e.p.path.segments) found |= o.data () == s.data () && o.size () == s.size ();
    MC_CHECK (found, "a remaining segment is not one of the original views, for ", in);
  }
  auto again = path;
  again.remove_dot_segments ();
  MC_CHECK (again.absolute == path.absolute && again.segments == path.segments, "a second removal changes ", mc::show (got), " to ",
            mc::show (lib::text (again)), " for ", in);
  mc::state (mc::cat (v.absolute, want));
  mc::outcome (want == joined || want == "/" + joined ? "unchanged" : "changed");
}

MC_MAIN (gen_cases)
