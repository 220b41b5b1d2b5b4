// C11: encoding of parts.
#include "codec.hpp"
#include "uri/parts.hpp"

char const* const mc_kinds[] = {"product", "hosts", "segments", "one component", "sequence of calls"};

namespace {

using codec::opt;

// The texts encoding has to give; nothing for a host that is not UTF-8.
std::vector<opt> expected (gen::Value const& v) {
  std::vector<opt> r;
  if (v.scheme) r.push_back (*v.scheme);
  if (v.has_authority) {
    if (v.userinfo) r.push_back (ref::pct_encode (*v.userinfo, ref::set::userinfo));
    if (auto const h = ref::from_utf8 (v.host))
      r.push_back (ref::idna_encode (*h));
    else
      r.push_back (std::nullopt);
    if (v.port) r.push_back (*v.port);
  }
  for (auto const& s : v.segments) r.push_back (ref::pct_encode (s, ref::set::path));
  if (v.query) r.push_back (ref::pct_encode (*v.query, ref::set::query));
  if (v.fragment) r.push_back (ref::pct_encode (*v.fragment, ref::set::fragment));
  return r;
}
bool carries_prefix (std::string const& host) {
  for (auto const& l : ref::split_on (host, '.'))
    if (l.starts_with ("xn--")) return true;
  return false;
}

template <typename Store> void encode_into (gen::Value const& v, uri::parts const& p, Store& store) {
  auto const want = expected (v);
  auto const before = codec::items (p);
  auto const result = uri::encode (store, p);
  mc::step ();
  auto const after = codec::items (result);
  auto const in = [&] { return lib::show (p); };
  MC_CHECK (codec::same_shape (p, result) && after.size () == want.size (), "encoding changes which components are present in ", in (), ": ",
            lib::show (result));
  auto const old = codec::items (p);
  for (std::size_t i = 0; i < want.size (); ++i) {
    MC_CHECK (old[i].view.data () == before[i].view.data () && old[i].view.size () == before[i].view.size (), "the argument was modified");
    if (!want[i]) continue;
    auto const& was = before[i].view;
    auto const& now = after[i].view;
    MC_CHECK (now == *want[i], "the ", after[i].name, " is encoded as ", mc::show (now), " instead of ", mc::show (*want[i]), " in ", in ());
    if (now == was)
      MC_CHECK (now.data () == was.data (), "an unchanged ", after[i].name, " does not view the original text, in ", in ());
    else
      MC_CHECK (codec::inside (store, now), "a changed ", after[i].name, " does not lie in the store, in ", in ());
  }
  // decoding undoes it
  bool const reversible = !v.has_authority || (ref::from_utf8 (v.host) && !carries_prefix (v.host));
  if (reversible) {
    Store second;
    codec::prepare (second, 1);
    auto const back = uri::decode (second, result);
    mc::step ();
    auto const* const q = std::get_if<uri::parts> (&back);
    MC_CHECK (q != nullptr, "decoding the encoded value fails: ", lib::show (result));
    MC_CHECK (codec::same_shape (*q, p), "decoding the encoded value gives ", lib::show (*q), " instead of ", in ());
    auto const restored = codec::items (*q);
    for (std::size_t i = 0; i < restored.size (); ++i)
      MC_CHECK (restored[i].view == before[i].view, "decoding the encoded value ", lib::show (result), " gives ", lib::show (*q), " instead of ",
                in ());
  }
  std::size_t n = 0;
  for (std::size_t i = 0; i < after.size (); ++i) n += after[i].view.data () != before[i].view.data ();
  mc::outcome (n == 0 ? "nothing encoded" : n == after.size () ? "everything encoded" : "some encoded");
  mc::maximum ("components encoded", n);
  mc::state (lib::show (result));
}

void gen_cases (mc::Emit& emit, bool thorough) {
  // products of components that need encoding and components that do not
  std::string const nul ("\0", 1);
  std::vector<opt> const info{std::nullopt, "", "u", "u:p", "%41", "\xC3\xA9" + nul};
  gen::texts const host{"", "h", "h.example", "b\xC3\xBC" "cher.example", "[::1]", "\xE4\xB8\xAD.\xE6\x96\x87.x.", "%41"};
  std::vector<opt> const query{std::nullopt, "", "q=1", "a b'\"", "%"}, fragment{std::nullopt, "", "f", "<f g>%"};
  gen::texts const seg{"", "a", "..", "a b", "?#", "%2F", "{\xFF}"};
  for (opt s : {opt{}, opt{"s"}})
    for (unsigned a = 0; a <= info.size () * host.size () * 2; ++a)
      for (auto const& q : query)
        for (auto const& f : fragment)
          for (int absolute = 0; absolute < 2; ++absolute)
            gen::sequences (seg.size (), thorough ? 3 : 2, [&] (auto const& w) {
              if (!emit.mine ()) {
                emit.skip ();
                return;
              }
              gen::Value v;
              v.scheme = s;
              v.query = q;
              v.fragment = f;
              v.absolute = absolute != 0;
              for (auto i : w) v.segments.push_back (seg[i]);
              if (a > 0) {
                auto n = a - 1;
                v.has_authority = true;
                v.userinfo = info[n % info.size ()];
                n /= static_cast<unsigned> (info.size ());
                v.host = host[n % host.size ()];
                if (n / host.size () > 0) v.port = "80";
              }
              emit (0, v.pack ());
            });
  // hosts: sequences of characters, dots and fragments of UTF-8
  gen::texts const bits{"a", ".", "-", "\xC3\xA9", "\xE4\xB8\xAD", "\xF0\x9F\x98\x80", "xn--", "\xC3", "Z", "\xF4\x8F\xBF\xBF"};
  gen::sequences (bits.size (), thorough ? 7 : 5, [&] (auto const& w) {
    if (!emit.mine ()) {
      emit.skip ();
      return;
    }
    gen::Value v;
    v.has_authority = true;
    v.host = gen::join (bits, w);
    v.userinfo = "a b";
    v.segments = {"x", " "};
    v.absolute = true;
    emit (1, v.pack ());
  });
  // well-known names, and characters that other mappings treat specially
  gen::texts const odd{"\xE3\x80\x82", "\xEF\xBC\x8E", "\xC3\x9F", "\xC3\x89", "e\xCC\x81", "\xE2\x80\x8D", "\xC4\xB0", "\xEF\xBD\x81", "\xCE\xA3", "\xC2\xAD",
                       "\xEF\xBB\xBF", ".", "xn--", "com", "Z", "-", "\xC2\xB7", "\xF0\x9F\x87\xA6"};
  gen::sequences (odd.size (), thorough ? 5 : 3, [&] (auto const& w) {
    if (!emit.mine ()) {
      emit.skip ();
      return;
    }
    gen::Value v;
    v.scheme = "http";
    v.has_authority = true;
    v.host = gen::join (odd, w);
    v.port = "80";
    emit (1, v.pack ());
  });
  unsigned every = 0;
  gen::wellknown ([&] (std::string const& s) {
    if (++every % (thorough ? 1 : 3) != 0 || !emit.mine ()) {
      emit.skip ();
      return;
    }
    if (auto const c = ref::parse (s, true))
      emit (3, gen::Value::from (*c).pack ());
    else
      emit.skip ();
  });
  // many segments: every single one, every pair and every run of them needing encoding
  std::vector<std::array<unsigned, 3>> places;
  for (unsigned n = 1; n <= (thorough ? 100U : 45U); ++n)
    for (unsigned i = 0; i < n; ++i)
      for (unsigned j = i; j < n; j += (n > 40 && !thorough ? 3 : 1)) places.push_back ({n, i, j});
  for (unsigned n : {63U, 64U, 65U, 66U, 127U, 128U, 129U, 130U, 255U, 256U, 257U, 258U, 300U, 1000U})
    for (unsigned i : {0U, 1U, 25U, 26U, 27U, 30U, 31U, 32U, 33U, 58U, 59U, 60U, 61U, 62U, 63U, 64U, 65U, 127U, 128U, 254U, 255U, 256U, n - 2, n - 1})
      for (unsigned j : {i, i + 1, i + 26, i + 32, i + 64, n - 1})
        if (i < n && j < n && i <= j) places.push_back ({n, i, j});
  for (auto const [n, i, j] : places)
        for (unsigned run = 0; run < 2; ++run) {
          if (!emit.mine ()) {
            emit.skip ();
            continue;
          }
          gen::Value v;
          v.absolute = true;
          v.segments.assign (n, "x");
          if (run)
            for (unsigned k = i; k <= j; ++k) v.segments[k] = " " + std::to_string (k);
          else
            v.segments[i] = "a b", v.segments[j] = "\xFF";
          v.query = (i + j) % 2 ? opt{"q"} : opt{"q q"};
          v.fragment = "f>";
          v.has_authority = n % 2 == 0;
          if (v.has_authority) {
            v.host = "\xC3\xA9.x";
            v.port = "1";
            v.userinfo = i % 2 ? opt{"@"} : std::nullopt;
          }
          emit (2, v.pack ());
        }
  // one component with every byte, and of growing length
  for (unsigned c = 0; c < 4; ++c) {
    auto const put = [&] (std::string const& s) {
      gen::Value v;
      v.scheme = "s";
      v.has_authority = true;
      v.host = "h";
      if (c == 0) v.userinfo = s;
      if (c == 1) v.segments = {s};
      if (c == 2) v.query = s;
      if (c == 3) v.fragment = s;
      emit (3, v.pack ());
    };
    for (unsigned a = 0; a < 256; ++a) {
      if (c == 3 && a == '`') continue;  // the finding recorded for C08
      std::string const x (1, static_cast<char> (a));
      put (x);
      put ("a" + x + "b");
      put (x + x + "%");
    }
    gen::sequences (gen::known::bits.size (), thorough ? 2 : 1, [&] (auto const& w) { put (gen::join (gen::known::bits, w)); });
    std::vector<unsigned> lengths;
    for (unsigned n = 1; n <= (thorough ? 600U : 150U); ++n) lengths.push_back (n);
    for (unsigned n : {254U, 255U, 256U, 257U, 511U, 512U, 513U, 1000U, 4096U}) lengths.push_back (n);
    for (auto n : lengths) {
      put (std::string (n, 'x') + " ");
      put (std::string (n, '\x80'));
      put (std::string (n, 'x'));
    }
    put (std::string (70000, ' '));
  }
  std::vector<unsigned> units;
  for (unsigned n = 1; n <= (thorough ? 300U : 100U); ++n) units.push_back (n);
  for (unsigned n : {126U, 127U, 128U, 129U, 255U, 256U, 257U, 600U}) units.push_back (n);
  for (auto n : units)
    for (char const* unit : {"\xC3\xA9", "a.", "\xC3\xA9.", "a", "\xE4\xB8\xAD\xF0\x9F\x98\x80", ".\xC3\xA9" "b"}) {
      gen::Value v;
      v.has_authority = true;
      for (unsigned i = 0; i < n; ++i) v.host += unit;
      emit (3, v.pack ());
    }
  // the same store used for one value after another
  gen::sequences (6, thorough ? 4 : 3, [&] (auto const& w) {
    std::string s;
    for (auto i : w) s += static_cast<char> (i);
    emit (4, s);
  });
}

gen::Value sample (unsigned i) {
  gen::Value v;
  v.scheme = "s";
  v.has_authority = i % 2 == 0;
  if (v.has_authority) v.host = i == 2 ? "\xC3\xA9" : i == 4 ? "h" : "a.\xE4\xB8\xAD.";
  if (i == 0) v.userinfo = "u u";
  v.absolute = true;
  for (unsigned k = 0; k < i * 9; ++k) v.segments.push_back (k % 3 ? "x" : "a b");
  if (i > 3) v.query = std::string (i * 30, '"');
  if (i == 5) v.segments.assign (3, "x");
  return v;
}

template <typename Store> void history (std::string_view payload) {
  Store store;
  for (char c : payload) {
    auto const v = sample (static_cast<unsigned> (c));
    gen::ExactParts const e{v};
    encode_into (v, e.p, store);
  }
}

}  // namespace

void mc_check (unsigned kind, std::string_view payload) {
  if (kind == 4) {
    history<std::string> (payload);
    history<std::vector<char>> (payload);
    return;
  }
  auto const v = gen::Value::unpack (payload);
  gen::ExactParts const e{v};
  for (unsigned k = 0; k < codec::store_kinds; ++k) {
    if (kind != 0 && k == 2) continue;
    {
      std::string store;
      codec::prepare (store, k);
      encode_into (v, e.p, store);
    }
    if (k < 2) {
      std::vector<char> store;
      codec::prepare (store, k);
      encode_into (v, e.p, store);
    }
  }
}

MC_MAIN (gen_cases)
