// C12: decoding of parts.
#include <set>
#include "codec.hpp"
#include "uri/parts.hpp"

char const* const mc_kinds[] = {"product", "hosts", "segments", "one component", "labels"};

namespace {

using codec::opt;
using ref::puny::Decoded;
using texts_set = std::set<std::string>;

// What decoding a host may give.
struct Host {
  texts_set values;  // acceptable texts
  bool bad = false, overflow = false;
  bool must_fail = false;
};
Host expected_host (std::string const& host) {
  Host r;
  r.values = {""};
  bool first = true;
  for (auto const& label : ref::split_on (host, '.')) {
    texts_set alt;
    if (!label.starts_with ("xn--")) {
      alt = {label};
    } else {
      auto const body = label.substr (4);
      auto const d = ref::puny::decode (body);
      switch (d.what) {
      case Decoded::value:
        if (d.outside_unicode) {
          // Not a Unicode string: refusing it and replacing what is not a character both will do.
          std::u32string s;
          for (char32_t c : d.str) s += ref::scalar (c) ? c : U'\xFFFD';
          alt = {ref::utf8 (s)};
          r.bad = r.overflow = true;
        } else {
          alt = {ref::utf8 (d.str)};
        }
        if (d.leading_delimiter) r.bad = true;
        if (d.str.empty ()) alt.insert (label);  // nothing to show: it may stay as it is
        break;
      case Decoded::bad_input:
        r.bad = true;
        r.overflow |= d.outside_unicode;
        break;
      case Decoded::overflow:
        r.overflow = true;
        if (d.leading_delimiter) r.bad = true;
        break;
      case Decoded::bad_or_overflow: r.bad = r.overflow = true; break;
      }
      if (d.what != Decoded::value) r.must_fail = true;
    }
    texts_set next;
    for (auto const& v : r.values)
      for (auto const& a : alt) next.insert (first ? a : v + "." + a);
    first = false;
    r.values = next;
  }
  return r;
}

template <typename Store> void decode_into (gen::Value const& v, uri::parts const& p, Store& store) {
  auto const before = codec::items (p);
  auto const result = uri::decode (store, p);
  mc::step ();
  auto const in = [&] { return lib::show (p); };
  auto const old = codec::items (p);
  for (std::size_t i = 0; i < old.size (); ++i)
    MC_CHECK (old[i].view.data () == before[i].view.data () && old[i].view.size () == before[i].view.size (), "the argument was modified");
  Host h;
  h.values = {""};
  if (v.has_authority) h = expected_host (v.host);
  if (auto const* const e = std::get_if<std::error_code> (&result)) {
    auto const bad = uri::punycode::make_error_code (uri::punycode::decode_error_code::bad_input);
    auto const over = uri::punycode::make_error_code (uri::punycode::decode_error_code::overflow);
    MC_CHECK ((h.bad && *e == bad) || (h.overflow && *e == over), "decoding ", in (), " reports ", e->message ());
    mc::outcome (*e == bad ? "bad input" : "overflow");
    mc::state (v.host);
    return;
  }
  auto const& q = std::get<uri::parts> (result);
  MC_CHECK (!h.must_fail, "decoding gives a value although a host label is not decodable: ", in (), " became ", lib::show (q));
  MC_CHECK (codec::same_shape (p, q), "decoding changes which components are present: ", in (), " became ", lib::show (q));
  auto const after = codec::items (q);
  for (std::size_t i = 0; i < after.size (); ++i) {
    auto const& was = before[i].view;
    auto const& now = after[i].view;
    if (after[i].name == "host") {
      MC_CHECK (h.values.contains (std::string{now}), "the host is decoded as ", mc::show (now), " instead of ", mc::show (*h.values.begin ()),
                " in ", in ());
      bool const prefix = ("." + std::string{was}).find (".xn--") != std::string::npos;
      if (!prefix) MC_CHECK (now.data () == was.data (), "an unchanged host does not view the original text, in ", in ());
    } else {
      auto const want = ref::pct_decode (was);
      MC_CHECK (now == want, "the ", after[i].name, " is decoded as ", mc::show (now), " instead of ", mc::show (want), " in ", in ());
      if (was.find ('%') == std::string_view::npos)
        MC_CHECK (now.data () == was.data (), "an unchanged ", after[i].name, " does not view the original text, in ", in ());
    }
    if (now.data () != was.data ())
      MC_CHECK (codec::inside (store, now), "a changed ", after[i].name, " does not lie in the store, in ", in ());
  }
  mc::outcome ("value");
  mc::state (lib::show (q));
}

void gen_cases (mc::Emit& emit, bool thorough) {
  std::vector<opt> const info{std::nullopt, "", "u", "%41", "u%", "%zz%30:%4"};
  gen::texts const host{"", "h", "xn--bcher-kva.example", "a.xn--bcher-kva", "xn--!", "xn--9999999999999999", "%41", "x.xn--ihqwcrb4cv8a8dqg056pqjye."};
  std::vector<opt> const query{std::nullopt, "", "q", "%20%", "%4"}, fragment{std::nullopt, "", "f", "%C3%A9"}, scheme{std::nullopt, "s", "%73"},
    port{std::nullopt, "", "80", "8%30"};
  gen::texts const seg{"", "a", "%2F", "%%41", "%4g", "%00"};
  for (auto const& s : scheme)
    for (unsigned a = 0; a <= info.size () * host.size () * port.size (); ++a)
      for (auto const& q : query)
        for (auto const& f : fragment)
          gen::sequences (seg.size (), thorough ? 3 : 2, [&] (auto const& w) {
            if (!emit.mine ()) {
              emit.skip ();
              return;
            }
            gen::Value v;
            v.scheme = s;
            v.query = q;
            v.fragment = f;
            v.absolute = (a & 1U) != 0;
            for (auto i : w) v.segments.push_back (seg[i]);
            if (a > 0) {
              auto n = a - 1;
              v.has_authority = true;
              v.userinfo = info[n % info.size ()];
              n /= static_cast<unsigned> (info.size ());
              v.host = host[n % host.size ()];
              v.port = port[n / host.size ()];
            }
            emit (0, v.pack ());
          });
  auto const host_case = [&emit] (unsigned kind, std::string const& h, unsigned salt) {
    gen::Value v;
    v.has_authority = true;
    v.host = h;
    if (salt & 1U) v.userinfo = "%41";
    if (salt & 2U) v.query = "%42x";
    if (salt & 4U) v.segments.assign (salt % 40, "%43");
    emit (kind, v.pack ());
  };
  // labels, decodable and not, in every arrangement
  gen::texts const labels{"", "a", "xn--", "xn--bcher-kva", "xn--BCHER-KVA", "xn--a-", "xn--\xC3\xA9", "xn--99999999", "xn--b", "xn---tda", "\xC3\xA9",
                          "XN--bcher-kva", "xn-", "axn--b", "xn--fiqs8s", "xn--abc-", "xn--0"};
  unsigned salt = 0;
  gen::sequences (labels.size (), thorough ? 4 : 3, [&] (auto const& w) {
    ++salt;
    if (!emit.mine ()) {
      emit.skip ();
      return;
    }
    host_case (4, gen::join (labels, w, "."), salt);
  });
  gen::texts const bits{"xn--", "a", "-", ".", "9", "k", "tda", "\x80", "x"};
  gen::sequences (bits.size (), thorough ? 7 : 5, [&] (auto const& w) {
    ++salt;
    if (!emit.mine ()) {
      emit.skip ();
      return;
    }
    host_case (1, gen::join (bits, w), salt);
  });
  // well-known names
  gen::texts const odd{"xn--", "XN--", "Xn--", "xN--", "www", "com", ".", "\xE3\x80\x82", "xn--a-", "xn--p1ai", "XN--P1AI", "xn--zca", "xn--nxasmq6b", "xn--bcher-kva", "xn--Bcher-Kva", "%2E",
                       "%78n--tda", "xn%2D%2Dtda", "xn--tda%2E", "-", "xn--xn--tda", "xn--80ak6aa92e", "xn--n3h", "[::1]", "\xC3\xBC"};
  gen::sequences (odd.size (), thorough ? 4 : 3, [&] (auto const& w) {
    ++salt;
    if (!emit.mine ()) {
      emit.skip ();
      return;
    }
    host_case (4, gen::join (odd, w), salt);
  });
  unsigned every = 0;
  gen::wellknown ([&] (std::string const& s) {
    if (++every % (thorough ? 1 : 3) != 0 || !emit.mine ()) {
      emit.skip ();
      return;
    }
    if (auto const c = ref::parse (s, true))
      emit (3, gen::Value::from (*c).pack ());
    else
      emit.skip ();
  });
  std::vector<std::array<unsigned, 3>> places;
  for (unsigned n = 1; n <= (thorough ? 100U : 45U); ++n)
    for (unsigned i = 0; i < n; ++i)
      for (unsigned j = i; j < n; j += (n > 40 && !thorough ? 3 : 1)) places.push_back ({n, i, j});
  for (unsigned n : {63U, 64U, 65U, 66U, 127U, 128U, 129U, 130U, 255U, 256U, 257U, 258U, 300U, 1000U})
    for (unsigned i : {0U, 1U, 25U, 26U, 27U, 30U, 31U, 32U, 33U, 58U, 59U, 60U, 61U, 62U, 63U, 64U, 65U, 127U, 128U, 254U, 255U, 256U, n - 2, n - 1})
      for (unsigned j : {i, i + 1, i + 26, i + 32, i + 64, n - 1})
        if (i < n && j < n && i <= j) places.push_back ({n, i, j});
  for (auto const [n, i, j] : places)
        for (unsigned run = 0; run < 2; ++run) {
          if (!emit.mine ()) {
            emit.skip ();
            continue;
          }
          gen::Value v;
          v.segments.assign (n, "x");
          if (run)
            for (unsigned k = i; k <= j; ++k) v.segments[k] = "%" + std::to_string (k + 10);
          else
            v.segments[i] = "a%20b", v.segments[j] = "%";
          v.query = (i + j) % 2 ? opt{"q"} : opt{"q%20q"};
          v.fragment = "f%3E";
          v.has_authority = n % 2 == 0;
          if (v.has_authority) {
            v.host = j % 3 == 0 ? "xn--bcher-kva.x" : "h";
            v.port = "%31";
            v.userinfo = i % 2 ? opt{"%40"} : std::nullopt;
          }
          emit (2, v.pack ());
        }
  for (unsigned c = 0; c < 6; ++c) {
    auto const put = [&] (std::string const& s) {
      gen::Value v;
      v.scheme = "s";
      v.has_authority = true;
      v.host = "h";
      if (c == 0) v.userinfo = s;
      if (c == 1) v.segments = {s};
      if (c == 2) v.query = s;
      if (c == 3) v.fragment = s;
      if (c == 4) v.scheme = s;
      if (c == 5) v.port = s;
      emit (3, v.pack ());
    };
    for (unsigned a = 0; a < 256; ++a) {
      std::string const x (1, static_cast<char> (a));
      put (x);
      put ("%4" + x);
      put ("%" + x + "1");
      put ("%41" + x);
    }
    gen::sequences (gen::known::bits.size (), thorough ? 2 : 1, [&] (auto const& w) { put (gen::join (gen::known::bits, w)); });
    std::vector<unsigned> lengths;
    for (unsigned n = 1; n <= (thorough ? 600U : 150U); ++n) lengths.push_back (n);
    for (unsigned n : {254U, 255U, 256U, 257U, 511U, 512U, 513U, 1000U, 4096U}) lengths.push_back (n);
    for (auto n : lengths) {
      std::string s;
      for (unsigned k = 0; k < n; ++k) s += "%" + std::to_string (10 + k % 90);
      put (s);
      put (s.substr (0, n));
      put (std::string (n, 'x') + "%20");
      put (std::string (n, 'x'));
      put (std::string (n, '%'));
    }
  }
  std::vector<unsigned> units;
  for (unsigned n = 1; n <= (thorough ? 300U : 100U); ++n) units.push_back (n);
  for (unsigned n : {126U, 127U, 128U, 129U, 255U, 256U, 257U, 600U}) units.push_back (n);
  for (auto n : units)
    for (char const* unit : {"xn--tda.", "a.", "xn--bcher-kva.x", "xn--", "xn--9", "b", "."})
      for (char const* head : {"", "xn--", "xn--a-"}) {
        std::string h = head;
        for (unsigned i = 0; i < n; ++i) h += unit;
        host_case (1, h, n);
      }
}

}  // namespace

void mc_check (unsigned, std::string_view payload) {
  auto const v = gen::Value::unpack (payload);
  gen::ExactParts const e{v};
  for (unsigned k = 0; k < 2; ++k) {
    {
      std::string store;
      codec::prepare (store, k);
      decode_into (v, e.p, store);
      if (k == 0) decode_into (v, e.p, store);  // the store as the first call left it
    }
    if (k == 1) {
      std::vector<char> store;
      codec::prepare (store, 3);
      decode_into (v, e.p, store);
    }
  }
}

MC_MAIN (gen_cases)
