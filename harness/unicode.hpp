// Reference decoders for UTF-8, UTF-16 and UTF-32 (written from the Unicode standard).
#ifndef VERIF_UNICODE_HPP
#define VERIF_UNICODE_HPP

#include <cstdint>
#include <iterator>
#include <string>
#include <vector>

#include "mc.hpp"
#include "uri/icubaby.hpp"

namespace uni {

inline constexpr char32_t bad = 0xFFFD;
inline bool scalar (char32_t c) { return c < 0xD800 || (c > 0xDFFF && c <= 0x10FFFF); }

// ---- standard encodings
inline void put (std::u8string& o, char32_t c) {
  auto const b = [&] (unsigned v) { o += static_cast<char8_t> (v); };
  if (c < 0x80) {
    b (c);
  } else if (c < 0x800) {
    b (0xC0 + c / 64), b (0x80 + c % 64);
  } else if (c < 0x10000) {
    b (0xE0 + c / 4096), b (0x80 + c / 64 % 64), b (0x80 + c % 64);
  } else {
    b (0xF0 + c / 262144), b (0x80 + c / 4096 % 64), b (0x80 + c / 64 % 64), b (0x80 + c % 64);
  }
}
inline void put (std::u16string& o, char32_t c) {
  if (c < 0x10000) {
    o += static_cast<char16_t> (c);
  } else {
    c -= 0x10000;
    o += static_cast<char16_t> (0xD800 + c / 1024);
    o += static_cast<char16_t> (0xDC00 + c % 1024);
  }
}
inline void put (std::u32string& o, char32_t c) { o += c; }

// ---- on-line decoders: one code unit at a time
template <typename Unit> struct Decoder;

template <> struct Decoder<char32_t> {
  bool strict = true, ok = true;
  void feed (char32_t u, std::u32string& out) {
    if (!scalar (u)) ok = false, u = bad;
    out += u;
  }
  void end (std::u32string&) {}
  bool partial () const { return false; }
  std::uint64_t id () const { return ok; }
};
template <> struct Decoder<char16_t> {
  bool strict = true, ok = true;
  char32_t high = 0;
  void feed (char16_t u, std::u32string& out) {
    bool const lo = u >= 0xDC00 && u <= 0xDFFF, hi = u >= 0xD800 && u <= 0xDBFF;
    if (high != 0 && lo) {
      out += 0x10000 + (high - 0xD800) * 1024 + (u - 0xDC00U);
      high = 0;
      return;
    }
    end (out);
    if (hi) {
      high = u;
    } else if (lo) {
      ok = false;
      out += bad;
    } else {
      out += u;
    }
  }
  void end (std::u32string& out) {
    if (high != 0) ok = false, high = 0, out += bad;
  }
  bool partial () const { return high != 0; }
  std::uint64_t id () const { return ok + 2 * high; }
};
// strict: the maximal part of a broken sequence becomes one U+FFFD and the byte that broke it starts anew.
// Not strict: the byte that broke it is swallowed (the known finding utf8-interrupting-byte-lost).
template <> struct Decoder<char8_t> {
  bool strict = true, ok = true;
  char32_t value = 0;
  unsigned need = 0;          // continuation bytes still missing
  unsigned low = 0, high = 0; // bounds of the next one
  void feed (char8_t u, std::u32string& out) {
    unsigned const b = u;
    if (need > 0) {
      if (b >= low && b <= high) {
        value = value * 64 + (b - 0x80);
        low = 0x80, high = 0xBF;
        if (--need == 0) out += value;
        return;
      }
      need = 0;
      ok = false;
      out += bad;
      if (!strict) return;
    }
    low = 0x80, high = 0xBF;
    if (b < 0x80) {
      out += b;
    } else if (b >= 0xC2 && b <= 0xDF) {
      need = 1, value = b - 0xC0;
    } else if (b >= 0xE0 && b <= 0xEF) {
      need = 2, value = b - 0xE0;
      if (b == 0xE0) low = 0xA0;
      if (b == 0xED) high = 0x9F;
    } else if (b >= 0xF0 && b <= 0xF4) {
      need = 3, value = b - 0xF0;
      if (b == 0xF0) low = 0x90;
      if (b == 0xF4) high = 0x8F;
    } else {
      ok = false;
      out += bad;
    }
  }
  void end (std::u32string& out) {
    if (need > 0) ok = false, need = 0, out += bad;
  }
  bool partial () const { return need > 0; }
  std::uint64_t id () const { return ok + 2 * need + 16 * low; }
};

template <typename Unit> using string = std::basic_string<Unit>;

template <typename To> string<To> encode (std::u32string const& s) {
  string<To> r;
  for (auto c : s) put (r, c);
  return r;
}

// What a decoder makes of a whole string.
template <typename Unit> struct Run {
  Decoder<Unit> d;
  std::u32string out;
  std::vector<std::size_t> upto;  // characters produced after each unit
  std::vector<bool> partial;      // after each unit
  std::u32string total;           // including the end
  explicit Run (string<Unit> const& in, bool strict) {
    d.strict = strict;
    for (auto u : in) {
      d.feed (u, out);
      upto.push_back (out.size ());
      partial.push_back (d.partial ());
    }
    total = out;
    d.end (total);
  }
};
inline std::u32string without_bad (std::u32string const& s) {
  std::u32string r;
  for (auto c : s)
    if (c != bad) r += c;
  return r;
}

template <typename Unit> std::string show (string<Unit> const& s) {
  std::ostringstream os;
  os << std::hex << std::uppercase << '<';
  for (std::size_t i = 0; i < s.size (); ++i) {
    if (i > 60) {
      os << " ...";
      break;
    }
    os << (i ? " " : "") << static_cast<std::uint64_t> (static_cast<std::uint32_t> (s[i]));
  }
  os << '>';
  return os.str ();
}
template <typename U> char const* name () {
  if constexpr (sizeof (U) == 1) return "UTF-8";
  else if constexpr (sizeof (U) == 2) return "UTF-16";
  else return "UTF-32";
}

// Characters which some program somewhere treats specially.
inline constexpr char32_t special[] = {0x00,   0x09,   0x0A,   0x0D,   0x1A,   0x20,   0x25,   0x41,   0x7F,   0x80,    0x85,    0xA0,   0xAD,
                                       0x301,  0x200B, 0x200D, 0x2028, 0x202E, 0x3002, 0xD7FF, 0xE000,  0xFDD0,  0xFE0F, 0xFEFF,
                                       0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1F600, 0x1FFFE, 0xE0001, 0x10FFFF};
// c before and after each of them.
inline std::u32string among_special (char32_t c) {
  std::u32string text{U'~', c};
  for (auto s : special) {
    text += s;
    text += c;
  }
  return text;
}

}  // namespace uni

#endif  // VERIF_UNICODE_HPP
