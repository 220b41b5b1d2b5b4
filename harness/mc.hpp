// Framework shared by all enumeration harnesses.
//
// A harness defines an enumeration of *cases* and a check of one case:
//
//   void mc_generate (mc::Emit& emit, bool thorough);   // deterministic
//   void mc_check (unsigned kind, std::string_view payload);
//   char const* const mc_kinds[] = {...};                // names of the kinds
//
// A case is (kind, payload bytes): everything mc_check() needs.  That makes each
// case replayable on its own.  The case being run is kept in a shared file so that
// the driver knows it even after a crash, an abort or a hang.
//
//   harness --shard I --nshards N --tier quick|thorough --state F --out F [--known a,b]
//   harness --replay FILE         (kind, newline, payload in hexadecimal)
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <map>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#endif

namespace mc {

// ---------------------------------------------------------------- failures
struct Fail {
  std::string message;
  std::string signature;  // non-empty: may be listed as a known finding
};

template <typename... T> std::string cat (T const&... v) {
  std::ostringstream os;
  (os << ... << v);
  return os.str ();
}
inline std::string show (std::string_view s) {
  std::string r = "\"";
  char buf[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += static_cast<char> (c);
    } else if (c >= 0x20 && c < 0x7F) {
      r += static_cast<char> (c);
    } else {
      std::snprintf (buf, sizeof buf, "\\x%02X", c);
      r += buf;
    }
  }
  r += '"';
  if (r.size () > 600) r = r.substr (0, 300) + "..." + r.substr (r.size () - 200);
  return r;
}
[[noreturn]] inline void fail (std::string const& message) { throw Fail{message, {}}; }
[[noreturn]] inline void finding (std::string const& signature, std::string const& message) {
  throw Fail{message, signature};
}
#define MC_CHECK(cond, ...)                       \
  do {                                            \
    if (!(cond)) mc::fail (mc::cat (__VA_ARGS__)); \
  } while (false)

// ---------------------------------------------------------------- counters
struct Counters {
  std::uint64_t cases = 0;        // cases executed by this shard
  std::uint64_t transitions = 0;  // operations applied to the code under test
  std::unordered_set<std::uint64_t> states;
  bool states_capped = false;
  std::map<std::string, std::uint64_t> classes;  // outcome classes
  std::map<std::string, std::uint64_t> kinds;
  std::map<std::string, std::string> samples;    // one per kind
  std::map<std::string, std::uint64_t> known;    // known findings met
  std::map<std::string, std::string> known_example;
  std::map<std::string, std::uint64_t> maxima;
};
inline Counters& counters () {
  static Counters c;
  return c;
}
inline std::uint64_t hash (std::string_view s, std::uint64_t h = 1469598103934665603ULL) {
  for (unsigned char c : s) {
    h ^= c;
    h *= 1099511628211ULL;
  }
  return h ^ (h >> 29);
}
// Record an abstract state (canonical form of what the model reached).
inline void state (std::uint64_t h) {
  auto& c = counters ();
  if (c.states.size () < 400000) {
    c.states.insert (h);
  } else if (!c.states.contains (h)) {
    c.states_capped = true;
  }
}
inline void state (std::string_view canonical) { state (hash (canonical)); }
inline void step (std::uint64_t n = 1) { counters ().transitions += n; }
inline void outcome (char const* name) { ++counters ().classes[name]; }
inline void maximum (char const* name, std::uint64_t v) {
  auto& m = counters ().maxima[name];
  m = std::max (m, v);
}

// ---------------------------------------------------------------- payload coding
struct Writer {
  std::string s;
  Writer& u8 (unsigned v) {
    s += static_cast<char> (v);
    return *this;
  }
  Writer& u32 (std::uint32_t v) {
    for (int i = 0; i < 4; ++i) s += static_cast<char> ((v >> (8 * i)) & 0xFF);
    return *this;
  }
  Writer& str (std::string_view v) {
    u32 (static_cast<std::uint32_t> (v.size ()));
    s += v;
    return *this;
  }
};
struct Reader {
  std::string_view s;
  unsigned u8 () {
    if (s.empty ()) throw std::runtime_error ("bad payload");
    auto v = static_cast<unsigned char> (s.front ());
    s.remove_prefix (1);
    return v;
  }
  std::uint32_t u32 () {
    std::uint32_t v = 0;
    for (int i = 0; i < 4; ++i) v |= static_cast<std::uint32_t> (u8 ()) << (8 * i);
    return v;
  }
  std::string_view str () {
    auto n = u32 ();
    if (n > s.size ()) throw std::runtime_error ("bad payload");
    auto r = s.substr (0, n);
    s.remove_prefix (n);
    return r;
  }
  bool empty () const { return s.empty (); }
};

// A copy of some bytes in its own heap block which ends where they end, so that
// AddressSanitizer sees any access behind the view and no terminator follows it.  Half of the
// texts begin where the block begins; the others (which ones depends on the text alone) at
// one of the other 15 distances from an address divisible by 16.  `place` decides otherwise.
class Exact {
public:
  static constexpr std::size_t places = 16;
  static std::optional<std::size_t>& place () {
    static thread_local std::optional<std::size_t> p;
    return p;
  }
  explicit Exact (std::string_view s, std::size_t unit = 1)
      : n_{s.size ()}, offset_{distance (s, unit)}, p_{static_cast<char*> (std::malloc (offset_ + n_ != 0 ? offset_ + n_ : 1))} {
    std::memset (p_, '%', offset_);
    if (n_) std::memcpy (p_ + offset_, s.data (), n_);
#if defined(__SANITIZE_ADDRESS__)
    __asan_poison_memory_region (p_, offset_);
#endif
  }
  ~Exact () {
#if defined(__SANITIZE_ADDRESS__)
    __asan_unpoison_memory_region (p_, offset_);
#endif
    std::free (p_);
  }
  Exact (Exact const&) = delete;
  Exact& operator= (Exact const&) = delete;
  std::string_view view () const { return {p_ + offset_, n_}; }
  operator std::string_view () const { return view (); }

private:
  static std::size_t distance (std::string_view s, std::size_t unit) {
    auto const h = hash (s);
    auto const d = place () ? *place () : (h >> 17U) % 2 == 0 ? 0 : (h >> 23U) % places;
    return d / unit * unit;
  }
  std::size_t n_;
  std::size_t offset_;
  char* p_;
};

}  // namespace mc

// ---------------------------------------------------------------- supplied by the harness
extern char const* const mc_kinds[];
void mc_check (unsigned kind, std::string_view payload);

namespace mc {

struct StateFile {
  static constexpr std::size_t cap = 1U << 20U;
  struct Layout {
    volatile std::uint64_t seq;
    volatile std::uint64_t index;
    volatile std::uint32_t kind;
    volatile std::uint32_t len;
    char payload[cap];
  };
};

struct StopShard {};

// Tells the driver that a long case is still going on.
inline StateFile::Layout*& current_state () {
  static StateFile::Layout* s = nullptr;
  return s;
}
inline void alive () {
  if (auto* const s = current_state ()) s->seq = s->seq + 1;
}

inline void check_one (unsigned kind, std::string_view payload) {
  try {
    mc_check (kind, payload);
  } catch (std::exception const& ex) {
    fail (cat ("unexpected exception: ", ex.what ()));
  }
}

class Emit {
public:
  unsigned shard = 0, nshards = 1;
  StateFile::Layout* state = nullptr;
  std::set<std::string> known;
  std::uint64_t index = 0;
  std::uint64_t upto = ~std::uint64_t{0};
  double deadline = 0;  // seconds; 0: none
  bool cut = false;
  std::chrono::steady_clock::time_point start = std::chrono::steady_clock::now ();
  bool failed = false;
  std::uint64_t fail_index = 0;
  unsigned fail_kind = 0;
  std::string fail_payload, fail_message, fail_signature;

  // True if the next case belongs to this shard (lets a generator skip building it).
  bool mine () const { return (index / 16) % nshards == shard; }
  void skip () { ++index; }

  void operator() (unsigned kind, std::string_view payload) {
    if (!mine ()) {
      ++index;
      return;
    }
    run (kind, payload);
    if (index == upto) throw StopShard{};
    if (deadline > 0 &&
        std::chrono::duration<double> (std::chrono::steady_clock::now () - start).count () > deadline) {
      cut = true;
      throw StopShard{};
    }
    ++index;
  }

private:
  void run (unsigned kind, std::string_view payload) {
    if (state) {
      current_state () = state;
      state->kind = kind;
      state->index = index;
      state->len = static_cast<std::uint32_t> (payload.size ());
      std::memcpy (state->payload, payload.data (), std::min (payload.size (), StateFile::cap));
      state->seq = state->seq + 1;
    }
    auto& c = counters ();
    ++c.cases;
    auto& k = c.kinds[mc_kinds[kind]];
    ++k;
    if (k == 40 || k == 1) c.samples[mc_kinds[kind]] = show (payload);
    try {
      check_one (kind, payload);
    } catch (Fail const& f) {
      if (!f.signature.empty () && known.contains (f.signature)) {
        if (++c.known[f.signature] == 1) c.known_example[f.signature] = f.message;
        return;
      }
      failed = true;
      fail_index = index;
      fail_kind = kind;
      fail_payload = payload;
      fail_message = f.message;
      fail_signature = f.signature;
      throw StopShard{};
    }
  }
};

inline std::string json (std::string_view s) {
  std::string r = "\"";
  char buf[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += static_cast<char> (c);
    } else if (c < 0x20 || c >= 0x7F) {
      std::snprintf (buf, sizeof buf, "\\u%04x", c);
      r += buf;
    } else {
      r += static_cast<char> (c);
    }
  }
  return r + "\"";
}
template <typename Map> std::string json_map (Map const& m) {
  std::string r = "{";
  bool first = true;
  for (auto const& [k, v] : m) {
    if (!first) r += ",";
    first = false;
    r += json (k) + ":";
    if constexpr (std::is_same_v<std::decay_t<decltype (v)>, std::string>)
      r += json (v);
    else
      r += std::to_string (v);
  }
  return r + "}";
}
inline std::string hex (std::string_view s) {
  static char const* d = "0123456789abcdef";
  std::string r;
  for (unsigned char c : s) {
    r += d[c >> 4];
    r += d[c & 15];
  }
  return r;
}

inline int run_main (int argc, char** argv, void (*generate) (Emit&, bool)) {
  Emit emit;
  bool thorough = false;
  std::string state_path, out_path, replay;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string const a = argv[i];
    std::string const v = argv[i + 1];
    if (a == "--shard") emit.shard = static_cast<unsigned> (std::stoul (v));
    else if (a == "--nshards") emit.nshards = static_cast<unsigned> (std::stoul (v));
    else if (a == "--tier") thorough = v == "thorough";
    else if (a == "--upto") emit.upto = std::stoull (v);
    else if (a == "--deadline") emit.deadline = std::stod (v);
    else if (a == "--state") state_path = v;
    else if (a == "--out") out_path = v;
    else if (a == "--replay") replay = v;
    else if (a == "--known") {
      std::istringstream is{v};
      for (std::string s; std::getline (is, s, ',');)
        if (!s.empty ()) emit.known.insert (s);
    } else {
      std::cerr << "unknown option " << a << '\n';
      return 2;
    }
  }
  if (!replay.empty ()) {
    std::ifstream is{replay};
    unsigned kind = 0;
    std::string h, payload;
    is >> kind >> h;
    if (h == "-") h.clear ();
    for (std::size_t i = 0; i + 1 < h.size (); i += 2)
      payload += static_cast<char> (std::stoul (h.substr (i, 2), nullptr, 16));
    std::cout << "replaying kind " << mc_kinds[kind] << " payload " << show (payload) << std::endl;
    try {
      check_one (kind, payload);
    } catch (Fail const& f) {
      std::cout << "FAILED: " << f.message << std::endl;
      return 1;
    }
    std::cout << "held" << std::endl;
    return 0;
  }
  if (!state_path.empty ()) {
    int fd = ::open (state_path.c_str (), O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ::ftruncate (fd, sizeof (StateFile::Layout)) != 0) {
      std::perror ("state file");
      return 2;
    }
    void* p = ::mmap (nullptr, sizeof (StateFile::Layout), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (p == MAP_FAILED) {
      std::perror ("mmap");
      return 2;
    }
    emit.state = static_cast<StateFile::Layout*> (p);
  }
  try {
    generate (emit, thorough);
  } catch (StopShard const&) {
  }
  auto const& c = counters ();
  if (!out_path.empty ()) {
    std::ofstream os{out_path};
    os << "{\"cases\":" << c.cases << ",\"generated\":" << emit.index << ",\"transitions\":" << c.transitions
       << ",\"states_capped\":" << (c.states_capped ? "true" : "false") << ",\"classes\":" << json_map (c.classes)
       << ",\"kinds\":" << json_map (c.kinds) << ",\"samples\":" << json_map (c.samples)
       << ",\"known\":" << json_map (c.known) << ",\"known_example\":" << json_map (c.known_example)
       << ",\"maxima\":" << json_map (c.maxima) << ",\"cut\":" << (emit.cut ? "true" : "false")
       << ",\"failed\":" << (emit.failed ? "true" : "false");
    if (emit.failed) {
      os << ",\"fail_index\":" << emit.fail_index << ",\"fail_kind\":" << emit.fail_kind
         << ",\"fail_signature\":" << json (emit.fail_signature) << ",\"fail_payload\":\"" << hex (emit.fail_payload)
         << "\",\"fail_message\":" << json (emit.fail_message);
    }
    os << "}\n";
    std::ofstream st{out_path + ".states", std::ios::binary};
    for (auto h : c.states) st.write (reinterpret_cast<char const*> (&h), sizeof h);
  }
  return emit.failed ? 1 : 0;
}

}  // namespace mc

#define MC_MAIN(generate)                \
  int main (int argc, char** argv) {     \
    return mc::run_main (argc, argv, generate); \
  }

#endif  // VERIF_MC_HPP
