// C18: every call gives the result it gives as the first call of a process, in any history.
#include <sys/wait.h>
#include <unistd.h>
#include <cerrno>
#include <cfenv>
#include <clocale>
#include <locale>
#include <thread>
#include "calls.hpp"
#include "everything.hpp"

char const* const mc_kinds[] = {"history, results kept", "history, storage reused", "history, other locales", "all operations, other locales", "texts alike", "history, other surroundings", "places", "before main"};

namespace {

// Runs f in a child of this process, which itself never calls the library.
std::string in_child (std::function<std::string ()> const& f, std::string const& what) {
  int fd[2];
  if (::pipe (fd) != 0) throw std::runtime_error ("pipe");
  auto const pid = ::fork ();
  if (pid < 0) throw std::runtime_error ("fork");
  if (pid == 0) {
    ::close (fd[0]);
    std::string out;
    try {
      out = "=" + f ();
    } catch (mc::Fail const& x) {
      out = "!" + x.message;
    } catch (std::exception const& x) {
      out = std::string{"!exception: "} + x.what ();
    }
    for (std::size_t at = 0; at < out.size ();) {
      auto const n = ::write (fd[1], out.data () + at, out.size () - at);
      if (n <= 0) ::_exit (3);
      at += static_cast<std::size_t> (n);
    }
    ::_exit (0);
  }
  ::close (fd[1]);
  std::string out;
  char buffer[4096];
  for (;;) {
    auto const n = ::read (fd[0], buffer, sizeof buffer);
    if (n <= 0) break;
    out.append (buffer, static_cast<std::size_t> (n));
  }
  ::close (fd[0]);
  int status = 0;
  ::waitpid (pid, &status, 0);
  MC_CHECK (WIFEXITED (status) && WEXITSTATUS (status) == 0, what, ": the process ended with status ", status);
  MC_CHECK (!out.empty () && out[0] == '=', what, ": ", out.empty () ? "" : out.substr (1));
  return out.substr (1);
}

struct Baseline {
  std::string result, arguments;
};
Baseline const& baseline (std::size_t i) {
  static std::map<std::size_t, Baseline> known;
  auto const it = known.find (i);
  if (it != known.end ()) return it->second;
  auto const& e = calls::all ()[i];
  auto const s = in_child (
      [&] {
        auto c = e.create ();
        c->prepare ();
        auto const before = c->arguments ();
        c->run ();
        MC_CHECK (c->arguments () == before, e.name, ": the argument is changed from ", mc::show (before), " to ", mc::show (c->arguments ()));
        mc::Writer w;
        w.str (c->result ()).str (before);
        return w.s;
      },
      e.name);
  mc::Reader r{s};
  Baseline b;
  b.result = std::string{r.str ()};
  b.arguments = std::string{r.str ()};
  mc::state (b.result);
  return known.emplace (i, b).first->second;
}

std::string describe (std::string_view history) {
  std::string r;
  for (unsigned char i : history) r += (r.empty () ? "" : "; ") + calls::all ()[i].name;
  return r;
}

// Each call's result and arguments are checked straight after it and again after all the others.
std::string kept (std::string_view history) {
  std::vector<std::unique_ptr<calls::Call>> live;
  for (unsigned char i : history) {
    auto const& b = baseline (i);
    live.push_back (calls::all ()[i].create ());
    auto& c = *live.back ();
    c.prepare ();
    c.run ();
    MC_CHECK (c.result () == b.result, "\"", calls::all ()[i].name, "\" gives ", mc::show (c.result ()), " instead of ", mc::show (b.result),
              " in the history: ", describe (history));
  }
  for (std::size_t k = 0; k < live.size (); ++k) {
    auto const i = static_cast<unsigned char> (history[k]);
    auto const& b = baseline (i);
    MC_CHECK (live[k]->result () == b.result, "the result of \"", calls::all ()[i].name, "\" has become ", mc::show (live[k]->result ()),
              " instead of ", mc::show (b.result), " after the history: ", describe (history));
    MC_CHECK (live[k]->arguments () == b.arguments, "the arguments of \"", calls::all ()[i].name, "\" have become ",
              mc::show (live[k]->arguments ()), " after the history: ", describe (history));
  }
  return {};
}
// The same storage is used for the arguments of every call.
std::string reused (std::string_view history) {
  for (unsigned char i : history) {
    auto const& b = baseline (i);
    auto c = calls::all ()[i].create ();
    c->place.shared = true;
    c->prepare ();
    c->run ();
    MC_CHECK (c->result () == b.result, "\"", calls::all ()[i].name, "\" gives ", mc::show (c->result ()), " instead of ", mc::show (b.result),
              " in the history (arguments at the same addresses): ", describe (history));
    MC_CHECK (c->arguments () == b.arguments, "\"", calls::all ()[i].name, "\" changes its arguments in the history: ", describe (history));
  }
  return {};
}

// The process-wide locales. 0: the "C" locale. 1: a C++ locale which classifies and converts every
// character differently and groups digits. 2...: named locales (compiled by lib/config.py), for C and C++.
std::vector<std::string> const& named_locales () {
  static std::vector<std::string> const names = [] {
    std::vector<std::string> r;
    std::istringstream is{LOCALES};
    for (std::string n; is >> n;) r.push_back (n);
    return r;
  }();
  return names;
}
std::size_t locales () { return 2 + named_locales ().size (); }

struct Odd_ctype : std::ctype<char> {
  static mask const* table () {
    static mask t[table_size];
    for (auto& m : t) m = alpha | digit | xdigit | alnum | lower | upper | space | punct;
    return t;
  }
  Odd_ctype () : std::ctype<char>{table ()} {}
  char do_tolower (char c) const override { return static_cast<char> (c + 1); }
  char do_toupper (char c) const override { return static_cast<char> (c - 1); }
  char const* do_tolower (char* b, char const* e) const override {
    for (; b != e; ++b) *b = do_tolower (*b);
    return e;
  }
  char const* do_toupper (char* b, char const* e) const override {
    for (; b != e; ++b) *b = do_toupper (*b);
    return e;
  }
};
struct Odd_numpunct : std::numpunct<char> {
  std::string do_grouping () const override { return "\1"; }
  char do_thousands_sep () const override { return '\''; }
  std::string do_truename () const override { return "ja"; }
};
class With_locale {
public:
  explicit With_locale (std::size_t i) {
    static std::vector<std::locale> const all = [] {
      if (::setenv ("LOCPATH", LOCALE_DIR, 1) != 0) throw std::runtime_error ("setenv");
      std::vector<std::locale> r{std::locale::classic (), std::locale{std::locale{std::locale::classic (), new Odd_ctype}, new Odd_numpunct}};
      for (auto const& n : named_locales ()) r.emplace_back (n.c_str ());
      return r;
    }();
    std::locale::global (all.at (i));  // sets the C locale too if the locale has a name
    if (i >= 2 && std::setlocale (LC_ALL, nullptr) != named_locales ()[i - 2]) throw std::runtime_error ("cannot set the locale");
  }
  ~With_locale () {
    std::locale::global (std::locale::classic ());
    std::setlocale (LC_ALL, "C");
  }
  With_locale (With_locale const&) = delete;
};
std::string locale_name (std::size_t i) { return i == 0 ? "C" : i == 1 ? "a user-defined C++ locale" : named_locales ()[i - 2]; }

// Each call is made while its own locale is in force.
std::string located (std::string_view history) {
  for (std::size_t k = 0; k + 1 < history.size (); k += 2) {
    auto const l = static_cast<unsigned char> (history[k]);
    auto const i = static_cast<unsigned char> (history[k + 1]);
    auto const& b = baseline (i);
    auto c = calls::all ()[i].create ();
    c->prepare ();
    {
      With_locale const w{l};
      c->run ();
    }
    MC_CHECK (c->result () == b.result, "\"", calls::all ()[i].name, "\" gives ", mc::show (c->result ()), " instead of ", mc::show (b.result),
              " when the locale is ", locale_name (l), k == 0 ? "" : " (not the first call)");
    MC_CHECK (c->arguments () == b.arguments, "\"", calls::all ()[i].name, "\" changes its arguments when the locale is ", locale_name (l));
  }
  return {};
}
// What else of the process a call might depend on: errno, the rounding mode, the environment, the working directory.
struct Surroundings {
  char const* name;
  int error;
  int rounding;
  char const* directory;
  bool environment;
  enum { here, thread, unwinding, handler } where = here;
};
constexpr Surroundings surroundings[] = {{"errno is ERANGE", ERANGE, FE_TONEAREST, nullptr, false},
                                         {"errno is EINVAL", EINVAL, FE_TONEAREST, nullptr, false},
                                         {"errno is EILSEQ", EILSEQ, FE_TONEAREST, nullptr, false},
                                         {"errno is ENOMEM", ENOMEM, FE_TONEAREST, nullptr, false},
                                         {"errno is EINTR", EINTR, FE_TONEAREST, nullptr, false},
                                         {"errno is -1", -1, FE_TONEAREST, nullptr, false},
                                         {"numbers are rounded down", 0, FE_DOWNWARD, nullptr, false},
                                         {"numbers are rounded up", 0, FE_UPWARD, nullptr, false},
                                         {"numbers are rounded towards zero", 0, FE_TOWARDZERO, nullptr, false},
                                         {"the working directory is another", 0, FE_TONEAREST, "/usr/lib", false},
                                         {"the environment is another", 0, FE_TONEAREST, nullptr, true},
                                         {"made in a thread which has ended", 0, FE_TONEAREST, nullptr, false, Surroundings::thread},
                                         {"made while an exception is on its way", 0, FE_TONEAREST, nullptr, false, Surroundings::unwinding},
                                         {"made in the handler of an exception", 0, FE_TONEAREST, nullptr, false, Surroundings::handler}};
// Makes the call there.
void at_place (Surroundings const& s, std::function<void ()> const& call) {
  struct Guard {
    std::function<void ()> const& f;
    std::exception_ptr& x;
    ~Guard () {
      try {
        f ();
      } catch (...) {
        x = std::current_exception ();
      }
    }
  };
  std::exception_ptr thrown;
  switch (s.where) {
  case Surroundings::here: return call ();
  case Surroundings::thread:
    std::thread{[&] { Guard const g{call, thrown}; }}.join ();
    break;
  case Surroundings::unwinding:
    try {
      Guard const g{call, thrown};
      throw 1;
    } catch (int) {
    }
    break;
  case Surroundings::handler:
    try {
      throw 1;
    } catch (int) {
      Guard const g{call, thrown};
    }
    break;
  }
  if (thrown) std::rethrow_exception (thrown);
}
constexpr char const* variables[][2] = {{"LC_ALL", "tr_TR.UTF-8"}, {"LANG", "tr_TR.UTF-8"}, {"LC_CTYPE", "C.UTF-8"}, {"TZ", "Asia/Kathmandu"}, {"HOME", "/nowhere"},
                                        {"POSIXLY_CORRECT", "1"},  {"TMPDIR", "/nowhere"},  {"PWD", "/nowhere"},     {"URI_DEBUG", "1"},     {"DEBUG", "1"}};
// What the caller may see of the process's state, except errno.
std::string visible () {
  std::string r = mc::cat (std::fegetround (), ' ', std::setlocale (LC_ALL, nullptr), ' ', std::locale{}.name ());
  char where[4096];
  r += mc::cat (' ', ::getcwd (where, sizeof where) != nullptr ? where : "?");
  for (char** e = environ; *e != nullptr; ++e) r += mc::cat ('\n', *e);
  return r;
}
class With_surroundings {
public:
  explicit With_surroundings (Surroundings const& s) {
    if (::getcwd (where, sizeof where) == nullptr || (s.directory != nullptr && ::chdir (s.directory) != 0)) throw std::runtime_error ("chdir");
    if (s.environment)
      for (auto const& v : variables) {
        char const* const old = std::getenv (v[0]);
        before.emplace_back (old != nullptr ? std::optional<std::string>{old} : std::nullopt);
        ::setenv (v[0], v[1], 1);
      }
    std::fesetround (s.rounding);
    errno = s.error;
  }
  ~With_surroundings () {
    errno = 0;
    std::fesetround (FE_TONEAREST);
    for (std::size_t i = 0; i < before.size (); ++i) {
      if (before[i]) ::setenv (variables[i][0], before[i]->c_str (), 1);
      else ::unsetenv (variables[i][0]);
    }
    if (::chdir (where) != 0) std::abort ();
  }
  With_surroundings (With_surroundings const&) = delete;

private:
  char where[4096];
  std::vector<std::optional<std::string>> before;
};
std::string surrounded (std::string_view history) {
  for (std::size_t k = 0; k + 1 < history.size (); k += 2) {
    auto const& s = surroundings[static_cast<unsigned char> (history[k])];
    auto const i = static_cast<unsigned char> (history[k + 1]);
    auto const& b = baseline (i);
    auto c = calls::all ()[i].create ();
    c->prepare ();
    std::string before, after;
    {
      With_surroundings const w{s};
      before = visible ();
      at_place (s, [&] {
        std::fesetround (s.rounding);
        errno = s.error;
        c->run ();
      });
      after = visible ();
    }
    MC_CHECK (c->result () == b.result, "\"", calls::all ()[i].name, "\" gives ", mc::show (c->result ()), " instead of ", mc::show (b.result), " when ", s.name,
              k == 0 ? "" : " (not the first call)");
    MC_CHECK (c->arguments () == b.arguments, "\"", calls::all ()[i].name, "\" changes its arguments when ", s.name);
    MC_CHECK (before == after, "\"", calls::all ()[i].name, "\" changes the state of the process: ", mc::show (after), " instead of ", mc::show (before));
  }
  return {};
}
std::uint64_t digest (std::string_view text) {
  everything::sink = 0;
  everything::text_operations (text);
  everything::component_operations (text);
  return everything::sink;
}
std::string located_text (std::string_view text) {
  mc::Exact const t{text};
  auto const expected = digest (t.view ());
  for (std::size_t l = 1; l < locales (); ++l) {
    std::uint64_t d = 0;
    {
      With_locale const w{l};
      d = digest (t.view ());
    }
    MC_CHECK (d == expected, "some operation on ", mc::show (text), " gives a different result when the locale is ", locale_name (l));
    MC_CHECK (digest (t.view ()) == expected, "some operation on ", mc::show (text), " gives a different result after it was done with the locale ",
              locale_name (l));
  }
  for (auto const& s : surroundings) {
    std::uint64_t d = 0;
    {
      With_surroundings const w{s};
      at_place (s, [&] { d = digest (t.view ()); });
    }
    MC_CHECK (d == expected, "some operation on ", mc::show (text), " gives a different result when ", s.name);
  }
  return {};
}

// The operations done before main() in another process, before the constructors of any object of
// the library or of the harness; see the end of this file.
constexpr std::string_view early_texts[] = {"http://user@example.com:8080/a/bb/../c%41d?query=1#frag", "caf\xC3\xA9.example \xF0\x9F\x98\x80z", "s://caf\xC3\xA9.example/ /", "xn--bcher-kva", "xn--\xC3",
                                            "s://[1:2:3:4:5:6:1.2.3.4]/", "//[v1.a]:80", "%C3%A9%41%2f%zz%4", "s:", ""};
std::string early (std::string_view which) {
  auto const& text = early_texts[static_cast<unsigned char> (which[0])];
  auto const value = digest (text);
  ::fflush (nullptr);
  int fd[2];
  if (::pipe (fd) != 0) throw std::runtime_error ("pipe");
  auto const pid = ::fork ();
  if (pid == 0) {
    ::dup2 (fd[1], 1);
    ::close (fd[0]);
    ::setenv ("C18_EARLY", std::to_string (static_cast<unsigned> (which[0])).c_str (), 1);
    ::execl ("/proc/self/exe", "c18", nullptr);
    ::_exit (9);
  }
  ::close (fd[1]);
  std::string out;
  char buffer[64];
  for (ssize_t n; (n = ::read (fd[0], buffer, sizeof buffer)) > 0;) out.append (buffer, static_cast<std::size_t> (n));
  ::close (fd[0]);
  int status = 0;
  ::waitpid (pid, &status, 0);
  MC_CHECK (status == 0, "the operations on ", mc::show (text), " before main() end with status ", status);
  MC_CHECK (out == std::to_string (value), "some operation on ", mc::show (text), " gives a different result before main()");
  return {};
}

// The same text at every distance from an aligned address, and among different bytes.
std::string placed (std::string_view text) {
  std::optional<std::uint64_t> expected;
  auto const same = [&] (std::uint64_t d, std::string const& where) {
    if (!expected) expected = d;
    MC_CHECK (d == *expected, "some operation on ", mc::show (text), " gives a different result when the text is ", where);
  };
  for (std::size_t k = 0; k < mc::Exact::places; ++k) {
    mc::Exact::place () = k;
    mc::Exact const t{text};
    same (digest (t.view ()), mc::cat (k, " bytes behind an aligned address"));
  }
  mc::Exact::place ().reset ();
  for (char around : {'\0', '%', '0', ':', '/', '.', '\x80', '\xFF', 'x'})
    for (std::size_t k : {16U, 23U}) {
      std::string memory (k, around);
      memory += text;
      memory.append (16, around);
      same (digest (std::string_view{memory}.substr (k, text.size ())), mc::cat ("between bytes ", static_cast<int> (around)));
    }
  mc::state (std::to_string (*expected));
  return {};
}

// A text and one that differs from it in one byte, one after the other in the same memory.
std::string alike (std::string const& a, std::string const& b, std::uint64_t want_a, std::uint64_t want_b) {
  auto const buffer = std::make_unique<char[]> (a.size ());
  for (unsigned round = 0; round < 2; ++round)
    for (bool second : {false, true}) {
      auto const& t = second ? b : a;
      std::copy (t.begin (), t.end (), buffer.get ());
      MC_CHECK (digest ({buffer.get (), a.size ()}) == (second ? want_b : want_a), "some operation on ", mc::show (t),
                " gives a different result after the same operations on ", mc::show (second ? a : b), " at the same address");
    }
  return {};
}
std::uint64_t alone (std::string const& text) {
  static std::map<std::string, std::uint64_t> known;
  auto const it = known.find (text);
  if (it != known.end ()) return it->second;
  auto const d = std::stoull (in_child ([&] { return std::to_string (digest (text)); }, mc::show (text)));
  mc::state (std::to_string (d));
  known.emplace (text, d);
  return d;
}

// One call of each kind and outcome, for the longer histories.
std::vector<unsigned> selection (std::size_t per_kind) {
  std::map<std::string, std::size_t> seen;
  std::vector<unsigned> r;
  auto const& all = calls::all ();
  for (std::size_t i = 0; i < all.size (); ++i) {
    auto const& n = all[i].name;
    auto const kind = n.substr (0, n.find (' '));
    if (seen[kind]++ < per_kind) r.push_back (static_cast<unsigned> (i));
  }
  return r;
}

void gen_cases (mc::Emit& emit, bool thorough) {
  auto const n = calls::all ().size ();
  if (n > 255) throw std::runtime_error ("too many calls for a payload of bytes");
  auto const histories = [&] (std::vector<unsigned> const& alphabet, std::size_t len) {
    gen::sequences (alphabet.size (), len, [&] (auto const& w) {
      if (w.size () != len) return;
      std::string s;
      for (auto i : w) s += static_cast<char> (alphabet[i]);
      emit (0, s);
      emit (1, s);
    });
  };
  std::vector<unsigned> every;
  for (unsigned i = 0; i < n; ++i) every.push_back (i);
  histories (every, 1);
  histories (every, 2);
  histories (selection (1), thorough ? 4 : 3);
  if (thorough) histories (selection (3), 3);
  // all calls in one history, in both directions, starting anywhere; and each call many times
  for (unsigned i = 0; i < n; ++i) {
    std::string up, down;
    for (unsigned k = 0; k < n; ++k) {
      up += static_cast<char> ((i + k) % n);
      down += static_cast<char> ((i + n - k) % n);
    }
    for (unsigned kind = 0; kind < 2; ++kind) {
      emit (kind, up);
      emit (kind, down + up);
      emit (kind, std::string (thorough ? 70000 : 1000, static_cast<char> (i)) + up);
    }
  }
  // locales: every call in each; every two calls (one of each kind) by which of them meet the locale
  auto const some = selection (1);
  for (unsigned l = 1; l < locales (); ++l) {
    auto const step = [] (unsigned loc, unsigned call) { return std::string{static_cast<char> (loc), static_cast<char> (call)}; };
    for (unsigned i = 0; i < n; ++i) {
      emit (2, step (l, i) + step (0, i));
      emit (2, step (0, i) + step (l, i));
    }
    for (auto i : some)
      for (auto k : some) {
        emit (2, step (l, i) + step (0, k));
        emit (2, step (0, i) + step (l, k));
        emit (2, step (l, i) + step (l, k));
      }
  }
  for (unsigned s = 0; s < std::size (surroundings); ++s) {
    auto const step = [] (unsigned sur, unsigned call) { return std::string{static_cast<char> (sur), static_cast<char> (call)}; };
    for (unsigned i = 0; i < n; ++i) emit (5, step (s, i) + step (s, i));
    for (auto i : some)
      for (auto k : some) emit (5, step (s, i) + step (s, k));
  }
  for (std::string const t : {"http://user@example.com:8080/a/bb/../c%41d?query=1#frag", "xn--bcher-kva.example", "s://[1:2:3:4:5:6:1.2.3.4]/", "caf\xC3\xA9 \xF0\x9F\x98\x80z",
                              "%C3%A9%41%2f%zz%4", "a/./b/../../c"})
    for (unsigned i = 0; i < t.size (); ++i)
      for (char c : {'x', '1', '/', '%', ':', '\xC3', '\0', '-', '.'}) {
        if (t[i] == c || (!thorough && i > 12 && (i + static_cast<unsigned char> (c)) % 3 != 0)) continue;
        auto u = t;
        u[i] = c;
        emit (4, mc::Writer{}.str (t).str (u).s);
      }
  for (unsigned a = 0; a < 256; ++a)
    for (auto const* f : {"", "s", "s:", "s://", "s://h:", "s://u@[v1.", "s://[", "s://[::", "s://1.", "s:/", "s:?", "s:#", "%", "%4", "xn--", "xn--a-", "s://h/%c"})
      emit (3, f + std::string (1, static_cast<char> (a)));
  for (unsigned i = 0; i < std::size (early_texts); ++i) emit (7, std::string (1, static_cast<char> (i)));
  // places: texts of every length, with one byte unlike the others anywhere
  for (unsigned n = 0; n <= (thorough ? 130U : 70U); ++n)
    for (unsigned at = 0; at <= n; at += thorough || n <= 24 || at + 8 >= n ? 1 : 5)
      for (char odd : {' ', '%', ':', '\xC3'}) {
        std::string t (n, 'b');
        if (at < n) t[at] = odd;
        else if (odd != ' ') continue;
        emit (6, t);
      }
  for (auto const* f : {"http://user@example.com:8080/a/bb/../c%41d?query=1#frag", "xn--bcher-kva.example", "s://[1:2:3:4:5:6:1.2.3.4]/", "caf\xC3\xA9 \xF0\x9F\x98\x80z",
                        "%C3%A9%41%2f%zz%4", "a/./b/../../c", "\xEF\xBB\xBFtext", "\xFF\xFEt\0e\0"})
    for (std::string t = f; !t.empty (); t.pop_back ()) emit (6, t);
  std::vector<std::string> const pieces{"I", "i", "\xDD", "\xFD", "\xE9", "\xC3\xA9", "%", "4", "A", ":", "/", "[", "]", ".", "\xB2", "-"};
  gen::sequences (pieces.size (), thorough ? 3 : 2, [&] (auto const& w) {
    for (auto const* f : {"", "s://", "s:"}) emit (3, f + gen::join (pieces, w));
  });
}

}  // namespace

void mc_check (unsigned kind, std::string_view history) {
  if (kind == 4) {
    mc::Reader r{history};
    std::string const a{r.str ()}, b{r.str ()};
    auto const da = alone (a), db = alone (b);
    (void)in_child ([&] { return alike (a, b, da, db); }, mc::show (b));
    mc::step (4);
    mc::outcome ("texts alike");
    return;
  }
  if (kind == 7) {
    (void)in_child ([&] { return early (history); }, "operations before main()");
    mc::step (2);
    mc::outcome ("before main");
    return;
  }
  if (kind == 6) {
    (void)in_child ([&] { return placed (history); }, mc::show (history));
    mc::step (mc::Exact::places + 18);
    mc::outcome ("text in every place");
    return;
  }
  if (kind == 5) {
    for (std::size_t k = 1; k < history.size (); k += 2) (void)baseline (static_cast<unsigned char> (history[k]));
    (void)in_child ([&] { return surrounded (history); }, "calls in other surroundings");
    mc::step (history.size () / 2);
    mc::outcome ("history with other surroundings");
    return;
  }
  if (kind == 3) {
    (void)in_child ([&] { return located_text (history); }, mc::show (history));
    mc::step (locales () * 2 - 1);
    mc::outcome ("text in every locale");
    return;
  }
  if (kind == 2) {
    for (std::size_t k = 1; k < history.size (); k += 2) (void)baseline (static_cast<unsigned char> (history[k]));
    (void)in_child ([&] { return located (history); }, "calls in other locales");
    mc::step (history.size () / 2);
    mc::outcome ("history with locales");
    return;
  }
  for (unsigned char i : history) (void)baseline (i);  // outside the child
  (void)in_child ([&] { return kind == 0 ? kept (history) : reused (history); }, describe (history.substr (0, 8)));
  mc::step (history.size ());
  mc::outcome (history.size () < 5 ? "short history" : "long history");
}

namespace {
struct Early {
  Early () {
    char const* const which = std::getenv ("C18_EARLY");
    if (which == nullptr) return;
    std::uint64_t d = 0;
    try {
      d = digest (early_texts[std::strtoul (which, nullptr, 10)]);
    } catch (...) {
      ::_exit (8);
    }
    auto const text = std::to_string (d);
    ::_exit (::write (1, text.data (), text.size ()) == static_cast<ssize_t> (text.size ()) ? 0 : 7);
  }
};
__attribute__ ((init_priority (102))) Early const early_operations;
}  // namespace

MC_MAIN (gen_cases)
