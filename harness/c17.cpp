// C17: operations running at the same time in different threads do not interfere.
//
// The code is compiled with thread instrumentation and runs on the controlled scheduler of
// sched.hpp, each execution in a fresh process that has not called the library before.
#define EVERYTHING_IN_THREADS
#include <sys/mman.h>
#include <sched.h>
#include <sys/wait.h>
#include <unistd.h>
#include "calls.hpp"
#include "everything.hpp"
#include "sched.hpp"

char const* const mc_kinds[] = {"calls", "calls, one text", "every operation on one text"};

namespace {

#ifndef MAX_PREEMPTIONS
#define MAX_PREEMPTIONS 2
#endif
constexpr unsigned max_calls = MAX_PREEMPTIONS > 2 ? 3000 : 300;  // executions of one case
constexpr unsigned max_text = MAX_PREEMPTIONS > 2 ? 600 : 60;

struct Shared {
  sched::Report report;
  sched::Objects objects;
  bool done;
  char failure[4000];
};
Shared& shared () {
  static auto* const p = static_cast<Shared*> (::mmap (nullptr, sizeof (Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  return *p;
}

// Caches which the standard library fills without synchronisation that could be seen here.
void warm_up () {
  static bool done = false;
  if (done) return;
  done = true;
  std::ostringstream os;
  os << 1 << ' ' << 1.5 << ' ' << true << std::hex << 10U << std::endl;
  std::istringstream is ("1 2.5 x");
  int i = 0;
  double d = 0;
  std::string s;
  is >> i >> d >> s;
  auto const& c = std::use_facet<std::ctype<char>> (std::locale::classic ());
  for (int k = 0; k < 256; ++k) {
    (void)c.narrow (static_cast<char> (k), '\0');
    (void)c.widen (static_cast<char> (k));
    (void)c.is (std::ctype_base::alpha, static_cast<char> (k));
  }
  (void)std::filesystem::path{"/a/b"}.string ();
}

// One execution: bodies are made, run as threads under the given choices, and verified.
struct Scenario {
  virtual ~Scenario () = default;
  virtual std::vector<std::function<void ()>> bodies () = 0;
  virtual void verify () = 0;  // throws mc::Fail
};

void execute (std::function<std::unique_ptr<Scenario> ()> const& make, std::vector<std::uint8_t> const& choices, std::string const& what) {
  auto& sh = shared ();
  std::memset (static_cast<void*> (&sh), 0, offsetof (sched::Report, trace));
  sh.done = false;
  sh.failure[0] = 0;
  auto const pid = ::fork ();
  if (pid < 0) throw std::runtime_error ("fork");
  if (pid == 0) {
    // only one thread runs at a time: handing over is cheaper on one processor
    cpu_set_t one;
    CPU_ZERO (&one);
    if (int const cpu = ::sched_getcpu (); cpu >= 0) {
      CPU_SET (static_cast<unsigned> (cpu), &one);
      (void)::sched_setaffinity (0, sizeof one, &one);
    }
    try {
      auto const s = make ();
      auto const b = s->bodies ();
      sched::run (b, choices, sh.report, sh.objects);
      if (!sh.report.race && !sh.report.deadlock) s->verify ();
    } catch (mc::Fail const& x) {
      std::snprintf (sh.failure, sizeof sh.failure, "%s", x.message.c_str ());
    } catch (std::exception const& x) {
      std::snprintf (sh.failure, sizeof sh.failure, "exception: %s", x.what ());
    }
    sh.done = true;
    ::_exit (0);
  }
  int status = 0;
  ::waitpid (pid, &status, 0);
  auto const schedule = [&] {
    std::string r;
    for (unsigned i = 0; i < sh.report.choices; ++i) r += mc::cat (static_cast<unsigned> (sh.report.trace[i].chosen));
    return r.substr (0, 200);
  };
  MC_CHECK (sh.done && WIFEXITED (status) && WEXITSTATUS (status) == 0, what, ": the process ended with status ", status, ", schedule ", schedule (), ' ',
            sh.report.message);
  MC_CHECK (!sh.report.deadlock, what, ": ", sh.report.message, ", schedule ", schedule ());
  MC_CHECK (!sh.report.race, what, ": ", sh.report.message, ", schedule ", schedule ());
  MC_CHECK (sh.failure[0] == 0, what, ": ", sh.failure, ", schedule ", schedule ());
}

// Explores the choices depth first, up to a bound on preemptions.  Returns false if stopped at
// the limit of executions.
bool explore_within (std::function<std::unique_ptr<Scenario> ()> const& make, std::string const& what, unsigned bound, unsigned limit, unsigned& executions) {
  std::vector<std::uint8_t> choices;
  auto& objects = shared ().objects;
  for (;;) {
    objects.grown = false;
    execute (make, choices, what);
    mc::alive ();
    ++executions;
    auto const& r = shared ().report;
    mc::step (r.accesses + r.sync_operations);
    mc::maximum ("synchronisation operations in one execution", r.sync_operations);
    mc::maximum ("synchronisation objects in one case", objects.count);
    mc::maximum ("choices in one execution", r.choices);
    mc::maximum ("accesses in one execution", r.accesses);
    mc::maximum ("locations used by more than one thread in one execution", r.shared_locations);
    std::string schedule = what;
    for (unsigned i = 0; i < r.choices; ++i) schedule += static_cast<char> ('0' + r.trace[i].chosen);
    mc::state (schedule);
    mc::outcome (r.sync_operations == 0 ? "without synchronisation" : "with synchronisation");
    if (executions >= limit) return false;
    if (objects.grown) {  // there are more places to switch than were known: begin again
      choices.clear ();
      continue;
    }
    if (r.overflow) mc::outcome ("more choices than are recorded");
    // the next prefix
    std::vector<unsigned> spent (r.choices + 1, 0);
    for (unsigned i = 0; i < r.choices; ++i) spent[i + 1] = spent[i] + (r.trace[i].costs != 0 && r.trace[i].chosen != 0 ? 1U : 0U);
    int at = static_cast<int> (r.choices) - 1;
    for (; at >= 0; --at) {
      auto const& c = r.trace[at];
      if (c.chosen + 1 >= c.options) continue;
      if (c.costs != 0 && spent[static_cast<unsigned> (at)] + 1 > bound) continue;
      break;
    }
    if (at < 0) return true;
    choices.clear ();
    for (int i = 0; i < at; ++i) choices.push_back (r.trace[i].chosen);
    choices.push_back (static_cast<std::uint8_t> (r.trace[at].chosen + 1));
  }
}
void explore (std::function<std::unique_ptr<Scenario> ()> const& make, std::string const& what, unsigned limit) {
  warm_up ();
  std::memset (static_cast<void*> (&shared ().objects), 0, sizeof (sched::Objects));
  unsigned executions = 0;
  bool complete = explore_within (make, what, MAX_PREEMPTIONS, 60, executions);
  if (!complete && limit > 60) {
    // many schedules: those with few preemptions first
    unsigned bound = 0;
    do {
      complete = explore_within (make, what, bound, limit, executions);
    } while (complete && bound++ < MAX_PREEMPTIONS);
  }
  mc::outcome (complete ? "case explored completely" : "case stopped at the limit of executions");
  mc::maximum ("executions of one case", executions);
}

// ---------------------------------------------------------------- calls
struct Baseline {
  std::string result, arguments;
};
Baseline const& baseline (std::size_t i) {
  static std::map<std::size_t, Baseline> known;
  auto const it = known.find (i);
  if (it != known.end ()) return it->second;
  auto const& e = calls::all ()[i];
  int fd[2];
  if (::pipe (fd) != 0) throw std::runtime_error ("pipe");
  auto const pid = ::fork ();
  if (pid < 0) throw std::runtime_error ("fork");
  if (pid == 0) {
    mc::Writer w;
    try {
      auto c = e.create ();
      c->prepare ();
      c->run ();
      w.str (c->result ()).str (c->arguments ());
    } catch (...) {
      ::_exit (3);
    }
    for (std::size_t at = 0; at < w.s.size ();) {
      auto const n = ::write (fd[1], w.s.data () + at, w.s.size () - at);
      if (n <= 0) ::_exit (3);
      at += static_cast<std::size_t> (n);
    }
    ::_exit (0);
  }
  ::close (fd[1]);
  std::string out;
  char buffer[4096];
  for (;;) {
    auto const n = ::read (fd[0], buffer, sizeof buffer);
    if (n <= 0) break;
    out.append (buffer, static_cast<std::size_t> (n));
  }
  ::close (fd[0]);
  int status = 0;
  ::waitpid (pid, &status, 0);
  MC_CHECK (WIFEXITED (status) && WEXITSTATUS (status) == 0, e.name, " alone: the process ended with status ", status);
  mc::Reader r{out};
  Baseline b;
  b.result = std::string{r.str ()};
  b.arguments = std::string{r.str ()};
  return known.emplace (i, b).first->second;
}

struct Calls final : Scenario {
  std::vector<std::string> lists;  // of each thread
  bool common;
  std::map<std::string, std::string_view> texts;
  std::vector<std::vector<std::unique_ptr<calls::Call>>> live;
  std::vector<std::string> errors;

  Calls (std::vector<std::string> l, bool c) : lists{std::move (l)}, common{c} {}
  std::vector<std::function<void ()>> bodies () override {
    std::vector<std::function<void ()>> r;
    errors.resize (lists.size ());
    for (std::size_t t = 0; t < lists.size (); ++t) {
      live.emplace_back ();
      for (unsigned char i : lists[t]) {
        live.back ().push_back (calls::all ()[i].create ());
        if (common) live.back ().back ()->place.common = &texts;
        live.back ().back ()->prepare ();
      }
    }
    for (std::size_t t = 0; t < lists.size (); ++t)
      r.push_back ([this, t] {
        try {
          for (auto const& c : live[t]) c->run ();
        } catch (std::exception const& x) {
          errors[t] = x.what ();
        }
      });
    return r;
  }
  void verify () override {
    for (std::size_t t = 0; t < lists.size (); ++t) {
      MC_CHECK (errors[t].empty (), "thread ", t, ": exception: ", errors[t]);
      for (std::size_t k = 0; k < live[t].size (); ++k) {
        auto const i = static_cast<unsigned char> (lists[t][k]);
        auto const& b = baseline (i);
        MC_CHECK (live[t][k]->result () == b.result, "thread ", t, ": \"", calls::all ()[i].name, "\" gives ", mc::show (live[t][k]->result ()),
                  " instead of ", mc::show (b.result));
        MC_CHECK (live[t][k]->arguments () == b.arguments, "thread ", t, ": the arguments of \"", calls::all ()[i].name, "\" have become ",
                  mc::show (live[t][k]->arguments ()));
      }
    }
  }
};

// ---------------------------------------------------------------- every operation on one text
struct Everything final : Scenario {
  mc::Exact text;
  bool units;
  std::uint64_t digests[2] = {};
  std::string errors[2];
  Everything (std::string_view t, bool u) : text{t}, units{u} {}
  static std::uint64_t all (std::string_view t, bool units) {
    everything::sink = 0;
    if (units) {
      std::u32string u32;
      std::u16string u16;
      mc::Reader r{t};
      while (!r.empty ()) {
        auto const u = r.u32 ();
        u32 += static_cast<char32_t> (u);
        u16 += static_cast<char16_t> (u);
      }
      everything::unit_operations (u32);
      everything::unit_operations (u16);
    } else {
      everything::text_operations (t);
      everything::component_operations (t);
    }
    return everything::sink;
  }
  std::vector<std::function<void ()>> bodies () override {
    std::vector<std::function<void ()>> r;
    for (unsigned t = 0; t < 2; ++t)
      r.push_back ([this, t] {
        try {
          digests[t] = all (text.view (), units);
        } catch (mc::Fail const& x) {
          errors[t] = x.message;
        } catch (std::exception const& x) {
          errors[t] = x.what ();
        }
      });
    return r;
  }
  void verify () override {
    for (unsigned t = 0; t < 2; ++t) MC_CHECK (errors[t].empty (), "thread ", t, ": ", errors[t]);
    auto const alone = all (text.view (), units);
    for (unsigned t = 0; t < 2; ++t) MC_CHECK (digests[t] == alone, "thread ", t, ": the results have digest ", digests[t], " instead of ", alone);
  }
};

std::vector<unsigned> selection (std::size_t per_kind) {
  std::map<std::string, std::size_t> seen;
  std::vector<unsigned> r;
  auto const& all = calls::all ();
  for (std::size_t i = 0; i < all.size (); ++i) {
    auto const kind = all[i].name.substr (0, all[i].name.find (' '));
    if (seen[kind]++ < per_kind) r.push_back (static_cast<unsigned> (i));
  }
  return r;
}

void gen_cases (mc::Emit& emit, bool thorough) {
  auto const n = static_cast<unsigned> (calls::all ().size ());
  if (n > 254) throw std::runtime_error ("too many calls for a payload of bytes");
  auto const c = [] (unsigned i) { return std::string (1, static_cast<char> (i)); };
  std::string const bar (1, '\xFF');  // between the threads
  // every pair of calls
  for (unsigned a = 0; a < n; ++a)
    for (unsigned b = a; b < n; ++b) {
      emit (0, c (a) + bar + c (b));
      emit (1, c (a) + bar + c (b));
    }
  // three threads, and two threads with two calls each
  auto const few = selection (1);
  for (auto i : few)
    for (auto j : few)
      for (auto k : few)
        if (i <= j && j <= k) emit (1, c (i) + bar + c (j) + bar + c (k));
  auto const some = thorough ? few : std::vector<unsigned> (few.begin (), few.begin () + static_cast<std::ptrdiff_t> (std::min<std::size_t> (few.size (), 4)));
  for (auto i : some)
    for (auto j : few)
      for (auto k : some)
        for (auto l : few) {
          if (!emit.mine ()) {
            emit.skip ();
            continue;
          }
          emit (1, c (i) + c (j) + bar + c (k) + c (l));
        }
  // all operations on one text
  std::vector<std::string> const classes{"s", ":", "/", "?", "#", "@", "[", "]", ".", "1", "%", "a", std::string (1, '\0'), "\xC3", " ", "x", "n", "-", "\xFF", "v"};
  std::vector<std::string> const pieces{"xn--", "%41", "%", "..", "/", "//", ":", "@", "[", "::", "]", "a-9", "\xC3\xBC", "999999999999", "1.2.3.4", "v1.", "\xF0\x9F"};
  auto const seq = [&] (std::vector<std::string> const& a, std::size_t len, std::string const& prefix) {
    gen::sequences (a.size (), len, [&] (auto const& w) {
      if (!emit.mine ()) return emit.skip ();
      emit (2, "t" + prefix + gen::join (a, w));
    });
  };
  seq (classes, thorough ? 3 : 2, "");
  seq (pieces, thorough ? 3 : 2, "s:");
  for (auto const* p : {"s://", "s://[", "s://xn--", "s:/"}) seq (classes, thorough ? 2 : 1, p);
  for (unsigned b = 0; b < 256; ++b)
    for (auto const* p : {"", "s://h/%", "s://u@h.xn--"}) emit (2, "t" + std::string{p} + c (b));
  for (auto const& r : {"a", "/", "a/../", "1:", "%41", "\xC3\xBC.", "xn--a.", "\xF0"})
    for (unsigned len : {20U, 70U, 300U}) {
      std::string t = "ts://h/";
      for (unsigned i = 0; i < len; ++i) t += r;
      emit (2, t);
      emit (2, "ts://" + t.substr (8) + "/");
    }
  std::vector<std::uint32_t> const units{0, 0x41, 0x80, 0x7FF, 0xD800, 0xDC00, 0xFFFD, 0x10000, 0x10FFFF, 0x110000, 0xFFFFFFFF};
  gen::sequences (units.size (), thorough ? 3 : 2, [&] (auto const& w) {
    if (!emit.mine ()) return emit.skip ();
    mc::Writer p;
    for (auto i : w) p.u32 (units[i]);
    emit (2, "u" + p.s);
  });
}

}  // namespace

void mc_check (unsigned kind, std::string_view payload) {
  if (kind == 2) {
    bool const units = payload[0] == 'u';
    auto const t = payload.substr (1);
    explore ([&] { return std::make_unique<Everything> (t, units); }, "every operation on " + mc::show (t.substr (0, 100)), max_text);
    return;
  }
  std::vector<std::string> lists (1);
  std::string what;
  for (char const ch : payload)
    if (ch == '\xFF') {
      lists.emplace_back ();
      what += " || ";
    } else {
      lists.back () += ch;
      what += calls::all ()[static_cast<unsigned char> (ch)].name + "; ";
      (void)baseline (static_cast<unsigned char> (ch));  // before the fork
    }
  explore ([&] { return std::make_unique<Calls> (lists, kind == 1); }, what, max_calls);
}

MC_MAIN (gen_cases)
