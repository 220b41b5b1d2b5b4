// C21: the uri-split tool. Every case runs the real tool, built from /repo, in a scratch directory.
#include <fcntl.h>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <filesystem>
#include "gen.hpp"

char const* const mc_kinds[] = {"standard input", "file arguments", "pieces"};

extern char** environ;

namespace {

namespace fs = std::filesystem;

struct Scratch {
  fs::path dir;
  Scratch () {
    std::string t = std::string{SCRATCH} + "/c21.XXXXXX";
    fs::create_directories (SCRATCH);
    if (!::mkdtemp (t.data ())) throw std::runtime_error ("mkdtemp");
    dir = t;
  }
  ~Scratch () {
    std::error_code ec;
    fs::remove_all (dir, ec);
  }
};
Scratch& scratch () {
  static Scratch s;
  return s;
}
void write_file (fs::path const& p, std::string_view s) {
  std::ofstream os{p, std::ios::binary};
  os.write (s.data (), static_cast<std::streamsize> (s.size ()));
  os.close ();
  if (!os) throw std::runtime_error ("cannot write " + p.string ());
}
std::string read_file (fs::path const& p) {
  std::ifstream is{p, std::ios::binary};
  return {std::istreambuf_iterator<char>{is}, {}};
}

struct Run {
  std::string out;
  int status = 0;
};
// Standard input is a file, or a pipe from which each read gets one of the pieces.
Run run_tool (std::vector<std::string> const& args, std::optional<std::string> const& input, std::vector<std::string> const& pieces = {}) {
  auto const& d = scratch ().dir;
  int ends[2] = {-1, -1};
  if (!pieces.empty ()) {
    if (pieces.size () > 16 || ::pipe2 (ends, O_DIRECT | O_CLOEXEC) != 0) throw std::runtime_error ("pipe2");
    for (auto const& p : pieces)
      if (::write (ends[1], p.data (), p.size ()) != static_cast<ssize_t> (p.size ())) throw std::runtime_error ("pipe");
    ::close (ends[1]);
  }
  if (input) write_file (d / ".stdin", *input);
  posix_spawn_file_actions_t fa;
  posix_spawn_file_actions_init (&fa);
  posix_spawn_file_actions_addchdir_np (&fa, d.c_str ());
  if (ends[0] >= 0) posix_spawn_file_actions_adddup2 (&fa, ends[0], 0);
  else posix_spawn_file_actions_addopen (&fa, 0, input ? ".stdin" : "/dev/null", O_RDONLY, 0);
  posix_spawn_file_actions_addopen (&fa, 1, ".stdout", O_WRONLY | O_CREAT | O_TRUNC, 0644);
  posix_spawn_file_actions_addopen (&fa, 2, ".stderr", O_WRONLY | O_CREAT | O_TRUNC, 0644);
  std::vector<std::string> a{TOOL};
  a.insert (a.end (), args.begin (), args.end ());
  std::vector<char*> argv;
  for (auto& s : a) argv.push_back (s.data ());
  argv.push_back (nullptr);
  pid_t pid = 0;
  int const e = ::posix_spawn (&pid, TOOL, &fa, nullptr, argv.data (), environ);
  posix_spawn_file_actions_destroy (&fa);
  if (ends[0] >= 0) ::close (ends[0]);
  if (e != 0) throw std::runtime_error ("posix_spawn failed");
  Run r;
  for (int i = 0;; ++i) {
    auto const w = ::waitpid (pid, &r.status, i < 50 ? WNOHANG : 0);
    if (w == pid) break;
    if (i < 50) ::usleep (100);
  }
  r.out = read_file (d / ".stdout");
  mc::step ();
  return r;
}

// ---------------------------------------------------------------- the model
std::string in_quotes (std::optional<std::string> const& s) { return s ? "\"" + *s + "\"" : "None"; }
// Returns whether every line was a URI.
bool report (std::string_view input, std::string& out) {
  while (!input.empty ()) {
    auto const nl = input.find ('\n');
    auto const line = input.substr (0, nl);
    input.remove_prefix (nl == input.npos ? input.size () : nl + 1);
    out += mc::cat ("URI: ", line, '\n');
    auto const c = ref::parse (line, false);
    if (!c) return false;
    out += " scheme: " + in_quotes (c->scheme);
    out += "\n userinfo: " + (c->authority ? in_quotes (c->authority->userinfo) : "None");
    out += "\n host: " + (c->authority ? in_quotes (c->authority->host) : "None");
    out += "\n port: " + (c->authority ? in_quotes (c->authority->port) : "None");
    out += "\n path: " + in_quotes (c->path);
    out += "\n query: " + in_quotes (c->query);
    out += "\n fragment: " + in_quotes (c->fragment) + "\n";
  }
  return true;
}
void compare (Run const& r, std::string const& want, bool ok, std::string const& what) {
  MC_CHECK (WIFEXITED (r.status), what, ": the tool is ended by signal ", WTERMSIG (r.status));
  if (r.out != want) {
    std::size_t i = 0;
    while (i < r.out.size () && i < want.size () && r.out[i] == want[i]) ++i;
    auto const from = i < 60 ? 0 : i - 60;
    mc::fail (mc::cat (what, ": the output differs at byte ", i, ": ", mc::show (r.out.substr (from, 160)), " instead of ",
                       mc::show (want.substr (from, 160))));
  }
  MC_CHECK ((WEXITSTATUS (r.status) == 0) == ok, what, ": exit status ", WEXITSTATUS (r.status));
  mc::outcome (ok ? "success" : "failure");
  mc::state (want);
}

// ---------------------------------------------------------------- cases
std::vector<std::string> const lines{"s:",
                                     "http://user:pw@example.com:8042/over/there?name=ferret#nose",
                                     "s://@h:/?#",
                                     "urn:a:b",
                                     "s://[::1]:1//a//",
                                     "",
                                     "//h/p",
                                     "http://h/\r",
                                     "a b",
                                     "s://h",
                                     "s:/?q",
                                     "s:a/./..#f",
                                     "S+1.-://u@1.2.3.4/%00%fF",
                                     std::string{"s:\0x", 4},
                                     "s:\xC3\xA9",
                                     "\xEF\xBB\xBFs:",
                                     " s:",
                                     "s: "};
// The things an argument can name.
struct Named {
  char const* name;
  int kind;  // 0 file, 1 missing, 2 directory
  std::string contents;
};
std::vector<Named> const named{{"one", 0, "s:\nhttp://u@h:1/a?q#f\n"},
                               {"two words", 0, "urn:x"},
                               {"invalid", 0, "s:ok\n^\ns:not-reached\n"},
                               {"empty", 0, ""},
                               {"missing", 1, ""},
                               {"directory", 2, ""},
                               {"-h", 0, "s://h?\n"},
                               {"blank", 0, "s:\n\ns:\n"},
                               {"-", 0, "s:dash\n"},
                               {"--", 0, "s:dashes"},
                               {"--help", 0, "s:help?\n"},
                               {"http:", 0, "s:named-like-a-uri\n"},
                               {"*", 0, "s:star\n"}};

void stdin_and_file (mc::Emit& emit, std::string const& text) {
  emit (0, text);
  emit (1, mc::Writer{}.u8 (1).u8 (255).str (text).s);
}

void gen_cases (mc::Emit& emit, bool thorough) {
  gen::sequences (lines.size (), thorough ? 4 : 3, [&] (auto const& w) {
    if (w.size () == 4) {
      for (auto i : w)
        if (i > 8) return;
    }
    auto const t = gen::join (lines, w, "\n");
    stdin_and_file (emit, t);
    if (!w.empty ()) stdin_and_file (emit, t + "\n");
  });
  // argument lists
  gen::sequences (named.size (), thorough ? 4 : 3, [&] (auto const& w) {
    if (w.empty ()) return;
    mc::Writer p;
    p.u8 (static_cast<unsigned> (w.size ()));
    for (auto i : w) p.u8 (static_cast<unsigned> (i));
    emit (1, p.s);
  });
  for (unsigned count = 4; count <= 40; ++count)
    for (unsigned special : {0U, 2U, 4U, 8U})
      for (unsigned at : {0U, count / 2, count - 1}) {
        std::string s (count, '\0');
        for (unsigned i = 0; i < count; ++i) s[i] = static_cast<char> (i % 2);
        s[at] = static_cast<char> (special);
        mc::Writer p;
        p.u8 (count);
        for (char c : s) p.u8 (static_cast<unsigned char> (c));
        emit (1, p.s);
      }
  // every short text as the only line
  gen::short_texts (thorough ? 4 : 3, [&] (std::string const& t) { emit (0, t + "\n"); });
  // all valid texts of the component product, many lines at a time
  std::string many;
  std::size_t n = 0;
  gen::product ([&] (std::string const& t) {
    if (!ref::parse (t, false)) return;
    many += t + "\n";
    if (++n % 400 == 0) {
      stdin_and_file (emit, many);
      many.clear ();
    }
  });
  gen::component_words (thorough ? 5 : 3, [&] (std::string const& t) {
    if (!ref::parse (t, false)) return;
    many += t + "\n";
    if (++n % 2000 == 0) {
      stdin_and_file (emit, many);
      many.clear ();
    }
  });
  gen::wellknown ([&] (std::string const& t) {
    if (!ref::parse (t, false)) return;
    many += t + "\n";
    if (++n % 2000 == 0) {
      stdin_and_file (emit, many);
      many.clear ();
    }
  });
  stdin_and_file (emit, many);
  // standard input that arrives in pieces
  for (std::string const t : {"http://u@h:1/a/b?q#f\nurn:a:b\ns:\n", "s:\nbad line\ns:x\n", "s:a\n\nurn:b", "s://h/p"}) {
    auto const pieces = [&] (std::vector<std::size_t> const& cuts) {
      mc::Writer p;
      p.u8 (static_cast<unsigned> (cuts.size () + 1));
      std::size_t from = 0;
      for (auto c : cuts) p.str (t.substr (from, c - from)), from = c;
      p.str (t.substr (from));
      emit (2, p.s);
    };
    pieces ({});
    for (std::size_t a = 1; a < t.size (); ++a) {
      pieces ({a});
      for (std::size_t b = a + 1; b < t.size (); b += thorough ? 1 : 2) pieces ({a, b});
    }
    for (std::size_t from = 1; from + 14 < t.size (); ++from) {
      std::vector<std::size_t> cuts;
      for (std::size_t i = 0; i < 14; ++i) cuts.push_back (from + i);
      pieces (cuts);
    }
  }
  // lines which end about where a buffer may end
  for (unsigned size = 64; size <= 65536; size *= 2)
    for (unsigned n = size - 4; n <= size + 3; ++n)
      for (unsigned from : {0U, 5U}) {
        auto const first = "urn:" + std::string (n - 4 - from, 'x');
        for (auto const* after : {"\nurn:a\ns:b\n", "\n\ns:b\n", "\nurn:a", "\n", ""}) emit (0, (from != 0 ? "s:12\n" : "") + first + after);
      }
  // long lines, and many
  for (unsigned k : {255U, 256U, 4095U, 4096U, 8191U, 8192U, 70000U}) {
    stdin_and_file (emit, "s:" + std::string (k, 'x') + "?" + std::string (k, 'y') + "\nurn:a\n");
    stdin_and_file (emit, "s://h/" + std::string (k, ' ') + "\nurn:a\n");
    std::string l;
    for (unsigned i = 0; i < k / 8; ++i) l += "s:/a\n";
    stdin_and_file (emit, l);
    stdin_and_file (emit, l + "bad\n" + l);
  }
}

}  // namespace

void mc_check (unsigned kind, std::string_view payload) {
  std::string want;
  if (kind == 0) {
    bool const ok = report (payload, want);
    compare (run_tool ({}, std::string{payload}), want, ok, "standard input " + mc::show (payload));
    return;
  }
  mc::Reader r{payload};
  auto const n = r.u8 ();
  if (kind == 2) {
    std::vector<std::string> pieces;
    std::string text, what = "standard input in pieces";
    for (unsigned k = 0; k < n; ++k) {
      pieces.emplace_back (r.str ());
      text += pieces.back ();
      what += ' ' + mc::show (pieces.back ());
    }
    bool const ok = report (text, want);
    compare (run_tool ({}, std::nullopt, pieces), want, ok, what);
    return;
  }
  std::vector<std::string> args;
  bool ok = true;
  std::string what = "arguments";
  auto const& d = scratch ().dir;
  for (unsigned k = 0; k < n; ++k) {
    auto const i = r.u8 ();
    Named const f = i == 255 ? Named{"text", 0, std::string{r.str ()}} : named.at (i);
    args.push_back (f.name);
    if (f.kind == 0) write_file (d / f.name, f.contents);
    if (f.kind == 2) fs::create_directories (d / f.name);
    what += mc::cat (" '", f.name, "'", i == 255 ? mc::show (f.contents) : "");
    if (ok) ok = f.kind == 0 && report (f.contents, want);
  }
  auto const res = run_tool (args, std::string{"s:standard-input-is-not-read\n"});
  compare (res, want, ok, what);
}

MC_MAIN (gen_cases)
