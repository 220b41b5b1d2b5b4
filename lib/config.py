"""The registered checks."""
import glob, os, shutil, subprocess, sys
import runner
sys.path.insert(0, os.path.join(runner.ROOT, "model"))

def grammar_inc(names):
    def prepare(tier):
        import grammar
        d = os.path.join(runner.BUILD, "gen-" + "-".join(names))
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "grammar.inc")
        tmp = "%s.%d" % (path, os.getpid())
        grammar.write_all(tmp, names)
        os.replace(tmp, path)
        return [d]
    return prepare

def tool_flags(tier):
    """Builds uri-split from /repo and tells the harness where it is."""
    tool = runner.build(sorted(glob.glob(runner.REPO + "/tools/uri-split/*.cpp")), "plain", name="uri-split")
    scratch = os.path.join(runner.BUILD, "run", "C21.scratch")
    shutil.rmtree(scratch, ignore_errors=True)
    return ['-DTOOL="%s"' % tool, '-DSCRATCH="%s"' % scratch]

def locale_flags(tier):
    """Compiles locales whose characters are classified differently; without localedef only C++ locales are used."""
    d = os.path.join(runner.BUILD, "locale")
    os.makedirs(d, exist_ok=True)
    names = []
    for lang, cs in (("en_US", "ISO-8859-1"), ("tr_TR", "ISO-8859-9"), ("ru_RU", "KOI8-R"), ("tr_TR", "UTF-8"), ("ja_JP", "EUC-JP")):
        name = lang + "." + cs
        if not os.path.isdir(os.path.join(d, name)):
            tmp = os.path.join(d, "tmp%d" % os.getpid(), name)
            os.makedirs(os.path.dirname(tmp), exist_ok=True)
            try:
                subprocess.run(["localedef", "-f", cs, "-i", lang, tmp], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
                os.rename(tmp, os.path.join(d, name))
            except (OSError, subprocess.TimeoutExpired):
                pass
            shutil.rmtree(os.path.dirname(tmp), ignore_errors=True)
        if os.path.isdir(os.path.join(d, name)):
            names.append(name)
    return ['-DLOCALE_DIR="%s"' % d, '-DLOCALES="%s"' % " ".join(names)]

CHECKS = {}

CHECKS["C01"] = dict(
    harness="c01.cpp", level="model_checking", prepare=grammar_inc(["uri", "ref"]),
    states="pairs (state of the URI automaton, state of the URI-reference automaton) reached after some prefix",
    transitions="input symbols fed to the automata (every word is also run through split and split_reference)",
    bound=dict(quick="W-method with 1 extra state; well-known names; every word of up to 4 letters in each component (ports: 7)", thorough="W-method with 2 extra states; well-known names; every word of up to 6 letters in each component (ports: 9)"))
CHECKS["C02"] = dict(harness="c02.cpp", level="model_checking",
    states="shapes of results (which components are present, empty or not, number of segments up to 5)",
    transitions="calls of split and split_reference",
    bound=dict(quick="all texts of up to 5 structural tokens, component product, repetition up to 4096; well-known names; every word of up to 5 letters in each component (ports: 8)",
               thorough="all texts of up to 7 structural tokens, component product, repetition up to 65537; well-known names; every word of up to 6 letters in each component (ports: 9)"))
CHECKS["C03"] = dict(harness="c03.cpp", level="model_checking",
    states="distinct composed texts", transitions="compositions",
    bound=dict(quick="texts of up to 5 structural tokens, component product; values with up to 2 segments; well-known names; every word of up to 5 letters in each component (ports: 8)",
               thorough="texts of up to 7 structural tokens, component product; values with up to 4 segments; well-known names; every word of up to 6 letters in each component (ports: 9)"))
CHECKS["C06"] = dict(harness="c06.cpp", level="model_checking",
    states="distinct normalised paths", transitions="calls of remove_dot_segments",
    bound=dict(quick="all segment sequences of length 6 over 7 segments, 8 over 4; short sequences around runs of every length to 70, and to 1000; well-known names", thorough="length 8 over 7 segments, 10 over 4; short sequences around runs of every length to 300, and to 1000; well-known names"))
CHECKS["C04"] = dict(harness="c04.cpp", level="model_checking",
    prepare=grammar_inc(["scheme", "userinfo", "host", "port", "segment", "query"]),
    states="distinct texts of valid values", transitions="calls of valid(), compose and split",
    bound=dict(quick="W-method per component (2 extra states; host 1), products with up to 2 segments, components of every length to 130 and to 65536; well-known names; every word of up to 5 letters in each component (ports: 8)",
               thorough="W-method per component (3 extra states; host 2), products with up to 4 segments, components of every length to 600 and to 65536; well-known names; every word of up to 6 letters in each component (ports: 9)"))
CHECKS["C05"] = dict(harness="c05.cpp", level="model_checking",
    states="distinct target URIs", transitions="calls of join (both forms)",
    bound=dict(quick="32 bases x all references of up to 4 tokens; base paths of up to 6 tokens; chains of 3 joins; bases and references of many segments or long components (every count to 40, and to 1000); well-known names; every word of up to 3 letters in each component (ports: 6)",
               thorough="32 bases x all references of up to 6 tokens; base paths of up to 8 tokens; chains of 4 joins; bases and references of many segments or long components (every count to 300, and to 1000); well-known names; every word of up to 5 letters in each component (ports: 8)"))
CHECKS["C07"] = dict(harness="c07.cpp", level="model_checking",
    states="distinct values compared", transitions="comparisons",
    bound=dict(quick="all pairs of about 350 values, all triples of about 90, all pairs of split texts of up to 3 tokens; all texts that differ in one well-known name; all pairs of words in one component",
               thorough="as quick, with texts of up to 4 tokens and differences at every position up to length 200; all texts that differ in one well-known name; all pairs of words in one component"))
CHECKS["C22"] = dict(harness="c22.cpp", level="model_checking",
    states="distinct filesystem paths", transitions="conversions",
    bound=dict(quick="all sequences of up to 5 of 10 segments and 4 of 10 with separators; names of every length to 150 and to 5000; well-known names", thorough="all sequences of up to 6 of 10 segments and 5 of 10 with separators; names of every length to 600 and to 5000; well-known names"))
CHECKS["C08"] = dict(harness="c08.cpp", level="model_checking",
    states="distinct outputs (by set, first 12 bytes and length)", transitions="calls of the encoding and decoding functions",
    bound=dict(quick="8 sets x all strings of up to 2 bytes, of 3 class representatives (28 classes), one odd byte in texts of up to 70",
               thorough="8 sets x all strings of up to 2 bytes, of 4 class representatives (28 classes), one odd byte in texts of up to 300"))
CHECKS["C09"] = dict(harness="c09.cpp", level="model_checking", flavour="asan",
    states="pairs of iterator positions per text, and distinct outputs", transitions="iterator operations and decodings",
    bound=dict(quick="every escape of two bytes, all strings of up to 6 over 8 bytes, all sequences of 5 operations on two iterators and of 4 on the lives of two views; six character types",
               thorough="every escape of two bytes, all strings of up to 8 over 8 bytes, all sequences of 6 operations on two iterators and of 5 on the lives of two views; six character types"))
CHECKS["C10"] = dict(harness="c10.cpp", level="model_checking",
    states="distinct encodings and decoding results", transitions="calls of encode and decode",
    bound=dict(quick="all sequences of up to 5 of 12 code points, every code point in 3 contexts, texts of up to 16484 code points; all strings of up to 3 of 38 bytes and 6 of 9, in six character types",
               thorough="all sequences of up to 6 of 12 code points, every code point in 3 contexts, texts of up to 262244 code points; all strings of up to 4 of 38 bytes and 7 of 9"))
CHECKS["C11"] = dict(harness="c11.cpp", level="model_checking", flavour="asan",
    states="distinct encoded values", transitions="calls of encode and decode",
    bound=dict(quick="component products with up to 2 segments, hosts of up to 5 of 10 pieces, up to 45 segments with every pair needing encoding, chosen pairs of up to 1000; components of every length to 150 and to 4096; well-known names",
               thorough="component products with up to 3 segments, hosts of up to 7 of 10 pieces, up to 100 segments with every pair needing encoding, chosen pairs of up to 1000; components of every length to 600 and to 4096; well-known names"))
CHECKS["C12"] = dict(harness="c12.cpp", level="model_checking", flavour="asan",
    states="distinct decoded values and failing hosts", transitions="calls of decode",
    bound=dict(quick="component products with up to 2 segments, hosts of up to 3 of 17 labels and of up to 5 of 9 pieces, up to 45 segments, chosen pairs of up to 1000; components of every length to 150 and to 4096; well-known names",
               thorough="component products with up to 3 segments, hosts of up to 4 of 17 labels and of up to 7 of 9 pieces, up to 100 segments, chosen pairs of up to 1000; components of every length to 600 and to 4096; well-known names"))
CHECKS["C16"] = dict(harness="c16.cpp", level="model_checking", flavour="asan",
    states="pairs of lengths and positions", transitions="calls of find_last and starts_with",
    bound=dict(quick="all sequences of up to 7 over 3 values and 4 targets; all pairs of sequences of up to 5 over 3 values; about 20 range types; long sequences to 1000; all pairs of 8 element types and 8 value types with the values around the limits of each; sequences of up to 4 of six types with an equality of their own",
               thorough="all sequences of up to 9 over 3 values and 4 targets; all pairs of sequences of up to 6 over 3 values; about 20 range types; long sequences to 1000; all pairs of 8 element types and 8 value types with the values around the limits of each; sequences of up to 4 of six types with an equality of their own"))
CHECKS["C13"] = dict(harness="c13.cpp", level="model_checking", flavour="asan",
    states="decoder states per direction, and blocks of scalar values", transitions="code units fed to transcoders and views",
    bound=dict(quick="all scalar values x 9 directions x 3 interfaces; every byte from every decoder state; all sequences of up to 3 of 26 bytes, 4 of 10 bytes, 3 of 14 and 5 of 6 UTF-16 units, 3 of 21 UTF-32 units; texts of every length to 70 and to 65537 with one ill-formed place anywhere; all sequences of 4 operations on two iterators of views of 9 texts and of 3 on the lives of two views; every scalar value before and after each of 32 special ones, to and from UTF-32; all interleavings of two transcoders over 36 pairs of streams",
               thorough="all scalar values x 9 directions x 3 interfaces; every byte and UTF-16 unit from every decoder state; all sequences of up to 4 of 26 bytes, 6 of 10 bytes, 5 of 14 and 7 of 6 UTF-16 units, 4 of 21 UTF-32 units; texts of every length to 140 and to 65537 with one ill-formed place anywhere; all sequences of 5 operations on two iterators of views of 9 texts and of 5 on the lives of two views; every scalar value before and after each of 32 special ones, in all directions; all interleavings of two transcoders over 36 pairs of streams"))
CHECKS["C14"] = dict(harness="c14.cpp", level="model_checking", flavour="asan",
    states="encoding, mark, bytes after it, partial and well-formed", transitions="bytes fed to transcoders and views",
    bound=dict(quick="all streams of up to 4 of 12 bytes; after each mark up to 3 of 12 and 5 of 6 bytes; every byte at every place of marks and units; all pairs of 20 scalar values in every encoding, cut anywhere; long streams to 65537 characters; every scalar value before and after each of 32 special ones, and all sequences of up to 3 (thorough: 4) of these, in every encoding; all interleavings of two transcoders over 36 pairs of streams",
               thorough="all streams of up to 6 of 12 bytes; after each mark up to 5 of 12 and 7 of 6 bytes; every byte at every place of marks and units; all pairs of 20 scalar values in every encoding, cut anywhere; long streams to 65537 characters; every scalar value before and after each of 32 special ones, and all sequences of up to 3 (thorough: 4) of these, in every encoding; all interleavings of two transcoders over 36 pairs of streams"))
CHECKS["C15"] = dict(harness="c15.cpp", level="model_checking",
    states="results of programs: success, length and actions", transitions="rules matched",
    bound=dict(quick="all programs with one or two steps (or choices) over characters, one step over any of those (also between characters), three and four simple steps, choices with a fixed set of partners, a family nested three deep; texts of up to 4 (small programs: 7) of two characters; every character matcher on every byte; repetition up to 1000; all histories of 3 of 42 and 4 of 17 operations that continue, finish, copy and move two rules",
               thorough="as quick, with five simple steps, every pair of small programs as choice and as sequence, and histories of 4 of 42 and 5 of 17 operations on two rules"))
CHECKS["C18"] = dict(harness="c18.cpp", level="model_checking", prepare_flags=locale_flags,
    states="distinct results of the calls", transitions="calls made in histories",
    bound=dict(quick="all histories of up to 2 of the representative calls and of 3 of one call of each kind, with results kept and with storage reused; all calls in one history from each start, each call 1000 times and then every call; against fresh-process baselines; every call, every two of one of each kind, and all operations on texts with each byte in 17 contexts under 6 other process-wide locales; every call under other errno values, rounding modes, directories and environments, in an ended thread, while an exception propagates and in its handler; operations before main(); every text of up to 70 bytes with one odd byte at each distance from an aligned address and between other bytes; texts that differ in one byte one after the other at the same address",
               thorough="as quick, with all histories of 4 calls of one of each kind and 3 of three of each kind"))
CHECKS["C19"] = dict(harness="c19.cpp", level="fault_enumeration", flavour="asan",
    states="calls x failing allocations x outcome, where a failure was injected", transitions="allocations made while failures are armed",
    rule="one execution per call, failing allocation and mode; non-trivial if an allocation did fail in it",
    bound=dict(quick="every allocation of every representative call, also with long arguments, fails alone, and with all later ones",
               thorough="as quick, and every pair of failures up to 60 allocations apart"))
CHECKS["C21"] = dict(harness="c21.cpp", level="model_checking", prepare_flags=tool_flags,
    states="distinct outputs", transitions="runs of the tool",
    bound=dict(quick="all inputs of up to 3 of 18 lines with and without a final newline, as standard input and as file; all lists of up to 3 of 13 arguments; every text of up to 3 tokens; all valid texts of the component product; long lines, lines ending within 4 bytes of every power of two to 65536; standard input cut at every one and two places; well-known names; every word of up to 3 letters in each component (ports: 6)",
               thorough="all inputs of up to 3 of 18 and 4 of 9 lines with and without a final newline, as standard input and as file; all lists of up to 4 of 13 arguments; every text of up to 4 tokens; all valid texts of the component product; long lines, lines ending within 4 bytes of every power of two to 65536; standard input cut at every one and two places; well-known names; every word of up to 5 letters in each component (ports: 8)"))
CHECKS["C23"] = dict(harness="c23.cpp", level="model_checking", flavour="asan",
    states="encodings and lengths in units and characters, and blocks of code units", transitions="calls of length, index and the classifiers",
    bound=dict(quick="all texts of up to 4 of 10 boundary characters in 3 encodings, every index, 12 kinds of range and iterator; texts of up to 65537 characters; every UTF-8 and UTF-16 unit, every UTF-32 unit up to 0x120FFF, blocks of the rest",
               thorough="as quick, with texts of up to 5, and a block of 4096 UTF-32 units at every multiple of 65536"))
CHECKS["C24"] = dict(harness="c24.cpp", level="fault_enumeration", flavour="asan",
    states="operations, number of callback calls and results", transitions="operations run with one failing call of the caller's code",
    rule="one execution per operation and failing call of the caller's code; non-trivial if that call was reached",
    bound=dict(quick="every call of the caller's code fails: rule programs of one and two steps and some of three, on all texts of up to 4 of two characters; streams failing after every byte for 1949 values; searches over sequences of up to 5; text operations on all texts of up to 4 of 8 bytes",
               thorough="as quick, with more nested programs and texts of up to 5; searches over sequences of up to 7"))
CHECKS["C20"] = dict(harness="c20.cpp", level="model_checking", flavour="asan",
    flags=["-D__NO_INLINE__", "-fno-builtin", "-D_GLIBCXX_DEBUG"],
    states="digests of the results of all operations on one input (mod 65536)", transitions="operations applied under the monitors",
    bound=dict(quick="all texts of up to 3 of 20 bytes and 3 of 17 pieces, alone and as host or path; every byte in 8 contexts; a fifth of all pairs of bytes; code units up to 3 of 16; 34 pieces repeated up to 4000 times in 9 contexts",
               thorough="all texts of up to 4 of 20 bytes and 4 of 17 pieces, alone, and 3 as host or path; every byte in 8 contexts; all pairs of bytes; code units up to 4 of 16; 34 pieces repeated up to 20000 times in 9 contexts"))

CHECKS["C17"] = dict(harness="c17.cpp", level="model_checking", compiler="clang++", plain_sources=["sched.cpp"],
    prepare_flags=lambda tier: ["-fsanitize=thread", "-include", runner.ROOT + "/harness/instrument.hpp"] + (["-DMAX_PREEMPTIONS=3"] if tier == "thorough" else []),
    link=["-rdynamic", "-ldl", "-lpthread"],
    states="distinct schedules", transitions="memory accesses and synchronisation operations of executed schedules",
    bound=dict(quick="every pair of the representative calls, with and without a common input text; every three threads and (4 x all) two threads with two calls of one of each kind; two threads doing every operation on each of 1700 texts; at most 2 preemptions, 300 executions of one case (text: 60)",
               thorough="as quick, with all two threads with two calls of one of each kind, texts of up to 3 pieces, 3 preemptions, 3000 executions of one case (text: 600)"))

# the transcoders are also compiled as C++17
for _c in ("C13", "C14", "C23"):
    CHECKS[_c]["variants"] = [("cxx17.cpp", ["-std=c++17", "-DICUBABY_INSIDE_NS=as_cxx17"])]
# these are run twice: with the library's assertions (and, where given, the sanitizers), and as shipped
for _c in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C22", "C23"):
    CHECKS[_c]["more_flavours"] = ["release"] + (["cxx23"] if _c in ("C09", "C16") else [])
# nothing may depend on what the standard leaves open: the sign of plain char, the order in which arguments are evaluated
for _c in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C22", "C23"):
    CHECKS[_c]["more_flavours"].append ("clang")
