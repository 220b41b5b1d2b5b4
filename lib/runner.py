"""Build-and-run support shared by all checks."""
import array, fcntl, glob, hashlib, json, mmap, os, signal, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, ".build")
NPROC = max(1, min(os.cpu_count() or 8, 8))
STALL_S = 40          # no progress for this long: the current case is re-run alone
ALONE_S = 120         # ... with this limit, before it is called a hang
SHARD_LIMIT_S = {"quick": 420, "thorough": 6 * 3600}

COMMON = ["-std=c++20", "-g1", "-I%s/include" % REPO, "-I%s/harness" % ROOT]
FLAVOURS = {
    # asserts stay on (no NDEBUG); the library's own assertions are part of the oracle
    "plain": ["g++", "-O1", "-D_GLIBCXX_ASSERTIONS"],
    "asan": ["g++", "-O1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined",
             "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    # as it is shipped: optimised, and without the assertions (nothing may depend on them being evaluated)
    "release": ["g++", "-O2", "-DNDEBUG"],
    # as a newer program sees it: some functions are then the standard library's
    "cxx23": ["g++", "-O1", "-D_GLIBCXX_ASSERTIONS"],
    # by another compiler, and as on the many machines on which plain char is unsigned
    "clang": ["clang++", "-O1", "-funsigned-char", "-D_GLIBCXX_ASSERTIONS"],
}

BUILD_NAMES = {"release": "optimised, without assertions", "cxx23": "C++23", "clang": "clang, with unsigned char"}

def repo_sources():
    return sorted(glob.glob(REPO + "/lib/**/*.cpp", recursive=True))

def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h

def repo_headers():
    r = []
    for ext in ("hpp", "h", "inc", "ipp"):
        r += glob.glob(REPO + "/include/**/*." + ext, recursive=True)
        r += glob.glob(REPO + "/lib/**/*." + ext, recursive=True)
    return r

class BuildError(Exception):
    pass

def compile_objects(jobs):
    """jobs: list of (cmd, out). Compiles those whose output does not exist yet."""
    def one(job):
        cmd, out = job
        if os.path.exists(out):
            return None
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = "%s.%d.tmp" % (out, os.getpid())
        r = subprocess.run(cmd + ["-o", tmp], capture_output=True, text=True)
        if r.returncode != 0:
            return "%s\n%s" % (" ".join(cmd), r.stderr[-6000:])
        os.rename(tmp, out)
        return None
    with ThreadPoolExecutor(NPROC) as pool:
        errors = [e for e in pool.map(one, jobs) if e]
    if errors:
        raise BuildError("\n".join(errors))

def prune_build():
    """Keep the build cache small: drop the oldest entries."""
    try:
        ents = [os.path.join(BUILD, "obj", e) for e in os.listdir(os.path.join(BUILD, "obj"))]
    except FileNotFoundError:
        return
    ents.sort(key=lambda p: os.path.getmtime(p), reverse=True)
    for p in ents[400:]:
        try:
            os.unlink(p)
        except OSError:
            pass

def build(sources, flavour="plain", extra=(), link=(), extra_deps=(), name=None, compiler=None, std_flags=None, plain_sources=(), variants=()):
    """Compile the given sources together with the library; return the executable path.
    plain_sources are compiled without the extra flags; variants are pairs of a source and more flags."""
    flags = list(FLAVOURS[flavour])
    if compiler:
        flags[0] = compiler
    base = flags + (COMMON if std_flags is None else std_flags) + (["-std=c++23"] if flavour == "cxx23" else [])
    flags = base + list(extra)
    deps = repo_headers()
    common = tree_hash(deps + glob.glob(ROOT + "/harness/*.hpp") + list(extra_deps))
    common.update("\0".join(flags).encode())
    jobs, objs = [], []
    more = dict(variants)
    for src in list(repo_sources()) + list(sources) + list(plain_sources) + list(more):
        h = common.copy()
        h.update("\0".join(more.get(src, ())).encode())
        with open(src, "rb") as f:
            h.update(src.encode() + f.read())
        out = os.path.join(BUILD, "obj", h.hexdigest()[:24] + ".o")
        jobs.append(((base + ["-O2"] if src in plain_sources else flags + list(more.get(src, ()))) + ["-c", src], out))
        objs.append(out)
    compile_objects(jobs)
    h = hashlib.sha256("\0".join(objs + list(link)).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "obj", h + "." + (name or "exe"))
    compile_objects([((base if plain_sources else flags) + objs + list(link), exe)])
    return exe

# ------------------------------------------------------------------ known findings
def known_findings(pid):
    """Lines of known_findings.txt: 'finding: property=ID signature=SIG <text>'."""
    out = {}
    try:
        with open(os.path.join(ROOT, "known_findings.txt")) as f:
            for line in f:
                line = line.strip()
                if not line.startswith("finding: property=%s " % pid):
                    continue
                rest = line[len("finding: property=%s " % pid):]
                sig, _, text = rest.partition(" ")
                assert sig.startswith("signature="), line
                out[sig[len("signature="):]] = text
    except FileNotFoundError:
        pass
    return out

# ------------------------------------------------------------------ shard execution
class Shard:
    def __init__(self, exe, i, n, tier, rundir, known, args=(), upto=None, tag=""):
        self.i = i
        self.state = os.path.join(rundir, "state%s.%d" % (tag, i))
        self.out = os.path.join(rundir, "out%s.%d.json" % (tag, i))
        self.log = os.path.join(rundir, "log%s.%d" % (tag, i))
        for p in (self.state, self.out):
            if os.path.exists(p):
                os.unlink(p)
        cmd = [exe, "--shard", str(i), "--nshards", str(n), "--tier", tier,
               "--state", self.state, "--out", self.out, "--known", ",".join(known)]
        if upto is not None:
            cmd += ["--upto", str(upto)]
        else:
            cmd += ["--deadline", str(SHARD_LIMIT_S[tier])]
        cmd += list(args)
        self.cmd = cmd
        env = dict(os.environ, LC_ALL="C", ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:allocator_may_return_null=1",
                   UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:abort_on_error=1")
        self.proc = subprocess.Popen(cmd, stdout=open(self.log, "w"), stderr=subprocess.STDOUT, env=env,
                                     start_new_session=True)
        self.seq = -1
        self.progress = time.time()

    def current(self):
        """(seq, index, kind, payload) of the case being executed."""
        try:
            with open(self.state, "rb") as f:
                b = f.read(24)
                if len(b) < 24:
                    return None
                seq, index, kind, ln = struct.unpack("<QQII", b)
                return seq, index, kind, f.read(min(ln, 1 << 20)), ln
        except OSError:
            return None

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        self.proc.wait()

    def tail(self, n=3000):
        try:
            with open(self.log, "rb") as f:
                return f.read()[-n:].decode("utf-8", "replace")
        except OSError:
            return ""

def replay_case(exe, kind, payload, path, limit=ALONE_S, args=()):
    """Run one case alone. Returns (reproduced, text)."""
    with open(path, "w") as f:
        f.write("%d %s\n" % (kind, payload.hex() or "-"))
    env = dict(os.environ, LC_ALL="C", ASAN_OPTIONS="abort_on_error=1:detect_leaks=0",
               UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:abort_on_error=1")
    try:
        r = subprocess.run([exe, "--replay", path] + list(args), capture_output=True, timeout=limit, env=env)
    except subprocess.TimeoutExpired:
        return True, "does not terminate: stopped after %d s" % limit
    text = (r.stdout + r.stderr).decode("utf-8", "replace")[-4000:]
    return r.returncode != 0, "exit status %d\n%s" % (r.returncode, text)

def write_replay(pid, body):
    d = os.path.join(BUILD, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s.txt" % pid)
    with open(p, "w") as f:
        f.write(body)
    return p

def run_shards(pid, exe, tier, nshards=NPROC, args=(), limit=None):
    """Returns dict(result=..., violation=None or text, merged counters)."""
    rundir = os.path.join(BUILD, "run", pid)
    os.makedirs(rundir, exist_ok=True)
    known = known_findings(pid)
    shards = [Shard(exe, i, nshards, tier, rundir, known, args) for i in range(nshards)]
    live = list(shards)
    bad = []            # (shard, why)
    incomplete = []
    t0 = time.time()
    limit = limit or SHARD_LIMIT_S[tier] + 60
    while live:
        time.sleep(0.05)
        now = time.time()
        for s in list(live):
            rc = s.proc.poll()
            if rc is not None:
                live.remove(s)
                if rc == 0 and os.path.exists(s.out):
                    continue
                bad.append((s, "exit status %d" % rc))
                continue
            cur = s.current()
            if cur and cur[0] != s.seq:
                s.seq, s.progress = cur[0], now
            if now - s.progress > STALL_S:
                s.kill()
                live.remove(s)
                bad.append((s, "stalled"))
            elif now - t0 > limit:
                s.kill()
                live.remove(s)
                incomplete.append(s)
        if bad:
            # the first failure decides: let the others finish for at most a moment
            end = time.time() + 1.0
            while live and time.time() < end:
                time.sleep(0.05)
                for s in list(live):
                    if s.proc.poll() is not None:
                        live.remove(s)
                        if s.proc.returncode != 0:
                            bad.append((s, "exit status %d" % s.proc.returncode))
            for s in live:
                s.kill()
            live = []
    merged = merge(shards)
    merged["incomplete_shards"] = len(incomplete) + merged["cut"]
    if not bad:
        return None, merged
    return confirm(pid, exe, tier, nshards, args, rundir, known, bad), merged

def confirm(pid, exe, tier, nshards, args, rundir, known, bad):
    notes = []
    for s, why in sorted(bad, key=lambda b: b[0].i):
        case = None
        message = why
        try:
            with open(s.out) as f:
                o = json.load(f)
            if o.get("failed"):
                case = (o["fail_index"], o["fail_kind"], bytes.fromhex(o["fail_payload"]))
                message = o["fail_message"]
        except (OSError, ValueError):
            pass
        full = True
        if case is None:
            cur = s.current()
            if cur is None:
                notes.append("shard %d: %s before its first case\n%s" % (s.i, why, s.tail()))
                # reproduce the whole shard below
                case = (None, None, None)
            else:
                case = (cur[1], cur[2], cur[3])
                full = cur[4] <= len(cur[3])
        index, kind, payload = case
        if kind is not None and full:
            path = os.path.join(rundir, "case.%d" % s.i)
            again, text = replay_case(exe, kind, payload, path, args=args)
            if again:
                body = ("property %s\nfailing case, replayed on its own.\n\n%s\n\n%s\n\nreplay with:\n"
                        "  printf '%d %s\\n' > /tmp/case && %s --replay /tmp/case %s\n"
                        % (pid, message, text, kind, payload.hex()[:100000] or "-", exe, " ".join(args)))
                return dict(message=message, detail=text, replay=write_replay(pid, body))
        # Not on its own: it may need the calls before it.  Run the same shard again.
        t = Shard(exe, s.i, nshards, tier, rundir, known, args, upto=index, tag=".again")
        start, seq, progress = time.time(), -1, time.time()
        stalled = False
        while t.proc.poll() is None:
            time.sleep(0.05)
            cur = t.current()
            if cur and cur[0] != seq:
                seq, progress = cur[0], time.time()
            if time.time() - progress > ALONE_S or time.time() - start > 700:
                stalled = time.time() - progress > ALONE_S
                t.kill()
                break
        failed_again = stalled or t.proc.returncode not in (0, None, -signal.SIGKILL)
        if failed_again:
            body = ("property %s\nfails after the cases before it in the same process (not on its own).\n\n%s\n\n%s\n\n"
                    "replay with:\n  %s\n" % (pid, message, t.tail(), " ".join(t.cmd)))
            return dict(message=message + " (depends on earlier calls)", detail=t.tail(), replay=write_replay(pid, body))
        notes.append("shard %d: %s: %s - did not happen again on replay, not reported" % (s.i, why, message))
    return dict(message=None, notes=notes)

def merge(shards):
    m = dict(cases=0, generated=0, transitions=0, states=0, states_capped=False, classes={}, kinds={}, samples={},
             known={}, known_example={}, maxima={}, finished_shards=0, cut=0)
    states = set()
    for s in shards:
        try:
            with open(s.out) as f:
                o = json.load(f)
        except (OSError, ValueError):
            continue
        m["finished_shards"] += 1
        m["cases"] += o["cases"]
        m["cut"] += 1 if o.get("cut") else 0
        m["generated"] = max(m["generated"], o["generated"])
        m["transitions"] += o["transitions"]
        m["states_capped"] |= o["states_capped"]
        for key in ("classes", "kinds", "known"):
            for k, v in o[key].items():
                m[key][k] = m[key].get(k, 0) + v
        for k, v in o["maxima"].items():
            m["maxima"][k] = max(m["maxima"].get(k, 0), v)
        m["samples"].update(o["samples"])
        m["known_example"].update(o["known_example"])
        a = array.array("Q")
        try:
            with open(s.out + ".states", "rb") as f:
                a.frombytes(f.read())
        except OSError:
            pass
        if len(states) < 3000000:
            states.update(a)
        os.unlink(s.out + ".states") if os.path.exists(s.out + ".states") else None
    m["states"] = len(states)
    return m

# ------------------------------------------------------------------ evidence and exit
def write_evidence(pid, tier, level, coverage, wall, violations, assumptions=None):
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    e = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=level,
             coverage=coverage, wall_s=round(wall, 2), violations=violations)
    if assumptions:
        e["assumptions"] = assumptions
    p = os.path.join(ROOT, "evidence", pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(e, f, indent=1)
        f.write("\n")
    os.replace(p + ".tmp", p)

def enum_coverage(m, cfg, tier):
    cov = dict(states=m["states"], transitions=m["transitions"], traces_validated_against_impl=m["cases"],
               samples=[("%s: %s" % kv)[:400] for kv in sorted(m["samples"].items())][:24],
               exhaustive=bool(m["incomplete_shards"] == 0),
               cases_by_kind=m["kinds"], outcome_classes=m["classes"],
               what_states_are=cfg.get("states", ""), what_transitions_are=cfg.get("transitions", ""),
               bound=cfg["bound"][tier])
    if cfg["level"] == "fault_enumeration":
        cov["evaluations"] = sum(m["classes"].values())
        cov["distinct_nontrivial"] = m["states"]
        cov["rule"] = cfg["rule"]
    if m["states_capped"]:
        cov["states_note"] = "state set capped per worker: the number of states is a lower bound"
    if m["maxima"]:
        cov["maxima"] = m["maxima"]
    if m["known"]:
        cov["known_findings_met"] = m["known"]
    if m["incomplete_shards"]:
        cov["cut_short"] = "%d of %d workers stopped at the time limit; everything they had run held" % (
            m["incomplete_shards"], NPROC)
    return cov

def finish(pid, violation, notes=()):
    for n in notes:
        print("note: " + n)
    if violation:
        print("FAILED: " + violation["message"])
        if violation.get("detail"):
            print(violation["detail"][-1500:])
        print("VIOLATION property=%s replay=%s" % (pid, violation["replay"]))
        sys.stdout.flush()
        return 1
    for sig, text in known_findings(pid).items():
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    print("OK property=%s" % pid)
    sys.stdout.flush()
    return 0

def run_enum(pid, cfg, tier):
    t0 = time.time()
    src = os.path.join(ROOT, "harness", cfg["harness"])
    extra_deps = []
    extra = list(cfg.get("flags", ()))
    if cfg.get("prepare"):
        dirs = cfg["prepare"](tier)
        for d in dirs:
            extra.append("-I" + d)
            extra_deps += glob.glob(d + "/*.inc")
    if cfg.get("prepare_flags"):
        extra += cfg["prepare_flags"](tier)
    variants = [(os.path.join(ROOT, "harness", p), f) for p, f in cfg.get("variants", ())]
    notes = []
    def make(flavour):
        return build([src], flavour, extra=extra, extra_deps=extra_deps, name=pid,
                     link=cfg.get("link", ()), compiler=cfg.get("compiler"),
                     plain_sources=[os.path.join(ROOT, "harness", p) for p in cfg.get("plain_sources", ())],
                     variants=variants)
    def make_all(flavours):
        with ThreadPoolExecutor(len(flavours)) as pool:
            return list(pool.map(make, flavours))
    flavours = [cfg.get("flavour", "plain")] + list(cfg.get("more_flavours", ()))
    try:
        exes = make_all(flavours)
    except BuildError as e:
        # The library is C++20: that a part of it can also be compiled in another way is not promised.
        if variants:
            notes.append("not compiled as %s" % " ".join(f for _, fs in variants for f in fs))
            variants = []
            extra.append("-DNO_VARIANTS")
        try:
            exes = make_all(flavours)
        except BuildError:
            exes = make_all(flavours[:1])
            for f in flavours[1:]:
                try:
                    exes += make_all([f])
                except BuildError:
                    notes.append("the %s build does not compile" % BUILD_NAMES[f])
                    exes.append(None)
    built = time.time()
    violation, m = run_shards(pid, exes[0], tier)
    if violation and violation["message"] is None:
        notes += violation["notes"]
        violation = None
    again = {}
    for flavour, exe in zip(flavours[1:], exes[1:]):
        if violation:
            break
        if exe is None:
            continue
        violation, m2 = run_shards(pid, exe, tier)
        if violation and violation["message"] is None:
            notes += violation["notes"]
            violation = None
        elif violation:
            violation["message"] += " (in the %s build)" % BUILD_NAMES[flavour]
        if m2["incomplete_shards"]:
            notes.append("the run of the %s build was cut short" % BUILD_NAMES[flavour])
        again[BUILD_NAMES[flavour]] = m2["cases"]
    cov = enum_coverage(m, cfg, tier)
    cov["build_s"] = round(built - t0, 1)
    if again:
        cov["cases_also_run_in_other_builds"] = again
    if notes:
        cov["unreproduced"] = notes
        cov["exhaustive"] = False
    if m["cases"] == 0 and not violation:
        raise RuntimeError("no case was executed: " + "; ".join(notes))
    write_evidence(pid, tier, cfg["level"], cov, time.time() - t0, 1 if violation else 0, cfg.get("assumptions"))
    print("%s: %d cases, %d operations, %d states, build %.1fs total %.1fs" % (
        pid, m["cases"], m["transitions"], m["states"], built - t0, time.time() - t0))
    return finish(pid, violation, notes)

def main(argv):
    import config
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1:
        tier = argv[1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    cfg = config.CHECKS[pid]
    os.makedirs(BUILD, exist_ok=True)
    prune_build()
    try:
        run = cfg.get("run", run_enum)
        return run(pid, cfg, tier)
    except BuildError as e:
        print("the harness does not build against %s:\n%s" % (REPO, e))
        return 2
