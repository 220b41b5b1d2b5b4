"""ABNF -> NFA -> minimal DFA -> characterisation set, for the conformance suites.

The DFA is the reference model of the accepted language.  Everything is derived from
model/rfc3986.abnf.
"""
import collections, itertools, os, re, sys

HERE = os.path.dirname(os.path.abspath(__file__))

# ---------------------------------------------------------------- ABNF parsing
TOKEN = re.compile(r'\s*(?:("(?:[^"]*)")|(%x[0-9A-Fa-f]+(?:-[0-9A-Fa-f]+)?)|(\d*\*\d*|\d+)|([A-Za-z][A-Za-z0-9-]*)|([()\[\]/]))')

def tokens(text):
    pos, out = 0, []
    text = text.rstrip()
    while pos < len(text):
        m = TOKEN.match(text, pos)
        assert m, text[pos:]
        out.append(next((i, g) for i, g in enumerate(m.groups()) if g is not None))
        pos = m.end()
    return out

def parse_alt(ts, i):
    alts = []
    while True:
        seq, i = parse_cat(ts, i)
        alts.append(seq)
        if i < len(ts) and ts[i] == (4, "/"):
            i += 1
            continue
        return ("alt", alts), i

def parse_cat(ts, i):
    items = []
    while i < len(ts) and ts[i] not in ((4, ")"), (4, "]"), (4, "/")):
        node, i = parse_rep(ts, i)
        items.append(node)
    return ("cat", items), i

def parse_rep(ts, i):
    lo, hi = 1, 1
    if ts[i][0] == 2:
        t = ts[i][1]
        if "*" in t:
            a, b = t.split("*")
            lo, hi = int(a or 0), (int(b) if b else None)
        else:
            lo = hi = int(t)
        i += 1
    k, v = ts[i]
    if k == 0:
        node = ("lit", v[1:-1])
    elif k == 1:
        a, _, b = v[2:].partition("-")
        node = ("range", int(a, 16), int(b or a, 16))
    elif k == 3:
        node = ("ref", v)
    elif v == "(":
        node, i = parse_alt(ts, i + 1)
        assert ts[i] == (4, ")")
    else:
        assert v == "["
        node, i = parse_alt(ts, i + 1)
        assert ts[i] == (4, "]")
        node = ("rep", node, 0, 1)
    if (lo, hi) != (1, 1):
        node = ("rep", node, lo, hi)
    return node, i + 1

def load(path=os.path.join(HERE, "rfc3986.abnf")):
    rules = {}
    for line in open(path):
        line = line.strip()
        if not line or line.startswith(";"):
            continue
        name, _, body = line.partition("=")
        ts = tokens(body)
        node, i = parse_alt(ts, 0)
        assert i == len(ts)
        rules[name.strip()] = node
    return rules

# ---------------------------------------------------------------- NFA / DFA
class NFA:
    def __init__(self):
        self.eps = [[]]
        self.tr = [[]]          # (frozenset of bytes, target)
    def new(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.eps) - 1

def add(nfa, rules, node, s):
    """Thompson construction starting at s; returns the end state."""
    k = node[0]
    if k == "alt":
        e = nfa.new()
        for n in node[1]:
            a = nfa.new()
            nfa.eps[s].append(a)
            nfa.eps[add(nfa, rules, n, a)].append(e)
        return e
    if k == "cat":
        for n in node[1]:
            s = add(nfa, rules, n, s)
        return s
    if k == "rep":
        _, n, lo, hi = node
        for _ in range(lo):
            s = add(nfa, rules, n, s)
        if hi is None:
            a = nfa.new()
            nfa.eps[s].append(a)
            e = add(nfa, rules, n, a)
            nfa.eps[e].append(a)
            f = nfa.new()
            nfa.eps[a].append(f)
            return f
        f = nfa.new()
        nfa.eps[s].append(f)
        for _ in range(hi - lo):
            s = add(nfa, rules, n, s)
            nfa.eps[s].append(f)
        return f
    if k == "lit":
        for c in node[1]:
            t = nfa.new()
            nfa.tr[s].append((frozenset({ord(c.lower()), ord(c.upper())}), t))  # ABNF literals ignore case
            s = t
        return s
    if k == "range":
        t = nfa.new()
        nfa.tr[s].append((frozenset(range(node[1], node[2] + 1)), t))
        return t
    if k == "ref":
        return add(nfa, rules, rules[node[1]], s)
    raise AssertionError(k)

class DFA:
    """classes: list of byte lists; delta[state][class]; accept[state]; start 0."""
    pass

def determinise(rules, start):
    nfa = NFA()
    end = add(nfa, rules, ("ref", start), 0)
    sets = {fs for row in nfa.tr for fs, _ in row}
    sig = collections.defaultdict(list)
    for b in range(256):
        sig[frozenset(s for s in sets if b in s)].append(b)
    classes = sorted(sig.values())
    def closure(states):
        stack, seen = list(states), set(states)
        while stack:
            for t in nfa.eps[stack.pop()]:
                if t not in seen:
                    seen.add(t)
                    stack.append(t)
        return frozenset(seen)
    s0 = closure({0})
    ids, todo, delta, accept = {s0: 0}, [s0], [], []
    while todo:
        cur = todo.pop(0)
        accept.append(end in cur)
        row = []
        for cl in classes:
            b = cl[0]
            nxt = closure({t for s in cur for fs, t in nfa.tr[s] if b in fs})
            if nxt not in ids:
                ids[nxt] = len(ids)
                todo.append(nxt)
            row.append(ids[nxt])
        delta.append(row)
    return classes, delta, accept

def minimise(classes, delta, accept):
    n = len(delta)
    part = [1 if a else 0 for a in accept]
    while True:
        keys, new = {}, []
        for s in range(n):
            k = (part[s],) + tuple(part[t] for t in delta[s])
            new.append(keys.setdefault(k, len(keys)))
        if len(keys) == len(set(part)):
            break
        part = new
    # renumber by breadth-first search from the start
    order, num = [0], {part[0]: 0}
    rep = {}
    for s in range(n):
        rep.setdefault(part[s], s)
    i = 0
    blocks = [part[0]]
    while i < len(blocks):
        for t in delta[rep[blocks[i]]]:
            if part[t] not in num:
                num[part[t]] = len(blocks)
                blocks.append(part[t])
        i += 1
    d = DFA()
    d.delta = [[num[part[t]] for t in delta[rep[b]]] for b in blocks]
    d.accept = [accept[rep[b]] for b in blocks]
    # merge classes that behave identically everywhere
    cols = collections.OrderedDict()
    for ci, cl in enumerate(classes):
        cols.setdefault(tuple(r[ci] for r in d.delta), []).extend(cl)
    merged = sorted(sorted(v) for v in cols.values())
    idx = [next(ci for ci, cl in enumerate(classes) if m[0] in cl) for m in merged]
    d.delta = [[r[i] for i in idx] for r in d.delta]
    d.classes = merged
    return d

def build(start):
    return minimise(*determinise(load(), start))

def access(d):
    """Shortest class word reaching each state."""
    acc, todo = {0: ()}, collections.deque([0])
    while todo:
        s = todo.popleft()
        for c, t in enumerate(d.delta[s]):
            if t not in acc:
                acc[t] = acc[s] + (c,)
                todo.append(t)
    return [acc[s] for s in range(len(d.delta))]

def distinguish(d):
    """dist[(s,t)] -> shortest distinguishing class word, by backward partition refinement."""
    n = len(d.delta)
    word = {}
    frontier = []
    for s in range(n):
        for t in range(s):
            if d.accept[s] != d.accept[t]:
                word[(t, s)] = ()
                frontier.append((t, s))
    inv = [[[] for _ in d.classes] for _ in range(n)]
    for s in range(n):
        for c, t in enumerate(d.delta[s]):
            inv[t][c].append(s)
    while frontier:
        nxt = []
        for (a, b) in frontier:
            w = word[(a, b)]
            for c in range(len(d.classes)):
                for x in inv[a][c]:
                    for y in inv[b][c]:
                        if x == y:
                            continue
                        k = (x, y) if x < y else (y, x)
                        if k not in word:
                            word[k] = (c,) + w
                            nxt.append(k)
        frontier = nxt
    return word

def identification_sets(d):
    """For each state a small set of words separating it from every other state
    (a state identification set), and the union W (a characterisation set)."""
    n = len(d.delta)
    word = distinguish(d)
    def run(s, w):
        for c in w:
            s = d.delta[s][c]
        return d.accept[s]
    sets = []
    pool = collections.Counter(word.values())
    popular = [w for w, _ in pool.most_common()]
    outcome = {w: [run(s, w) for s in range(n)] for w in popular}
    for s in range(n):
        left = set(range(n)) - {s}
        chosen = []
        while left:
            best, gain = None, -1
            # greedy over the words that separate s from someone still left
            cands = {word[(min(s, t), max(s, t))] for t in itertools.islice(left, 40)}
            for w in cands:
                o = outcome[w]
                g = sum(1 for t in left if o[t] != o[s])
                if g > gain:
                    best, gain = w, g
            chosen.append(best)
            o = outcome[best]
            left = {t for t in left if o[t] == o[s]}
        sets.append(chosen)
    return sets, sorted(set(w for c in sets for w in c), key=lambda w: (len(w), w))

def c_array(xs):
    return "{" + ",".join(str(x) for x in xs) + "}"

def words(ws):
    return '{' + ",".join('{' + ",".join(map(str, w)) + '}' if w else "{}" for w in ws) + '}'

def emit(name, d):
    acc = access(d)
    sets, W = identification_sets(d)
    out = []
    out.append("namespace %s {" % name)
    out.append("inline constexpr unsigned num_states = %d, num_classes = %d;" % (len(d.delta), len(d.classes)))
    cls = [0] * 256
    for i, c in enumerate(d.classes):
        for b in c:
            cls[b] = i
    out.append("inline unsigned char const class_of[256] = %s;" % c_array(cls))
    out.append("inline unsigned short const delta[num_states][num_classes] = {%s};" % ",".join(c_array(r) for r in d.delta))
    out.append("inline bool const accept[num_states] = %s;" % c_array(int(a) for a in d.accept))
    out.append("using word = std::vector<unsigned char>;")
    out.append("inline std::vector<word> const access_words = %s;" % words(acc))
    out.append("inline std::vector<std::vector<word>> const identify = {%s};" % ",\n".join(words(s) for s in sets))
    out.append("inline std::vector<word> const charset = %s;" % words(W))
    out.append("}")
    return "\n".join(out) + "\n"

NONTERMINALS = {"uri": "URI", "ref": "URI-reference", "scheme": "scheme", "userinfo": "userinfo",
                "host": "host", "port": "port", "segment": "segment", "query": "query"}

def write_all(path, names):
    with open(path, "w") as f:
        f.write("// generated by model/grammar.py from model/rfc3986.abnf\n#include <vector>\nnamespace model {\n")
        for n in names:
            f.write(emit(n, build(NONTERMINALS[n])))
        f.write("}\n")

if __name__ == "__main__":
    import time
    for n in sys.argv[1:]:
        t = time.time()
        d = build(NONTERMINALS[n])
        t1 = time.time()
        sets, W = identification_sets(d)
        print(n, "states", len(d.delta), "classes", len(d.classes), "W", len(W),
              "sum|W_s|", sum(map(len, sets)), "max", max(map(len, sets)),
              "%.1fs %.1fs" % (t1 - t, time.time() - t1))
