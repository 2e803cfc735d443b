"""Regular-language domain.

Abstract strings are constrained by regular languages over a finite partition of
Unicode.  Every symbol below stands for a class of characters; all predicates the
analysed code applies to strings (constants, prefixes, regular expressions, str
methods) are unions of these classes, so inclusion / emptiness answers are exact for
predicates that do not distinguish characters inside one class.
"""
from __future__ import annotations
import functools
import itertools
try:
    from re import _parser as sre_parse, _constants as sre
except ImportError:  # pragma: no cover
    import sre_parse
    import sre_constants as sre

def _data_chars():
    """Characters the analysed source uses as data: those of its string literals that are not prose, and of its
    regular expressions.  Each gets a symbol of its own, so no predicate of the source splits a class."""
    import ast
    import glob
    import os
    import re
    root = os.path.join(os.environ.get("PYOWN_ROOT", "/repo"), "pyown")
    out = set()

    def pattern(p):
        def walk(x):
            if isinstance(x, tuple) and len(x) == 2 and x[0] in (sre.LITERAL, sre.NOT_LITERAL):
                out.add(chr(x[1]))
            elif isinstance(x, (tuple, list)) or hasattr(x, "data"):
                for y in (x.data if hasattr(x, "data") else x):
                    walk(y)
        try:
            walk(sre_parse.parse(p))
        except Exception:
            pass
    for f in sorted(glob.glob(os.path.join(root, "**", "*.py"), recursive=True)):
        try:
            tree = ast.parse(open(f, encoding="utf-8").read())
        except (OSError, SyntaxError, UnicodeDecodeError):
            continue
        skip = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Expr):
                skip.add(id(n.value))
            elif isinstance(n, ast.JoinedStr):
                skip.update(id(v) for v in n.values)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ("re", "regex", "sre") and n.args:
                x = n.args[0]
                if isinstance(x, ast.Constant) and isinstance(x.value, (str, bytes)):
                    skip.add(id(x))
                    pattern(x.value if isinstance(x.value, str) else x.value.decode("latin-1"))
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, (str, bytes)) and id(n) not in skip:
                v = n.value if isinstance(n.value, str) else n.value.decode("latin-1")
                if re.search(r"\(\?|\\[*.dws]", v):
                    pattern(v)
                elif not re.search("[A-Za-z]{2}", v) and not re.fullmatch("[0-9A-Fa-f]{6,}", v) and not re.fullmatch(r"[0-9]*[.,]?[0-9]*[a-zA-Z%]", v[1:] if v[:1] in "<>^=0" else v) or len(v) == 1:
                    out.update(v)
    return out


# classes: 'a'/'A' hex letters, 'x'/'X' other letters, '~' other ASCII, tab other ASCII white space, then beyond ASCII: decimal digits, other digits,
# other numerals, letters, white space, the rest
_BASE = "0123456789#*- \n\rbf.+_"
_CLASSES = ["acde", "ABCDEF", "xghijklmnopqrstuvwyz", "XGHIJKLMNOPQRSTUVWYZ", "\t\v\f\x1c\x1d\x1e\x1f",
            "~" + "".join(c for c in map(chr, range(128)) if not c.isalnum() and not c.isspace() and c != "~")]
_HIGH = "\u0663\u00b2\u00bd\u00e9\u00a0\u20ac"


def _high(ch):
    if ch.isdecimal():
        return "\u0663"
    if ch.isdigit():
        return "\u00b2"
    if ch.isnumeric():
        return "\u00bd"
    if ch.isspace():
        return "\u00a0"
    return "\u00e9" if ch.isalpha() else "\u20ac"


_extra = sorted(c for c in _data_chars() if c not in _BASE)
_explicit = list(_BASE) + _extra
SYMS, MULTI = list(_explicit), set()
_ASCII = {c: i for i, c in enumerate(_explicit)}
for _cl in _CLASSES:
    _cl = [c for c in _cl if c not in _explicit]
    if _cl:
        for c in _cl:
            _ASCII[c] = len(SYMS)
        if len(_cl) > 1:
            MULTI.add(len(SYMS))
        SYMS.append(_cl[0])
_HI = {}
for _c in _HIGH:
    _r = _c
    while _r in _explicit:           # the representative is a symbol of its own: take a neighbour
        _r = next(chr(o) for o in range(ord(_r) + 1, 0x11000) if _high(chr(o)) == _c)
    _HI[_c] = len(SYMS)
    MULTI.add(len(SYMS))
    SYMS.append(_r)
SYMS = tuple(SYMS)
MULTI = frozenset(MULTI)
NSYM = len(SYMS)
IDX = {s: i for i, s in enumerate(SYMS)}
ALL = frozenset(range(NSYM))
DIGITS = frozenset(IDX[c] for c in "0123456789")
NONASCII = frozenset(i for i, c in enumerate(SYMS) if ord(c) > 127)


def where(p):
    """Symbols whose characters satisfy a predicate (uniform on every class)."""
    return frozenset(i for i, c in enumerate(SYMS) if p(c))


def sym_of(ch: str) -> int:
    i = _ASCII.get(ch)
    return i if i is not None else _HI[_high(ch)]


def word_of(s: str):
    return tuple(sym_of(c) for c in s)


def text_of(w) -> str:
    return "".join(SYMS[i] for i in w)


class DFA:
    """Complete deterministic automaton.  trans: tuple of tuples, start 0."""
    __slots__ = ("trans", "acc", "_h")

    def __init__(self, trans, acc):
        self.trans = trans
        self.acc = frozenset(acc)
        self._h = hash((trans, self.acc))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, DFA) and self._h == o._h
                             and self.acc == o.acc and self.trans == o.trans)

    def __repr__(self):
        return f"<DFA {len(self.trans)} states e.g. {self.example()!r}>"

    # ---- queries
    def accepts(self, s: str) -> bool:
        q = 0
        for i in word_of(s):
            q = self.trans[q][i]
        return q in self.acc

    def is_empty(self):
        return not self.acc

    def example(self):
        w = self.shortest()
        return None if w is None else text_of(w)

    def shortest(self):
        if not self.acc:
            return None
        seen = {0: ()}
        queue = [0]
        while queue:
            nq = []
            for q in queue:
                if q in self.acc:
                    return seen[q]
                for i, r in enumerate(self.trans[q]):
                    if r not in seen:
                        seen[r] = seen[q] + (i,)
                        nq.append(r)
            queue = nq
        return None

    def words(self, limit=50, maxlen=12):
        """Some accepted words, shortest first, spread over the reachable structure."""
        out = []
        layer = [((), 0)]
        live = self._live()
        for _ in range(maxlen + 1):
            nxt = []
            percount = {}
            for w, q in layer:
                if q in self.acc:
                    out.append(text_of(w))
                    if len(out) >= limit:
                        return out
                for i, r in enumerate(self.trans[q]):
                    if r in live:
                        k = percount.get((q, r), 0)
                        if k < 3:
                            percount[(q, r)] = k + 1
                            nxt.append((w + (i,), r))
            layer = nxt[:400]
        return out

    def all_words(self, limit=20000):
        """Every word of a finite language, or None when it is infinite (or larger than the limit)."""
        live, out, layer = self._live(), [], [((), 0)]
        if 0 not in live:
            return out
        for _ in range(len(self.trans) + 1):
            out += [text_of(w) for w, q in layer if q in self.acc]
            layer = [(w + (i,), r) for w, q in layer for i, r in enumerate(self.trans[q]) if r in live]
            if len(out) + len(layer) > limit:
                return None
        return None if layer else out

    def samples(self, k, seed=1, maxlen=40):
        """k accepted words by seeded random walks that head for acceptance after a few steps."""
        import random
        if not self.acc:
            return []
        rng = random.Random(seed)
        # distance to acceptance
        rev = {}
        for q, row in enumerate(self.trans):
            for i, r in enumerate(row):
                rev.setdefault(r, []).append(q)
        dist = {q: 0 for q in self.acc}
        layer = list(self.acc)
        while layer:
            nxt = []
            for q in layer:
                for p in rev.get(q, ()):
                    if p not in dist:
                        dist[p] = dist[q] + 1
                        nxt.append(p)
            layer = nxt
        out = []
        for _ in range(k * 3):
            q, w, wander = 0, [], rng.randint(0, 7)
            while len(w) < maxlen + 20:
                if q in self.acc and wander <= 0:
                    break
                opts = [(i, r) for i, r in enumerate(self.trans[q]) if r in dist]
                if not opts:
                    break
                if wander <= 0:
                    best = min(dist[r] for _, r in opts)
                    opts = [o for o in opts if dist[o[1]] == best]
                wander -= 1
                i, q = rng.choice(opts)
                w.append(i)
            if q in self.acc:
                t = text_of(w)
                if t not in out:
                    out.append(t)
                    if len(out) >= k:
                        break
        return out

    def _live(self):
        rev = {}
        for q, row in enumerate(self.trans):
            for r in row:
                rev.setdefault(r, set()).add(q)
        live = set(self.acc)
        st = list(live)
        while st:
            q = st.pop()
            for p in rev.get(q, ()):
                if p not in live:
                    live.add(p)
                    st.append(p)
        return live

    def only_word(self):
        """The single accepted word as symbol tuple, or None when not a singleton."""
        w = self.shortest()
        if w is None:
            return None
        if (self - const_syms(w)).is_empty():
            return w
        return None

    # ---- algebra
    def __and__(self, o):
        return _product(self, o, lambda a, b: a and b)

    def __or__(self, o):
        return _product(self, o, lambda a, b: a or b)

    def __sub__(self, o):
        return _product(self, o, lambda a, b: a and not b)

    def __invert__(self):
        return _minimize(self.trans, frozenset(range(len(self.trans))) - self.acc)

    def __le__(self, o):
        return (self - o).is_empty()

    def __add__(self, o):
        return _concat(self, o)

    def star(self):
        return _star(self)

    def opt(self):
        return self | EPS

    def plus(self):
        return self + self.star()


@functools.lru_cache(maxsize=200000)
def _product_c(a, b, kind):
    f = {"and": lambda x, y: x and y, "or": lambda x, y: x or y,
         "sub": lambda x, y: x and not y}[kind]
    index = {(0, 0): 0}
    order = [(0, 0)]
    trans = []
    k = 0
    while k < len(order):
        p, q = order[k]
        k += 1
        row = []
        ta, tb = a.trans[p], b.trans[q]
        for i in range(NSYM):
            key = (ta[i], tb[i])
            j = index.get(key)
            if j is None:
                j = index[key] = len(order)
                order.append(key)
            row.append(j)
        trans.append(tuple(row))
    acc = frozenset(j for (p, q), j in index.items() if f(p in a.acc, q in b.acc))
    return _minimize(tuple(trans), acc)


def _product(a, b, f):
    kind = {(True, False, False, False): "and", (True, True, True, False): "or",
            (False, True, False, False): "sub"}[
        (bool(f(True, True)), bool(f(True, False)), bool(f(False, True)), bool(f(False, False)))]
    return _product_c(a, b, kind)


def _minimize(trans, acc):
    n = len(trans)
    # reachable
    reach = [0]
    seen = {0}
    for q in reach:
        for r in trans[q]:
            if r not in seen:
                seen.add(r)
                reach.append(r)
    part = {q: (1 if q in acc else 0) for q in reach}
    ncls = len(set(part.values()))
    while True:
        sig = {}
        new = {}
        for q in reach:
            s = (part[q], tuple(part[r] for r in trans[q]))
            if s not in sig:
                sig[s] = len(sig)
            new[q] = sig[s]
        part = new
        if len(sig) == ncls:
            break
        ncls = len(sig)
    # canonical numbering by BFS
    rep = {}
    for q in reach:
        rep.setdefault(part[q], q)
    num = {part[0]: 0}
    order = [part[0]]
    rows = []
    k = 0
    while k < len(order):
        c = order[k]
        k += 1
        row = []
        for r in trans[rep[c]]:
            d = part[r]
            if d not in num:
                num[d] = len(order)
                order.append(d)
            row.append(num[d])
        rows.append(tuple(row))
    return DFA(tuple(rows), {num[part[q]] for q in reach if q in acc and part[q] in num})


# ---------------------------------------------------------------- NFA plumbing
class NFA:
    def __init__(self):
        self.eps = []   # list of lists
        self.edges = []  # list of list of (symset, target)

    def new(self):
        self.eps.append([])
        self.edges.append([])
        return len(self.eps) - 1

    def add_eps(self, a, b):
        self.eps[a].append(b)

    def add(self, a, syms, b):
        self.edges[a].append((frozenset(syms), b))


def determinize(nfa: NFA, start: int, accs) -> DFA:
    accs = set(accs)

    def closure(states):
        st = list(states)
        seen = set(states)
        while st:
            q = st.pop()
            for r in nfa.eps[q]:
                if r not in seen:
                    seen.add(r)
                    st.append(r)
        return frozenset(seen)

    s0 = closure({start})
    index = {s0: 0}
    order = [s0]
    trans = []
    k = 0
    while k < len(order):
        cur = order[k]
        k += 1
        row = []
        buckets = [set() for _ in range(NSYM)]
        for q in cur:
            for syms, t in nfa.edges[q]:
                for i in syms:
                    buckets[i].add(t)
        for i in range(NSYM):
            c = closure(buckets[i]) if buckets[i] else frozenset()
            j = index.get(c)
            if j is None:
                j = index[c] = len(order)
                order.append(c)
            row.append(j)
        trans.append(tuple(row))
    acc = frozenset(j for s, j in index.items() if s & accs)
    return _minimize(tuple(trans), acc)


def _embed(nfa, d: DFA):
    base = [nfa.new() for _ in d.trans]
    for q, row in enumerate(d.trans):
        by = {}
        for i, r in enumerate(row):
            by.setdefault(r, set()).add(i)
        for r, syms in by.items():
            nfa.add(base[q], syms, base[r])
    return base


@functools.lru_cache(maxsize=50000)
def _concat(a, b):
    nfa = NFA()
    x = _embed(nfa, a)
    y = _embed(nfa, b)
    for q in a.acc:
        nfa.add_eps(x[q], y[0])
    return determinize(nfa, x[0], [y[q] for q in b.acc])


@functools.lru_cache(maxsize=10000)
def _star(a):
    nfa = NFA()
    s = nfa.new()
    x = _embed(nfa, a)
    nfa.add_eps(s, x[0])
    for q in a.acc:
        nfa.add_eps(x[q], s)
    return determinize(nfa, s, [s])


def syms(s) -> DFA:
    """Language of one-symbol words drawn from the symbol-index set s."""
    row0 = tuple(1 if i in s else 2 for i in range(NSYM))
    dead = (2,) * NSYM
    return _minimize((row0, dead, dead), frozenset({1}))


@functools.lru_cache(maxsize=20000)
def const_syms(w) -> DFA:
    n = len(w)
    dead = n + 1
    rows = []
    for k in range(n):
        rows.append(tuple(k + 1 if i == w[k] else dead for i in range(NSYM)))
    rows.append((dead,) * NSYM)
    rows.append((dead,) * NSYM)
    return _minimize(tuple(rows), frozenset({n}))


def const(s: str) -> DFA:
    return const_syms(word_of(s))


def chars(s: str) -> DFA:
    return syms(frozenset(sym_of(c) for c in s))


EMPTY = DFA(((0,) * NSYM,), ())
ANY = DFA(((0,) * NSYM,), (0,))
EPS = const("")
SIGMA = syms(ALL)
DIGIT = syms(DIGITS)


@functools.lru_cache(maxsize=5000)
def contains(s: str) -> DFA:
    return ANY + const(s) + ANY


@functools.lru_cache(maxsize=5000)
def startswith(s: str) -> DFA:
    return const(s) + ANY


@functools.lru_cache(maxsize=5000)
def endswith(s: str) -> DFA:
    return ANY + const(s)


@functools.lru_cache(maxsize=1000)
def length_at_least(n: int) -> DFA:
    d = ANY
    for _ in range(n):
        d = SIGMA + d
    return d


@functools.lru_cache(maxsize=1000)
def length_between(lo: int, hi) -> DFA:
    d = length_at_least(lo)
    if hi is not None:
        d = d - length_at_least(hi + 1)
    return d


@functools.lru_cache(maxsize=1000)
def count_exactly(sub: str, n: int) -> DFA:
    """Words with exactly n non-overlapping leftmost occurrences of sub (str.count)."""
    w = word_of(sub)
    m = len(w)
    # KMP automaton that resets after each match, counting up to n+1
    fail = [0] * (m + 1)

    def step(k, c):
        while k and w[k] != c:
            k = fail[k]
        return k + 1 if w[k] == c else 0
    k = 0
    for i in range(1, m):
        k2 = fail[i]
        while k2 and w[k2] != w[i]:
            k2 = fail[k2]
        fail[i + 1] = k2 + 1 if w[k2] == w[i] and i > 0 else 0
    states = {}
    trans = []

    def sid(k, c):
        key = (k, c)
        if key not in states:
            states[key] = len(states)
        return states[key]
    sid(0, 0)
    i = 0
    keys = [(0, 0)]
    while i < len(keys):
        k, c = keys[i]
        i += 1
        row = []
        for s in range(NSYM):
            k2 = step(k, s)
            c2 = c
            if k2 == m:
                k2 = 0
                c2 = min(c + 1, n + 1)
            if (k2, c2) not in states:
                keys.append((k2, c2))
            row.append(sid(k2, c2))
        trans.append(tuple(row))
    acc = frozenset(j for (k, c), j in states.items() if c == n)
    return _minimize(tuple(trans), acc)


# ---------------------------------------------------------------- regex -> NFA
class Unsupported(Exception):
    pass


_CAT = {
    sre.CATEGORY_DIGIT: where(str.isdecimal),
    sre.CATEGORY_SPACE: where(str.isspace),
    sre.CATEGORY_WORD: where(lambda c: c.isalnum() or c == "_"),
}
_CAT[sre.CATEGORY_NOT_DIGIT] = ALL - _CAT[sre.CATEGORY_DIGIT]
_CAT[sre.CATEGORY_NOT_SPACE] = ALL - _CAT[sre.CATEGORY_SPACE]
_CAT[sre.CATEGORY_NOT_WORD] = ALL - _CAT[sre.CATEGORY_WORD]


def _in_set(items, flags):
    neg = False
    out = set()
    for op, av in items:
        if op is sre.NEGATE:
            neg = True
        elif op is sre.LITERAL:
            out.add(sym_of(chr(av)))
        elif op is sre.RANGE:
            lo, hi = av
            part = {}
            for o in range(lo, min(hi, 127) + 1):
                part.setdefault(sym_of(chr(o)), set()).add(chr(o))
            for i, cs in part.items():
                if i in MULTI and len(cs) != sum(1 for c, j in _ASCII.items() if j == i):
                    raise Unsupported("range that splits a class")
                out.add(i)
            if hi > 127:
                if hi < 0x10FFFF or lo > 128:
                    raise Unsupported("range beyond ASCII")
                out |= NONASCII
        elif op is sre.CATEGORY:
            c = _CAT[av]
            if flags & 256 and av in (sre.CATEGORY_DIGIT, sre.CATEGORY_WORD, sre.CATEGORY_SPACE):
                c = c - NONASCII
            out |= c
        else:
            raise Unsupported(str(op))
    return ALL - out if neg else frozenset(out)


def _build(nfa, tree, s, flags, posn):
    """Appends the tree to the NFA starting in state s; returns the end state.
    posn carries anchors: '^' / '\\A' allowed only where nothing was consumed."""
    for op, av in tree:
        if op is sre.LITERAL:
            t = nfa.new()
            nfa.add(s, {sym_of(chr(av))}, t)
            s = t
        elif op is sre.NOT_LITERAL:
            t = nfa.new()
            nfa.add(s, ALL - {sym_of(chr(av))}, t)
            s = t
        elif op is sre.ANY:
            t = nfa.new()
            nfa.add(s, ALL if flags & 16 else ALL - {IDX["\n"]}, t)
            s = t
        elif op is sre.IN:
            t = nfa.new()
            nfa.add(s, _in_set(av, flags), t)
            s = t
        elif op is sre.CATEGORY:
            t = nfa.new()
            nfa.add(s, _CAT[av], t)
            s = t
        elif op is sre.SUBPATTERN:
            s = _build(nfa, av[3], s, (flags | av[1]) & ~av[2], posn)
        elif op is sre.BRANCH:
            e = nfa.new()
            for alt in av[1]:
                b = nfa.new()
                nfa.add_eps(s, b)
                nfa.add_eps(_build(nfa, alt, b, flags, posn), e)
            s = e
        elif op in (sre.MAX_REPEAT, sre.MIN_REPEAT) or str(op) == "POSSESSIVE_REPEAT":
            lo, hi, sub = av
            if str(op) == "POSSESSIVE_REPEAT":
                raise Unsupported("possessive")
            for _ in range(lo):
                s = _build(nfa, sub, s, flags, posn)
            if hi is sre.MAXREPEAT:
                b = nfa.new()
                nfa.add_eps(s, b)
                e = _build(nfa, sub, b, flags, posn)
                nfa.add_eps(e, b)
                x = nfa.new()
                nfa.add_eps(b, x)
                s = x
            else:
                x = nfa.new()
                nfa.add_eps(s, x)
                for _ in range(hi - lo):
                    s = _build(nfa, sub, s, flags, posn)
                    nfa.add_eps(s, x)
                s = x
        elif op is sre.AT:
            t = nfa.new()
            # marker edges, resolved by the caller
            nfa.edges[s].append((("AT", av), t))
            s = t
        else:
            raise Unsupported(str(op))
    return s


def regex_nfa(pattern: str, flags: int = 0):
    tree = sre_parse.parse(pattern, flags)
    flags |= tree.state.flags
    if flags & 2 or flags & 8 or flags & 64 and False:
        raise Unsupported("flags")
    nfa = NFA()
    s = nfa.new()
    e = _build(nfa, tree, s, flags, None)
    return nfa, s, e


BEGIN, END, SENT = "^", "$", None


@functools.lru_cache(maxsize=2000)
def regex_language(pattern: str, mode: str = "match", flags: int = 0) -> DFA:
    """Language of subject strings for which pattern.match/fullmatch/search succeeds."""
    nfa, s, e = regex_nfa(pattern, flags)
    # Anchors: work over words wrapped as  < w >  using two extra marker symbols is
    # avoided by tracking zones: states are duplicated into 'at beginning' (nothing
    # consumed), 'inside', and 'tail' (only an optional final newline / nothing may follow).
    out = NFA()
    idx = {}

    def node(q, zone):
        k = (q, zone)
        if k not in idx:
            idx[k] = out.new()
            todo.append(k)
        return idx[k]
    todo = []
    start = node(s, "b")
    finals = []
    # zones: b = nothing consumed yet, i = inside, d = '$' seen (rest must be '' or '\n'),
    #        z = '\Z' seen (rest must be '')
    tail_d = out.new()
    fin = out.new()
    out.add(tail_d, {IDX["\n"]}, fin)
    finals.append(fin)
    anyrest = out.new()
    out.add(anyrest, ALL, anyrest)
    while todo:
        q, zone = todo.pop()
        me = idx[(q, zone)]
        if q == e:
            if zone in ("d", "z"):
                finals.append(me)
                if zone == "d":
                    out.add_eps(me, tail_d)
            elif mode == "fullmatch":
                finals.append(me)
            else:
                out.add_eps(me, anyrest)
                finals.append(me)
        for r in nfa.eps[q]:
            out.add_eps(me, node(r, zone))
        for lab, r in nfa.edges[q]:
            if isinstance(lab, tuple) and lab and lab[0] == "AT":
                av = lab[1]
                if av in (sre.AT_BEGINNING, sre.AT_BEGINNING_STRING):
                    if zone == "b":
                        out.add_eps(me, node(r, zone))
                elif av is sre.AT_END:
                    out.add_eps(me, node(r, "d" if zone != "z" else "z"))
                elif av is sre.AT_END_STRING:
                    out.add_eps(me, node(r, "z"))
                else:
                    raise Unsupported(str(av))
            elif zone == "d":
                # only a final newline may be consumed after '$'
                if IDX["\n"] in lab:
                    out.add(me, {IDX["\n"]}, node(r, "z"))
            elif zone == "z":
                pass
            else:
                out.add(me, lab, node(r, "i"))
    finals.append(anyrest)
    if mode == "search":
        pre = out.new()
        out.add(pre, ALL, pre)
        out.add_eps(pre, node(s, "i"))
        # nodes reachable from (s,'i') may be new
        while todo:
            q, zone = todo.pop()
            me = idx[(q, zone)]
            if q == e:
                if zone in ("d", "z"):
                    finals.append(me)
                    if zone == "d":
                        out.add_eps(me, tail_d)
                else:
                    out.add_eps(me, anyrest)
                    finals.append(me)
            for r in nfa.eps[q]:
                out.add_eps(me, node(r, zone))
            for lab, r in nfa.edges[q]:
                if isinstance(lab, tuple) and lab and lab[0] == "AT":
                    av = lab[1]
                    if av in (sre.AT_BEGINNING, sre.AT_BEGINNING_STRING):
                        pass
                    elif av is sre.AT_END:
                        out.add_eps(me, node(r, "d" if zone != "z" else "z"))
                    elif av is sre.AT_END_STRING:
                        out.add_eps(me, node(r, "z"))
                    else:
                        raise Unsupported(str(av))
                elif zone == "d":
                    if IDX["\n"] in lab:
                        out.add(me, {IDX["\n"]}, node(r, "z"))
                elif zone != "z":
                    out.add(me, lab, node(r, "i"))
        top = out.new()
        out.add_eps(top, start)
        out.add_eps(top, pre)
        start = top
    return determinize(out, start, finals)


# ---------------------------------------------------------------- ambiguity
def _eps_free(pattern, flags=0):
    """Epsilon-free NFA as multigraph: edges (p, symset, q) with epsilon-path multiplicity
    (a pair reachable through two different epsilon paths is recorded twice)."""
    nfa, s, e = regex_nfa(pattern, flags)
    n = len(nfa.eps)
    # anchors behave as epsilon moves for ambiguity purposes
    eps = [list(x) for x in nfa.eps]
    edges = [[] for _ in range(n)]
    for q in range(n):
        for lab, r in nfa.edges[q]:
            if isinstance(lab, tuple) and lab and lab[0] == "AT":
                eps[q].append(r)
            else:
                edges[q].append((lab, r))

    def paths(q):
        """multiset of states reachable by epsilon paths, visiting each state at most
        twice on a path so that epsilon cycles show up as multiplicity > 1"""
        out = []

        def go(x, counts):
            out.append(x)
            for y in eps[x]:
                if counts.get(y, 0) < 1:
                    c2 = dict(counts)
                    c2[y] = c2.get(y, 0) + 1
                    go(y, c2)
        go(q, {q: 1})
        return out
    res = []
    for q in range(n):
        for m in paths(q):
            for lab, r in edges[q] if False else edges[m]:
                res.append((q, lab, r))
    return n, s, e, res, eps


def ambiguity(pattern: str, flags: int = 0):
    """None | ('EDA', word) | ('IDA', word): the backtracking matcher explores exponentially
    (EDA) or polynomially (IDA) many paths for some input family (Weber & Seidl 1991)."""
    n, s, e, res, eps = _eps_free(pattern, flags)
    # keep states that are sources after consuming (targets) plus start
    keep = {s} | {r for _, _, r in res}
    out = {q: [] for q in keep}
    for p, lab, r in res:
        if p in keep:
            for i in lab:
                out[p].append((i, r))
    # trim to co-reachable not required: failing inputs backtrack regardless
    bysym = {q: {} for q in keep}
    for q in keep:
        for i, r in out[q]:
            bysym[q].setdefault(i, []).append(r)
    reach = {s}
    st = [s]
    while st:
        q = st.pop()
        for i, r in out[q]:
            if r not in reach:
                reach.add(r)
                st.append(r)
    # EDA: state q with two distinct loops reading the same word
    # product graph over pairs; q,q ->+ q,q through a diverging step
    for q in reach:
        # BFS over (a, b, diverged)
        startn = (q, q, False)
        seen = {startn: ""}
        todo = [startn]
        while todo:
            a, b, d = todo.pop()
            for i in set(bysym[a]) & set(bysym[b]):
                la, lb = bysym[a][i], bysym[b][i]
                for ia, ra in enumerate(la):
                    for ib, rb in enumerate(lb):
                        nd = d or ra != rb or (a == b and ia != ib)
                        k = (ra, rb, nd)
                        if k not in seen:
                            seen[k] = seen[(a, b, d)] + text_of((i,))
                            todo.append(k)
        if (q, q, True) in seen:
            return ("EDA", seen[(q, q, True)])
    # IDA: p != q with p -v-> p, p -v-> q, q -v-> q
    for p in reach:
        startn = (p, p, p)
        # triple product: first copy stays p->p, second p->q, third q->q for some q
        for q in reach:
            if q == p:
                continue
            startn = (p, p, q)
            goal = (p, q, q)
            seen = {startn: ""}
            todo = [startn]
            while todo:
                t = todo.pop()
                common = set(bysym[t[0]]) & set(bysym[t[1]]) & set(bysym[t[2]])
                for i in common:
                    for x, y, z in itertools.product(set(bysym[t[0]][i]), set(bysym[t[1]][i]),
                                                     set(bysym[t[2]][i])):
                        k = (x, y, z)
                        if k not in seen:
                            seen[k] = seen[t] + text_of((i,))
                            todo.append(k)
            if goal in seen and seen[goal]:
                return ("IDA", seen[goal])
    return None
