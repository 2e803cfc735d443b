"""Language and interval reasoning on abstract strings and integers."""
from __future__ import annotations
import datetime as _dt
import functools
import ipaddress as _ip

from . import lang as L
from .lang import DFA, NFA, determinize, _embed
from .values import *

WS = L.where(str.isspace)
MULTI = L.MULTI
ASCII = L.syms(L.ALL - L.NONASCII).star()
NUMERIC = L.syms(L.where(str.isdecimal))
WSTAR = L.syms(WS).star()
SIGN = L.chars("+-").opt()
# numerals accepted by int()
INT_OK = WSTAR + SIGN + NUMERIC + (L.const("_").opt() + NUMERIC).star() + WSTAR
_DP = NUMERIC + (L.const("_").opt() + NUMERIC).star()
# numerals accepted by float(), those with letters (exponent, inf, nan) excepted
FLOAT_OK = WSTAR + SIGN + ((_DP + (L.const(".") + _DP.opt()).opt()) | (L.const(".") + _DP)) + WSTAR
LETTER = L.ANY + L.syms(L.where(str.isalpha)) + L.ANY


# ------------------------------------------------------------ language operations
@functools.lru_cache(maxsize=50000)
def quotient(M: DFA, A: DFA, B: DFA) -> DFA:
    """{w | exists x in A, y in B: x w y in M}."""
    # states of M reachable by words of A
    seen = {(0, 0)}
    st = [(0, 0)]
    starts = set()
    while st:
        p, q = st.pop()
        if p in A.acc:
            starts.add(q)
        for i in range(L.NSYM):
            k = (A.trans[p][i], M.trans[q][i])
            if k not in seen:
                seen.add(k)
                st.append(k)
    # states of M from which some word of B reaches acceptance (backward product)
    rev = {}
    nb, nm = len(B.trans), len(M.trans)
    for p in range(nb):
        for q in range(nm):
            for i in range(L.NSYM):
                rev.setdefault((B.trans[p][i], M.trans[q][i]), []).append((p, q))
    good = {(p, q) for p in B.acc for q in M.acc}
    st = list(good)
    while st:
        k = st.pop()
        for j in rev.get(k, ()):
            if j not in good:
                good.add(j)
                st.append(j)
    accs = {q for q in range(nm) if (0, q) in good}
    nfa = NFA()
    s = nfa.new()
    x = _embed(nfa, M)
    for q in starts:
        nfa.add_eps(s, x[q])
    return determinize(nfa, s, [x[q] for q in accs])


@functools.lru_cache(maxsize=5000)
def reverse(M: DFA) -> DFA:
    nfa = NFA()
    s = nfa.new()
    ids = [nfa.new() for _ in M.trans]
    for q, row in enumerate(M.trans):
        by = {}
        for i, r in enumerate(row):
            by.setdefault(r, set()).add(i)
        for r, ss in by.items():
            nfa.add(ids[r], frozenset(ss), ids[q])
    for q in M.acc:
        nfa.add_eps(s, ids[q])
    return determinize(nfa, s, [ids[0]])


@functools.lru_cache(maxsize=5000)
def erase(M: DFA, sym: int, to) -> DFA:
    """Image of M when symbol sym is replaced by `to` (None: deleted, or a symbol index)."""
    nfa = NFA()
    ids = [nfa.new() for _ in M.trans]
    for q, row in enumerate(M.trans):
        for i, r in enumerate(row):
            if i == sym:
                if to is None:
                    nfa.add_eps(ids[q], ids[r])
                else:
                    nfa.add(ids[q], frozenset({to}), ids[r])
            else:
                nfa.add(ids[q], frozenset({i}), ids[r])
    return determinize(nfa, ids[0], [ids[q] for q in M.acc])


@functools.lru_cache(maxsize=500)
def case_image(op, M: DFA):
    """A language containing the image of M under lower / upper; None beyond ASCII."""
    if not M <= ASCII:
        return None
    to = {}
    for c in map(chr, range(128)):
        to.setdefault(L.sym_of(c), set()).add(L.sym_of(getattr(c, op)()))
    nfa = NFA()
    ids = [nfa.new() for _ in M.trans]
    for q, row in enumerate(M.trans):
        for i, r in enumerate(row):
            if i in to:
                nfa.add(ids[q], frozenset(to[i]), ids[r])
    return determinize(nfa, ids[0], [ids[q] for q in M.acc])


@functools.lru_cache(maxsize=5000)
def unerase(M: DFA, sym: int, to) -> DFA:
    """Preimage of M under the same mapping."""
    rows = []
    for q, row in enumerate(M.trans):
        r = list(row)
        r[sym] = q if to is None else row[to]
        rows.append(tuple(r))
    return L._minimize(tuple(rows), M.acc)


def length_exact(n):
    return L.length_between(n, n)


@functools.lru_cache(maxsize=1000)
def field_langs(sep: str):
    """(language of a field followed by sep, language of the last field)."""
    inner = ~L.contains(sep)
    # a non-final field f: the first occurrence of sep in f+sep is at |f|
    nonfinal = inner
    for k in range(1, len(sep)):
        # f ends with a border that would start an earlier match
        pre = sep[:k]
        if (pre + sep)[: len(sep)] == sep or sep.startswith(pre) and (pre + sep).find(sep) < k:
            nonfinal = nonfinal - L.endswith(pre)
    return nonfinal, inner


@functools.lru_cache(maxsize=5000)
def fields_prefix(sep: str, n: int) -> DFA:
    d = L.EPS
    nf, _ = field_langs(sep)
    unit = nf + L.const(sep)
    for _ in range(n):
        d = d + unit
    return d


@functools.lru_cache(maxsize=5000)
def field_suffix(sep: str, n: int) -> DFA:
    """n further fields after the current one (n == 0: nothing)."""
    if n == 0:
        return L.EPS
    nf, last = field_langs(sep)
    return L.const(sep) + fields_prefix(sep, n - 1) + last


@functools.lru_cache(maxsize=2000)
def nfields(sep: str, n: int) -> DFA:
    nf, last = field_langs(sep)
    return fields_prefix(sep, n - 1) + last


def nfields_upto(sep: str, n: int) -> DFA:
    out = nfields(sep, 1)
    for i in range(2, n + 1):
        out = out | nfields(sep, i)
    return out


def strip_set(chars):
    return WS if chars is None else frozenset(L.sym_of(c) for c in chars)


@functools.lru_cache(maxsize=500)
def _not_start(cs):
    return ~(L.syms(cs) + L.ANY)


@functools.lru_cache(maxsize=500)
def _not_end(cs):
    return ~(L.ANY + L.syms(cs))


def forward(op, args, M: DFA):
    """Image language of a unary string operation, None when unknown."""
    if op == "removeprefix":
        p = args[0]
        return quotient(M, L.const(p), L.EPS) | (M - L.startswith(p))
    if op == "removesuffix":
        p = args[0]
        return quotient(M, L.EPS, L.const(p)) | (M - L.endswith(p))
    if op in ("strip", "lstrip", "rstrip"):
        cs = strip_set(args[0])
        w = L.syms(cs).star()
        r = quotient(M, w if op != "rstrip" else L.EPS, w if op != "lstrip" else L.EPS)
        if op != "rstrip":
            r = r & _not_start(cs)
        if op != "lstrip":
            r = r & _not_end(cs)
        return r
    if op == "field":
        sep, i, n = args
        nf, last = field_langs(sep)
        mine = last if i == n - 1 else nf
        return quotient(M, fields_prefix(sep, i), field_suffix(sep, n - 1 - i)) & mine
    if op == "drop":      # s[a:], a > 0
        a = args[0]
        r = quotient(M, length_exact(a), L.EPS)
        if not (M - L.length_at_least(a)).is_empty():
            r = r | L.EPS
        return r
    if op == "droplast":  # s[:-b]
        b = args[0]
        r = quotient(M, L.EPS, length_exact(b))
        if not (M - L.length_at_least(b)).is_empty():
            r = r | L.EPS
        return r
    if op == "take":      # s[:b]
        b = args[0]
        return (quotient(M, L.EPS, L.ANY) & length_exact(b)) | (M - L.length_at_least(b))
    if op == "last":      # s[-a:]
        a = args[0]
        return (quotient(M, L.ANY, L.EPS) & length_exact(a)) | (M - L.length_at_least(a))
    if op == "char":
        i = args[0]
        if i >= 0:
            return quotient(M, length_exact(i), L.ANY) & L.SIGMA
        return quotient(M, L.ANY, length_exact(-i - 1)) & L.SIGMA
    if op == "rev":
        return reverse(M)
    if op == "sub1":
        return erase(M, L.sym_of(args[0]), None if args[1] == "" else L.sym_of(args[1]))
    if op == "before":    # s.partition(sep)[0] given sep in s
        sep = args[0]
        return quotient(M, L.EPS, L.const(sep) + L.ANY) & field_langs(sep)[0]
    if op == "after":
        sep = args[0]
        return quotient(M, field_langs(sep)[0] + L.const(sep), L.EPS)
    return None


def backward(op, args, T: DFA):
    """Preimage of T, None when unknown."""
    if op == "removeprefix":
        p = args[0]
        return (L.const(p) + T) | (T - L.startswith(p))
    if op == "removesuffix":
        p = args[0]
        return (T + L.const(p)) | (T - L.endswith(p))
    if op in ("strip", "lstrip", "rstrip"):
        cs = strip_set(args[0])
        w = L.syms(cs).star()
        r = T
        if op != "rstrip":
            r = r & _not_start(cs)
        if op != "lstrip":
            r = r & _not_end(cs)
        if op != "rstrip":
            r = w + r
        if op != "lstrip":
            r = r + w
        return r
    if op == "field":
        sep, i, n = args
        nf, last = field_langs(sep)
        mine = last if i == n - 1 else nf
        return fields_prefix(sep, i) + (T & mine) + field_suffix(sep, n - 1 - i)
    if op == "drop":
        a = args[0]
        r = length_exact(a) + T
        if T.accepts(""):
            r = r | ~L.length_at_least(a)
        return r
    if op == "droplast":
        b = args[0]
        r = T + length_exact(b)
        if T.accepts(""):
            r = r | ~L.length_at_least(b)
        return r
    if op == "take":
        b = args[0]
        return ((T & length_exact(b)) + L.ANY) | (T - L.length_at_least(b))
    if op == "last":
        a = args[0]
        return (L.ANY + (T & length_exact(a))) | (T - L.length_at_least(a))
    if op == "char":
        i = args[0]
        if i >= 0:
            return length_exact(i) + (T & L.SIGMA) + L.ANY
        return L.ANY + (T & L.SIGMA) + length_exact(-i - 1)
    if op == "rev":
        return reverse(T)
    if op == "sub1":
        return unerase(T, L.sym_of(args[0]), None if args[1] == "" else L.sym_of(args[1]))
    if op == "before":
        sep = args[0]
        return (T & field_langs(sep)[0]) + L.const(sep) + L.ANY
    if op == "after":
        sep = args[0]
        return field_langs(sep)[0] + L.const(sep) + T
    return None


STR_UNARY = {"removeprefix", "removesuffix", "strip", "lstrip", "rstrip", "field", "drop", "droplast",
             "take", "last", "char", "rev", "sub1", "before", "after"}


@functools.lru_cache(maxsize=5000)
def int_lang(lo, hi):
    """Canonical decimal representations of the integers in [lo, hi]."""
    pos = (L.chars("123456789") + L.DIGIT.star()) | L.const("0")
    if lo is not None and hi is not None and hi - lo <= 400:
        d = L.EMPTY
        for k in range(lo, hi + 1):
            d = d | L.const(str(k))
        return d
    if lo is None or lo < 0:
        neg = L.const("-") + L.chars("123456789") + L.DIGIT.star()
        if hi is not None and hi < 0:
            return neg
        return neg | pos
    d = pos
    for k in range(0, min(lo, 300)):
        d = d - L.const(str(k))
    if hi is not None:
        d = d & L.length_between(1, len(str(hi)))
    return d


@functools.lru_cache(maxsize=5000)
def numeral_lang(lo, hi):
    """Numerals (leading zeros allowed, no sign) with value in [lo, hi]; None bound = infinite."""
    z = L.const("0").star()
    allnum = L.DIGIT.plus()
    lo = max(lo or 0, 0)

    def upto(k):   # values <= k
        d = L.EMPTY
        if k > 2000:
            raise L.Unsupported("numeral bound")
        for j in range(0, k + 1):
            d = d | L.const(str(j))
        return z + d
    r = allnum
    if hi is not None:
        if hi < 0:
            return L.EMPTY
        r = r & upto(hi)
    if lo > 0:
        r = r - upto(lo - 1)
    return r


_NB = {}


def numeral_bounds(lg):
    """(least, greatest) value of the numerals of a language of digits; greatest None when unbounded (or long)."""
    if lg in _NB:
        return _NB[lg]
    live = lg._live()
    syms = [L.sym_of(str(k)) for k in range(10)]
    cur = {0: (0, 0)} if 0 in live else {}
    lo = hi = None
    for _ in range(8):
        nxt = {}
        for q, (a, b) in cur.items():
            for k in range(10):
                r = lg.trans[q][syms[k]]
                if r not in live:
                    continue
                x = nxt.get(r)
                y = (10 * a + k, 10 * b + k)
                nxt[r] = y if x is None else (min(x[0], y[0]), max(x[1], y[1]))
        cur = nxt
        for q, (a, b) in cur.items():
            if q in lg.acc:
                lo = a if lo is None else min(lo, a)
                hi = b if hi is None else max(hi, b)
    if lo is None:
        r = (0, None)
    else:
        r = (lo, hi) if not cur else (0, None)
    _NB[lg] = r
    return r


# ------------------------------------------------------------ interval facts
NAMED_RANGES = {"hour": (0, 23), "minute": (0, 59), "second": (0, 59), "day": (1, 31), "month": (1, 12),
                "year": (1, 9999), "weekday": (0, 6), "isoweekday": (1, 7), "microsecond": (0, 999999)}


def int_range(st, t):
    """(lo, hi, excluded) for an int term."""
    f = st.fact(("int", t))
    lo = hi = None
    ne = frozenset()
    if f:
        lo, hi, ne = f
    if isinstance(t, Const):
        return int(t.v), int(t.v), ne
    if isinstance(t, Bits):
        return None, None, ne
    b = None
    if t.op == "attr" and t.args[1] in NAMED_RANGES:
        b = NAMED_RANGES[t.args[1]]
    elif t.op == "call" and t.args[1] in NAMED_RANGES:
        b = NAMED_RANGES[t.args[1]]
    elif t.op == "mod" and isinstance(t.args[1], Const) and t.args[1].v > 0:
        b = (0, t.args[1].v - 1)
    elif t.op in ("len", "count", "pos"):
        b = (0, None)
    elif t.op == "find":
        b = (-1, None)
    elif t.op == "int" and len(t.args) == 1:
        lg = lang_of(st, t.args[0])
        if lg <= L.DIGIT.star():
            w = lg.only_word()
            if w is not None:
                k = int(L.text_of(w))
                b = (k, k)
            else:
                b = numeral_bounds(lg)
    elif t.op == "add":
        l1, h1, _ = int_range(st, t.args[0])
        l2, h2, _ = int_range(st, t.args[1])
        b = (None if l1 is None or l2 is None else l1 + l2, None if h1 is None or h2 is None else h1 + h2)
    elif t.op == "sub":
        l1, h1, _ = int_range(st, t.args[0])
        l2, h2, _ = int_range(st, t.args[1])
        b = (None if l1 is None or h2 is None else l1 - h2, None if h1 is None or l2 is None else h1 - l2)
    elif t.op == "mul" and isinstance(t.args[1], Const) and isinstance(t.args[1].v, int):
        l1, h1, _ = int_range(st, t.args[0])
        k = t.args[1].v
        v = [None if l1 is None else l1 * k, None if h1 is None else h1 * k]
        b = tuple(v if k >= 0 else v[::-1])
    elif t.op == "floordiv" and isinstance(t.args[1], Const) and isinstance(t.args[1].v, int) and t.args[1].v > 0:
        l1, h1, _ = int_range(st, t.args[0])
        k = t.args[1].v
        b = (None if l1 is None else l1 // k, None if h1 is None else h1 // k)
    elif t.op == "abs":
        b = (0, None)
    elif t.op in ("bool", "not"):
        b = (0, 1)
    if b:
        if b[0] is not None:
            lo = b[0] if lo is None else max(lo, b[0])
        if b[1] is not None:
            hi = b[1] if hi is None else min(hi, b[1])
    return lo, hi, ne


def _shrink(lo, hi, ne):
    while lo is not None and lo in ne:
        lo += 1
    while hi is not None and hi in ne:
        hi -= 1
    return lo, hi, ne


def linear(t):
    """t = a*base + b with integer constants."""
    if isinstance(t, Term):
        if t.op == "add" and isinstance(t.args[1], Const):
            r = linear(t.args[0])
            return (r[0], r[1], r[2] + t.args[1].v)
        if t.op == "sub" and isinstance(t.args[1], Const):
            r = linear(t.args[0])
            return (r[0], r[1], r[2] - t.args[1].v)
        if t.op == "mul" and isinstance(t.args[1], Const) and isinstance(t.args[1].v, int):
            r = linear(t.args[0])
            k = t.args[1].v
            return (r[0], r[1] * k, r[2] * k)
        if t.op == "neg":
            r = linear(t.args[0])
            return (r[0], -r[1], -r[2])
    return (t, 1, 0)


NEG = {"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}
FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}


def cmp_const(st, t, op, c):
    """Split on `t op c` for an int term t and an int constant c: list of (state, bool)."""
    if isinstance(c, bool):
        c = int(c)
    lo, hi, ne = int_range(st, t)
    # definite answers from the interval
    ans = None
    if op in ("==", "!="):
        if (lo is not None and c < lo) or (hi is not None and c > hi) or c in ne:
            ans = op == "!="
        elif lo is not None and lo == hi == c:
            ans = op == "=="
    else:
        if op in (">", "<="):
            g = True if lo is not None and lo > c else False if hi is not None and hi <= c else None
            ans = None if g is None else (g if op == ">" else not g)
        else:
            g = True if hi is not None and hi < c else False if lo is not None and lo >= c else None
            ans = None if g is None else (g if op == "<" else not g)
    if ans is not None:
        return [(st, ans)]
    base, a, b = linear(t)
    if base is not t and a != 0:
        # a*base + b op c
        k = c - b
        if op in ("==", "!="):
            if k % a:
                return [(st, op == "!=")]
            return cmp_const(st, base, op, k // a)
        import math
        o = op
        if a < 0:
            o = FLIP[o]
        q = k / a
        if o in ("<", ">="):
            lim = math.ceil(k / a) if k % a else k // a
            return cmp_const(st, base, o, lim)
        lim = math.floor(k / a) if k % a else k // a
        return cmp_const(st, base, o, lim)
    # string derived integers
    if isinstance(t, Term):
        if t.op == "len" and is_strlike(t.args[0]):
            return _by_lang(st, t.args[0], lambda lo_, hi_: L.length_between(max(lo_ or 0, 0), hi_), op, c)
        if t.op == "count":
            s, sub = t.args
            if op in ("==", "!="):
                lg = L.count_exactly(sub, c) if c >= 0 else L.EMPTY
                return [(x, y if op == "==" else not y) for x, y in pred(st, s, lg)]

            def cl(lo_, hi_):
                d = L.EMPTY
                lo_ = max(lo_ or 0, 0)
                if hi_ is None:
                    d = L.ANY
                    for k in range(lo_):
                        d = d - L.count_exactly(sub, k)
                    return d
                for k in range(lo_, hi_ + 1):
                    d = d | L.count_exactly(sub, k)
                return d
            return _by_lang(st, s, cl, op, c)
        if t.op == "find":
            s, sub = t.args[:2]
            g = None
            if (op, c) in (("==", -1), ("<", 0), ("<=", -1)):
                g = False
            elif (op, c) in (("!=", -1), (">", -1), (">=", 0)):
                g = True
            elif (op, c) in (("==", 0),):
                return pred(st, s, L.startswith(sub))
            if g is not None:
                return [(x, y if g else not y) for x, y in pred(st, s, L.contains(sub))]
        if t.op == "int" and len(t.args) == 1:
            lg = lang_of(st, t.args[0])
            if lg <= L.DIGIT.plus():
                try:
                    return _by_lang(st, t.args[0], numeral_lang, op, c)
                except L.Unsupported:
                    pass
    # interval refinement
    free = isinstance(t, Term) and (t.op in ("atom", "attr", "call", "len") or (t.op == "int"))
    out = []
    for val in (True, False):
        o = op if val else NEG[op]
        l2, h2, n2 = lo, hi, ne
        if o == "==":
            l2 = h2 = c
        elif o == "!=":
            n2 = ne | {c}
        elif o == "<":
            h2 = c - 1 if h2 is None else min(h2, c - 1)
        elif o == "<=":
            h2 = c if h2 is None else min(h2, c)
        elif o == ">":
            l2 = c + 1 if l2 is None else max(l2, c + 1)
        else:
            l2 = c if l2 is None else max(l2, c)
        l2, h2, n2 = _shrink(l2, h2, n2)
        if l2 is not None and h2 is not None and l2 > h2:
            continue
        s2 = st.with_fact(("int", t), (l2, h2, n2))
        if not free:
            s2 = s2.tainted(f"comparison on derived integer {t!r}")
        out.append((s2, val))
    return out


def _by_lang(st, s, mk, op, c):
    if op == "==":
        return pred(st, s, mk(c, c) if c >= 0 else L.EMPTY)
    if op == "!=":
        return [(x, not y) for x, y in pred(st, s, mk(c, c) if c >= 0 else L.EMPTY)]
    if op == "<":
        return pred(st, s, mk(None, c - 1) if c - 1 >= 0 else L.EMPTY)
    if op == "<=":
        return pred(st, s, mk(None, c) if c >= 0 else L.EMPTY)
    if op == ">":
        return pred(st, s, mk(c + 1, None))
    return pred(st, s, mk(c, None))


# ------------------------------------------------------------ languages of abstract strings
def atom_lang(st, t):
    return st.fact(("lang", t), L.ANY)


def lang_of(st, v) -> DFA:
    if isinstance(v, Const):
        s = v.v
        if isinstance(s, bytes):
            s = s.decode("latin-1")
        return L.const(s)
    if isinstance(v, Str):
        d = L.EPS
        for p in v.parts:
            d = d + lang_of(st, p)
        f = st.fact(("lang", v))
        return d if f is None else d & f
    if isinstance(v, Term):
        if v.op == "atom":
            return atom_lang(st, v)
        f = st.fact(("lang", v))
        if v.op in STR_UNARY:
            r = forward(v.op, v.args[1:], lang_of(st, v.args[0]))
            if r is not None:
                return r if f is None else r & f
        elif v.op == "str" and is_intlike(v.args[0]):
            lo, hi, ne = int_range(st, v.args[0])
            d = int_lang(lo, hi)
            for k in ne:
                d = d - L.const(str(k))
            return d if f is None else d & f
        elif v.op == "format" and v.args[1] in ("02d", "02", "03d", "03", "d", "04d", "0>2", "02.0f"):
            lo, hi, ne = int_range(st, v.args[0])
            w = {"02d": 2, "02": 2, "03d": 3, "03": 3, "d": 1, "04d": 4, "0>2": 2}.get(v.args[1], 1)
            if lo is not None and lo >= 0:
                if hi is not None and hi - lo <= 400:
                    d = L.EMPTY
                    for k in range(lo, hi + 1):
                        if k not in ne:
                            d = d | L.const(format(k, v.args[1]))
                else:
                    d = L.DIGIT.plus() & L.length_at_least(w)
            else:
                d = L.const("-").opt() + L.DIGIT.plus()
            return d if f is None else d & f
        elif v.op in ("lower", "upper"):
            r = case_image(v.op, lang_of(st, v.args[0]))
            if r is not None:
                return r if f is None else r & f
        elif v.op in TERM_LANGS:
            d = TERM_LANGS[v.op]
            return d if f is None else d & f
        return L.ANY if f is None else f
    return L.ANY


HEXCH = L.syms(L.where(lambda c: c in "0123456789abcdef"))
TERM_LANGS = {
    "hexstr": HEXCH.star(),
    "digits": L.DIGIT.star(),
    "own_pass": L.DIGIT.plus(),
}


_split_limit = 12


def pred(st, v, T: DFA, depth=0):
    """Split on `v in T` : list of (state, bool); refines the facts of the base atoms."""
    if isinstance(v, Const) and isinstance(v.v, (str, bytes)):
        return [(st, T.accepts(v.v if isinstance(v.v, str) else v.v.decode("latin-1")))]
    lv = lang_of(st, v)
    if lv.is_empty():
        return []
    if lv <= T:
        return [(st, True)]
    if (lv & T).is_empty():
        return [(st, False)]
    if isinstance(v, Term):
        if v.op == "atom":
            return [(st.with_fact(("lang", v), lv & T), True), (st.with_fact(("lang", v), lv - T), False)]
        if v.op in STR_UNARY:
            pre = backward(v.op, v.args[1:], T)
            if pre is not None:
                return pred(st, v.args[0], pre, depth + 1)
        if v.op == "str" and is_intlike(v.args[0]):
            w = (T & lv)
            ow = w.only_word()
            if ow is not None:
                try:
                    return cmp_const(st, v.args[0], "==", int(L.text_of(ow)))
                except ValueError:
                    pass
            nonneg = lv & int_lang(0, None)
            neg = lv - nonneg
            if nonneg <= T and (neg & T).is_empty():
                return cmp_const(st, v.args[0], ">=", 0)
            if neg <= T and (nonneg & T).is_empty():
                return cmp_const(st, v.args[0], "<", 0)
            ow = (lv - T).only_word()
            if ow is not None:
                return cmp_const(st, v.args[0], "!=", int(L.text_of(ow)))
        if v.op in TERM_LANGS or v.op == "hash":
            pass
        # opaque term: remember the answer on the term itself
        return [(st.with_fact(("lang", v), lv & T).tainted(f"predicate on {v!r}"), True),
                (st.with_fact(("lang", v), lv - T).tainted(f"predicate on {v!r}"), False)]
    if isinstance(v, Str) and depth < 8:
        parts = v.parts
        langs = [lang_of(st, p) for p in parts]
        best = None
        for i, p in enumerate(parts):
            if isinstance(p, Const):
                continue
            left = L.EPS
            for x in langs[:i]:
                left = left + x
            right = L.EPS
            for x in langs[i + 1:]:
                right = right + x
            may_out = quotient(~T, left, right)   # some context puts it outside
            may_in = quotient(T, left, right)
            must_in = langs[i] - may_out
            must_out = langs[i] - may_in
            rest = langs[i] - must_in - must_out
            if rest.is_empty():
                return pred(st, p, must_in, depth + 1)
            if best is None and not (must_in.is_empty() and must_out.is_empty()):
                best = (p, must_in, must_out, rest)
        if best:
            p, mi, mo, rest = best
            out = []
            for s2, b in pred(st, p, mi, depth + 1):
                if b:
                    out.append((s2, True))
                    continue
                for s3, b3 in pred(s2, p, mo, depth + 1):
                    if b3:
                        out.append((s3, False))
                    else:
                        out.extend(pred(s3, v, T, depth + 1))
            return out
    return [(st.with_fact(("lang", v), lv & T).tainted(f"predicate on {v!r}"), True),
            (st.with_fact(("lang", v), lv - T).tainted(f"predicate on {v!r}"), False)]


def eq_const_str(st, v, s: str):
    """Split on v == s (s a Python string)."""
    amb = any(i in MULTI for i in L.word_of(s))
    out = []
    for st2, b in pred(st, v, L.const(s)):
        if amb and b:
            # the class of strings contains s but also others
            out.append((st2.tainted("ambiguous character class"), True))
            out.append((st2.tainted("ambiguous character class"), False))
        else:
            out.append((st2, b))
    return out


# ------------------------------------------------------------ concrete evaluation of terms (witnesses)
class NoValue(Exception):
    pass


def ev(t, asg):
    """Value of an abstract scalar under an assignment of its atoms."""
    if isinstance(t, Const):
        return t.v
    if isinstance(t, Str):
        r = "".join(x if isinstance(x, str) else x.decode("latin-1") for x in (ev(p, asg) for p in t.parts))
        return r if t.kind == "str" else r.encode("latin-1")
    if isinstance(t, Tup):
        return tuple(ev(p, asg) for p in t.items)
    if isinstance(t, Bits):
        v = 0
        n = max(len(t.bits), 1)

        def b(x):
            if x in (0, 1):
                return x
            if x == "?":
                raise NoValue("bit")
            val = asg[x[1]] >> x[2] & 1
            return val if x[0] == "b" else 1 - val
        for i in range(n):
            v |= b(t.bit(i)) << i
        if b(t.ext):
            v -= 1 << n
        return v
    if not isinstance(t, Term):
        raise NoValue(repr(t))
    op = t.op
    if op == "atom":
        if t in asg:
            return asg[t]
        if t.args[0] in asg:
            return asg[t.args[0]]
        raise NoValue(repr(t))
    a = [ev(x, asg) if isinstance(x, V) else x for x in t.args]
    try:
        if op == "removeprefix":
            return a[0].removeprefix(a[1])
        if op == "removesuffix":
            return a[0].removesuffix(a[1])
        if op == "strip":
            return a[0].strip(a[1])
        if op == "lstrip":
            return a[0].lstrip(a[1])
        if op == "rstrip":
            return a[0].rstrip(a[1])
        if op == "field":
            f = a[0].split(a[1])
            if len(f) != a[3]:
                raise NoValue("fields")
            return f[a[2]]
        if op == "drop":
            return a[0][a[1]:]
        if op == "droplast":
            return a[0][:-a[1]]
        if op == "take":
            return a[0][:a[1]]
        if op == "last":
            return a[0][-a[1]:]
        if op == "char":
            return a[0][a[1]]
        if op == "rev":
            return a[0][::-1]
        if op == "sub1":
            return a[0].replace(a[1], a[2])
        if op == "before":
            return a[0].partition(a[1])[0]
        if op == "after":
            return a[0].partition(a[1])[2]
        if op == "lower":
            return a[0].lower()
        if op == "upper":
            return a[0].upper()
        if op == "zfill":
            return a[0].zfill(a[1])
        if op == "str":
            return str(a[0])
        if op == "repr":
            return repr(a[0])
        if op == "format":
            return format(a[0], a[1])
        if op == "int":
            return int(*a)
        if op == "float":
            return float(a[0])
        if op == "len":
            return len(a[0])
        if op == "count":
            return a[0].count(a[1])
        if op == "find":
            return a[0].find(a[1])
        if op == "pos":
            return len(a[1])
        if op == "bool":
            return bool(a[0])
        if op == "not":
            return not a[0]
        if op == "add":
            return a[0] + a[1]
        if op == "sub":
            return a[0] - a[1]
        if op == "mul":
            return a[0] * a[1]
        if op == "floordiv":
            return a[0] // a[1]
        if op == "truediv":
            return a[0] / a[1]
        if op == "mod":
            return a[0] % a[1]
        if op == "pow":
            return a[0] ** a[1]
        if op == "neg":
            return -a[0]
        if op == "abs":
            return abs(a[0])
        if op == "band":
            return a[0] & a[1]
        if op == "bor":
            return a[0] | a[1]
        if op == "bxor":
            return a[0] ^ a[1]
        if op == "shl":
            return a[0] << a[1]
        if op == "shr":
            return a[0] >> a[1]
        if op == "invert":
            return ~a[0]
        if op == "round":
            return round(*a)
        if op == "min":
            return min(a)
        if op == "max":
            return max(a)
        if op == "cmp":
            x, o, y = a
            return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[o]
        if op == "attr":
            return getattr(a[0], a[1])
        if op == "call":
            kws = t.args[3] if len(t.args) > 3 else ()
            return getattr(a[0], a[1])(*[ev(x, asg) for x in t.args[2]],
                                       **{k: ev(v, asg) for k, v in kws})
        if op == "new":
            cls = {"datetime": _dt.datetime, "date": _dt.date, "time": _dt.time, "timedelta": _dt.timedelta,
                   "timezone": _dt.timezone, "ipv4": _ip.IPv4Address, "ipv4network": _ip.IPv4Network}[t.args[0]]
            return cls(*[ev(x, asg) for x in t.args[1]], **{k: ev(v, asg) for k, v in t.args[2]})
    except NoValue:
        raise
    except Exception as e:
        raise NoValue(f"{op}: {type(e).__name__}: {e}")
    raise NoValue(op)


_TD = {"days": 86400 * 10**6, "seconds": 10**6, "microseconds": 1, "milliseconds": 1000, "minutes": 60 * 10**6, "hours": 3600 * 10**6, "weeks": 7 * 86400 * 10**6}


def lin_form(t):
    """An integer (or a duration, in microseconds) as a linear combination {term: coefficient, 1: constant}; None for other values."""
    if isinstance(t, Const):
        if isinstance(t.v, bool):
            return None
        if isinstance(t.v, int):
            return {1: t.v}
        if isinstance(t.v, _dt.timedelta):
            return {1: t.v // _dt.timedelta(microseconds=1)}
        return None
    if not isinstance(t, Term) or t.typ not in ("int", "timedelta"):
        return None
    if t.op in ("add", "sub"):
        a, b = lin_form(t.args[0]), lin_form(t.args[1])
        if a is None or b is None:
            return None
        return _lin_add(a, b, 1 if t.op == "add" else -1)
    if t.op == "neg":
        a = lin_form(t.args[0])
        return None if a is None else _lin_add({}, a, -1)
    if t.op == "mul":
        a, b = lin_form(t.args[0]), lin_form(t.args[1])
        for x, y in ((a, b), (b, a)):
            if x is not None and set(x) <= {1} and y is not None:
                return _lin_add({}, y, x.get(1, 0))
    if t.op == "new" and t.args[0] == "timedelta" and not t.args[1]:
        out = {}
        for k, v in t.args[2]:
            x = lin_form(v)
            if x is None or k not in _TD:
                return None
            out = _lin_add(out, x, _TD[k])
        return out
    return {t: 1} if t.typ == "int" else None


def _lin_add(a, b, k):
    out = dict(a)
    for x, c in b.items():
        out[x] = out.get(x, 0) + k * c
        if not out[x]:
            del out[x]
    return out
