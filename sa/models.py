"""Models of the builtins and of the standard library used by the repository."""
from __future__ import annotations
import datetime as _dt
import builtins as _b
import re as _re
import ipaddress as _ipa

from . import lang as L
from . import strings as S
from .values import *
from .interp import ABN

TYPES = {"timezone": "datetime.timezone", "datetime": "datetime.datetime", "date": "datetime.date", "time": "datetime.time",
         "timedelta": "datetime.timedelta", "tz": "datetime.timezone", "ip": "ipaddress.IPv4Address",
         "net": "ipaddress.IPv4Network", "charset": "set", "bytes": "bytes"}
CLOSED = {"object", "type", "ABC", "str", "int", "float", "bytes", "bool", "enum.Enum", "enum.IntEnum", "enum.StrEnum",
          "enum.ReprEnum", "abc.ABC", "asyncio.Protocol", "asyncio.BaseProtocol", "typing.Generic", "typing.Protocol",
          "super"} | {n for n, c in vars(_b).items() if isinstance(c, type) and issubclass(c, BaseException)}
WITH, AWAIT, CALLABLE, CONSTRUCT = {}, {}, {}, {}
MAX_FIELDS = 13


def one(st, v):
    return iter([(st, v)])


def py(name):
    def deco(f):
        return Py(name, f)
    return deco


def coro(name, gen, key=None):
    """An awaitable that runs gen(ip, st, args, kw)."""
    return Coro(Py(name, gen, key=key), (), {}, "coro")


# ======================================================================= strings
def norm(st, t):
    """Replaces a term by its constant when its language is a single unambiguous word."""
    if isinstance(t, Term) and t.typ == "str" and t.op in S.STR_UNARY:
        lg = S.lang_of(st, t)
        w = lg.only_word()
        if w is not None and not any(i in S.MULTI for i in w):
            return Const(L.text_of(w))
    return t


def T(op, *args):
    return Term(op, args, "str")


def s_char(v, i):
    if isinstance(v, Const):
        return Const(v.v[i])
    if isinstance(v, Str):
        parts = v.parts
        if i >= 0:
            k = 0
            for p in parts:
                if isinstance(p, Const):
                    if i - k < len(p.v):
                        return Const(p.v[i - k])
                    k += len(p.v)
                else:
                    break
        else:
            k = i
            for p in reversed(parts):
                if isinstance(p, Const):
                    if -k <= len(p.v):
                        return Const(p.v[k])
                    k += len(p.v)
                else:
                    break
    return T("char", v, i)


def s_drop(v, a):
    if a == 0:
        return v
    if isinstance(v, Const):
        return Const(v.v[a:])
    if isinstance(v, Str) and isinstance(v.parts[0], Const):
        p = v.parts[0].v
        if len(p) >= a:
            return cat((Const(p[a:]),) + v.parts[1:], v.kind)
        return s_drop(cat(v.parts[1:], v.kind), a - len(p))
    if isinstance(v, Term) and v.op == "drop":
        return T("drop", v.args[0], v.args[1] + a)
    return T("drop", v, a)


def s_droplast(v, b):
    if b == 0:
        return v
    if isinstance(v, Const):
        return Const(v.v[:-b])
    if isinstance(v, Str) and isinstance(v.parts[-1], Const):
        p = v.parts[-1].v
        if len(p) >= b:
            return cat(v.parts[:-1] + (Const(p[:len(p) - b]),), v.kind)
        return s_droplast(cat(v.parts[:-1], v.kind), b - len(p))
    return T("droplast", v, b)


def s_take(st, v, b):
    if isinstance(v, Const):
        return Const(v.v[:b])
    if S.lang_of(st, v) <= L.length_between(0, b):
        return v
    if isinstance(v, Str) and isinstance(v.parts[0], Const):
        p = v.parts[0].v
        if len(p) >= b:
            return Const(p[:b])
        return cat([Const(p), s_take(st, cat(v.parts[1:]), b - len(p))])
    return T("take", v, b)


def s_last(st, v, a):
    if isinstance(v, Const):
        return Const(v.v[-a:])
    if S.lang_of(st, v) <= L.length_between(0, a):
        return v
    if isinstance(v, Str) and isinstance(v.parts[-1], Const):
        p = v.parts[-1].v
        if len(p) >= a:
            return Const(p[-a:])
        return cat([s_last(st, cat(v.parts[:-1]), a - len(p)), Const(p)])
    return T("last", v, a)


def s_removeprefix(st, v, p):
    if isinstance(v, Const):
        return Const(v.v.removeprefix(p))
    lv = S.lang_of(st, v)
    if (lv & L.startswith(p)).is_empty() or p == "":
        return v
    if lv <= L.startswith(p):
        return norm(st, s_drop(v, len(p)))
    return norm(st, T("removeprefix", v, p))


def s_removesuffix(st, v, p):
    if isinstance(v, Const):
        return Const(v.v.removesuffix(p))
    lv = S.lang_of(st, v)
    if (lv & L.endswith(p)).is_empty() or p == "":
        return v
    if lv <= L.endswith(p):
        return norm(st, s_droplast(v, len(p)))
    return norm(st, T("removesuffix", v, p))


def s_strip(st, v, chars, op):
    if isinstance(v, Const):
        return Const(getattr(v.v, op)(chars))
    cs = S.strip_set(chars)
    lv = S.lang_of(st, v)
    bad = L.EMPTY
    if op != "rstrip":
        bad = bad | (L.syms(cs) + L.ANY)
    if op != "lstrip":
        bad = bad | (L.ANY + L.syms(cs))
    if (lv & bad).is_empty():
        return v
    return norm(st, T(op, v, chars))


def split(ip, st, v, sep, maxsplit=-1):
    """Yields (st, list of V)."""
    if isinstance(v, Const):
        yield st, [Const(x) for x in v.v.split(sep, maxsplit)]
        return
    if maxsplit == 0:
        yield st, [v]
        return
    if maxsplit > 0:
        for st1, has in S.pred(st, v, L.contains(sep)):
            if not has:
                yield st1, [v]
                continue
            b, a = partition_parts(st1, v, sep)
            for st2, rest in split(ip, st1, a, sep, maxsplit - 1):
                yield st2, [b] + rest
        return
    if isinstance(v, Str):
        sy = frozenset(L.sym_of(c) for c in sep)
        clean = ~(L.ANY + L.syms(sy) + L.ANY)
        if all(isinstance(p, Const) or S.lang_of(st, p) <= clean for p in v.parts) or len(sep) == 1:
            outs = [(st, [[]])]
            for p in v.parts:
                nxt = []
                for st1, fields in outs:
                    if isinstance(p, Const):
                        pcs = p.v.split(sep)
                        alts = [(st1, [Const(x) for x in pcs])]
                    elif S.lang_of(st1, p) <= clean:
                        alts = [(st1, [p])]
                    else:
                        alts = list(split_opaque(ip, st1, p, sep))
                    for st2, pieces in alts:
                        f2 = [list(x) for x in fields]
                        f2[-1].append(pieces[0])
                        for q in pieces[1:]:
                            f2.append([q])
                        nxt.append((st2, f2))
                outs = nxt
            for st1, fields in outs:
                yield st1, [cat(f) for f in fields]
            return
        cut = first_occurrence(st, v, sep)
        if cut is not None:
            for st1, rest in split(ip, st, cut[1], sep):
                yield st1, [cut[0]] + rest
            return
    yield from split_opaque(ip, st, v, sep)


def first_occurrence(st, v, sep):
    """(before, after) when the first occurrence of sep in the concatenation v is known to lie in a constant part."""
    hit = L.contains(sep)
    for i, p in enumerate(v.parts):
        if isinstance(p, Const) and sep in p.v:
            a, _, b = p.v.partition(sep)
            before = cat(v.parts[:i] + (Const(a),))
            if (S.lang_of(st, cat([before, Const(sep[:-1])])) & hit).is_empty():
                return before, cat((Const(b),) + v.parts[i + 1:])
            return None
    return None


def split_opaque(ip, st, v, sep):
    mx = getattr(ip, "max_fields", MAX_FIELDS)
    cur = st
    for n in range(1, mx + 1):
        res = S.pred(cur, v, S.nfields(sep, n))
        nxt = None
        for st1, b in res:
            if b:
                if n == 1:
                    yield st1, [v]
                else:
                    yield st1, [norm(st1, T("field", v, sep, i, n)) for i in range(n)]
            else:
                nxt = st1
        if nxt is None:
            return
        cur = nxt
    if hasattr(ip, "max_fields"):       # a bound the check has declared
        ip.bounds.add(f"strings split by {sep!r} into more than {mx} fields")
    else:
        st1, _ = next(iter([ip.top(cur, f"strings split by {sep!r} into more than {mx} fields")]))
        yield st1, [v]


def partition_parts(st, v, sep):
    """(before, after) given that sep occurs in v."""
    if isinstance(v, Const):
        a, _, b = v.v.partition(sep)
        return Const(a), Const(b)
    if isinstance(v, Str):
        sy = frozenset(L.sym_of(c) for c in sep)
        clean = ~(L.ANY + L.syms(sy) + L.ANY)
        acc = []
        for i, p in enumerate(v.parts):
            if isinstance(p, Const):
                if sep in p.v:
                    a, _, b = p.v.partition(sep)
                    return cat(acc + [Const(a)]), cat((Const(b),) + v.parts[i + 1:])
                acc.append(p)
            elif S.lang_of(st, p) <= clean:
                acc.append(p)
            else:
                break
        cut = first_occurrence(st, v, sep)
        if cut is not None:
            return cut
    return norm(st, T("before", v, sep)), norm(st, T("after", v, sep))


def const_str(v):
    return v.v if isinstance(v, Const) and isinstance(v.v, str) else None


def str_method(ip, st, v, name):
    """Bound method of an abstract str (v is strlike)."""
    def m(fn):
        return Py("str." + name, fn, key=(v, name))

    def arg0(args, default=None):
        return ip.payload_of(args[0]) if args else default

    if name in ("removeprefix", "removesuffix"):
        def f(ip, s, args, kw):
            p = const_str(ip.payload(s, args[0]))
            if p is None:
                yield ip.top(s, f"str.{name} of unknown")
            else:
                yield s, (s_removeprefix if name == "removeprefix" else s_removesuffix)(s, v, p)
        return m(f)
    if name in ("strip", "lstrip", "rstrip"):
        def f(ip, s, args, kw):
            c = None
            if args and args[0] != NONE:
                c = const_str(ip.payload(s, args[0]))
                if c is None:
                    yield ip.top(s, f"str.{name} of unknown")
                    return
            yield s, s_strip(s, v, c, name)
        return m(f)
    if name in ("startswith", "endswith"):
        def f(ip, s, args, kw):
            a = ip.payload(s, args[0])
            if len(args) > 1:
                yield ip.top(s, "startswith with offsets")
                return
            items = [ip.payload(s, x) for x in a.items] if isinstance(a, Tup) else [a]
            lg = L.EMPTY
            for x in items:
                c = const_str(x)
                if c is None:
                    if x == v:
                        lg = L.ANY
                        continue
                    yield ip.top(s, "startswith of unknown")
                    return
                lg = lg | (L.startswith(c) if name == "startswith" else L.endswith(c))
            if isinstance(v, Const):
                yield s, Const(getattr(v.v, name)(tuple(x.v for x in items)))
                return
            for s2, b in S.pred(s, v, lg):
                yield s2, Const(b)
        return m(f)
    if name in ("isdigit", "isnumeric", "isdecimal", "isascii", "isspace", "isalnum", "isalpha", "isupper", "islower", "isidentifier", "isprintable", "istitle"):
        def f(ip, s, args, kw):
            if isinstance(v, Const):
                yield s, Const(getattr(v.v, name)())
                return
            if name == "isascii":
                lg = S.ASCII
            elif name in ("isdigit", "isnumeric", "isdecimal", "isspace", "isalnum", "isalpha"):
                lg = L.syms(L.where(getattr(str, name))).plus()
            elif (S.lang_of(s, v) & S.LETTER).is_empty() and name in ("isupper", "islower", "istitle", "isidentifier"):
                lg = L.EMPTY if name != "isidentifier" else L.const("_").plus()
                if name == "isidentifier" and not (S.lang_of(s, v) & L.contains("_")).is_empty():
                    yield ip.top(s, f"str.{name}")
                    return
            else:
                yield ip.top(s, f"str.{name}")
                return
            for s2, b in S.pred(s, v, lg):
                yield s2, Const(b)
        return m(f)
    if name in ("split", "rsplit"):
        def f(ip, s, args, kw):
            sep = ip.payload(s, args[0]) if args else kw.get("sep", NONE)
            mx = args[1] if len(args) > 1 else kw.get("maxsplit", Const(-1))
            c = const_str(sep)
            if c is None or c == "" or not isinstance(mx, Const):
                if isinstance(v, Const) and sep == NONE:
                    s2, r = s.new(ListC([Const(x) for x in v.v.split()]))
                    yield s2, r
                    return
                yield ip.top(s, "str.split")
                return
            if name == "rsplit" and mx.v >= 0:
                if isinstance(v, Const):
                    yield s.new(ListC([Const(x) for x in v.v.rsplit(c, mx.v)]))
                    return
                for s2, items in rsplit(ip, s, v, c):
                    if items is None:
                        yield ip.top(s2, "str.rsplit with maxsplit")
                        continue
                    k = max(1, len(items) - mx.v)
                    yield s2.new(ListC([joined(items[:k], c)] + list(items[k:])))
                return
            for s2, items in split(ip, s, v, c, mx.v):
                yield s2.new(ListC(items))
        return m(f)
    if name in ("partition", "rpartition"):
        def f(ip, s, args, kw):
            c = const_str(ip.payload(s, args[0]))
            if c is None:
                yield ip.top(s, "str.partition")
                return
            if isinstance(v, Const):
                yield s, Tup([Const(x) for x in getattr(v.v, name)(c)])
                return
            if name == "rpartition":
                for s2, items in rsplit(ip, s, v, c):
                    if items is None:
                        yield ip.top(s2, "str.rpartition")
                    elif len(items) == 1:
                        yield s2, Tup((Const(""), Const(""), v))
                    else:
                        yield s2, Tup((joined(items[:-1], c), Const(c), items[-1]))
                return
            for s2, b in S.pred(s, v, L.contains(c)):
                if b:
                    x, y = partition_parts(s2, v, c)
                    yield s2, Tup((x, Const(c), y))
                else:
                    yield s2, Tup((v, Const(""), Const("")))
        return m(f)
    if name == "splitlines" and isinstance(v, Const):
        return m(lambda ip, s, a, k: one(*s.new(ListC([Const(x) for x in v.v.splitlines()]))))
    if name == "count":
        def f(ip, s, args, kw):
            c = const_str(ip.payload(s, args[0]))
            if isinstance(v, Const) and c is not None:
                yield s, Const(v.v.count(c))
            elif c:
                yield s, Term("count", (v, c), "int")
            else:
                yield ip.top(s, "str.count")
        return m(f)
    if name in ("find", "index", "rfind", "rindex"):
        def f(ip, s, args, kw):
            c = const_str(ip.payload(s, args[0]))
            if isinstance(v, Const) and c is not None and all(isinstance(x, Const) for x in args):
                try:
                    yield s, Const(getattr(v.v, name)(c, *[x.v for x in args[1:]]))
                except ValueError:
                    yield ip.raise_(s, "ValueError", "substring not found")
                return
            if c and len(args) == 1:
                if name in ("index", "rindex"):
                    for s2, b in S.pred(s, v, L.contains(c)):
                        if b:
                            yield s2, Term("find", (v, c), "int") if name == "index" else Term("rfind", (v, c), "int")
                        else:
                            yield ip.raise_(s2, "ValueError", "substring not found")
                elif name == "rfind":
                    for s2, items in rsplit(ip, s, v, c):
                        if items is None:
                            yield ip.top(s2, "str.rfind")
                        elif len(items) == 1:
                            yield s2, Const(-1)
                        else:
                            yield s2, Term("pos", (v, joined(items[:-1], c), cat([Const(c), items[-1]])), "int")
                else:
                    yield s, Term(name, (v, c), "int")
                return
            if c and len(args) == 2 and name in ("find", "index"):
                for s1, pr in cut_at(ip, s, v, args[1]):
                    if pr is None:
                        yield ip.top(s1, "str." + name)
                        continue
                    pre, rest = pr
                    for s2, b in S.pred(s1, rest, L.contains(c)):
                        if not b:
                            yield (ip.raise_(s2, "ValueError", "substring not found") if name == "index" else (s2, Const(-1)))
                            continue
                        x, y = partition_parts(s2, rest, c)
                        yield s2, Term("pos", (v, cat([pre, x]), cat([Const(c), y])), "int")
                return
            yield ip.top(s, "str." + name)
        return m(f)
    if name == "join":
        def f(ip, s, args, kw):
            for s2, items in ip.to_items(s, args[0]):
                if isinstance(items, ABN):
                    yield s2, items
                    continue
                if items is None:
                    yield ip.top(s2, "str.join of unknown")
                    continue
                parts = []
                bad = None
                for x in items:
                    p = ip.payload(s2, x)
                    if isinstance(p, Top):
                        bad = "top"
                        break
                    if not is_strlike(p):
                        bad = "type"
                        break
                    if parts:
                        parts.append(v)
                    parts.append(p)
                if bad == "top":
                    yield ip.top(s2, "str.join of unknown item")
                elif bad:
                    yield ip.raise_(s2, "TypeError", "sequence item: expected str instance")
                else:
                    yield s2, cat(parts)
        return m(f)
    if name == "encode":
        def f(ip, s, args, kw):
            enc = args[0] if args else kw.get("encoding", Const("utf-8"))
            e = enc.v.lower().replace("_", "-") if isinstance(enc, Const) else "?"
            errs = args[1] if len(args) > 1 else kw.get("errors")
            if isinstance(v, Const):
                try:
                    yield s, Const(v.v.encode(e, *( [errs.v] if isinstance(errs, Const) else [])))
                except UnicodeEncodeError:
                    yield ip.raise_(s, "UnicodeEncodeError", "ascii")
                return
            for s2, b in S.pred(s, v, S.ASCII):
                if b:
                    yield s2, cat([v], "bytes")
                elif e in ("ascii", "us-ascii") and errs is None:
                    yield ip.raise_(s2, "UnicodeEncodeError", "ascii")
                elif errs is not None or e not in ("utf-8", "utf8"):
                    yield ip.top(s2, "encode with error handler")
                else:
                    yield s2, Str((T("utf8", v),), "bytes")
        return m(f)
    if name in ("lower", "upper", "title", "capitalize", "casefold", "swapcase"):
        def f(ip, s, args, kw):
            if isinstance(v, Const):
                yield s, Const(getattr(v.v, name)())
            elif S.lang_of(s, v) <= L.syms(L.ALL - L.NONASCII - L.where(str.isalpha)).star():
                yield s, v
            elif name in ("lower", "casefold", "upper") and S.lang_of(s, v) <= L.syms(L.ALL - L.NONASCII - L.where(str.isupper if name != "upper" else str.islower)).star():
                yield s, v
            elif isinstance(v, Str) and v.kind == "str" and name in ("lower", "upper") and S.lang_of(s, v) <= S.ASCII:
                keep = L.syms(L.ALL - L.NONASCII - L.where(str.isupper if name != "upper" else str.islower)).star()
                yield s, cat([Const(getattr(p.v, name)()) if isinstance(p, Const) else p if S.lang_of(s, p) <= keep else T(name, p) for p in v.parts])
            else:
                yield s, T("lower" if name == "casefold" else name, v)
        return m(f)
    if name == "replace":
        def f(ip, s, args, kw):
            a, b = const_str(ip.payload(s, args[0])), const_str(ip.payload(s, args[1]))
            if a is None or b is None or len(args) > 2:
                yield ip.top(s, "str.replace")
            elif isinstance(v, Const):
                yield s, Const(v.v.replace(a, b))
            elif (S.lang_of(s, v) & L.contains(a)).is_empty():
                yield s, v
            elif len(a) == 1 and len(b) <= 1 and L.sym_of(a) not in S.MULTI:
                yield s, norm(s, T("sub1", v, a, b))
            else:
                yield s, T("replace", v, a, b)
        return m(f)
    if name in ("zfill", "rjust", "ljust", "center"):
        def f(ip, s, args, kw):
            if isinstance(v, Const) and all(isinstance(x, Const) for x in args):
                yield s, Const(getattr(v.v, name)(*[x.v for x in args]))
                return
            n = args[0]
            fill = args[1] if len(args) > 1 else Const("0" if name == "zfill" else " ")
            if isinstance(n, Const) and S.lang_of(s, v) <= L.length_at_least(n.v):
                yield s, v
            elif isinstance(n, Const) and fill == Const("0") and name in ("zfill", "rjust") and isinstance(v, Term) and v.op == "str" \
                    and is_intlike(v.args[0]):
                yield s, Term("format", (v.args[0], f"0{n.v}d"), "str")
            elif isinstance(n, Const) and name == "zfill":
                yield s, T("zfill", v, n.v)
            else:
                yield ip.top(s, "str." + name)
        return m(f)
    if name == "format":
        def f(ip, s, args, kw):
            if not isinstance(v, Const):
                yield ip.top(s, "str.format")
                return
            import string as _string
            outs = [(s, [])]
            auto = 0
            try:
                fields = list(_string.Formatter().parse(v.v))
            except ValueError:
                yield ip.raise_(s, "ValueError", "format")
                return
            for lit, fld, spec, conv in fields:
                if lit:
                    outs = [(a, acc if isinstance(acc, ABN) else acc + [Const(lit)]) for a, acc in outs]
                if fld is None:
                    continue
                if fld == "":
                    val = args[auto] if auto < len(args) else None
                    auto += 1
                elif fld.isdigit():
                    val = args[int(fld)] if int(fld) < len(args) else None
                else:
                    val = kw.get(fld)
                if val is None:
                    yield ip.top(s, "str.format field")
                    return
                nxt = []
                for a, acc in outs:
                    if isinstance(acc, ABN):
                        nxt.append((a, acc))
                        continue
                    g = ip.format_(a, val, spec) if spec else (ip.to_repr(a, val) if conv == "r" else ip.to_str(a, val))
                    for a2, x in g:
                        nxt.append((a2, x if isinstance(x, ABN) else acc + [x]))
                outs = nxt
            for a, acc in outs:
                if isinstance(acc, ABN):
                    yield a, acc
                elif any(isinstance(x, Top) for x in acc):
                    yield a, Top("format")
                else:
                    yield a, cat(acc)
        return m(f)
    if name == "__len__":
        return m(lambda ip, s, a, k: b_len.fn(ip, s, (v,), {}))
    if name == "__contains__":
        def f(ip, s, a, k):
            for s2, b in ip.contains(s, v, a[0]):
                yield s2, b if isinstance(b, ABN) else Const(b)
        return m(f)
    if name == "__str__":
        return m(lambda ip, s, a, k: one(s, v))
    if name in ("translate", "expandtabs", "maketrans", "splitlines", "format_map"):
        return m(lambda ip, s, a, k: one(*ip.top(s, "str." + name)))
    if name in ("__eq__",):
        return m(lambda ip, s, a, k: ip.builtin_eq(s, v, a[0]))
    if name in ("__hash__",):
        return m(lambda ip, s, a, k: one(s, Term("hash", (v,), "int")))
    return None


def bytes_text(v):
    """The latin-1 text of an abstract bytes value, or None."""
    if isinstance(v, Const) and isinstance(v.v, bytes):
        return Const(v.v.decode("latin-1"))
    if isinstance(v, Str) and v.kind == "bytes":
        return cat(v.parts)
    return None


def bytes_method(ip, st, v, name):
    t = bytes_text(v)

    def m(fn):
        return Py("bytes." + name, fn, key=(v, name))
    if name == "decode":
        def f(ip, s, args, kw):
            enc = args[0] if args else kw.get("encoding", Const("utf-8"))
            e = enc.v.lower().replace("_", "-") if isinstance(enc, Const) else "?"
            errs = args[1] if len(args) > 1 else kw.get("errors")
            if t is None:
                yield ip.top(s, "decode of opaque bytes")
                return
            if isinstance(t, Str) and len(t.parts) == 1:
                pass
            for s2, b in S.pred(s, t, S.ASCII):
                if b:
                    yield s2, t
                elif e in ("latin-1", "latin1", "iso-8859-1", "iso8859-1"):
                    yield s2, t
                elif errs is None and e in ("ascii", "us-ascii"):
                    yield ip.raise_(s2, "UnicodeDecodeError", "ascii")
                elif errs is None:
                    # utf-8: may or may not be well formed
                    s3 = s2.tainted("utf-8 decoding of non-ascii bytes")
                    yield s3, Top("decoded text")
                    yield ip.raise_(s3, "UnicodeDecodeError", e)
                else:
                    yield ip.top(s2, "decode with error handler")
        return m(f)
    if name == "hex":
        def f(ip, s, args, kw):
            if isinstance(v, Const):
                yield s, Const(v.v.hex())
            else:
                yield s, Term("hexstr", (v,), "str")
        return m(f)
    if t is not None and name in ("startswith", "endswith", "strip", "lstrip", "rstrip", "count", "find", "replace",
                                  "removeprefix", "removesuffix", "isascii", "isdigit", "split", "partition", "join", "index",
                                  "rfind", "rindex", "rsplit", "rpartition", "splitlines", "isspace"):
        sm = str_method(ip, st, t, name)

        def f(ip, s, args, kw):
            s0 = s

            def cv(x):
                if isinstance(x, Tup):
                    return Tup([cv(y) for y in x.items])
                bt = bytes_text(x)
                return bt if bt is not None else x
            a2 = tuple(cv(x) for x in args)
            if name == "join":
                items = ip.items_of(s, args[0])
                if items is None:
                    yield ip.top(s, "bytes.join")
                    return
                s, r = s.new(ListC([cv(x) for x in items]))
                a2 = (r,)
            for s2, r in sm.fn(ip, s, a2, kw):
                if isinstance(r, Ref) and isinstance(s2.get(r.addr), ListC):
                    s2 = s2.put(r.addr, ListC([cat([x], "bytes") for x in s2.get(r.addr).items]))
                    yield s2, r
                elif isinstance(r, Tup):
                    yield s2, Tup([cat([x], "bytes") for x in r.items])
                elif not isinstance(r, ABN) and is_strlike(r):
                    yield s2, cat([r], "bytes")
                else:
                    yield s2, r
        return m(f)
    return None


def value_attr(ip, st, o, name):
    if is_strlike(o):
        return str_method(ip, st, o, name)
    if (isinstance(o, Str) and o.kind == "bytes") or (isinstance(o, Const) and isinstance(o.v, bytes)) or \
            (isinstance(o, Term) and o.typ == "bytes"):
        return bytes_method(ip, st, o, name)
    if isinstance(o, Tup):
        if name == "index":
            def f(ip, s, args, kw):
                pend = [s]
                for i, x in enumerate(o.items):
                    nxt = []
                    for s1 in pend:
                        for s2, r in ip.eq(s1, x, args[0]):
                            for s3, t in ip.truth(s2, r):
                                if t is True:
                                    yield s3, Const(i)
                                else:
                                    nxt.append(s3)
                    pend = nxt
                for s1 in pend:
                    yield ip.raise_(s1, "ValueError", "not in tuple")
            return Py("tuple.index", f, key=o)
        if name == "count":
            def f(ip, s, args, kw):
                yield s, Const(sum(1 for x in o.items if x == args[0]))
            return Py("tuple.count", f, key=o)
        if name == "__len__":
            return Py("tuple.__len__", lambda ip, s, a, k: one(s, Const(len(o.items))), key=o)
        return None
    if isinstance(o, Const) and isinstance(o.v, (int, float)) and not isinstance(o.v, bool):
        if hasattr(o.v, name):
            a = getattr(o.v, name)
            if callable(a):
                def f(ip, s, args, kw):
                    try:
                        yield s, Const(a(*[x.v for x in args], **{k: x.v for k, x in kw.items()}))
                    except Exception as e:
                        yield ip.raise_(s, type(e).__name__, str(e))
                return Py("num." + name, f, key=(o, name))
            return Const(a)
    if isinstance(o, Const) and isinstance(o.v, range) and name in ("start", "stop", "step"):
        return Const(getattr(o.v, name))
    if isinstance(o, Term):
        return term_attr(ip, st, o, name)
    return None


ATTR_T = {"hour": "int", "minute": "int", "second": "int", "microsecond": "int", "day": "int", "month": "int",
          "year": "int", "days": "int", "seconds": "int", "microseconds": "int"}
CALL_T = {"weekday": "int", "isoweekday": "int", "date": "date", "time": "time", "timetz": "time",
          "total_seconds": "float", "isoformat": "str", "strftime": "str", "toordinal": "int", "replace": None,
          "timestamp": "float", "astimezone": "datetime"}


def maybe_none(st, t):
    f = st.fact(("none", t))
    if f is True:
        return [(st, NONE)]
    if f is False:
        return [(st, t)]
    return [(st.with_fact(("none", t), True), NONE), (st.with_fact(("none", t), False), t)]


DT_CODES = {"H": "hour", "M": "minute", "S": "second", "d": "day", "m": "month"}


def dt_format(ip, st, o, fmt):
    """The text of a date or time under a format made of plain fields; None when another directive occurs."""
    if o.typ not in ("datetime", "date", "time") or o.op not in ("new", "atom"):
        return None
    fmt = fmt.replace("%T", "%H:%M:%S").replace("%F", "%Y-%m-%d").replace("%R", "%H:%M")
    out, i = [], 0
    while i < len(fmt):
        if fmt[i] != "%":
            out.append(Const(fmt[i]))
            i += 1
            continue
        c = fmt[i + 1:i + 2]
        i += 2
        if c == "%":
            out.append(Const("%"))
            continue
        if c in DT_CODES or c == "Y":
            n = DT_CODES.get(c, "year")
            if o.typ == "date" and n in ("hour", "minute", "second"):
                out.append(Const("00"))
                continue
            v = term_attr(ip, st, o, n)
            if not is_intlike(v):
                return None
            if isinstance(v, Const):
                out.append(Const(f"{v.v:02d}" if c != "Y" else str(v.v)))
            else:
                out.append(Term("format", (v, "02d"), "str") if c != "Y" else Term("str", (v,), "str"))
            continue
        if c == "y":
            v = term_attr(ip, st, o, "year") if o.typ != "time" else Const(0)
            if not is_intlike(v):
                return None
            out.append(Const(f"{v.v % 100:02d}") if isinstance(v, Const) else Term("format", (Term("mod", (v, Const(100)), "int"), "02d"), "str"))
            continue
        if c == "w" and o.typ != "time":
            out.append(Term("str", (Term("mod", (Term("call", (o, "isoweekday", (), ()), "int"), Const(7)), "int"),), "str"))
            continue
        return None
    return cat(out)


def term_attr(ip, st, o, name):
    if o.typ in ("datetime", "date", "time", "timedelta", "tz"):
        if name == "tzinfo" and o.typ in ("datetime", "time"):
            if o.op == "new":
                return dict(o.args[2]).get("tzinfo", NONE)
            return maybe_none(st, Term("attr", (o, "tzinfo"), "tz"))
        if o.op == "new":
            d = dict(o.args[2])
            if name in d:
                return d[name]
            if name in ("hour", "minute", "second", "microsecond") and o.typ in ("datetime", "time"):
                return Const(0)
        if name in ATTR_T:
            return Term("attr", (o, name), ATTR_T[name])
        if name == "utcoffset":
            def f(ip, s, args, kw):
                if o.op == "new" and o.typ == "tz":
                    yield s, dict(o.args[2])["offset"]
                    return
                if o.op == "new" and o.typ in ("datetime", "time"):
                    tz = dict(o.args[2]).get("tzinfo", NONE)
                    if tz == NONE:
                        yield s, NONE
                        return
                    if isinstance(tz, Const) and isinstance(tz.v, _dt.timezone):
                        yield s, Const(tz.v.utcoffset(None))
                        return
                t = Term("call", (o, "utcoffset", tuple(args)), "timedelta")
                yield from maybe_none(s, t)
            return Py("utcoffset", f, key=o)
        if name in CALL_T:
            def f(ip, s, args, kw):
                if name == "strftime" and args and isinstance(args[0], Const):
                    v = dt_format(ip, s, o, args[0].v)
                    if v is not None:
                        yield s, v
                        return
                if o.op == "new" and name in ("date", "time", "timetz", "replace"):
                    d = dict(o.args[2])
                    if name == "replace":
                        if args or not set(kw) <= set(DT_ARGS[o.args[0]]):
                            yield ip.top(s, "replace")
                            return
                        yield from dt_new(o.args[0])(ip, s, (), {**d, **kw})
                        return
                    keep = DT_ARGS["date" if name == "date" else "time"]
                    yield s, Term("new", ("date" if name == "date" else "time", (), tuple(sorted((k, v) for k, v in d.items() if k in keep and (k != "tzinfo" or name == "timetz")))),
                                  CALL_T[name])
                    return
                yield s, Term("call", (o, name, tuple(args), tuple(sorted(kw.items()))), CALL_T[name] or o.typ)
            return Py("dt." + name, f, key=(o, name))
    if o.typ in ("ip", "net"):
        return Term("attr", (o, name), "obj")
    if o.typ in ("int", "float") and name in ("is_integer", "bit_length", "to_bytes"):
        def f(ip, s, args, kw):
            yield ip.top(s, "num." + name)
        return Py(name, f, key=(o, name))
    if o.typ == "charset":
        if name in ("issubset", "isdisjoint", "difference", "__le__"):
            def f(ip, s, args, kw):
                if name in ("issubset", "__le__"):
                    yield from order(ip, s, "<=", o, args[0])
                elif name == "difference":
                    yield from binop(ip, s, "Sub", o, args[0])
                else:
                    cs = char_items(ip, s, args[0])
                    if cs is None:
                        yield ip.top(s, "isdisjoint")
                        return
                    lg = ~(L.ANY + L.syms(frozenset(L.sym_of(c) for c in cs)) + L.ANY)
                    for s2, b in S.pred(s, o.args[0], lg):
                        yield s2, Const(b)
            return Py("set." + name, f, key=(o, name))
    return None


def char_items(ip, st, v):
    v = ip.payload(st, v)
    if isinstance(v, Const) and isinstance(v.v, str):
        return list(v.v)
    items = ip.items_of(st, v)
    if items is None:
        return None
    out = []
    for x in items:
        if isinstance(x, Const) and isinstance(x.v, str) and len(x.v) == 1:
            out.append(x.v)
        else:
            return None
    return out


# ======================================================================= operators
def num_typ(a, b, op):
    ta = type(a.v).__name__ if isinstance(a, Const) else "int" if isinstance(a, Bits) else a.typ
    tb = type(b.v).__name__ if isinstance(b, Const) else "int" if isinstance(b, Bits) else b.typ
    return ta, tb


NUM = {"int", "float", "bool"}
OPN = {"Add": "add", "Sub": "sub", "Mult": "mul", "FloorDiv": "floordiv", "Mod": "mod", "Div": "truediv", "Pow": "pow",
       "BitAnd": "band", "BitOr": "bor", "BitXor": "bxor", "LShift": "shl", "RShift": "shr"}
PYOP = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b,
        "FloorDiv": lambda a, b: a // b, "Mod": lambda a, b: a % b, "Div": lambda a, b: a / b,
        "Pow": lambda a, b: a ** b, "BitAnd": lambda a, b: a & b, "BitOr": lambda a, b: a | b,
        "BitXor": lambda a, b: a ^ b, "LShift": lambda a, b: a << b, "RShift": lambda a, b: a >> b}


def to_bits(v):
    if isinstance(v, Bits):
        return v
    if isinstance(v, Const) and isinstance(v.v, int):
        n = v.v
        w = max(n.bit_length(), 1)
        return Bits([(n >> i) & 1 for i in range(w)], 1 if n < 0 else 0)
    return None


def bits_op(op, a, b):
    if op in ("LShift", "RShift"):
        if not isinstance(b, Const):
            return None
        k = b.v
        x = to_bits(a)
        if op == "LShift":
            return Bits((0,) * k + x.bits, x.ext)
        return Bits(x.bits[k:], x.ext)
    if op == "FloorDiv" and isinstance(b, Const) and b.v > 0 and b.v & (b.v - 1) == 0:
        return bits_op("RShift", a, Const(b.v.bit_length() - 1))
    if op == "Mult" and isinstance(b, Const) and b.v > 0 and b.v & (b.v - 1) == 0:
        return bits_op("LShift", a, Const(b.v.bit_length() - 1))
    if op == "Mod" and isinstance(b, Const) and b.v > 0 and b.v & (b.v - 1) == 0:
        return bits_op("BitAnd", a, Const(b.v - 1))
    if op in ("BitAnd", "BitOr", "BitXor", "Add", "Sub"):
        x, y = to_bits(a), to_bits(b)
        if x is None or y is None:
            return None

        def neg(p, q):
            return not (p in (0, 1) or q in (0, 1) or p == "?" or q == "?") and p[1:] == q[1:] and p[0] != q[0]

        def f(p, q):
            if op == "BitAnd":
                if p == 0 or q == 0:
                    return 0
                if p == 1:
                    return q
                if q == 1:
                    return p
                if neg(p, q):
                    return 0
            elif op == "BitOr":
                if p == 1 or q == 1:
                    return 1
                if p == 0:
                    return q
                if q == 0:
                    return p
                if neg(p, q):
                    return 1
            elif op == "BitXor":
                if p == 0:
                    return q
                if q == 0:
                    return p
                if p == q and p != "?":
                    return 0
                if p == 1 and q != "?":
                    return 0 if q == 1 else ("~" if q[0] == "b" else "b",) + q[1:]
                if q == 1 and p != "?":
                    return ("~" if p[0] == "b" else "b",) + p[1:]
                if neg(p, q):
                    return 1
                return "?"
            elif op == "Add":
                # only carry-free additions are exact
                if p == 0:
                    return q
                if q == 0:
                    return p
                return None
            else:
                # subtraction without borrow: all-ones minus x is the complement
                if q == 0:
                    return p
                if p == 1 and q != "?":
                    return 0 if q == 1 else ("~" if q[0] == "b" else "b",) + q[1:]
                return None
            return p if p == q else "?"
        n = max(len(x.bits), len(y.bits))
        out = [f(x.bit(i), y.bit(i)) for i in range(n)]
        e = f(x.ext, y.ext)
        if None in out or e is None:
            return None
        return Bits(out, e)
    return None


def binop(ip, st, op, a, b):
    pa, pb = ip.payload(st, a), ip.payload(st, b)
    # user defined operators
    for x, y, pre in ((a, b, "__"), (b, a, "__r")):
        if isinstance(x, Ref) and isinstance(st.get(x.addr), Inst):
            nm = pre + {"Add": "add", "Sub": "sub", "Mult": "mul", "BitOr": "or", "BitAnd": "and", "Mod": "mod",
                        "FloorDiv": "floordiv", "Div": "truediv", "BitXor": "xor", "LShift": "lshift", "RShift": "rshift",
                        "Pow": "pow", "MatMult": "matmul"}.get(op, "?") + "__"
            f = ip.class_lookup(st, st.get(x.addr).cls, nm)
            if f and not f[0].ext:
                yield from ip.call(st, Bound(x, f[1]), (y,), {})
                return
    a, b = pa, pb
    if op == "BitOr" and (isinstance(a, (Cls, Ext, Union)) or isinstance(b, (Cls, Ext, Union))):
        def fl(x):
            return list(x.items) if isinstance(x, Union) else [x]
        yield st, Union(fl(a) + fl(b))
        return
    if isinstance(a, Top) or isinstance(b, Top):
        yield st, Top("operation on unknown")
        return
    if isinstance(a, Const) and isinstance(b, Const):
        if isinstance(a.v, str) and op == "Mod":
            yield from percent(ip, st, a, b)
            return
        try:
            if op == "Pow" and abs(b.v) > 300 or op == "LShift" and b.v > 4096:
                yield ip.top(st, "huge constant")
                return
            yield st, Const(PYOP[op](a.v, b.v))
        except ZeroDivisionError:
            yield ip.raise_(st, "ZeroDivisionError")
        except TypeError as e:
            yield ip.raise_(st, "TypeError", str(e))
        except Exception as e:
            yield ip.raise_(st, type(e).__name__, str(e))
        return
    if op == "Add":
        if is_strlike(a) and is_strlike(b):
            yield st, cat([a, b])
            return
        ba, bb = bytes_text(a), bytes_text(b)
        if ba is not None and bb is not None:
            yield st, cat([ba, bb], "bytes")
            return
        if isinstance(a, Tup) and isinstance(b, Tup):
            yield st, Tup(a.items + b.items)
            return
        if isinstance(a, Ref) and isinstance(b, Ref) and isinstance(st.get(a.addr), ListC) and isinstance(st.get(b.addr), ListC):
            yield st.new(ListC(st.get(a.addr).items + st.get(b.addr).items))
            return
    if op == "Mult":
        for x, y in ((a, b), (b, a)):
            if isinstance(y, Const) and isinstance(y.v, int):
                if isinstance(x, Tup):
                    yield st, Tup(x.items * y.v)
                    return
                if isinstance(x, Ref) and isinstance(st.get(x.addr), ListC):
                    yield st.new(ListC(st.get(x.addr).items * y.v))
                    return
                if is_strlike(x) and y.v < 50:
                    yield st, cat([x] * y.v)
                    return
    if op == "Mod" and is_strlike(a):
        yield from percent(ip, st, a, b)
        return
    if isinstance(a, Term) and a.typ == "charset" and op in ("Sub", "BitAnd"):
        cs = char_items(ip, st, b)
        if cs is not None:
            yield st, Term("chardiff" if op == "Sub" else "charand", (a.args[0], "".join(sorted(cs))), "charset")
            return
    if isinstance(a, Ref) and isinstance(b, Ref):
        ca, cb = st.get(a.addr), st.get(b.addr)
        if isinstance(ca, SetC) and isinstance(cb, SetC) and all(isinstance(x, (Const, Ref, Cls)) for x in ca.items + cb.items):
            f = {"BitOr": lambda: tuple(dict.fromkeys(ca.items + cb.items)),
                 "BitAnd": lambda: tuple(x for x in ca.items if x in cb.items),
                 "Sub": lambda: tuple(x for x in ca.items if x not in cb.items),
                 "BitXor": lambda: tuple(x for x in ca.items if x not in cb.items) + tuple(x for x in cb.items if x not in ca.items)}.get(op)
            if f:
                yield st.new(SetC(f(), ca.frozen))
                return
        if isinstance(ca, DictC) and isinstance(cb, DictC) and op == "BitOr":
            st1, r = st.new(DictC(ca.items))
            outs = [(st1, None)]
            for k, v in cb.items:
                outs = [o for s1, _ in outs for o in ip.dict_set(s1, r, k, v)]
            for s1, _ in outs:
                yield s1, r
            return
    if isinstance(a, Bits) or isinstance(b, Bits):
        r = bits_op(op, a, b)
        if r is None and op in ("BitAnd", "BitOr", "Add", "BitXor"):
            r = bits_op(op, b, a)
        if r is not None:
            k = r.const()
            yield st, Const(k) if k is not None else r
            return
        yield ip.top(st, f"bit operation {op}")
        return
    if isinstance(a, (Term, Const)) and isinstance(b, (Term, Const)):
        ta, tb = num_typ(a, b, op)
        if ta in NUM and tb in NUM:
            typ = "float" if "float" in (ta, tb) or op == "Div" else "int"
            if op in ("FloorDiv", "Mod", "Div"):
                if isinstance(b, Const):
                    if b.v == 0:
                        yield ip.raise_(st, "ZeroDivisionError")
                        return
                else:
                    st = st.tainted("division by unknown")
            if op == "Add":
                if isinstance(a, Const):
                    a, b = b, a
                if isinstance(b, Const) and b.v == 0 and typ == "int":
                    yield st, a
                    return
                if isinstance(b, Const) and isinstance(a, Term) and a.op == "add" and isinstance(a.args[1], Const):
                    yield st, Term("add", (a.args[0], Const(a.args[1].v + b.v)), typ)
                    return
            if op == "Mult" and isinstance(a, Const):
                a, b = b, a
            if op == "Sub" and isinstance(b, Const) and b.v == 0:
                yield st, a
                return
            if op == "Mod" and typ == "int" and isinstance(b, Const) and isinstance(a, Term):
                lo, hi, _ = S.int_range(st, a)
                if lo is not None and hi is not None and lo >= 0 and hi < b.v:
                    yield st, a
                    return
            yield st, Term(OPN[op], (a, b), typ)
            return
        dt = {"datetime", "date", "time", "timedelta"}
        if ta in dt or tb in dt:
            typ = None
            if ta == tb == "timedelta":
                typ = {"Add": "timedelta", "Sub": "timedelta", "FloorDiv": "int", "Div": "float", "Mod": "timedelta"}.get(op)
            elif ta == "timedelta" and tb in NUM:
                typ = {"Mult": "timedelta", "FloorDiv": "timedelta", "Div": "timedelta"}.get(op)
            elif tb == "timedelta" and ta in NUM and op == "Mult":
                typ = "timedelta"
            elif ta in ("datetime", "date") and tb == "timedelta" and op in ("Add", "Sub"):
                typ = ta
            elif ta == tb and op == "Sub":
                typ = "timedelta"
            if typ:
                yield st, Term(OPN[op], (a, b), typ)
                return
        if (ta == "str") != (tb == "str") and op == "Add":
            yield ip.raise_(st, "TypeError", "unsupported operand")
            return
    if op == "Add" and (is_strlike(a) or is_strlike(b)):
        yield ip.raise_(st, "TypeError", "can only concatenate str")
        return
    if isinstance(a, Const) and a.v is None or isinstance(b, Const) and b.v is None:
        yield ip.raise_(st, "TypeError", "unsupported operand type NoneType")
        return
    yield ip.top(st, f"operator {op} on {a!r} and {b!r}")


def percent(ip, st, a, b):
    if not isinstance(a, Const):
        yield ip.top(st, "% formatting")
        return
    args = list(b.items) if isinstance(b, Tup) else [b]
    parts = _re.split(r"(%(?:[0-9.]*)?[sdrixX%])", a.v)
    if all(isinstance(x, Const) for x in args):
        try:
            yield st, Const(a.v % (tuple(x.v for x in args) if isinstance(b, Tup) else args[0].v))
        except Exception as e:
            yield ip.raise_(st, type(e).__name__, str(e))
        return
    if any("%" in p for p in parts[::2]):
        yield ip.top(st, "% formatting")
        return
    outs = [(st, [])]
    i = 0
    for p in parts:
        if not p.startswith("%"):
            outs = [(s, acc if isinstance(acc, ABN) else acc + [Const(p)]) for s, acc in outs]
            continue
        if p == "%%":
            outs = [(s, acc if isinstance(acc, ABN) else acc + [Const("%")]) for s, acc in outs]
            continue
        if i >= len(args):
            yield ip.raise_(st, "TypeError", "not enough arguments for format string")
            return
        x = args[i]
        i += 1
        nxt = []
        for s, acc in outs:
            if isinstance(acc, ABN):
                nxt.append((s, acc))
                continue
            spec = p[1:-1]
            y = ip.payload(s, x)
            if isinstance(y, Const) and (p[-1] in "dixX" or isinstance(x, Const)):
                try:
                    g = [(s, Const(p % (y.v,)))]
                except Exception as e:
                    g = [ip.raise_(s, type(e).__name__, str(e))]
            elif p[-1] in "dixX" and is_strlike(y):
                g = [ip.raise_(s, "TypeError", "%d format: a real number is required, not str")]
            elif p[-1] in "dixX" and not is_intlike(y) or spec and p[-1] in "sr" or "." in spec:
                g = [ip.top(s, "% formatting")]
            elif p[-1] in "di" and spec:
                g = ip.format_(s, x, spec + "d")
            elif p[-1] == "r":
                g = ip.to_repr(s, x)
            elif p[-1] in "xX":
                g = ip.format_(s, x, spec + p[-1])
            else:
                g = ip.to_str(s, x)
            for s2, v in g:
                nxt.append((s2, v if isinstance(v, ABN) else acc + [v]))
        outs = nxt
    if i != len(args):
        yield ip.raise_(st, "TypeError", "not all arguments converted")
        return
    for s, acc in outs:
        if isinstance(acc, ABN):
            yield s, acc
        elif any(isinstance(x, Top) for x in acc):
            yield s, Top("format")
        else:
            yield s, cat(acc)


def order(ip, st, sym, a, b):
    for x, y, o in ((a, b, sym), (b, a, S.FLIP[sym])):
        if isinstance(x, Ref) and isinstance(st.get(x.addr), Inst):
            nm = {"<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}[o]
            f = ip.class_lookup(st, st.get(x.addr).cls, nm)
            if f and not f[0].ext:
                yield from ip.call(st, Bound(x, f[1]), (y,), {})
                return
    a, b = ip.payload(st, a), ip.payload(st, b)
    if isinstance(a, Const) and isinstance(b, Const):
        try:
            yield st, Const({"<": lambda: a.v < b.v, "<=": lambda: a.v <= b.v, ">": lambda: a.v > b.v,
                             ">=": lambda: a.v >= b.v}[sym]())
        except TypeError as e:
            yield ip.raise_(st, "TypeError", str(e))
        return
    if isinstance(a, Term) and a.typ == "charset" and sym in ("<=",):
        cs = char_items(ip, st, b)
        if cs is not None and a.op == "charset":
            lg = L.syms(frozenset(L.sym_of(c) for c in cs)).star()
            amb = any(L.sym_of(c) in S.MULTI for c in cs)
            for s2, r in S.pred(st, a.args[0], lg):
                yield (s2.tainted("ambiguous class") if amb else s2), Const(r)
            return
    if isinstance(b, Term) and b.typ == "charset" and sym == ">=":
        yield from order(ip, st, "<=", b, a)
        return
    if isinstance(a, Ref) and isinstance(b, Ref) and isinstance(st.get(a.addr), SetC) and isinstance(st.get(b.addr), SetC):
        x, y = set(st.get(a.addr).items), set(st.get(b.addr).items)
        if all(isinstance(v, Const) for v in x | y):
            yield st, Const({"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[sym])
            return
        if sym == "<=" and all(is_strlike(v) for v in x | y) and all(isinstance(v, Const) for v in y):
            lg = L.EMPTY
            for v in y:
                lg = lg | L.const(v.v)
            pend = [st]
            for v in x:
                nxt = []
                for s in pend:
                    for s2, r in S.pred(s, v, lg):
                        if r:
                            nxt.append(s2)
                        else:
                            yield s2, FALSE
                pend = nxt
            for s in pend:
                yield s, TRUE
            return
    if is_intlike(a) and isinstance(b, Const) and isinstance(b.v, int) and isinstance(a, Term):
        for s, r in S.cmp_const(st, a, sym, int(b.v)):
            yield s, Const(r)
        return
    if is_intlike(b) and isinstance(a, Const) and isinstance(a.v, int) and isinstance(b, Term):
        for s, r in S.cmp_const(st, b, S.FLIP[sym], int(a.v)):
            yield s, Const(r)
        return
    if isinstance(a, (Term, Const)) and isinstance(b, (Term, Const)):
        ta, tb = num_typ(a, b, None)
        if (ta in NUM and tb in NUM) or (ta == tb and ta in ("timedelta", "datetime", "date", "time")):
            if a == b:
                yield st, Const(sym in ("<=", ">="))
                return
            yield st, Term("cmp", (a, sym, b), "bool")
            return
        if "str" in (ta, tb) and ta != tb or "NoneType" in (ta, tb):
            yield ip.raise_(st, "TypeError", "ordering not supported")
            return
    if isinstance(a, Bits) or isinstance(b, Bits):
        x, y = (a, b) if isinstance(a, Bits) else (b, a)
        o = sym if isinstance(a, Bits) else S.FLIP[sym]
        if isinstance(y, Const) and x.ext == 0:
            if o in (">", ">=") and y.v >= (1 << len(x.bits)):
                yield st, FALSE
                return
            if o in ("<", "<=") and y.v >= (1 << len(x.bits)):
                yield st, TRUE
                return
            if (o, y.v) in ((">=", 0),) or (o == ">" and y.v < 0):
                yield st, TRUE
                return
            if (o, y.v) in (("<", 0),):
                yield st, FALSE
                return
    if isinstance(a, Const) and a.v is None or isinstance(b, Const) and b.v is None:
        yield ip.raise_(st, "TypeError", "ordering not supported")
        return
    st = st.tainted("comparison")
    yield st, TRUE
    yield st, FALSE


def contains(ip, st, c, x):
    c2 = ip.payload(st, c)
    if isinstance(c, Ref) and isinstance(st.get(c.addr), Inst):
        f = ip.class_lookup(st, st.get(c.addr).cls, "__contains__")
        if f and not f[0].ext:
            for s, r in ip.call(st, Bound(c, f[1]), (x,), {}):
                if isinstance(r, ABN):
                    yield s, r
                else:
                    yield from ip.truth(s, r)
            return
    if is_strlike(c2):
        x2 = ip.payload(st, x)
        if not is_strlike(x2):
            if isinstance(x2, Top):
                st = st.tainted("in with unknown")
                yield st, True
                yield st, False
            else:
                yield ip.raise_(st, "TypeError", "'in <string>' requires string as left operand")
            return
        if isinstance(c2, Const) and isinstance(x2, Const):
            yield st, x2.v in c2.v
            return
        if isinstance(x2, Const):
            for s, b in S.pred(st, c2, L.contains(x2.v)):
                yield s, b
            return
        if isinstance(c2, Const):
            subs = {c2.v[i:j] for i in range(len(c2.v) + 1) for j in range(i, len(c2.v) + 1)}
            if len(subs) < 400:
                lg = L.EMPTY
                for w in subs:
                    lg = lg | L.const(w)
                for s, b in S.pred(st, x2, lg):
                    yield s, b
                return
        if x2 == c2:
            yield st, True
            return
        st = st.tainted("substring test")
        yield st, True
        yield st, False
        return
    if isinstance(c2, Const) and isinstance(c2.v, bytes) or isinstance(c2, Str):
        t, y = bytes_text(c2), bytes_text(x)
        if t is not None and y is not None:
            yield from contains(ip, st, t, y)
            return
    if isinstance(c2, Const) and isinstance(c2.v, range):
        r = c2.v
        x2 = ip.payload(st, x)
        if isinstance(x2, Const):
            yield st, x2.v in r
            return
        if isinstance(x2, Term) and x2.typ == "int" and r.step == 1:
            for s, b in S.cmp_const(st, x2, ">=", r.start):
                if not b:
                    yield s, False
                    continue
                for s2, b2 in S.cmp_const(s, x2, "<", r.stop):
                    yield s2, b2
            return
    if isinstance(c2, Ref) and isinstance(st.get(c2.addr), DictC):
        for s, i in ip.dict_find(st, c2, x):
            yield s, i if isinstance(i, ABN) else i is not None
        return
    if isinstance(c2, Ref) and isinstance(st.get(c2.addr), SetC):
        for s, i in ip.dict_find(st, tuple((k, None) for k in st.get(c2.addr).items), x):
            yield s, i if isinstance(i, ABN) else i is not None
        return
    items = ip.items_of(st, c2)
    if items is not None:
        # constant strings: one language test instead of a chain
        x2 = ip.payload(st, x)
        if is_strlike(x2) and not isinstance(x2, Const) and x2 is x and items and all(isinstance(i, Const) and isinstance(i.v, str) for i in items):
            lg = L.EMPTY
            for i in items:
                lg = lg | L.const(i.v)
            amb = any(s in S.MULTI for i in items for s in L.word_of(i.v))
            for s, b in S.pred(st, x2, lg):
                if amb and b:
                    s = s.tainted("ambiguous class")
                    yield s, False
                yield s, b
            return
        pend = [st]
        for i in items:
            nxt = []
            for s in pend:
                if i == x and not isinstance(i, Top):
                    yield s, True
                    continue
                for s2, r in ip.eq(s, i, x):
                    if isinstance(r, ABN):
                        yield s2, r
                        continue
                    for s3, t in ip.truth(s2, r):
                        if t is True:
                            yield s3, True
                        elif t is False:
                            nxt.append(s3)
                        else:
                            yield s3, t
            pend = nxt
        for s in pend:
            yield s, False
        return
    if isinstance(c2, GenExp):
        for s, its in ip.to_items(st, c2):
            if isinstance(its, ABN):
                yield s, its
            elif its is None:
                s = s.tainted("in")
                yield s, True
                yield s, False
            else:
                yield from contains(ip, s, Tup(its), x)
        return
    if isinstance(c2, Const):
        yield ip.raise_(st, "TypeError", "argument is not iterable")
        return
    st = st.tainted(f"membership in {c!r}")
    yield st, True
    yield st, False


def getitem(ip, st, o, k):
    k = ip.payload(st, k) if not (isinstance(o, Ref) and isinstance(st.get(o.addr), DictC)) else k
    if isinstance(o, Cls) and o.info.is_enum:
        n = const_str(k)
        if n is not None and n in o.info.members:
            yield st, o.info.members[n]
        elif n is not None:
            yield ip.raise_(st, "KeyError", n)
        else:
            yield ip.top(st, "enum by name")
        return
    if isinstance(o, Ref):
        c = st.get(o.addr)
        if isinstance(c, DictC):
            for s, i in ip.dict_find(st, o, k):
                if isinstance(i, ABN):
                    yield s, i
                elif i is None:
                    if c.default is not None:
                        for s2, d in ip.call(s, c.default, (), {}):
                            if isinstance(d, ABN):
                                yield s2, d
                                continue
                            for s3, e in ip.dict_set(s2, o, k, d):
                                yield s3, e if isinstance(e, ABN) else d
                    else:
                        yield ip.raise_(s, "KeyError", k)
                else:
                    yield s, s.get(o.addr).items[i][1]
            return
        if isinstance(c, Inst) and c.cls.qual not in ("dict_view", "collections.deque"):
            f = ip.class_lookup(st, c.cls, "__getitem__")
            if f:
                yield from ip.call(st, Bound(o, f[1]), (k,), {})
                return
            if c.cls.qual == "re.Match":
                yield ip.top(st, "match group")
                return
            if c.payload is not None:
                yield from getitem(ip, st, c.payload, k)
                return
    items = None if is_strlike(o) else ip.items_of(st, o)
    if items is not None:
        if isinstance(k, Const) and isinstance(k.v, int):
            try:
                yield st, items[k.v]
            except IndexError:
                yield ip.raise_(st, "IndexError", "index out of range")
            return
        if isinstance(k, Tup) and k.items and k.items[0] == Const("slice"):
            yield from getslice(ip, st, o, *k.items[1:])
            return
        if isinstance(k, Term) and k.typ in ("int", "bool"):
            lo, hi, _ = S.int_range(st, k)
            if lo is not None and hi is not None and hi - lo < 40:
                for i in range(lo, hi + 1):
                    for s, b in S.cmp_const(st, k, "==", i):
                        if b:
                            yield from getitem(ip, s, o, Const(i))
                return
        if isinstance(k, Const):
            yield ip.raise_(st, "TypeError", "indices must be integers")
            return
        yield ip.top(st, "index unknown")
        return
    if is_strlike(o):
        if isinstance(k, Const) and isinstance(k.v, int):
            i = k.v
            if isinstance(o, Const):
                try:
                    yield st, Const(o.v[i])
                except IndexError:
                    yield ip.raise_(st, "IndexError", "string index out of range")
                return
            need = i + 1 if i >= 0 else -i
            for s, b in S.pred(st, o, L.length_at_least(need)):
                if b:
                    yield s, norm(s, s_char(o, i))
                else:
                    yield ip.raise_(s, "IndexError", "string index out of range")
            return
        yield ip.top(st, "string index unknown")
        return
    bt = bytes_text(o)
    if bt is not None:
        yield ip.top(st, "bytes index")
        return
    if isinstance(o, Const):
        yield ip.raise_(st, "TypeError", "object is not subscriptable")
        return
    if isinstance(o, Coro):
        yield ip.raise_(st, "TypeError", "object is not subscriptable")
        return
    yield ip.top(st, f"subscript of {o!r}")


def getslice(ip, st, o, a, b, c):
    vals = [x.v if isinstance(x, Const) else "?" for x in (a, b, c)]
    if isinstance(o, Ref) and isinstance(st.get(o.addr), Inst) and st.get(o.addr).payload is not None:
        o = st.get(o.addr).payload
    if "?" in vals and isinstance(o, Str) and o.kind == "bytes":
        for s, v in getslice(ip, st, bytes_text(o), a, b, c):
            yield s, v if isinstance(v, ABN) or isinstance(v, Top) else cat([v], "bytes")
        return
    if "?" in vals:
        # s[find:...] and other computed bounds
        if is_strlike(o) and isinstance(o, Const) is False:
            r = slice_find(ip, st, o, a, b, c)
            if r is not None:
                yield from r
                return
        yield ip.top(st, "computed slice")
        return
    lo, hi, step = vals
    if is_strlike(o):
        if isinstance(o, Const):
            yield st, Const(o.v[lo:hi:step])
            return
        if step == -1 and lo is None and hi is None:
            if isinstance(o, Term) and o.op == "rev":
                yield st, o.args[0]
            else:
                yield st, T("rev", o)
            return
        if step not in (None, 1):
            yield ip.top(st, "string slice with step")
            return
        v = o
        if hi is not None and lo is not None and lo < 0 <= hi:
            yield ip.top(st, "mixed slice")
            return
        if hi is not None and hi >= 0:
            v = s_take(st, v, hi)
            if lo is not None and lo > 0:
                v = s_drop(v, lo)
        elif lo is not None and lo < 0:
            v = s_last(st, v, -lo)
            if hi is not None:
                v = s_droplast(v, -hi)
        else:
            if hi is not None:
                v = s_droplast(v, -hi)
            if lo:
                v = s_drop(v, lo)
        yield st, norm(st, v)
        return
    bt = bytes_text(o)
    if bt is not None:
        for s, v in getslice(ip, st, bt, a, b, c):
            yield s, v if isinstance(v, ABN) or isinstance(v, Top) else cat([v], "bytes")
        return
    items = ip.items_of(st, o)
    if items is not None:
        r = items[lo:hi:step]
        if isinstance(o, Tup):
            yield st, Tup(r)
        else:
            yield st.new(ListC(r))
        return
    if isinstance(o, Const):
        yield ip.raise_(st, "TypeError", "object is not subscriptable")
        return
    yield ip.top(st, f"slice of {o!r}")


def joined(items, sep):
    parts = []
    for i, x in enumerate(items):
        if i:
            parts.append(Const(sep))
        parts.append(x)
    return cat(parts)


def rsplit(ip, st, v, c):
    """Splits where leftmost and rightmost splitting agree; (state, None) otherwise."""
    if len(c) > 1:
        bad = None
        for k in range(1, len(c)):
            if c[k:] == c[:-k]:
                o = L.contains(c[:k] + c)
                bad = o if bad is None else bad | o
        if bad is not None:
            for s, b in S.pred(st, v, bad):
                if b:
                    yield s, None
                else:
                    yield from split(ip, s, v, c, -1)
            return
    yield from split(ip, st, v, c, -1)


def cut_at(ip, st, v, t):
    """(state, (prefix, rest)) of the string at the position, or (state, None)."""
    if isinstance(t, Const) and isinstance(t.v, int) and t.v >= 0:
        if t.v == 0:
            yield st, (Const(""), v)
        elif isinstance(v, Const):
            yield st, (Const(v.v[:t.v]), Const(v.v[t.v:]))
        else:
            yield st, (norm(st, s_take(st, v, t.v)), norm(st, s_drop(v, t.v)))
        return
    if isinstance(t, Term):
        base, k, off = S.linear(t)
        if isinstance(base, Term) and k == 1 and off >= 0 and base.op in ("find", "pos", "len"):
            got = None
            if base.op == "pos" and base.args[0] == v:
                got = [(st, base.args[1], base.args[2])]
            elif base.op == "find" and base.args[0] == v:
                got = []
                for s, b in S.pred(st, v, L.contains(base.args[1])):
                    if b:
                        x, y = partition_parts(s, v, base.args[1])
                        got.append((s, x, cat([Const(base.args[1]), y])))
                    else:
                        got.append((s, None, None))
            elif base.op == "len" and is_strlike(base.args[0]):
                r = strip_prefix(v, base.args[0])
                if r is not None:
                    got = [(st, base.args[0], r)]
            if got is not None:
                for s, x, y in got:
                    if x is None:
                        yield s, None
                    elif off == 0:
                        yield s, (x, y)
                    else:
                        yield s, (norm(s, cat([x, s_take(s, y, off)])), norm(s, s_drop(y, off)))
                return
    yield st, None


def strip_prefix(v, p):
    """The rest of v after its syntactic prefix p, or None."""
    def parts(x):
        return list(x.parts) if isinstance(x, Str) else ([x] if x != Const("") else [])
    a, b = parts(v), parts(p)
    while b:
        if not a:
            return None
        if a[0] == b[0]:
            a, b = a[1:], b[1:]
        elif isinstance(a[0], Const) and isinstance(b[0], Const) and a[0].v.startswith(b[0].v) and len(b) == 1:
            a, b = [Const(a[0].v[len(b[0].v):])] + a[1:], []
        else:
            return None
    return cat(a)


def slice_find(ip, st, o, a, b, c):
    """s[:s.find(x)], s[s.find(x)+len(x):] and the like."""
    if c != NONE:
        return None

    def finder(t):
        base, k, off = S.linear(t) if isinstance(t, Term) else (None, 0, 0)
        if isinstance(base, Term) and base.op == "find" and base.args[0] == o and k == 1:
            return base.args[1], off
        return None
    fa = finder(a) if isinstance(a, Term) else None
    fb = finder(b) if isinstance(b, Term) else None

    def go():
        sep = (fa or fb)[0]
        for s, has in S.pred(st, o, L.contains(sep)):
            if not has:
                yield ip.top(s, "slice at missing separator")
                continue
            x, y = partition_parts(s, o, sep)
            if fb and a in (NONE, Const(0)) and fb[1] == 0:
                yield s, x
            elif fb and a in (NONE, Const(0)) and fb[1] == len(sep):
                yield s, cat([x, Const(sep)])
            elif fa and b == NONE and fa[1] == len(sep):
                yield s, y
            elif fa and b == NONE and fa[1] == 0:
                yield s, cat([Const(sep), y])
            else:
                yield ip.top(s, "computed slice")
    if (fa and b == NONE) or (fb and a in (NONE, Const(0))):
        return go()

    def posn(t):
        if not isinstance(t, Term):
            return False
        base = S.linear(t)[0]
        return isinstance(base, Term) and base.op in ("find", "pos", "len") and (base.op == "len" or base.args[0] == o)

    def go2():
        for s1, pa in (cut_at(ip, st, o, a) if a != NONE else [(st, (Const(""), o))]):
            if pa is None:
                yield ip.top(s1, "computed slice")
                continue
            if b == NONE:
                yield s1, pa[1]
                continue
            for s2, pb in cut_at(ip, s1, o, b):
                r = strip_prefix(pb[0], pa[0]) if pb is not None else None
                if r is None:
                    yield ip.top(s2, "computed slice")
                else:
                    yield s2, r
    if is_strlike(o) and (posn(a) or posn(b)):
        return go2()
    # numeric bounds with a known value
    def const(t):
        if isinstance(t, Const):
            return t
        if isinstance(t, Term) and t.typ == "int":
            lo, hi, _ = S.int_range(st, t)
            if lo is not None and lo == hi:
                return Const(lo)
        return None
    x, y = const(a), const(b)
    if x is not None and y is not None:
        return getslice(ip, st, o, x, y, c)
    return None


# ======================================================================= containers
def method(ip, st, ref, cell, name):
    if isinstance(cell, ListC):
        return list_method(ip, ref, name)
    if isinstance(cell, DictC):
        return dict_method(ip, ref, name)
    if isinstance(cell, SetC):
        return set_method(ip, ref, name)
    return None


def list_method(ip, ref, name):
    def m(f):
        return Py("list." + name, f, key=(ref, name))
    a = ref.addr
    if name == "append":
        return m(lambda ip, s, args, kw: one(s.put(a, ListC(s.get(a).items + (args[0],))), NONE))
    if name == "extend":
        def f(ip, s, args, kw):
            for s2, items in ip.to_items(s, args[0]):
                if isinstance(items, ABN):
                    yield s2, items
                elif items is None:
                    yield ip.top(s2, "list.extend")
                else:
                    yield s2.put(a, ListC(s2.get(a).items + tuple(items))), NONE
        return m(f)
    if name == "insert":
        def f(ip, s, args, kw):
            it = list(s.get(a).items)
            if isinstance(args[0], Const):
                it.insert(args[0].v, args[1])
                yield s.put(a, ListC(it)), NONE
            else:
                yield ip.top(s, "list.insert")
        return m(f)
    if name == "pop":
        def f(ip, s, args, kw):
            it = list(s.get(a).items)
            i = args[0].v if args and isinstance(args[0], Const) else -1
            try:
                v = it.pop(i)
            except IndexError:
                yield ip.raise_(s, "IndexError", "pop from empty list")
                return
            yield s.put(a, ListC(it)), v
        return m(f)
    if name == "clear":
        return m(lambda ip, s, args, kw: one(s.put(a, ListC(())), NONE))
    if name == "copy":
        return m(lambda ip, s, args, kw: one(*s.new(ListC(s.get(a).items))))
    if name == "reverse":
        return m(lambda ip, s, args, kw: one(s.put(a, ListC(s.get(a).items[::-1])), NONE))
    if name in ("index", "remove", "count"):
        def f(ip, s, args, kw):
            pend = [s]
            n = 0
            items = s.get(a).items
            if name == "count":
                yield s, Const(sum(1 for x in items if x == args[0]))
                return
            for i, x in enumerate(items):
                nxt = []
                for s1 in pend:
                    for s2, r in ip.eq(s1, x, args[0]):
                        if isinstance(r, ABN):
                            yield s2, r
                            continue
                        for s3, t in ip.truth(s2, r):
                            if t is True:
                                if name == "index":
                                    yield s3, Const(i)
                                else:
                                    yield s3.put(a, ListC(items[:i] + items[i + 1:])), NONE
                            else:
                                nxt.append(s3)
                pend = nxt
            for s1 in pend:
                yield ip.raise_(s1, "ValueError", "not in list")
        return m(f)
    if name == "sort":
        return m(lambda ip, s, args, kw: one(s.tainted("list.sort"), NONE))
    if name == "__len__":
        return m(lambda ip, s, args, kw: one(s, Const(len(s.get(a).items))))
    if name == "__getitem__":
        return m(lambda ip, s, args, kw: getitem(ip, s, ref, args[0]))
    return None


def dict_pop(ip, st, ref, args, kw):
    for s, i in ip.dict_find(st, ref, args[0]):
        if isinstance(i, ABN):
            yield s, i
        elif i is None:
            if len(args) > 1:
                yield s, args[1]
            else:
                yield ip.raise_(s, "KeyError", args[0])
        else:
            it = s.get(ref.addr).items
            yield s.put(ref.addr, DictC(it[:i] + it[i + 1:], s.get(ref.addr).default)), it[i][1]


def dict_method(ip, ref, name):
    def m(f):
        return Py("dict." + name, f, key=(ref, name))
    a = ref.addr
    if name == "get":
        def f(ip, s, args, kw):
            d = args[1] if len(args) > 1 else kw.get("default", NONE)
            for s2, i in ip.dict_find(s, ref, args[0]):
                if isinstance(i, ABN):
                    yield s2, i
                else:
                    yield s2, d if i is None else s2.get(a).items[i][1]
        return m(f)
    if name == "setdefault":
        def f(ip, s, args, kw):
            d = args[1] if len(args) > 1 else NONE
            for s2, i in ip.dict_find(s, ref, args[0]):
                if isinstance(i, ABN):
                    yield s2, i
                elif i is None:
                    c = s2.get(a)
                    yield s2.put(a, DictC(c.items + ((args[0], d),), c.default)), d
                else:
                    yield s2, s2.get(a).items[i][1]
        return m(f)
    if name == "pop":
        return m(lambda ip, s, args, kw: dict_pop(ip, s, ref, args, kw))
    if name in ("items", "keys", "values"):
        def f(ip, s, args, kw):
            it = s.get(a).items
            v = {"items": [Tup(x) for x in it], "keys": [k for k, _ in it], "values": [v for _, v in it]}[name]
            if name == "keys":
                yield s.new(SetC(tuple(v)))
            else:
                yield s.new(ListC(v))
        return m(f)
    if name == "clear":
        return m(lambda ip, s, args, kw: one(s.put(a, DictC(())), NONE))
    if name == "copy":
        return m(lambda ip, s, args, kw: one(*s.new(DictC(s.get(a).items, s.get(a).default))))
    if name == "update":
        def f(ip, s, args, kw):
            pairs = []
            if args:
                c = s.get(args[0].addr) if isinstance(args[0], Ref) else None
                if isinstance(c, DictC):
                    pairs += list(c.items)
                else:
                    its = ip.items_of(s, args[0])
                    if its is None or not all(isinstance(x, Tup) and len(x.items) == 2 for x in its):
                        yield ip.top(s, "dict.update")
                        return
                    pairs += [x.items for x in its]
            pairs += [(Const(k), v) for k, v in kw.items()]
            outs = [(s, None)]
            for k, v in pairs:
                outs = [o for s1, e in outs for o in (ip.dict_set(s1, ref, k, v) if not isinstance(e, ABN) else [(s1, e)])]
            for s1, e in outs:
                yield s1, e if isinstance(e, ABN) else NONE
        return m(f)
    if name == "__len__":
        return m(lambda ip, s, args, kw: one(s, Const(len(s.get(a).items))))
    if name == "__contains__":
        def f(ip, s, args, kw):
            for s2, i in ip.dict_find(s, ref, args[0]):
                yield s2, i if isinstance(i, ABN) else Const(i is not None)
        return m(f)
    if name == "__getitem__":
        return m(lambda ip, s, args, kw: getitem(ip, s, ref, args[0]))
    return None


def set_method(ip, ref, name):
    def m(f):
        return Py("set." + name, f, key=(ref, name))
    a = ref.addr
    if name == "add":
        def f(ip, s, args, kw):
            for s2, i in ip.dict_find(s, tuple((k, None) for k in s.get(a).items), args[0]):
                if isinstance(i, ABN):
                    yield s2, i
                elif i is None:
                    yield s2.put(a, SetC(s2.get(a).items + (args[0],) if isinstance(args[0], Const) and isinstance(args[0].v, int) else (args[0],) + s2.get(a).items)), NONE
                else:
                    yield s2, NONE
        return m(f)
    if name in ("discard", "remove"):
        def f(ip, s, args, kw):
            for s2, i in ip.dict_find(s, tuple((k, None) for k in s.get(a).items), args[0]):
                if isinstance(i, ABN):
                    yield s2, i
                elif i is None:
                    if name == "remove":
                        yield ip.raise_(s2, "KeyError", args[0])
                    else:
                        yield s2, NONE
                else:
                    it = s2.get(a).items
                    yield s2.put(a, SetC(it[:i] + it[i + 1:])), NONE
        return m(f)
    if name in ("issuperset", "__ge__"):
        return m(lambda ip, s, args, kw: order(ip, s, ">=", ref, args[0]) if not is_strlike(args[0])
                 else order(ip, s, "<=", Term("charset", (args[0],), "charset"), ref))
    if name in ("issubset", "__le__"):
        def f(ip, s, args, kw):
            cs = char_items(ip, s, args[0]) if args and isinstance(ip.payload(s, args[0]), Const) else None
            o = args[0]
            if cs is not None:
                s, o = s.new(SetC(tuple(Const(c) for c in dict.fromkeys(cs))))
            yield from order(ip, s, "<=", ref, o)
        return m(f)
    if name in ("union", "difference", "intersection"):
        op = {"union": "BitOr", "difference": "Sub", "intersection": "BitAnd"}[name]

        def f(ip, s, args, kw):
            its = ip.items_of(s, args[0]) if args else []
            if its is None:
                yield ip.top(s, "set." + name)
                return
            s, r = s.new(SetC(tuple(dict.fromkeys(its))))
            yield from binop(ip, s, op, ref, r)
        return m(f)
    if name == "copy":
        return m(lambda ip, s, args, kw: one(*s.new(SetC(s.get(a).items))))
    if name == "clear":
        return m(lambda ip, s, args, kw: one(s.put(a, SetC(())), NONE))
    if name == "pop":
        return m(lambda ip, s, args, kw: one(*ip.top(s, "set.pop")))
    if name == "__contains__":
        def f(ip, s, args, kw):
            for s2, b in ip.contains(s, ref, args[0]):
                yield s2, b if isinstance(b, ABN) else Const(b)
        return m(f)
    return None


# ======================================================================= builtin functions
@py("len")
def b_len(ip, st, args, kw):
    v = ip.payload(st, args[0])
    if isinstance(v, Const):
        try:
            yield st, Const(len(v.v))
        except TypeError as e:
            yield ip.raise_(st, "TypeError", str(e))
        return
    if is_strlike(v):
        lg = S.lang_of(st, v)
        for n in range(0, 20):
            if lg <= S.length_exact(n):
                yield st, Const(n)
                return
        yield st, Term("len", (v,), "int")
        return
    bt = bytes_text(v)
    if bt is not None:
        yield from b_len.fn(ip, st, (bt,), {})
        return
    if isinstance(args[0], Ref) and isinstance(st.get(args[0].addr), Inst):
        f = ip.class_lookup(st, st.get(args[0].addr).cls, "__len__")
        if f:
            yield from ip.call(st, Bound(args[0], f[1]), (), {})
            return
    if isinstance(v, Term) and v.typ == "charset":
        for s2, b in ip.truth(st, v):
            if not b:
                yield s2, Const(0)
                continue
            for s3, pos in S.cmp_const(s2, atom(f"len({v!r})", "int"), ">=", 1):
                if pos:
                    yield s3, atom(f"len({v!r})", "int")
        return
    items = ip.items_of(st, v)
    if items is not None:
        yield st, Const(len(items))
    elif isinstance(v, Cls) and v.info.is_enum:
        yield st, Const(len(ip.items_of(st, v)))
    elif isinstance(v, (Top, GenExp)):
        yield ip.top(st, "len of unknown")
    else:
        yield ip.raise_(st, "TypeError", "object has no len()")


@py("isinstance")
def b_isinstance(ip, st, args, kw):
    for s, r in ip.isinstance_(st, args[0], args[1]):
        yield s, r if isinstance(r, ABN) else Const(r)


@py("issubclass")
def b_issubclass(ip, st, args, kw):
    if isinstance(args[0], Cls):
        ts = args[1].items if isinstance(args[1], (Tup, Union)) else (args[1],)
        if all(isinstance(t, Cls) for t in ts):
            yield st, Const(any(args[0].info.is_sub(t.info) for t in ts))
            return
    yield ip.top(st, "issubclass")


INT_BASES = {}


def int_of(ip, st, args, kw):
    if not args:
        yield st, Const(0)
        return
    v0 = args[0]
    v = ip.payload(st, v0)
    base = args[1] if len(args) > 1 else kw.get("base")
    if isinstance(v0, Ref) and isinstance(st.get(v0.addr), Inst):
        f = ip.class_lookup(st, st.get(v0.addr).cls, "__int__")
        if f and not f[0].ext:
            yield from ip.call(st, Bound(v0, f[1]), (), {})
            return
    if isinstance(v, Const):
        try:
            yield st, Const(int(v.v) if base is None else int(v.v, base.v))
        except (ValueError, TypeError) as e:
            yield ip.raise_(st, type(e).__name__, str(e))
        return
    if isinstance(v, Bits):
        yield st, v
        return
    if isinstance(v, Term) and v.typ == "int":
        yield st, v
        return
    if isinstance(v, Term) and v.typ in ("float", "bool"):
        yield st, Term("int", (v,), "int")
        return
    if is_strlike(v):
        if base in (None, Const(10)) and v in ip.int_values:
            yield st, ip.int_values[v]
            return
        w = v.parts[0] if isinstance(v, Str) and len(v.parts) == 1 else v
        if base in (None, Const(10)) and isinstance(w, Term) and is_intlike(w.args[0] if w.args and isinstance(w.args[0], V) else NONE) \
                and (w.op == "str" or w.op == "format" and isinstance(w.args[1], str) and _re.fullmatch(r"0?[0-9]*d?", w.args[1])):
            yield st, w.args[0]         # the numeral of an integer reads back as the integer
            return
        if base is not None:
            b = base.v if isinstance(base, Const) else None
            if b == 10:
                base = None
            elif b in (2, 8, 16):
                dg = L.chars("01") if b == 2 else L.chars("01234567") if b == 8 else L.syms(L.where(lambda c: c in "0123456789abcdefABCDEF"))
                num = dg + (L.const("_").opt() + dg).star()
                sure = S.WSTAR + S.SIGN + num + S.WSTAR
                if b == 2:
                    sure = sure | (S.WSTAR + S.SIGN + L.const("0b") + L.const("_").opt() + num + S.WSTAR)
                odd = L.ANY + L.syms(L.where(lambda c: c.isalpha() and c not in "abcdef") | L.where(lambda c: ord(c) > 127)) + L.ANY      # 0B, 0o, 0x; other digits
                for s, ok in S.pred(st, v, sure):
                    if ok:
                        yield s, Term("int", (v, b), "int")
                        continue
                    for s2, x in S.pred(s, v, odd):
                        if x:
                            yield s2.tainted("int literal"), Term("int", (v, b), "int")
                        yield ip.raise_(s2, "ValueError", cat([Const("invalid literal for int(): "), v]))
                return
            else:
                yield ip.top(st, "int with base")
                return
        for s, ok in S.pred(st, v, S.INT_OK):
            if ok:
                w = S.lang_of(s, v).only_word()
                if w is not None and all(i in L.DIGITS for i in w):
                    yield s, Const(int(L.text_of(w)))
                else:
                    yield s, Term("int", (v,), "int")
                continue
            yield ip.raise_(s, "ValueError", cat([Const("invalid literal for int() with base 10: "), v]))
        return
    if isinstance(v, Top):
        yield st, Top("int of unknown")
        return
    yield ip.raise_(st, "TypeError", "int() argument must be a string or a number")


def float_of(ip, st, args, kw):
    if not args:
        yield st, Const(0.0)
        return
    v = ip.payload(st, args[0])
    if isinstance(v, Const):
        try:
            yield st, Const(float(v.v))
        except (ValueError, TypeError) as e:
            yield ip.raise_(st, type(e).__name__, str(e))
        return
    if isinstance(v, Term) and v.typ in ("int", "float", "bool"):
        yield st, v if v.typ == "float" else Term("float", (v,), "float")
        return
    if is_strlike(v):
        for s, ok in S.pred(st, v, S.FLOAT_OK):
            if ok:
                yield s, Term("float", (v,), "float")
                continue
            for s2, x in S.pred(s, v, S.LETTER):
                if x:
                    s3 = s2.tainted("float literal")
                    yield s3, Term("float", (v,), "float")
                    yield ip.raise_(s3, "ValueError", "could not convert string to float")
                else:
                    yield ip.raise_(s2, "ValueError", "could not convert string to float")
        return
    if isinstance(v, Top):
        yield st, Top("float")
        return
    yield ip.raise_(st, "TypeError", "float() argument")


def bool_of(ip, st, args, kw):
    if not args:
        yield st, FALSE
        return
    v = args[0]
    if isinstance(v, Top):
        yield st, v
        return
    if isinstance(v, Term):
        yield st, v if v.typ == "bool" else Term("bool", (v,), "bool")
        return
    for s, t in ip.truth(st, v):
        yield s, t if isinstance(t, ABN) else Const(t)


def str_of(ip, st, args, kw):
    if not args:
        yield st, Const("")
        return
    if len(args) > 1 or kw:
        yield from ip.call(st, next(ip.getattr_(st, args[0], "decode"))[1], args[1:], kw)
        return
    yield from ip.to_str(st, args[0])


def seq_ctor(kind):
    def f(ip, st, args, kw):
        if not args:
            items_outs = [(st, [])]
        elif kind in ("set", "frozenset") and is_strlike(ip.payload(st, args[0])) and not isinstance(ip.payload(st, args[0]), Const):
            yield st, Term("charset", (ip.payload(st, args[0]),), "charset")
            return
        else:
            items_outs = ip.to_items(st, args[0])
        for s, items in items_outs:
            if isinstance(items, ABN):
                yield s, items
            elif items is None:
                yield ip.top(s, f"{kind} of unknown")
            elif kind == "list":
                yield s.new(ListC(items))
            elif kind == "tuple":
                yield s, Tup(items)
            else:
                yield s.new(SetC(set_order(items), kind == "frozenset"))
    return f


def dict_ctor(ip, st, args, kw):
    st, r = st.new(DictC(()))
    for s, v in dict_method(ip, r, "update").fn(ip, st, args, kw):
        yield s, v if isinstance(v, ABN) else r


def bytes_ctor(ip, st, args, kw):
    if not args:
        yield st, Const(b"")
        return
    v = args[0]
    if is_strlike(v):
        yield from ip.call(st, str_method(ip, st, v, "encode"), args[1:], kw)
    elif bytes_text(v) is not None:
        yield st, v
    else:
        its = ip.items_of(st, v)
        if its is not None and its and all(isinstance(x, Const) and isinstance(x.v, int) for x in its):
            try:
                yield st, Const(bytes(x.v for x in its))
            except ValueError as e:
                yield ip.raise_(st, "ValueError", str(e))
        elif its is not None and its and all(to_bits(x) is not None for x in its):
            yield st, Tup(its)
        else:
            yield ip.top(st, "bytes()")


@py("range")
def b_range(ip, st, args, kw):
    args = tuple(ip.payload(st, a) for a in args)
    if all(isinstance(a, Const) and isinstance(a.v, int) for a in args):
        yield st, Const(range(*[a.v for a in args]))
    else:
        # range over a length that is known
        yield ip.top(st, "range with unknown bounds")


def _bool_iter(is_all):
    def f(ip, st, args, kw):
        def body(s, v):
            for s2, t in ip.truth(s, v):
                if isinstance(t, ABN):
                    yield s2, "abn", t
                elif t == is_all:
                    yield s2, "next", None
                else:
                    yield s2, "brk", None
        for s, k, p in ip.iter_values(st, args[0], body):
            if k == "abn":
                yield s, p
            else:
                yield s, Const(is_all == (k == "next"))
    return f


@py("getattr")
def b_getattr(ip, st, args, kw):
    n = const_str(ip.payload(st, args[1]))
    if n is None:
        yield ip.top(st, "getattr with unknown name")
        return
    for s, v in ip.getattr_(st, args[0], n):
        if isinstance(v, Exc) and len(args) > 2 and ip.exc_name(s, v) == "AttributeError":
            yield s, args[2]
        else:
            yield s, v


@py("hasattr")
def b_hasattr(ip, st, args, kw):
    n = const_str(ip.payload(st, args[1]))
    if n is None:
        yield ip.top(st, "hasattr with unknown name")
        return
    for s, v in ip.getattr_(st, args[0], n):
        if isinstance(v, Exc) and ip.exc_name(s, v) == "AttributeError":
            yield s, FALSE
        elif isinstance(v, ABN):
            yield s, v
        elif isinstance(v, Top):
            yield ip.top(s, "hasattr")
        else:
            yield s, TRUE


@py("setattr")
def b_setattr(ip, st, args, kw):
    n = const_str(ip.payload(st, args[1]))
    if n is None:
        yield ip.top(st, "setattr with unknown name")
        return
    for s, e in ip.setattr_(st, args[0], n, args[2]):
        yield s, e if isinstance(e, ABN) else NONE


@py("hash")
def b_hash(ip, st, args, kw):
    for s, k in ip.hash_key(st, args[0]):
        yield s, k if isinstance(k, ABN) else Term("hash", (k,), "int")


@py("repr")
def b_repr(ip, st, args, kw):
    yield from ip.to_repr(st, args[0])


@py("type")
def b_type(ip, st, args, kw):
    t = ip.type_of(st, args[0])
    if t is None:
        yield ip.top(st, "type() of unknown")
    else:
        yield st, Cls(t)


@py("callable")
def b_callable(ip, st, args, kw):
    v = args[0]
    if isinstance(v, (Func, Bound, Py, Cls)):
        yield st, TRUE
    elif isinstance(v, Const):
        yield st, FALSE
    else:
        yield ip.top(st, "callable")


def _listy(fn):
    """Function of fully known element lists."""
    def f(ip, st, args, kw):
        outs = [(st, [])]
        for a in args:
            nxt = []
            for s, acc in outs:
                if isinstance(acc, ABN) or acc is None:
                    nxt.append((s, acc))
                    continue
                for s2, items in ip.to_items(s, a):
                    nxt.append((s2, items if isinstance(items, ABN) else None if items is None else acc + [items]))
            outs = nxt
        for s, acc in outs:
            if isinstance(acc, ABN):
                yield s, acc
            elif acc is None:
                yield ip.top(s, "iteration over unknown")
            else:
                yield from fn(ip, s, acc, kw)
    return f


def _enumerate(ip, st, args, kw):
    start = args[1] if len(args) > 1 else kw.get("start", Const(0))
    for s, items in ip.to_items(st, args[0]):
        if isinstance(items, ABN):
            yield s, items
        elif items is None or not isinstance(start, Const):
            yield ip.top(s, "enumerate of unknown")
        else:
            yield s.new(ListC([Tup((Const(i + start.v), x)) for i, x in enumerate(items)]))


def _zip(ip, s, lists, kw):
    yield s.new(ListC([Tup(t) for t in zip(*lists)]))


def _map(ip, st, args, kw):
    f = args[0]
    for s, cols in _listy(_zip)(ip, st, args[1:], kw):
        if isinstance(cols, (ABN[0], ABN[1], ABN[2], Top)):
            yield s, cols
            continue
        outs = [(s, [])]
        for row in s.get(cols.addr).items:
            nxt = []
            for s1, acc in outs:
                if isinstance(acc, ABN):
                    nxt.append((s1, acc))
                    continue
                for s2, v in ip.call(s1, f, row.items, {}):
                    nxt.append((s2, v if isinstance(v, ABN) else acc + [v]))
            outs = nxt
        for s1, acc in outs:
            if isinstance(acc, ABN):
                yield s1, acc
            else:
                yield s1.new(ListC(acc))


def _filter(ip, st, args, kw):
    f = args[0]
    for s, items in ip.to_items(st, args[1]):
        if isinstance(items, ABN):
            yield s, items
            continue
        if items is None:
            yield ip.top(s, "filter of unknown")
            continue
        outs = [(s, [])]
        for x in items:
            nxt = []
            for s1, acc in outs:
                if isinstance(acc, ABN):
                    nxt.append((s1, acc))
                    continue
                vals = [(s1, x)] if f == NONE else ip.call(s1, f, (x,), {})
                for s2, v in vals:
                    if isinstance(v, ABN):
                        nxt.append((s2, v))
                        continue
                    for s3, t in ip.truth(s2, v):
                        nxt.append((s3, t if isinstance(t, ABN) else acc + ([x] if t else [])))
            outs = nxt
        for s1, acc in outs:
            if isinstance(acc, ABN):
                yield s1, acc
            else:
                yield s1.new(ListC(acc))


def _sum(ip, st, args, kw):
    for s, items in ip.to_items(st, args[0]):
        if isinstance(items, ABN):
            yield s, items
            continue
        if items is None:
            yield ip.top(s, "sum of unknown")
            continue
        outs = [(s, args[1] if len(args) > 1 else kw.get("start", Const(0)))]
        for x in items:
            outs = [o for s1, acc in outs for o in ([(s1, acc)] if isinstance(acc, ABN) else ip.binop(s1, "Add", acc, x))]
        yield from outs


def _minmax(which):
    def f(ip, st, args, kw):
        its = ip.items_of(st, args[0]) if len(args) == 1 else list(args)
        if its is None or kw.get("key"):
            yield ip.top(st, which)
            return
        its = [ip.payload(st, x) for x in its]
        if not its:
            if "default" in kw:
                yield st, kw["default"]
            else:
                yield ip.raise_(st, "ValueError", f"{which}() of empty sequence")
            return
        if all(isinstance(x, Const) for x in its):
            try:
                yield st, Const(getattr(_b, which)(x.v for x in its))
            except TypeError:
                yield ip.raise_(st, "TypeError")
            return
        if all(is_intlike(x) or (isinstance(x, Term) and x.typ == "float") for x in its):
            # decide by splitting on the comparison
            if len(its) == 2:
                a, b = its
                for s, r in order(ip, st, "<=" if which == "min" else ">=", a, b):
                    for s2, t in ip.truth(s, r):
                        yield s2, (a if t else b)
                return
            yield st, Term(which, tuple(its), "int")
            return
        yield ip.top(st, which)
    return f


def _reversed(ip, st, args, kw):
    v = ip.payload(st, args[0])
    if is_strlike(v) and not isinstance(v, Const):
        yield st, T("rev", v)
        return
    for s, items in ip.to_items(st, args[0]):
        if isinstance(items, ABN):
            yield s, items
        elif items is None:
            yield ip.top(s, "reversed of unknown")
        else:
            yield s.new(ListC(items[::-1]))


def _sorted(ip, st, args, kw):
    items = ip.items_of(st, args[0])
    if items is not None and all(isinstance(x, Const) for x in items) and "key" not in kw:
        rev = kw.get("reverse", FALSE)
        try:
            yield st.new(ListC([Const(x) for x in sorted((x.v for x in items), reverse=bool(rev.v))]))
        except TypeError:
            yield ip.raise_(st, "TypeError")
        return
    if items is not None and len(items) <= 1:
        yield st.new(ListC(items))
        return
    yield ip.top(st, "sorted")


def _abs(ip, st, args, kw):
    v = ip.payload(st, args[0])
    if isinstance(v, Const):
        yield st, Const(abs(v.v))
    elif isinstance(v, Term):
        lo, hi, _ = S.int_range(st, v) if v.typ == "int" else (None, None, None)
        yield st, v if lo is not None and lo >= 0 else Term("abs", (v,), v.typ)
    else:
        yield ip.top(st, "abs")


def _round(ip, st, args, kw):
    v = ip.payload(st, args[0])
    if isinstance(v, Const) and all(isinstance(a, Const) for a in args):
        yield st, Const(round(v.v, *[a.v for a in args[1:]]))
    elif isinstance(v, Term) and v.typ == "int":
        yield st, v
    elif isinstance(v, Term):
        yield st, Term("round", tuple(args), "int" if len(args) == 1 else "float")
    else:
        yield ip.top(st, "round")


def _divmod(ip, st, args, kw):
    for s, q in ip.binop(st, "FloorDiv", args[0], args[1]):
        if isinstance(q, ABN):
            yield s, q
            continue
        for s2, r in ip.binop(s, "Mod", args[0], args[1]):
            yield s2, r if isinstance(r, ABN) else Tup((q, r))


def _fold(name, fn):
    def f(ip, st, args, kw):
        a = [ip.payload(st, x) for x in args]
        if all(isinstance(x, Const) for x in a):
            try:
                yield st, Const(fn(*[x.v for x in a]))
            except Exception as e:
                yield ip.raise_(st, type(e).__name__, str(e))
        else:
            if name == "ord" and isinstance(a[0], Term):
                yield st, Term("ord", (a[0],), "int")
            elif name in ("hex", "bin", "oct") and isinstance(a[0], Term):
                yield st, T(name, a[0])
            elif name == "format" and len(a) == 2 and isinstance(a[1], Const):
                yield from ip.format_(st, a[0], a[1].v)
            else:
                yield ip.top(st, name)
    return Py(name, f)


@py("iter")
def b_iter(ip, st, args, kw):
    items = ip.items_of(st, args[0])
    if items is not None:
        yield st.new(Inst(ip.classes["iterator"], {"items": Tup(items)}))
        return
    yield st, args[0]


@py("next")
def b_next(ip, st, args, kw):
    v = args[0]
    if isinstance(v, Ref) and isinstance(st.get(v.addr), Inst) and st.get(v.addr).cls.qual == "iterator":
        c = st.get(v.addr)
        it = c.attrs["items"].items
        if it:
            yield st.put(v.addr, c.set("items", Tup(it[1:]))), it[0]
        elif len(args) > 1:
            yield st, args[1]
        else:
            yield ip.raise_(st, "StopIteration")
        return
    if isinstance(v, (GenExp, Coro)):
        # first element of a lazy generator that is used only once
        tagged = []

        def body(s, x):
            yield s, "ret", x
        for s, k, p in ip.iter_values(st, v, body):
            if k == "ret":
                yield s, p
            elif k == "abn":
                yield s, p
            elif len(args) > 1:
                yield s, args[1]
            else:
                yield ip.raise_(s, "StopIteration")
        return
    yield ip.top(st, "next()")


@py("super")
def b_super(ip, st, args, kw):
    if len(args) == 2:
        yield st.new(Inst(ip.classes["super"], {"cls": args[0], "obj": args[1]}))
    else:
        yield ip.top(st, "super")


def noop(ip, st, args, kw):
    yield st, NONE


def ident(ip, st, args, kw):
    yield st, args[0]


# ======================================================================= externals
def ext_inst(ip, st, qual, **attrs):
    return st.new(Inst(ip.ext_class(qual), attrs))


def call_ext(ip, st, f, args, kw, loc):
    n = f.name
    if n in ("warnings.warn", "warnings.warn_explicit", "sys.stderr.write", "sys.stdout.write", "sys.stderr.writelines", "sys.stdout.writelines", "sys.stderr.flush", "sys.stdout.flush"):
        flat = [x for a in (*args, *kw.values()) for x in (st.get(a.addr).items if isinstance(a, Ref) and isinstance(st.get(a.addr), ListC) else [a])]
        yield st.event("print", *flat, loc=loc), NONE
        return
    if n.startswith(("typing.", "abc.", "warnings.", "__future__", "collections.abc.")):
        yield st, Ext(n + "()")
        return
    if n == "enum.auto":
        yield st, Ext("enum.auto()")
        return
    if n.endswith("()"):
        yield st, Top(n)
        return
    yield ip.top(st.event("extcall", Const(n), *args, loc=loc), f"external call {n}")


def log_method(name):
    def f(ip, st, args, kw):
        a = tuple(args[1:])
        if name in ("isEnabledFor",):
            st2 = st
            yield st2, TRUE
            yield st2, FALSE
            return
        if name in ("debug", "info", "warning", "warn", "error", "critical", "exception", "log"):
            # arguments are rendered lazily: evaluate str() of each (errors are swallowed by logging)
            shown = []
            for x in a:
                rs = [r for r in ip.to_str(st, x) if not isinstance(r[1], ABN)]
                shown.append(rs[0][1] if rs else Top())
            for x in [x for k, x in sorted(kw.items()) if k == "extra"]:
                rs = [r for r in ip.to_str(st, x) if not isinstance(r[1], ABN)]
                shown.append(rs[0][1] if rs else Top())
            ev = tuple(shown)
            st = st.event("log", Const(name), *ev, loc=ip.cur_loc)
        yield st, NONE
    return Py("Logger." + name, f)


# --- asyncio
def q_full(ip, st, q):
    """Is the queue full? None: unknown."""
    c = st.get(q.addr)
    m = c.attrs.get("maxsize", Const(0))
    if not (isinstance(m, Const) and isinstance(m.v, int)):
        return None
    return 0 < m.v <= len(c.attrs["items"].items)


def q_put(ip, st, args, kw):
    q, x = args[0], args[1]
    c = st.get(q.addr)
    full = q_full(ip, st, q)
    if full is None:
        yield ip.top(st, "queue of unknown size")
        return
    if full:
        yield ip.raise_(st, "asyncio.QueueFull")
        return
    orphans = st.aux.get("orphans", ())
    for i, (addr, t, direct) in enumerate(orphans):
        if addr == q.addr:              # an abandoned (shielded) wait is first in line
            tc = st.get(t.addr)
            if not direct:              # a coroutine that waits on the queue first: it runs with the message
                st = st.with_aux("orphans", orphans[:i] + orphans[i + 1:]).put(t.addr, tc.set("state", Const("pending")))
                st = st.put(q.addr, c.set("items", Tup(c.attrs["items"].items + (x,)))).event("put", q, x, loc=ip.cur_loc)
                for s in run_task(ip, st, t):
                    yield s, NONE
                return
            st = st.with_aux("orphans", orphans[:i] + orphans[i + 1:]).put(t.addr, tc.set("state", Const("result")).set("value", x))
            yield st.event("put", q, x, loc=ip.cur_loc), NONE
            return
    yield st.put(q.addr, c.set("items", Tup(c.attrs["items"].items + (x,)))).event("put", q, x, loc=ip.cur_loc), NONE


def q_get_now(ip, st, args, kw):
    q = args[0]
    c = st.get(q.addr)
    it = c.attrs["items"].items
    if not it:
        yield ip.raise_(st, "asyncio.QueueEmpty")
        return
    lifo = c.cls.qual == "asyncio.LifoQueue"
    i = len(it) - 1 if lifo else 0
    yield st.put(q.addr, c.set("items", Tup(it[:i] + it[i + 1:]))).event("get", q, it[i], loc=ip.cur_loc), it[i]


def q_get(ip, st, args, kw):
    q = args[0]

    def run(ip, s, a, k):
        if s.get(q.addr).attrs["items"].items:
            yield from q_get_now(ip, s, (q,), {})
            return
        h = ip.env_hooks.get("queue_get")
        s = s.with_aux("waiting", q.addr)
        if h:
            yield from h(ip, s, q)
        else:
            yield s, Blocked("queue.get")
    yield st, coro("Queue.get", run, key=(q, "get"))


def q_async(fn):
    def f(ip, st, args, kw):
        def run(ip, s, a, k):
            if q_full(ip, s, args[0]):
                yield s, Blocked("queue.put")
            else:
                yield from fn(ip, s, args, kw)
        yield st, coro("Queue.put", run, key=tuple(args))
    return f


QUEUE = {"put_nowait": q_put, "get_nowait": q_get_now, "get": q_get, "put": q_async(q_put),
         "empty": lambda ip, st, args, kw: one(st, Const(not st.get(args[0].addr).attrs["items"].items)),
         "qsize": lambda ip, st, args, kw: one(st, Const(len(st.get(args[0].addr).attrs["items"].items))),
         "task_done": noop, "full": lambda ip, st, args, kw: one(st, Const(bool(q_full(ip, st, args[0]))))}


def fut_set(what):
    def f(ip, st, args, kw):
        c = st.get(args[0].addr)
        if c.attrs["state"] != Const("pending"):
            yield ip.raise_(st, "asyncio.InvalidStateError", "invalid state")
            return
        v = args[1] if len(args) > 1 else NONE
        yield st.put(args[0].addr, Inst(c.cls, {"state": Const(what), "value": v})).event("future", args[0], Const(what), v, loc=ip.cur_loc), NONE
    return f


def fut_result(ip, st, args, kw):
    c = st.get(args[0].addr)
    k = c.attrs["state"].v
    if k == "result":
        yield st, c.attrs["value"]
    elif k == "exception":
        yield st, Exc(c.attrs["value"])
    elif k == "cancelled":
        yield ip.raise_(st, "asyncio.CancelledError")
    else:
        yield ip.raise_(st, "asyncio.InvalidStateError")


def fut_await(ip, st, ref):
    if st.get(ref.addr).attrs["state"].v == "pending":
        h = ip.env_hooks.get("future_wait")
        if h:
            yield from h(ip, st, ref)
        else:
            yield st, Blocked("future")
        return
    yield from fut_result(ip, st, (ref,), {})


FUTURE = {"set_result": fut_set("result"), "set_exception": fut_set("exception"), "result": fut_result,
          "done": lambda ip, st, args, kw: one(st, Const(st.get(args[0].addr).attrs["state"].v != "pending")),
          "cancelled": lambda ip, st, args, kw: one(st, Const(st.get(args[0].addr).attrs["state"].v == "cancelled")),
          "cancel": lambda ip, st, args, kw: one(st.put(args[0].addr, Inst(st.get(args[0].addr).cls, {"state": Const("cancelled"), "value": NONE}))
                                                   if st.get(args[0].addr).attrs["state"].v == "pending" else st, TRUE),
          "exception": lambda ip, st, args, kw: one(st, st.get(args[0].addr).attrs["value"] if st.get(args[0].addr).attrs["state"].v == "exception" else NONE),
          "add_done_callback": lambda ip, st, args, kw: one(st.event("done_callback", args[0], args[1], loc=ip.cur_loc), NONE),
          "remove_done_callback": noop}


def ev_set(val):
    def f(ip, st, args, kw):
        yield st.put(args[0].addr, st.get(args[0].addr).set("set", Const(val))), NONE
    return f


def ev_wait(ip, st, args, kw):
    e = args[0]

    def run(ip, s, a, k):
        if s.get(e.addr).attrs["set"].v:
            yield s, TRUE
            return
        h = ip.env_hooks.get("event_wait") or ip.env_hooks.get("suspend")
        if h:
            for s2, r in h(ip, s, e):
                if isinstance(r, ABN):
                    yield s2, r
                elif s2.get(e.addr).attrs["set"].v:
                    yield s2, TRUE
                else:
                    yield s2, Blocked("event.wait")
        else:
            yield s, Blocked("event.wait")
    yield st, coro("Event.wait", run, key=(e, "wait"))


EVENT = {"set": ev_set(True), "clear": ev_set(False), "wait": ev_wait,
         "is_set": lambda ip, st, args, kw: one(st, st.get(args[0].addr).attrs["set"])}


def lk_acquire(ip, st, args, kw):
    c = st.get(args[0].addr)
    blocking = args[1] if len(args) > 1 else kw.get("blocking", TRUE)
    if c.attrs["locked"].v:
        if blocking == FALSE:
            yield st, FALSE
        elif c.cls.qual == "threading.RLock":
            yield st, TRUE
        else:
            yield st.event("deadlock", args[0], loc=ip.cur_loc), Blocked("lock.acquire (blocks the event loop)")
        return
    yield st.put(args[0].addr, c.set("locked", TRUE)).event("lock", args[0], loc=ip.cur_loc), TRUE


def lk_release(ip, st, args, kw):
    c = st.get(args[0].addr)
    if not c.attrs["locked"].v:
        yield ip.raise_(st, "RuntimeError", "release unlocked lock")
        return
    yield st.put(args[0].addr, c.set("locked", FALSE)).event("unlock", args[0], loc=ip.cur_loc), NONE


def lk_locked(ip, st, args, kw):
    yield st, st.get(args[0].addr).attrs["locked"]


def alk_acquire(ip, st, args, kw):
    r = args[0]

    def run(ip, s, a, k):
        c = s.get(r.addr)
        if c.attrs["locked"].v:
            h = ip.env_hooks.get("suspend")
            if h:
                for s2, x in h(ip, s, r):
                    c2 = s2.get(r.addr)
                    if isinstance(x, ABN):
                        yield s2, x
                    elif not c2.attrs["locked"].v:
                        yield s2.put(r.addr, c2.set("locked", TRUE)).event("lock", r, loc=ip.cur_loc), TRUE
                    else:
                        yield s2, Blocked("lock.acquire")
                return
            yield s, Blocked("lock.acquire")
            return
        yield s.put(r.addr, c.set("locked", TRUE)).event("lock", r, loc=ip.cur_loc), TRUE
    yield st, coro("Lock.acquire", run, key=(r, "acq"))


def with_lock(ip, st, cm, inner, loc):
    outs = list(lk_acquire(ip, st, (cm,), {}))
    for s, r in outs:
        if isinstance(r, ABN):
            yield s, "abn", r
            continue
        for s2, k, p in inner(s, TRUE):
            if k == "abn" and isinstance(p, Blocked):
                yield s2, k, p
                continue
            for s3, r3 in lk_release(ip, s2, (cm,), {}):
                yield (s3, "abn", r3) if isinstance(r3, ABN) else (s3, k, p)


def with_alock(ip, st, cm, inner, loc):
    for s0, c in alk_acquire(ip, st, (cm,), {}):
        for s, r in ip.await_(s0, c):
            if isinstance(r, ABN):
                yield s, "abn", r
                continue
            for s2, k, p in inner(s, NONE):
                if k == "abn" and isinstance(p, Blocked):
                    yield s2, k, p
                    continue
                for s3, r3 in lk_release(ip, s2, (cm,), {}):
                    yield (s3, "abn", r3) if isinstance(r3, ABN) else (s3, k, p)


def with_timeout(ip, st, cm, inner, loc):
    d = st.get(cm.addr).attrs["delay"]
    s = st.copy()
    s.timeouts = st.timeouts + (d,)
    s = s.event("timeout_enter", d, loc=loc)
    for s2, k, p in inner(s, cm):
        s3 = s2.copy()
        s3.timeouts = st.timeouts
        s3 = s3.event("timeout_exit", d, loc=loc)
        if k == "abn" and isinstance(p, Blocked) and d != NONE:
            s4, e = ip.raise_(s3, "TimeoutError")
            yield s4, "abn", e
        else:
            yield s3, k, p


def with_suppress(ip, st, cm, inner, loc):
    ex = st.get(cm.addr).attrs["excs"]
    for s, k, p in inner(st, NONE):
        if k == "abn" and isinstance(p, Exc):
            for s2, m in ip.exc_match(s, p, ex):
                yield (s2, "next", None) if m else (s2, k, p)
        else:
            yield s, k, p


def with_null(ip, st, cm, inner, loc):
    yield from inner(st, st.get(cm.addr).attrs.get("v", NONE))


WITH.update({"threading.Lock": with_lock, "threading.RLock": with_lock, "asyncio.Lock": with_alock,
             "asyncio.Timeout": with_timeout, "contextlib.suppress": with_suppress, "contextlib.nullcontext": with_null})
LOCK = {"acquire": lk_acquire, "release": lk_release, "locked": lk_locked}
ALOCK = {"acquire": alk_acquire, "release": lk_release, "locked": lk_locked}


def a_sleep(ip, st, args, kw):
    d = args[0] if args else kw.get("delay", Const(0))
    res = args[1] if len(args) > 1 else NONE

    def run(ip, s, a, k):
        s = s.event("sleep", d)
        h = ip.env_hooks.get("suspend")
        if h:
            for s2, r in h(ip, s, None):
                yield s2, r if isinstance(r, ABN) else res
        else:
            yield s, res
    yield st, coro("asyncio.sleep", run, key=(d,))


def a_wait_for(ip, st, args, kw):
    aw = args[0]
    d = args[1] if len(args) > 1 else kw.get("timeout", NONE)

    def run(ip, s, a, k):
        s1 = s.copy()
        s1.timeouts = s.timeouts + (d,)
        s1 = s1.event("timeout_enter", d)
        for s2, r in ip.await_(s1, aw):
            s3 = s2.copy()
            s3.timeouts = s.timeouts
            s3 = s3.event("timeout_exit", d)
            if isinstance(r, Blocked) and d != NONE:
                yield ip.raise_(s3, "TimeoutError")
            else:
                yield s3, r
    yield st, coro("asyncio.wait_for", run, key=(aw, d))


def a_create_task(ip, st, args, kw):
    c = args[-1] if isinstance(args[-1], (Coro, Top)) else args[0]
    if isinstance(args[0], Ref) and len(args) > 1:
        c = args[1]
    if not isinstance(c, (Coro, Top)) and not (isinstance(c, Ref) and isinstance(st.get(c.addr), Inst) and st.get(c.addr).cls.qual in AWAIT):
        yield ip.raise_(st, "TypeError", "a coroutine was expected")
        return
    if isinstance(c, Ref):
        yield st, c
        return
    st, t = ext_inst(ip, st, "asyncio.Task", coro=c, state=Const("pending"), value=NONE, callbacks=Tup(()))
    st = st.with_aux("ready", st.aux.get("ready", ()) + (("task", t),))
    yield st.event("task", c, t, loc=ip.cur_loc), t


def a_shield(ip, st, args, kw):
    """The awaited task goes on when the caller is cancelled: a shielded wait on a queue stays in line."""
    for s0, t in list(a_create_task(ip, st, args, kw)):
        if isinstance(t, ABN) or not (isinstance(t, Ref) and s0.get(t.addr).cls.qual == "asyncio.Task"):
            yield s0, t
            continue

        def run(ip, s, a, k, t=t):
            for s1, v in task_await(ip, s, t):
                if isinstance(v, Blocked) or (isinstance(v, Exc) and "CancelledError" in ip.exc_name(s1, v)):
                    c = s1.get(t.addr).attrs["coro"]
                    addr = None
                    if isinstance(c, Coro) and isinstance(c.fn, Py) and c.fn.name == "Queue.get":
                        addr, direct = c.fn.key[0].addr, True
                    elif isinstance(c, Coro) and s1.aux.get("waiting") is not None and not s1.get(s1.aux["waiting"]).attrs["items"].items:
                        addr, direct = s1.aux["waiting"], False
                    if addr is not None:
                        if isinstance(v, Exc):      # only the caller is cancelled
                            s1 = s1.put(t.addr, s1.get(t.addr).set("state", Const("blocked")))
                        o = (addr, t, direct)
                        if o not in s1.aux.get("orphans", ()):
                            s1 = s1.with_aux("orphans", s1.aux.get("orphans", ()) + (o,))
                    else:
                        s1 = s1.tainted("abandoned shielded task")
                yield s1, v
        yield s0, coro("asyncio.shield", run, key=(t,))


def run_task(ip, st, t):
    """Runs a pending task to its end; yields states."""
    c = st.get(t.addr)
    if c.attrs["state"] != Const("pending"):
        yield st
        return
    st = st.put(t.addr, c.set("state", Const("running")))
    for s, v in ip.await_(st, c.attrs["coro"]):
        c2 = s.get(t.addr)
        if isinstance(v, Exc):
            c2 = c2.set("state", Const("cancelled" if "CancelledError" in ip.exc_name(s, v) else "exception")).set("value", v.value)
        elif isinstance(v, ABN):
            yield s.put(t.addr, c2.set("state", Const("blocked"))).event("task_blocked", t)
            continue
        else:
            c2 = c2.set("state", Const("result")).set("value", v)
        sts = [s.put(t.addr, c2)]
        for cb in c2.attrs["callbacks"].items:
            sts = [s3.event("callback_error", Const(ip.describe_abn(s3, r))) if isinstance(r, ABN) else s3 for s2 in sts for s3, r in ip.call(s2, cb, (t,), {})]
        yield from sts


def run_ready(ip, st):
    """Everything scheduled runs, in scheduling order; yields states."""
    work = [(st, 0)]
    while work:
        st, n = work.pop()
        q = st.aux.get("ready", ())
        if not q:
            yield st
            continue
        if n > 5000:
            yield ip.top(st, "more than 5000 tasks")[0]
            continue
        st = st.with_aux("ready", q[1:])
        x = q[0]
        if x[0] == "task":
            outs = run_task(ip, st, x[1])
        else:
            outs = (s.event("callback_error", Const(ip.describe_abn(s, r))) if isinstance(r, ABN) else s for s, r in ip.call(st, x[1], x[2], {}))
        work += [(s, n + 1) for s in list(outs)[::-1]]


def task_await(ip, st, t):
    again = st.get(t.addr).attrs["state"] == Const("blocked")
    for s in run_task(ip, st, t):
        h = ip.env_hooks.get("task_wait")
        if again and h and any(o[1] == t for o in s.aux.get("orphans", ())):
            yield from h(ip, s, t)
        else:
            yield from task_result(ip, s, t)


def task_result(ip, st, t):
    c = st.get(t.addr)
    k = c.attrs["state"].v
    if k == "result":
        yield st, c.attrs["value"]
    elif k in ("exception", "cancelled") and c.attrs["value"] != NONE:
        yield st, Exc(c.attrs["value"])
    elif k == "cancelled":
        yield ip.raise_(st, "asyncio.CancelledError")
    elif k in ("blocked", "running"):
        yield st, Blocked("task")
    else:
        yield ip.raise_(st, "asyncio.InvalidStateError", "Result is not set.")


def a_gather(ip, st, args, kw):
    ret = kw.get("return_exceptions", FALSE)

    def run(ip, s, a, k):
        outs = [(s.event("gather", *args), [])]
        for x in args:
            nxt = []
            for s1, acc in outs:
                if isinstance(acc, ABN):
                    nxt.append((s1, acc))
                    continue
                task = isinstance(x, Ref) and isinstance(s1.get(x.addr), Inst) and s1.get(x.addr).cls.qual == "asyncio.Task"
                if isinstance(x, Coro) or task:
                    for s2, v in ip.await_(s1, x):
                        if isinstance(v, Exc) and ret == TRUE:
                            nxt.append((s2, acc + [v.value]))
                        else:
                            nxt.append((s2, v if isinstance(v, ABN) else acc + [v]))
                else:
                    nxt.append((s1, acc + [Top("task result")]))
            outs = nxt
        for s1, acc in outs:
            if isinstance(acc, ABN):
                yield s1, acc
            else:
                yield s1.new(ListC(acc))
    yield st, coro("asyncio.gather", run, key=tuple(args))


def a_wait(ip, st, args, kw):
    """asyncio.wait: the tasks that ended and those that did not."""
    limit = kw.get("timeout", NONE)
    its = ip.items_of(st, args[0]) if args else None

    def run(ip, s, a, k):
        if its is None or kw.get("return_when", Const("ALL_COMPLETED")) != Const("ALL_COMPLETED") or not all(
                isinstance(x, Ref) and isinstance(s.get(x.addr), Inst) and s.get(x.addr).cls.qual == "asyncio.Task" for x in its):
            yield ip.top(s, "asyncio.wait")
            return
        if not its:
            yield ip.raise_(s, "ValueError", "Set of Tasks/Futures is empty.")
            return
        outs = [(s.event("gather", *its), [], [])]
        for x in its:
            nxt = []
            for s1, done, late in outs:
                if isinstance(done, ABN):
                    nxt.append((s1, done, late))
                    continue
                for s2, v in ip.await_(s1, x):
                    if isinstance(v, Blocked) and limit != NONE:
                        nxt.append((s2, done, late + [x]))
                    elif isinstance(v, ABN) and not isinstance(v, Exc):
                        nxt.append((s2, v, late))
                    else:
                        nxt.append((s2, done + [x], late))
            outs = nxt
        for s1, done, late in outs:
            if isinstance(done, ABN):
                yield s1, done
                continue
            s1, d = s1.new(SetC(tuple(done)))
            s1, p = s1.new(SetC(tuple(late)))
            yield s1, Tup((d, p))
    yield st, coro("asyncio.wait", run, key=tuple(args))


def loop_method(name):
    def f(ip, st, args, kw):
        if name == "create_future":
            yield ext_inst(ip, st, "asyncio.Future", state=Const("pending"), value=NONE)
        elif name == "create_task":
            yield from a_create_task(ip, st, args, kw)
        elif name == "create_connection":
            fac = args[1] if len(args) > 1 else kw.get("protocol_factory")
            rest = args[2:]

            def run(ip, s, a, k):
                h = ip.env_hooks.get("connect")
                if h:
                    yield from h(ip, s, fac, rest, kw)
                else:
                    yield ip.top(s, "create_connection")
            yield st, coro("create_connection", run, key=(fac,))
        elif name in ("is_running",):
            yield st, TRUE
        elif name in ("is_closed",):
            yield st, FALSE
        elif name in ("time",):
            yield st, atom("loop.time", "float")
        elif name in ("call_soon", "call_soon_threadsafe") and len(args) > 1:
            st = st.with_aux("ready", st.aux.get("ready", ()) + (("call", args[1], tuple(args[2:])),))
            yield ext_inst(ip, st.event("call_later", *args[1:], loc=ip.cur_loc), "asyncio.Handle")
        elif name in ("call_soon", "call_later", "call_at", "call_soon_threadsafe"):
            yield from ((s, r) for s, r in [ext_inst(ip, st.event("call_later", *args[1:], loc=ip.cur_loc), "asyncio.Handle")])
        else:
            yield st.event("loop." + name, *args[1:], loc=ip.cur_loc), NONE
    return Py("loop." + name, f)


def tr_method(name):
    def f(ip, st, args, kw):
        if name in ("write", "writelines"):
            yield st.event("write", args[0], args[1] if len(args) > 1 else NONE, Const(name), loc=ip.cur_loc), NONE
        elif name in ("close", "abort"):
            c = st.get(args[0].addr)
            yield st.put(args[0].addr, c.set("closed", TRUE)).event("close", args[0], loc=ip.cur_loc), NONE
        elif name == "is_closing":
            c = st.get(args[0].addr)
            yield st, TRUE if c.attrs.get("lost") == TRUE else c.attrs.get("closed", FALSE)
        elif name in ("get_extra_info",):
            yield st, Top("extra info")
        elif name in ("get_write_buffer_size",):
            yield st, ip.fresh("bufsize", "int")
        else:
            yield st.event("transport." + name, *args, loc=ip.cur_loc), NONE
    return Py("transport." + name, f)


def task_method(name):
    def f(ip, st, args, kw):
        c = st.get(args[0].addr)
        k = c.attrs["state"].v
        if name in ("result",):
            yield from task_result(ip, st, args[0])
        elif name in ("exception",):
            if k == "cancelled":
                yield from task_result(ip, st, args[0])
            elif k in ("pending", "running", "blocked"):
                yield ip.raise_(st, "asyncio.InvalidStateError", "Exception is not set.")
            else:
                yield st, c.attrs["value"] if k == "exception" else NONE
        elif name in ("done", "cancelled"):
            yield st, Const(k == "cancelled" if name == "cancelled" else k not in ("pending", "running", "blocked"))
        elif name == "add_done_callback":
            st = st.event("done_callback", args[0], args[1], loc=ip.cur_loc)
            if k in ("pending", "running", "blocked"):
                yield st.put(args[0].addr, c.set("callbacks", Tup(c.attrs["callbacks"].items + (args[1],)))), NONE
            else:
                yield st.with_aux("ready", st.aux.get("ready", ()) + (("call", args[1], (args[0],)),)), NONE
        elif name == "cancel":
            if k == "pending":
                st = st.put(args[0].addr, c.set("state", Const("cancelled")))
            yield st.event("task.cancel", *args, loc=ip.cur_loc), TRUE
        else:
            yield st.event("task." + name, *args, loc=ip.cur_loc), NONE if name != "cancel" else TRUE
    return Py("task." + name, f)


def pat_method(name):
    def f(ip, st, args, kw):
        p, s = args[0], ip.payload(st, args[1]) if len(args) > 1 else NONE
        c = st.get(p.addr)
        yield from re_match(ip, st, c.attrs["pattern"], c.attrs["flags"], name, s, args[2:])
    return Py("Pattern." + name, f)


def re_match(ip, st, pat, flags, mode, s, extra=()):
    if mode in ("match", "fullmatch", "search") and isinstance(pat, Const) and isinstance(flags, Const) and not extra:
        if not is_strlike(s):
            if isinstance(s, Top):
                yield ip.top(st, "match on unknown")
            else:
                yield ip.raise_(st, "TypeError", "expected string or bytes-like object")
            return
        if isinstance(s, Const):
            m = getattr(_re.compile(pat.v, flags.v), mode)(s.v)
            if m is None:
                yield st, NONE
            else:
                yield st.new(Inst(ip.ext_class("re.Match"), {"m": Const(None), "groups": Tup([Const(g) for g in m.groups()]),
                                                            "g0": Const(m.group(0)), "names": Tup([Tup((Const(k), Const(v))) for k, v in m.groupdict().items()])}))
            return
        try:
            lg = L.regex_language(pat.v, mode, flags.v)
        except L.Unsupported as e:
            st = st.tainted(f"regular expression {pat.v!r}: {e}")
            yield st, NONE
            yield ext_inst(ip, st, "re.Match", src=s)
            return
        for s2, b in S.pred(st, s, lg):
            if b:
                yield ext_inst(ip, s2, "re.Match", src=s)
            else:
                yield s2, NONE
        return
    yield ip.top(st, "re." + mode)


def match_method(name):
    def f(ip, st, args, kw):
        c = st.get(args[0].addr)
        if "g0" in c.attrs and name in ("group", "groups"):
            if name == "groups":
                yield st, c.attrs["groups"]
                return
            k = args[1] if len(args) > 1 else Const(0)
            if isinstance(k, Const) and isinstance(k.v, int):
                yield st, c.attrs["g0"] if k.v == 0 else c.attrs["groups"].items[k.v - 1]
                return
            if isinstance(k, Const):
                for t in c.attrs["names"].items:
                    if t.items[0] == k:
                        yield st, t.items[1]
                        return
        yield ip.top(st, "match." + name)
    return Py("Match." + name, f)


# --- hashing
def hash_new(alg):
    def f(ip, st, args, kw):
        d = args[0] if args else kw.get("string", kw.get("data", Const(b"")))
        yield ext_inst(ip, st, "hashlib.hash", alg=Const(alg), data=d)
    return Py("hashlib." + alg, f)


def alg_of(v):
    if isinstance(v, Const) and isinstance(v.v, str):
        return Const(v.v.lower().replace("-", ""))
    if isinstance(v, Py) and v.name.startswith("hashlib."):
        return Const(v.name.split(".")[1])
    if isinstance(v, Ext) and v.name.startswith("hashlib."):
        return Const(v.name.split(".")[1])
    return None


def mac_new(ip, st, args, kw):
    key = args[0] if args else kw.get("key")
    msg = args[1] if len(args) > 1 else kw.get("msg", Const(b""))
    dm = args[2] if len(args) > 2 else kw.get("digestmod")
    alg = alg_of(dm) if dm is not None else None
    if msg == NONE:
        msg = Const(b"")
    if alg is None or key is None:
        yield ip.top(st, "hmac with unknown digest")
        return
    yield ext_inst(ip, st, "hmac.HMAC", alg=alg, key=key, data=msg)


def hash_method(name):
    def f(ip, st, args, kw):
        c = st.get(args[0].addr)
        if name == "update":
            for s, v in ip.binop(st, "Add", c.attrs["data"], args[1]):
                if isinstance(v, ABN):
                    yield s, v
                else:
                    yield s.put(args[0].addr, c.set("data", v)), NONE
            return
        if "key" in c.attrs:
            d = Term("hmac", (c.attrs["alg"], c.attrs["key"], c.attrs["data"]), "bytes")
        else:
            d = Term("digest", (c.attrs["alg"], c.attrs["data"]), "bytes")
        if name == "digest":
            yield st, d
        elif name == "hexdigest":
            yield st, Term("hexstr", (d,), "str")
        elif name == "copy":
            yield st.new(c)
        else:
            yield ip.top(st, "hash." + name)
    return Py("hash." + name, f)


def compare_digest(ip, st, args, kw):
    a, b = args
    st = st.event("compare_digest", a, b, loc=ip.cur_loc)
    if is_strlike(a) != is_strlike(b):
        yield ip.raise_(st, "TypeError", "unsupported operand types")
        return
    key = Term("cmp", (a, "==", b) if repr(a) <= repr(b) else (b, "==", a), "bool")
    if a == b:
        yield st, TRUE
        return
    if isinstance(a, Const) and isinstance(b, Const):
        yield st, FALSE
        return
    for s, t in ip.truth_fact(st, key, False):
        yield s, Const(t)


def rand_bytes(ip, st, args, kw):
    t = ip.fresh("random", "bytes")
    yield st.event("random", t, rand_size(args, kw)), t


def rand_size(args, kw):
    v = args[0] if args else next(iter(kw.values()), NONE)
    return Const(32) if v == NONE else v


def rand_hex(ip, st, args, kw):
    t = ip.fresh("random", "bytes")
    yield st.event("random", t, rand_size(args, kw)), Term("hexstr", (t,), "str")


# --- datetime
DT_ARGS = {"datetime": ["year", "month", "day", "hour", "minute", "second", "microsecond", "tzinfo"],
           "date": ["year", "month", "day"], "time": ["hour", "minute", "second", "microsecond", "tzinfo"],
           "timedelta": ["days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks"],
           "timezone": ["offset"]}


def dt_new(kind):
    typ = {"timezone": "tz"}.get(kind, kind)

    def f(ip, st, args, kw, loc=None):
        names = DT_ARGS[kind]
        d = {}
        for n, v in zip(names, args):
            d[n] = ip.payload(st, v)
        for k, v in kw.items():
            d[k] = ip.payload(st, v)
        if any(isinstance(v, Top) for v in d.values()):
            yield ip.top(st, kind + " of unknown")
            return
        if any(is_strlike(v) for v in d.values()):
            yield ip.raise_(st, "TypeError", "an integer is required")
            return
        if all(isinstance(v, Const) for v in d.values()):
            try:
                yield st, Const(getattr(_dt, kind)(**{k: v.v for k, v in d.items()}))
            except Exception as e:
                yield ip.raise_(st, type(e).__name__, str(e))
            return
        val = Term("new", (kind, (), tuple(sorted(d.items()))), typ)
        if kind in ("datetime", "date", "time"):
            out_of_range = maybe = False
            for n, v in d.items():
                if n in S.NAMED_RANGES:
                    if not is_intlike(v):
                        if isinstance(v, Const) and v.v is None:
                            yield ip.raise_(st, "TypeError", "an integer is required")
                            return
                        continue
                    lo, hi, _ = S.int_range(st, v)
                    rl, rh = S.NAMED_RANGES[n]
                    if lo is not None and lo > rh or hi is not None and hi < rl:
                        yield ip.raise_(st, "ValueError", f"{n} out of range")
                        return
                    if lo is None or lo < rl or hi is None or hi > rh:
                        lg_ok = False
                        if isinstance(v, Term) and v.op == "int" and len(v.args) == 1:
                            try:
                                lg_ok = S.lang_of(st, v.args[0]) <= S.numeral_lang(rl, rh if rh < 2000 else None)
                            except L.Unsupported:
                                pass
                        if not lg_ok:
                            out_of_range = True
                    if n == "day" and (hi is None or hi > 28):
                        maybe = True
            yield st, val
            if out_of_range:
                yield ip.raise_(st, "ValueError", f"{kind} field out of range")
            elif maybe:
                yield ip.raise_(st.tainted("day of month"), "ValueError", "day out of range")
            return
        if kind == "timezone":
            yield st, val
            if not all(isinstance(v, Const) for v in d.values()):
                yield ip.raise_(st.tainted("timezone offset"), "ValueError", "offset out of range")
            return
        yield st, val
    return f


_OCTET = L.regex_language(r"[0-9]|[1-9][0-9]|1[0-9][0-9]|2[0-4][0-9]|25[0-5]", "fullmatch")
IPV4 = _OCTET + L.const(".") + _OCTET + L.const(".") + _OCTET + L.const(".") + _OCTET


def ip_new(kind):
    def f(ip, st, args, kw, loc=None):
        v = ip.payload(st, args[0])
        if isinstance(v, Top):
            yield ip.top(st, "ip address of unknown")
            return
        if isinstance(v, Const):
            try:
                r = S.ev(Term("new", (kind, (v,), tuple(sorted(kw.items()))), "ip"), {})
            except S.NoValue as e:
                yield ip.raise_(st, "ipaddress.AddressValueError" if kind == "ipv4" else "ValueError", str(e))
                return
            yield st, Const(r)
            return
        ok = isinstance(v, Const)
        if is_strlike(v) and not ok and (kind == "ipv4" or isinstance(kw.get("strict"), Const) and not kw["strict"].v):
            try:
                ok = S.lang_of(st, v) <= (IPV4 if kind == "ipv4" else IPV4 + L.const("/") + IPV4)
            except L.Unsupported:
                pass
            # contiguity of the net mask is left to the caller's values
        yield st, Term("new", (kind, (v,), tuple(sorted(kw.items()))), "ip" if kind == "ipv4" else "net")
        if not ok:
            yield ip.raise_(st.tainted("ip address text"), "ipaddress.AddressValueError", "bad address")
    return f


# --- copy
def deep(ip, st, v, memo, shallow):
    if isinstance(v, Tup):
        if shallow:
            return st, v
        items = []
        for x in v.items:
            st, y = deep(ip, st, x, memo, False)
            items.append(y)
        return st, Tup(items)
    if isinstance(v, Ref):
        if v.addr in memo:
            return st, memo[v.addr]
        c = st.get(v.addr)
        if isinstance(c, Inst):
            if c.cls.is_enum:
                return st, v
            st, r = st.new(c)
            memo[v.addr] = r
            if not shallow:
                attrs = {}
                for k, x in c.attrs.items():
                    st, attrs[k] = deep(ip, st, x, memo, False)
                st = st.put(r.addr, Inst(c.cls, attrs, c.payload))
            return st, r
        st, r = st.new(c)
        memo[v.addr] = r
        if not shallow:
            if isinstance(c, (ListC, SetC)):
                items = []
                for x in c.items:
                    st, y = deep(ip, st, x, memo, False)
                    items.append(y)
                st = st.put(r.addr, type(c)(items) if isinstance(c, ListC) else SetC(items, c.frozen))
            elif isinstance(c, DictC):
                items = []
                for k, x in c.items:
                    st, k2 = deep(ip, st, k, memo, False)
                    st, y = deep(ip, st, x, memo, False)
                    items.append((k2, y))
                st = st.put(r.addr, DictC(items, c.default))
        return st, r
    return st, v


def copy_fn(shallow):
    def f(ip, st, args, kw):
        yield deep(ip, st, args[0], {}, shallow)
    return f


# --- decorators
def dataclass_(ip, st, args, kw):
    if args and isinstance(args[0], Cls):
        args[0].info.dataclass = "plain"
        yield st, args[0]
        return
    frozen = kw.get("frozen") == TRUE

    def deco(ip, s, a, k):
        a[0].info.dataclass = "frozen" if frozen else "plain"
        yield s, a[0]
    yield st, Py("dataclass()", deco, key=frozen)


def dc_field(ip, st, args, kw):
    if "default_factory" in kw:
        yield st, Tup((Const("field"), Const("factory"), kw["default_factory"]))
    elif "default" in kw:
        yield st, Tup((Const("field"), Const("default"), kw["default"]))
    else:
        yield st, Tup((Const("field"), Const("none")))


def abstractmethod(ip, st, args, kw):
    v = args[0]
    if isinstance(v, Func):
        v = v.with_flag("abstract")
    elif isinstance(v, Wrap) and isinstance(v.f, Func):
        v = Wrap(v.kind, v.f.with_flag("abstract"), v.g)
    yield st, v


def ctxmgr(ip, st, args, kw):
    v = args[0]
    yield st, v.with_flag("ctxmgr") if isinstance(v, Func) else v


def deco_factory(ip, st, args, kw):
    if args and isinstance(args[0], (Func, Wrap)):
        yield st, memo(args[0])
    else:
        yield st, Py("memoising decorator", lambda ip, s, a, k: one(s, memo(a[0])))


def memo(v, flag="memo"):
    if isinstance(v, Func):
        return v.with_flag(flag)
    if isinstance(v, Wrap) and isinstance(v.f, Func):
        return Wrap(v.kind, v.f.with_flag(flag), v.g)
    return v


def cached_property(ip, st, args, kw):
    for s, v in one(st, Wrap("property", args[0], None)):
        yield s, v if isinstance(v, ABN) else memo(v, "memo-self")


def partial_(ip, st, args, kw):
    st, d = st.new(DictC([(Const(k), v) for k, v in kw.items()]))
    yield ext_inst(ip, st, "functools.partial", f=args[0], a=Tup(args[1:]), k=d)


def call_partial(ip, st, ref, args, kw, loc):
    c = st.get(ref.addr)
    k = {a.v: b for a, b in st.get(c.attrs["k"].addr).items}
    k.update(kw)
    yield from ip.call(st, c.attrs["f"], c.attrs["a"].items + tuple(args), k)


def call_opaque(ip, st, ref, args, kw, loc):
    """Callback supplied by the environment: returns a coroutine object recorded in the trace."""
    f = ref
    mode = st.get(ref.addr).attrs.get("mode", NONE)
    mode = mode.v if isinstance(mode, Const) else None
    st = st.event("called", f, *args)
    if mode == "raise on call":
        yield ip.raise_(st, "RuntimeError", "callback")
        return
    if mode == "not a coroutine":
        yield st, NONE
        return

    def run(ip, s, a, k):
        s = s.event("ran", f, *a)
        if mode == "blocks":
            yield s, Blocked("callback")
        elif mode in ("Exception", "asyncio.CancelledError", "KeyError", "TypeError"):
            yield ip.raise_(s, mode)
        else:
            yield s, NONE
    yield st, Coro(Py("opaque", run, key=f), args, kw, "coro")


CALLABLE.update({"functools.partial": call_partial, "verif.Callback": call_opaque})


def inst_method(ip, st, ref, cell, name):
    q = cell.cls.qual
    tbl = {"asyncio.Queue": QUEUE, "asyncio.LifoQueue": QUEUE, "asyncio.Future": FUTURE, "asyncio.Event": EVENT,
           "threading.Lock": LOCK, "threading.RLock": LOCK, "asyncio.Lock": ALOCK, "threading.Event": EVENT}.get(q)
    if tbl is not None and name in tbl:
        return Bound(ref, Py(q + "." + name, tbl[name]))
    if q == "logging.Logger":
        return Bound(ref, log_method(name))
    if q == "asyncio.AbstractEventLoop":
        return Bound(ref, loop_method(name))
    if q == "asyncio.Transport":
        return Bound(ref, tr_method(name))
    if q == "asyncio.Task":
        return Bound(ref, task_method(name))
    if q == "re.Pattern":
        if name in ("pattern", "flags"):
            return cell.attrs[name]
        return Bound(ref, pat_method(name))
    if q == "re.Match":
        return Bound(ref, match_method(name))
    if q in ("hashlib.hash", "hmac.HMAC"):
        return Bound(ref, hash_method(name))
    if q == "collections.deque":
        return deque_method(ip, ref, name)
    if q == "bytearray":
        return bytearray_method(ip, ref, name)
    if q == "asyncio.Timeout":
        return Bound(ref, Py("Timeout." + name, noop))
    if cell.cls.is_sub(ip.classes["BaseException"]):
        if name in ("with_traceback",):
            return Py(name, lambda ip, s, a, k: one(s, ref), key=ref)
        if name == "add_note":
            return Py(name, lambda ip, s, a, k: one(s.event("raise", *a, loc=ip.cur_loc), NONE), key=ref)
        if name in ("__cause__", "__context__", "__traceback__"):
            return cell.attrs.get(name, NONE)
        if name in ("errno", "strerror", "reason", "start", "end", "object", "encoding"):
            return Top("exception attribute")
    if cell.cls.is_enum and name == "_missing_":
        return None
    return None


def bytearray_put(ip, st, ref, v):
    """The bytearray with other contents."""
    c = st.get(ref.addr)
    return st.put(ref.addr, Inst(c.cls, c.attrs, v))


def bytearray_add(ip, st, ref, v):
    """Yields (st, None | ABN): the bytearray followed by some bytes."""
    for s, r in ip.binop(st, "Add", st.get(ref.addr).payload, ip.payload(st, v)):
        if isinstance(r, ABN):
            yield s, r
        else:
            yield bytearray_put(ip, s, ref, r), None


def bytearray_del(ip, st, ref, k, new=None):
    """Yields (st, None | ABN): del ref[k], or ref[k] = new for a slice."""
    old = st.get(ref.addr).payload
    if isinstance(k, Const) and isinstance(k.v, int) and new is None:
        k = Tup((Const("slice"), k, Const(k.v + 1) if k.v != -1 else NONE, NONE))
    if not (isinstance(k, Tup) and k.items and k.items[0] == Const("slice") and k.items[3] == NONE):
        yield bytearray_put(ip, st, ref, Top("bytearray")).tainted("bytearray item"), None
        return
    _, a, b, _ = k.items
    if isinstance(old, Const) and all(isinstance(x, Const) for x in (a, b)) and (new is None or isinstance(new, Const)):
        d = bytearray(old.v)
        d[slice(a.v, b.v)] = b"" if new is None else new.v
        yield bytearray_put(ip, st, ref, Const(bytes(d))), None
        return
    parts = [(NONE, a)] if a not in (NONE, Const(0)) else []
    parts += [(b, NONE)] if b != NONE else []
    outs = [(st, [])]
    for x, y in parts:
        nxt = []
        for s, got in outs:
            for s2, r in getslice(ip, s, old, x, y, NONE):
                if isinstance(r, ABN):
                    yield s2, r
                else:
                    nxt.append((s2, got + [r]))
        outs = nxt
    for s, got in outs:
        if new is not None:
            got.insert(1 if a not in (NONE, Const(0)) else 0, new)
        v = got[0] if got else Const(b"")
        todo = [(s, v)]
        for x in got[1:]:
            todo = [(s3, r) for s2, w in todo for s3, r in (ip.binop(s2, "Add", w, x) if not isinstance(w, ABN) else [(s2, w)])]
        for s2, r in todo:
            yield (s2, r) if isinstance(r, ABN) else (bytearray_put(ip, s2, ref, r), None)


def bytearray_new(ip, st, args, kw, loc=None):
    v = ip.payload(st, args[0]) if args else Const(b"")
    if isinstance(v, Const) and isinstance(v.v, bytes) or bytes_text(v) is not None or (isinstance(v, Term) and v.typ == "bytes"):
        yield st.new(Inst(ip.classes["bytearray"], {}, v))
        return
    for s, r in ip.call(st, Cls(ip.classes["bytes"]), args, kw):
        yield (s, r) if isinstance(r, ABN) else s.new(Inst(ip.classes["bytearray"], {}, r))


def bytearray_method(ip, ref, name):
    a = ref.addr

    def done(gen):
        for s, r in gen:
            yield s, r if isinstance(r, ABN) else NONE

    def byte(ip, s, args, kw):
        if isinstance(args[0], Const) and isinstance(args[0].v, int) and 0 <= args[0].v < 256:
            yield from done(bytearray_add(ip, s, ref, Const(bytes([args[0].v]))))
        else:
            yield ip.top(s, "byte")

    def pop(ip, s, args, kw):
        v, i = s.get(a).payload, args[0] if args else Const(-1)
        if isinstance(v, Const) and isinstance(i, Const):
            d = bytearray(v.v)
            try:
                x = d.pop(i.v)
            except IndexError as e:
                yield ip.raise_(s, "IndexError", str(e))
                return
            yield bytearray_put(ip, s, ref, Const(bytes(d))), Const(x)
        else:
            yield ip.top(bytearray_put(ip, s, ref, Top("bytearray")), "bytearray.pop")

    def extend(ip, s, args, kw):
        v = ip.payload(s, args[0])
        if isinstance(v, Ref) or isinstance(v, Tup):
            for s2, b in ip.call(s, Cls(ip.classes["bytes"]), (v,), {}):
                if isinstance(b, ABN):
                    yield s2, b
                else:
                    yield from done(bytearray_add(ip, s2, ref, b))
        else:
            yield from done(bytearray_add(ip, s, ref, v))
    F = {"extend": extend, "append": byte, "pop": pop,
         "clear": lambda ip, s, args, kw: one(bytearray_put(ip, s, ref, Const(b"")), NONE),
         "copy": lambda ip, s, args, kw: one(*s.new(Inst(s.get(a).cls, {}, s.get(a).payload)))}
    if name in F:
        return Py("bytearray." + name, F[name], key=(ref, name))
    if name in ("insert", "remove", "reverse", "__setitem__", "__delitem__", "__iadd__", "__imul__"):
        return Py("bytearray." + name, lambda ip, s, args, kw: one(*ip.top(bytearray_put(ip, s, ref, Top("bytearray")), "bytearray." + name)), key=(ref, name))
    return None


def deque_method(ip, ref, name):
    a = ref.addr

    def items(s):
        return s.get(a).attrs["items"].items

    def put(s, it):
        m = s.get(a).attrs.get("maxlen", NONE)
        if isinstance(m, Const) and isinstance(m.v, int) and len(it) > m.v:
            it = it[:m.v] if name.endswith("left") else it[len(it) - m.v:]
        elif not isinstance(m, Const):
            s = s.tainted("deque of unknown size")
        return s.put(a, s.get(a).set("items", Tup(it)))
    F = {"append": lambda ip, s, args, kw: one(put(s, items(s) + (args[0],)).event("put", ref, args[0], loc=ip.cur_loc), NONE),
         "appendleft": lambda ip, s, args, kw: one(put(s, (args[0],) + items(s)).event("put", ref, args[0], loc=ip.cur_loc), NONE),
         "clear": lambda ip, s, args, kw: one(put(s, ()), NONE),
         "__len__": lambda ip, s, args, kw: one(s, Const(len(items(s))))}
    if name in F:
        return Py("deque." + name, F[name], key=(ref, name))
    if name in ("popleft", "pop"):
        def f(ip, s, args, kw):
            it = items(s)
            if not it:
                yield ip.raise_(s, "IndexError", "pop from an empty deque")
            elif name == "popleft":
                yield put(s, it[1:]), it[0]
            else:
                yield put(s, it[:-1]), it[-1]
        return Py("deque." + name, f, key=(ref, name))
    if name == "extend":
        def f(ip, s, args, kw):
            for s2, its in ip.to_items(s, args[0]):
                if isinstance(its, ABN) or its is None:
                    yield s2, its if its is not None else Top()
                else:
                    yield put(s2, items(s2) + tuple(its)), NONE
        return Py("deque.extend", f, key=(ref, name))
    return None


def class_method(ip, st, info, name):
    """Methods looked up on builtin classes: str.join(...), dict.get etc."""
    q = info.qual
    if q in ("str", "bytes", "list", "dict", "set", "tuple"):
        if q == "bytes" and name == "fromhex":
            return Py("bytes.fromhex", fromhex)
        if q == "dict" and name == "fromkeys":
            def f(ip, s, args, kw):
                its = ip.items_of(s, args[0])
                if its is None:
                    yield ip.top(s, "dict.fromkeys")
                    return
                v = args[1] if len(args) > 1 else NONE
                yield s.new(DictC([(k, v) for k in dict.fromkeys(its)]))
            return Py("dict.fromkeys", f)

        def f(ip, s, args, kw):
            if name == "__new__":
                yield s.new(Inst(args[0].info, {}, args[1] if len(args) > 1 else Const("")))
                return
            for s2, m in ip.getattr_(s, ip.payload(s, args[0]), name):
                if isinstance(m, ABN):
                    yield s2, m
                else:
                    yield from ip.call(s2, m, args[1:], kw)
        return Py(f"{q}.{name}", f, key=(q, name))
    if q in ("datetime.datetime", "datetime.date") and name in ("now", "today", "utcnow"):
        typ = "datetime" if q.endswith("datetime") else "date"
        return Py(q + "." + name, lambda ip, s, a, k: one(s, atom("now", typ)), key=q)
    if q == "datetime.timezone" and name == "utc":
        return Const(_dt.timezone.utc)
    if q == "datetime.datetime" and name == "combine":
        def f(ip, s, args, kw):
            d, t = args[:2]
            tz = args[2] if len(args) > 2 else kw.get("tzinfo")
            fs = {}
            for x, names in ((d, DT_ARGS["date"]), (t, DT_ARGS["time"])):
                for n in names:
                    if isinstance(x, Const):
                        fs[n] = Const(getattr(x.v, n))
                    elif isinstance(x, Term) and x.op == "new":
                        if n in dict(x.args[2]):
                            fs[n] = dict(x.args[2])[n]
                    else:
                        yield ip.top(s, "datetime.combine")
                        return
            if tz is not None:
                fs["tzinfo"] = tz
            if fs.get("microsecond") == Const(0):
                del fs["microsecond"]
            yield from dt_new("datetime")(ip, s, (), fs)
        return Py("datetime.combine", f)
    if q == "object" and name in ("__setattr__",):
        def f(ip, s, args, kw):
            c = s.get(args[0].addr)
            yield s.put(args[0].addr, c.set(args[1].v, args[2])), NONE
        return Py("object.__setattr__", f)
    if q == "object" and name == "__new__":
        return Py("object.__new__", lambda ip, s, a, k: one(*s.new(Inst(a[0].info))))
    if q == "int" and name == "from_bytes":
        return Py("int.from_bytes", int_from_bytes)
    return None


def int_from_bytes(ip, st, args, kw):
    a = list(args) + [kw.get("byteorder", Const("big"))][:2 - len(args)]
    v, order_ = a[0], a[1]
    its = v.items if isinstance(v, Tup) else [Const(x) for x in v.v] if isinstance(v, Const) and isinstance(v.v, bytes) else \
        st.get(v.addr).items if isinstance(v, Ref) and isinstance(st.get(v.addr), ListC) else None
    if its is None or not isinstance(order_, Const) or kw.get("signed", FALSE) != FALSE:
        yield ip.top(st, "int.from_bytes")
        return
    r = Bits((), 0)
    for x in its if order_.v == "big" else reversed(list(its)):
        b = to_bits(x)
        if b is None or b.ext != 0 or len(b.bits) > 8:
            yield ip.top(st, "int.from_bytes")
            return
        r = bits_op("BitOr", bits_op("LShift", r, Const(8)), b)
    k = r.const()
    yield st, Const(k) if k is not None else r


PLAIN = (int, float, str, bytes, bool, _dt.date, _dt.time, _dt.timedelta, _dt.tzinfo, _ipa.IPv4Address, _ipa.IPv4Network)


def plain_attr(ip, o, name):
    """Methods of builtin scalars that have no model of their own: exact on constants, unknown otherwise."""
    if isinstance(o, Bits) and name == "to_bytes":
        def f(ip, s, args, kw):
            n = args[0] if args else kw.get("length", Const(1))
            od = args[1] if len(args) > 1 else kw.get("byteorder", Const("big"))
            if not isinstance(n, Const) or not isinstance(od, Const) or o.ext != 0 or kw.get("signed", FALSE) != FALSE or len(o.bits) > 8 * n.v:
                yield ip.top(s, "int.to_bytes")
                return
            bs = [Bits([o.bit(8 * i + j) for j in range(8)], 0) for i in range(n.v)]
            yield s, Tup(bs if od.v == "little" else bs[::-1])
        return Py("int.to_bytes", f, key=(o, name))
    py = type(o.v) if isinstance(o, Const) else tuple if isinstance(o, Tup) else {"str": str, "bytes": bytes}.get(o.kind) if isinstance(o, Str) else int if isinstance(o, Bits) else None
    if py is None or not hasattr(py, name):
        return None
    if isinstance(o, Const) and not callable(getattr(o.v, name)):
        v = getattr(o.v, name)
        return Const(v) if v is None or isinstance(v, PLAIN) else Top("attribute " + name)

    def f(ip, s, args, kw):
        if isinstance(o, Const) and isinstance(o.v, _dt.timezone) and name in ("utcoffset", "tzname", "dst") and len(args) == 1 and isinstance(args[0], Term) and args[0].typ == "datetime":
            args = [NONE]  # a fixed offset does not depend on the date
        if isinstance(o, Const) and all(isinstance(x, Const) for x in list(args) + list(kw.values())):
            try:
                r = getattr(o.v, name)(*[x.v for x in args], **{k: x.v for k, x in kw.items()})
            except Exception as e:
                yield ip.raise_(s, type(e).__name__, str(e))
                return
            if r is None or isinstance(r, PLAIN):
                yield s, Const(r)
                return
            if isinstance(r, tuple) and all(isinstance(x, PLAIN) for x in r):
                yield s, Tup([Const(x) for x in r])
                return
        yield ip.top(s, f"{py.__name__}.{name}")
    return Py(f"{py.__name__}.{name}", f, key=(o, name))


def fromhex(ip, st, args, kw):
    v = args[0]
    if isinstance(v, Const):
        try:
            yield st, Const(bytes.fromhex(v.v))
        except ValueError:
            yield ip.raise_(st, "ValueError", "non-hexadecimal number")
        return
    if isinstance(v, Term) and v.op == "hexstr":
        yield st, v.args[0]
        return
    yield ip.top(st, "bytes.fromhex")


def install(ip):
    ip.bounds = set()
    ip.cur_loc = None
    ip.payload_of = lambda v: v
    C = ip.classes
    obj = ClassInfo("object", "object", [], ext=True)
    obj.mro = [obj]
    C["object"] = obj

    def mk(name, bases=("object",), qual=None):
        c = ClassInfo(name.split(".")[-1], qual or name, [C[b] for b in bases], ext=True)
        c.compute_mro()
        c.is_enum = any(x.is_enum for x in c.mro)
        C[qual or name] = c
        return c
    for n in ("type", "str", "int", "float", "bytes", "list", "tuple", "dict", "set", "frozenset", "NoneType", "function",
              "coroutine", "module", "ellipsis", "NotImplementedType", "range", "super", "iterator", "dict_view", "complex", "bytearray", "memoryview"):
        mk(n)
    mk("bool", ("int",))
    for n, c in vars(_b).items():
        if isinstance(c, type) and issubclass(c, BaseException) and n not in C:
            def add(k):
                if k.__name__ in C:
                    return
                for b in k.__bases__:
                    if b is not object:
                        add(b)
                mk(k.__name__, tuple(b.__name__ for b in k.__bases__))
            add(c)
    mk("abc.ABC")
    e = mk("enum.Enum")
    e.is_enum = True
    mk("enum.ReprEnum", ("enum.Enum",)).is_enum = True
    mk("enum.IntEnum", ("int", "enum.ReprEnum"))
    mk("enum.StrEnum", ("str", "enum.ReprEnum"))
    mk("enum.Flag", ("enum.Enum",))
    for n in ("asyncio.BaseTransport", "asyncio.BaseProtocol", "asyncio.Queue", "asyncio.Future", "asyncio.Event", "asyncio.Lock",
              "threading.Lock", "threading.RLock", "threading.Event", "asyncio.AbstractEventLoop", "asyncio.Timeout", "re.Pattern", "re.Match",
              "logging.Logger", "datetime.date", "datetime.time", "datetime.timedelta", "datetime.tzinfo",
              "ipaddress.IPv4Address", "ipaddress.IPv4Network", "hashlib.hash", "hmac.HMAC", "collections.deque",
              "functools.partial", "contextlib.suppress", "contextlib.nullcontext", "asyncio.Handle", "verif.Callback"):
        mk(n)
    mk("asyncio.Transport", ("asyncio.BaseTransport",))
    mk("asyncio.Protocol", ("asyncio.BaseProtocol",))
    mk("asyncio.Task", ("asyncio.Future",))
    mk("asyncio.LifoQueue", ("asyncio.Queue",))
    mk("datetime.datetime", ("datetime.date",))
    mk("datetime.timezone", ("datetime.tzinfo",))
    mk("asyncio.CancelledError", ("BaseException",))
    mk("asyncio.QueueEmpty", ("Exception",))
    mk("asyncio.QueueFull", ("Exception",))
    mk("asyncio.InvalidStateError", ("Exception",))
    mk("asyncio.IncompleteReadError", ("EOFError",))
    mk("ipaddress.AddressValueError", ("ValueError",))
    mk("ipaddress.NetmaskValueError", ("ValueError",))
    mk("binascii.Error", ("ValueError",))
    mk("re.error", ("Exception",))
    mk("enum.EnumType", ("type",))
    mk("enum.EnumMeta", ("type",))

    B = {}
    for n in C:
        if "." not in n and hasattr(_b, n):
            B[n] = Cls(C[n])
    B.update({n: Const(getattr(_b, n)) for n in ("NotImplemented", "Ellipsis", "__debug__")})
    for p in (b_len, b_isinstance, b_issubclass, b_range, b_getattr, b_hasattr, b_setattr, b_hash, b_repr, b_type, b_callable,
              b_iter, b_next, b_super):
        B[p.name] = p
    B["type"] = Cls(C["type"])
    B["range"] = b_range
    B["super"] = b_super
    B["all"] = Py("all", _bool_iter(True))
    B["any"] = Py("any", _bool_iter(False))
    B["enumerate"] = Py("enumerate", _enumerate)
    B["zip"] = Py("zip", lambda ip, s, a, k: _listy(_zip)(ip, s, a, k))
    B["map"] = Py("map", _map)
    B["filter"] = Py("filter", _filter)
    B["sum"] = Py("sum", _sum)
    B["min"] = Py("min", _minmax("min"))
    B["max"] = Py("max", _minmax("max"))
    B["reversed"] = Py("reversed", _reversed)
    B["sorted"] = Py("sorted", _sorted)
    B["abs"] = Py("abs", _abs)
    B["round"] = Py("round", _round)
    B["divmod"] = Py("divmod", _divmod)
    B["pow"] = Py("pow", lambda ip, s, a, k: ip.binop(s, "Pow", a[0], a[1]))
    for n in ("ord", "chr", "hex", "bin", "oct", "format", "ascii"):
        B[n] = _fold(n, getattr(_b, n))
    B["print"] = Py("print", lambda ip, s, a, k: one(s.event("print", *a, loc=ip.cur_loc), NONE))
    B["id"] = Py("id", lambda ip, s, a, k: one(s, Term("id", (a[0],), "int")))
    B["property"] = Py("property", lambda ip, s, a, k: one(s, Wrap("property", a[0] if a else k.get("fget"), a[1] if len(a) > 1 else k.get("fset"))))
    B["staticmethod"] = Py("staticmethod", lambda ip, s, a, k: one(s, Wrap("staticmethod", a[0])))
    B["classmethod"] = Py("classmethod", lambda ip, s, a, k: one(s, Wrap("classmethod", a[0])))
    B["vars"] = Py("vars", lambda ip, s, a, k: ip.getattr_(s, a[0], "__dict__"))
    B["aiter"] = Py("aiter", ident)
    ip.builtins = B

    CONSTRUCT.clear()
    for n, f in (("int", int_of), ("float", float_of), ("bool", bool_of), ("str", str_of), ("list", seq_ctor("list")),
                 ("tuple", seq_ctor("tuple")), ("set", seq_ctor("set")), ("frozenset", seq_ctor("frozenset")), ("dict", dict_ctor),
                 ("bytes", bytes_ctor)):
        CONSTRUCT[n] = (lambda g: lambda ip, st, args, kw, loc=None: g(ip, st, args, kw))(f)
    CONSTRUCT["type"] = lambda ip, st, args, kw, loc=None: b_type.fn(ip, st, args, kw)
    CONSTRUCT["object"] = lambda ip, st, args, kw, loc=None: one(*st.new(Inst(C["object"])))
    for q in ("asyncio.Queue", "asyncio.LifoQueue"):
        CONSTRUCT[q] = (lambda q: lambda ip, st, args, kw, loc=None: one(*ext_inst(ip, st, q, items=Tup(()), maxsize=args[0] if args else kw.get("maxsize", Const(0)))))(q)
    CONSTRUCT["asyncio.Future"] = lambda ip, st, args, kw, loc=None: one(*ext_inst(ip, st, "asyncio.Future", state=Const("pending"), value=NONE))
    for q in ("asyncio.Event", "threading.Event"):
        CONSTRUCT[q] = (lambda q: lambda ip, st, args, kw, loc=None: one(*ext_inst(ip, st, q, set=FALSE)))(q)
    for q in ("asyncio.Lock", "threading.Lock", "threading.RLock"):
        CONSTRUCT[q] = (lambda q: lambda ip, st, args, kw, loc=None: one(*ext_inst(ip, st, q, locked=FALSE)))(q)
    for k in ("datetime", "date", "time", "timedelta", "timezone"):
        CONSTRUCT["datetime." + k] = dt_new(k)
    CONSTRUCT["ipaddress.IPv4Address"] = ip_new("ipv4")
    CONSTRUCT["ipaddress.IPv4Network"] = ip_new("ipv4network")
    CONSTRUCT["contextlib.suppress"] = lambda ip, st, args, kw, loc=None: one(*ext_inst(ip, st, "contextlib.suppress", excs=Tup(args)))
    CONSTRUCT["contextlib.nullcontext"] = lambda ip, st, args, kw, loc=None: one(*ext_inst(ip, st, "contextlib.nullcontext", v=args[0] if args else NONE))
    CONSTRUCT["hmac.HMAC"] = lambda ip, st, args, kw, loc=None: mac_new(ip, st, args, kw)
    CONSTRUCT["functools.partial"] = lambda ip, st, args, kw, loc=None: partial_(ip, st, args, kw)

    def deque_new(ip, st, args, kw, loc=None):
        its = ip.items_of(st, args[0]) if args else []
        m = args[1] if len(args) > 1 else kw.get("maxlen", NONE)
        if isinstance(m, Const) and isinstance(m.v, int):
            its = list(its or [])[-m.v:] if m.v else []
        yield ext_inst(ip, st, "collections.deque", items=Tup(its or []), maxlen=m)
    CONSTRUCT["collections.deque"] = deque_new
    CONSTRUCT["bytearray"] = bytearray_new

    AWAIT.update({"asyncio.Future": fut_await,
                  "asyncio.Task": task_await})

    E = {}
    for n, c in C.items():
        if "." in n:
            E[n] = Cls(c)
    E.update({
        "abc.abstractmethod": Py("abstractmethod", abstractmethod),
        "abc.ABCMeta": Cls(C["type"]),
        "enum.auto": Py("auto", lambda ip, s, a, k: one(s, Ext("enum.auto()"))),
        "enum.unique": Py("unique", ident),
        "dataclasses.dataclass": Py("dataclass", dataclass_),
        "dataclasses.field": Py("field", dc_field),
        "contextlib.contextmanager": Py("contextmanager", ctxmgr),
        "contextlib.asynccontextmanager": Py("asynccontextmanager", ctxmgr),
        "functools.wraps": Py("wraps", lambda ip, s, a, k: one(s, Py("identity decorator", ident))),
        "functools.lru_cache": Py("lru_cache", deco_factory),
        "functools.cache": Py("cache", deco_factory),
        "functools.cached_property": Py("cached_property", cached_property),
        "typing.cast": Py("cast", lambda ip, s, a, k: one(s, a[1])),
        "typing.final": Py("final", ident), "typing.override": Py("override", ident), "typing.overload": Py("overload", ident),
        "typing.TYPE_CHECKING": FALSE,
        "copy.copy": Py("copy", copy_fn(True)), "copy.deepcopy": Py("deepcopy", copy_fn(False)),
        "logging.getLogger": Py("getLogger", lambda ip, s, a, k: one(*ext_inst(ip, s, "logging.Logger"))),
        "logging.DEBUG": Const(10), "logging.INFO": Const(20), "logging.WARNING": Const(30), "logging.ERROR": Const(40),
        "re.compile": Py("re.compile", lambda ip, s, a, k: one(*ext_inst(ip, s, "re.Pattern", pattern=a[0], flags=a[1] if len(a) > 1 else k.get("flags", Const(0))))),
        "re.ASCII": Const(int(_re.ASCII)), "re.A": Const(int(_re.ASCII)), "re.IGNORECASE": Const(int(_re.I)), "re.I": Const(int(_re.I)),
        "re.MULTILINE": Const(int(_re.M)), "re.M": Const(int(_re.M)), "re.DOTALL": Const(int(_re.S)), "re.S": Const(int(_re.S)),
        "re.VERBOSE": Const(int(_re.X)), "re.X": Const(int(_re.X)),
        "hashlib.new": Py("hashlib.new", lambda ip, s, a, k: hash_new(a[0].v).fn(ip, s, a[1:], k)),
        "hmac.new": Py("hmac.new", mac_new),
        "hmac.digest": Py("hmac.digest", lambda ip, s, a, k: one(s, Term("hmac", (alg_of(a[2]) or Top(), a[0], a[1]), "bytes"))),
        "hmac.compare_digest": Py("compare_digest", compare_digest),
        "secrets.compare_digest": Py("compare_digest", compare_digest),
        "secrets.token_bytes": Py("token_bytes", rand_bytes), "os.urandom": Py("urandom", rand_bytes),
        "secrets.token_hex": Py("token_hex", rand_hex),
        "asyncio.sleep": Py("asyncio.sleep", a_sleep),
        "asyncio.wait_for": Py("asyncio.wait_for", a_wait_for),
        "asyncio.create_task": Py("asyncio.create_task", a_create_task),
        "asyncio.ensure_future": Py("asyncio.ensure_future", a_create_task),
        "asyncio.gather": Py("asyncio.gather", a_gather), "asyncio.wait": Py("asyncio.wait", a_wait),
        "asyncio.ALL_COMPLETED": Const("ALL_COMPLETED"), "asyncio.FIRST_COMPLETED": Const("FIRST_COMPLETED"), "asyncio.FIRST_EXCEPTION": Const("FIRST_EXCEPTION"),
        "asyncio.timeout": Py("asyncio.timeout", lambda ip, s, a, k: one(*ext_inst(ip, s, "asyncio.Timeout", delay=a[0] if a else k.get("delay", NONE)))),
        "asyncio.get_event_loop": Py("get_event_loop", lambda ip, s, a, k: one(*ext_inst(ip, s, "asyncio.AbstractEventLoop"))),
        "asyncio.get_running_loop": Py("get_running_loop", lambda ip, s, a, k: one(*ext_inst(ip, s, "asyncio.AbstractEventLoop"))),
        "asyncio.new_event_loop": Py("new_event_loop", lambda ip, s, a, k: one(*ext_inst(ip, s, "asyncio.AbstractEventLoop"))),
        "asyncio.shield": Py("asyncio.shield", a_shield),
        "asyncio.iscoroutinefunction": Py("iscoroutinefunction", lambda ip, s, a, k: one(s, TRUE)),
        "asyncio.TimeoutError": Cls(C["TimeoutError"]),
        "asyncio.exceptions.TimeoutError": Cls(C["TimeoutError"]),
        "asyncio.exceptions.CancelledError": Cls(C["asyncio.CancelledError"]),
        "asyncio.queues.Queue": Cls(C["asyncio.Queue"]),
        "string.digits": Const("0123456789"), "string.hexdigits": Const("0123456789abcdefABCDEF"),
        "string.printable": Const(__import__("string").printable),
        "datetime.timezone.utc": class_method(ip, None, C["datetime.timezone"], "utc"),
        "datetime.UTC": class_method(ip, None, C["datetime.timezone"], "utc"),
        "functools.reduce": Py("reduce", reduce_),
        "itertools.chain": Py("chain", lambda ip, s, a, k: _listy(lambda ip, s, ls, k: one(*s.new(ListC([x for l in ls for x in l]))))(ip, s, a, k)),
        "itertools.islice": Py("islice", islice_),
        "itertools.batched": Py("batched", batched_),
        "collections.defaultdict": Py("defaultdict", lambda ip, s, a, k: one(*s.new(DictC((), a[0] if a and a[0] != NONE else None)))),
        "collections.OrderedDict": Cls(C["dict"]),
        "time.monotonic": Py("monotonic", lambda ip, s, a, k: one(s, atom("now.mono", "float"))),
        "time.time": Py("time", lambda ip, s, a, k: one(s, atom("now.time", "float"))),
        "builtins.bytes": Cls(C["bytes"]), "builtins.bytearray": Cls(C["bytearray"]), "builtins.str": Cls(C["str"]), "builtins.int": Cls(C["int"]),
        "operator.xor": Py("xor", lambda ip, s, a, k: ip.binop(s, "BitXor", *a)),
        "operator.or_": Py("or_", lambda ip, s, a, k: ip.binop(s, "BitOr", *a)),
        "operator.and_": Py("and_", lambda ip, s, a, k: ip.binop(s, "BitAnd", *a)),
        "operator.eq": Py("eq", lambda ip, s, a, k: ip.eq(s, *a)),
    })
    for alg in ("sha1", "sha256", "md5", "sha512", "sha224", "sha384"):
        E["hashlib." + alg] = hash_new(alg)
    for m in ("match", "fullmatch", "search"):
        E["re." + m] = (lambda m: Py("re." + m, lambda ip, s, a, k: re_match(ip, s, a[0], a[2] if len(a) > 2 else k.get("flags", Const(0)), m, ip.payload(s, a[1]))))(m)
    ip.ext = E
    # modules may be reached through attribute access on builtins
    E["builtins.len"] = b_len
    s = State()


def reduce_(ip, st, args, kw):
    for s, items in ip.to_items(st, args[1]):
        if isinstance(items, ABN):
            yield s, items
            continue
        if items is None:
            yield ip.top(s, "reduce of unknown")
            continue
        if len(args) > 2:
            acc = args[2]
        elif items:
            acc, items = items[0], items[1:]
        else:
            yield ip.raise_(s, "TypeError", "reduce() of empty iterable")
            continue
        outs = [(s, acc)]
        for x in items:
            outs = [o for s1, a in outs for o in ([(s1, a)] if isinstance(a, ABN) else ip.call(s1, args[0], (a, x), {}))]
        yield from outs


def islice_(ip, st, args, kw):
    for s, items in ip.to_items(st, args[0]):
        if isinstance(items, ABN):
            yield s, items
        elif items is None or not all(isinstance(a, Const) for a in args[1:]):
            yield ip.top(s, "islice")
        else:
            yield s.new(ListC(items[slice(*[a.v for a in args[1:]])]))


def batched_(ip, st, args, kw):
    for s, items in ip.to_items(st, args[0]):
        if isinstance(items, ABN):
            yield s, items
        elif items is None or not isinstance(args[1], Const):
            yield ip.top(s, "batched")
        else:
            n = args[1].v
            yield s.new(ListC([Tup(items[i:i + n]) for i in range(0, len(items), n)]))
