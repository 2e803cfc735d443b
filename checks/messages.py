"""P01-P06, P26: tags, messages, the frame grammar and its recogniser."""
from .common import *

D = L.DIGIT
DP = D.plus()
VALID = L.chars("0123456789#").star() - L.contains("##")          # what a tag may be
CLEAN = D.star() + (L.const("#") + DP).star()                       # tags that do not end with '#'
FRAME = L.regex_language(r"\*[0-9#*]*##", "fullmatch") & L.count_exactly("##", 1)

MSG = "pyown.messages:"
KIND_TYPE = {"ACK": "ACK", "NACK": "NACK", "NormalMessage": "NORMAL", "StatusRequest": "STATUS REQUEST",
             "DimensionRequest": "DIMENSION REQUEST", "DimensionWriting": "DIMENSION WRITING",
             "DimensionResponse": "DIMENSION RESPONSE", "GenericMessage": "GENERIC"}


def who_members(ck):
    """[(name, value string, Ref)] of the WHO registry."""
    who = ck.r("pyown.tags:Who")
    out = []
    for s, items in ck.ip.to_items(ck.st, who):
        for x in items:
            c = s.get(x.addr)
            out.append((c.attrs["_name_"].v, c.attrs["_value_"].v, x))
    if not out:
        raise AnalysisError("anchor vanished: members of pyown.tags:Who")
    return out


def mk_tag(ck, st, cls, v):
    for s, r in ck.call(st, ck.r("pyown.tags:" + cls) if cls != "Value" else ck.r("pyown.tags:Value"), v):
        yield s, r


def opaque_at(i, n):
    """Long lists are opaque at the beginning, in the middle and at the end only."""
    return n <= 8 or i in (0, 1, n // 2, n - 1)


def build(ck, st, kind, who, nvals=2, lang=CLEAN, prefix="", params=False):
    """A message of the kind built through the public constructors from opaque tags.

    Returns (state, message ref, expected frame, {attribute: expected string})."""
    st0 = st
    f = ck.r(MSG + kind)
    if kind in ("ACK", "NACK"):
        s, m = ck.call1(st, f)
        return s, m, Const("*#*1##" if kind == "ACK" else "*#*0##"), {}
    whov, whor = who

    def tag(s, cls, name, lg, const=None):
        s, a = ck.satom(s, prefix + name, lg) if const is None else (s, Const(const))
        outs = [o for o in mk_tag(ck, s, cls, a) if not isinstance(o[1], ABN)]
        if len(outs) != 1:
            raise Exception(f"{cls} constructor has {len(outs)} outcomes on valid input")
        return outs[0][0], outs[0][1], a
    if kind == "GenericMessage":
        at = []
        for i in range(nvals):
            if opaque_at(i, nvals):
                st, a = ck.satom(st, f"{prefix}t{i}", lang)
            else:
                a = Const(str(i + 3))
            at.append(a)
        st, lst = st.new(ListC(at))
        s, m = ck.call1(st, f, lst)
        parts = [Const("*")]
        for i, a in enumerate(at):
            if i:
                parts.append(Const("*"))
            parts.append(a)
        return s, m, cat(parts + [Const("##")]), {"list": lst, "atoms": at}
    w = Const(whov)
    dimlang = DP + (L.const("#") + DP).star() if lang is CLEAN else lang
    if kind == "NormalMessage":
        st, a, av = tag(st, "What", "what", lang)
        st, b, bv = tag(st, "Where", "where", lang)
        s, m = ck.call1(st, f, Tup((whor, a, b)))
        return s, m, cat([Const("*"), w, Const("*"), av, Const("*"), bv, Const("##")]), {"who": w, "what": av, "where": bv}
    st, b, bv = tag(st, "Where", "where", lang)
    if kind == "StatusRequest":
        s, m = ck.call1(st, f, Tup((whor, b)))
        return s, m, cat([Const("*#"), w, Const("*"), bv, Const("##")]), {"who": w, "where": bv}
    st, d, dv = tag(st, "Dimension", "dim", dimlang)
    if kind == "DimensionRequest":
        s, m = ck.call1(st, f, Tup((whor, b, d)))
        return s, m, cat([Const("*#"), w, Const("*"), bv, Const("*"), dv, Const("##")]), {"who": w, "where": bv, "dimension": dv}
    vals, vv = [], []
    for i in range(nvals):
        st, x, xv = tag(st, "Value", f"v{i}", lang, None if opaque_at(i, nvals) else str(i + 3))
        vals.append(x)
        vv.append(xv)
    s, m = ck.call1(st, f, Tup((whor, b, d) + tuple(vals)))
    parts = [Const("*#"), w, Const("*"), bv, Const("*#" if kind == "DimensionWriting" else "*"), dv]
    for x in vv:
        parts += [Const("*"), x]
    return s, m, cat(parts + [Const("##")]), {"who": w, "where": bv, "dimension": dv, "values": vv}


def same(ck, st, got, want, key, where, what):
    """Obligation got == want for every input of the path."""
    if isinstance(got, ABN):
        ck.violation(key, where, f"{what}: {ck.ip.describe_abn(st, got)}")
        return False
    if isinstance(got, Top):
        ck.undecided(key, f"{what}: not modelled")
        return False
    w, eq = ck.differ(st, got, want)
    if eq:
        return True
    if w is None:
        if isinstance(got, Const) and isinstance(want, Const):
            ck.violation(key, where, f"{what}: is {got.v!r}, must be {want.v!r}")
            return False
        ck.undecided(key, f"{what}: cannot compare {ck.show(st, got)} with {ck.show(st, want)}")
        return False
    ck.violation(key, where, f"{what}: is {S.ev(got, w)!r}, must be {S.ev(want, w)!r} when {ck.asg_text(w)}", ck.trace_text(st))
    return False


def to_bytes(v):
    if isinstance(v, Const):
        return Const(v.v.encode())
    return cat(v.parts if isinstance(v, Str) else [v], "bytes")


@prop("P01", "Every message class is instantiated through its public constructor with opaque tags (all strings of the "
             "tag grammar, as regular languages); the abstract string its serialisers produce is compared with the "
             "documented layout of the kind and its language is included in the language of well-formed frames.")
def p01(ck):
    ck.rules.append("serialised frame == documented layout of the kind; L(frame) is a subset of *[0-9#*]*## with a single ##; bytes == ascii(frame)")
    whos = who_members(ck)
    n = 3 if not ck.thorough else 8
    for kind in KIND_TYPE:
        f = ck.r(MSG + kind)
        sizes = [*range(1, n + 1), 12, 24] if kind in ("DimensionWriting", "DimensionResponse", "GenericMessage") else [1]
        for wname, wval, wref in (whos if kind not in ("ACK", "NACK", "GenericMessage") else whos[:1]):
            for k in (sizes if wname == whos[1][0] or len(whos) == 1 or kind == "GenericMessage" else [1]):
                with ck.obligation(f"{kind} who={wval} values={k}"):
                    st, m, want, attrs = build(ck, ck.st, kind, (wval, wref), k)
                    lg = S.lang_of(st, want)
                    if not lg <= FRAME:
                        ck.undecided(kind, "expected frame outside the grammar")
                    for acc in ("message", "__str__", "bytes"):
                        if acc == "__str__":
                            outs = ck.ip.to_str(st, m)
                        else:
                            outs = ck.get(st, m, acc)
                        cnt = 0
                        for s, v in outs:
                            cnt += 1
                            if not ck.clean(s, acc):
                                continue
                            ck.count("serialisations")
                            wanted = to_bytes(want) if acc == "bytes" else want
                            same(ck, s, v, wanted, f"{kind}.{acc}", ck.where(f), f"{kind} {acc}")
                    ck.sample(f"{kind} who={wval}: {want!r}")
    # the layout holds for every valid tag, also one with empty parameters
    for kind in KIND_TYPE:
        if kind in ("ACK", "NACK"):
            continue
        f = ck.r(MSG + kind)
        with ck.obligation(f"{kind}: tags with empty parameters"):
            st, m, want, attrs = build(ck, ck.st, kind, whos[1][1:], 2, lang=VALID)
            for acc in ("message", "__str__", "bytes"):
                for s, v in (ck.ip.to_str(st, m) if acc == "__str__" else ck.get(st, m, acc)):
                    if ck.clean(s, acc):
                        ck.count("serialisations")
                        same(ck, s, v, to_bytes(want) if acc == "bytes" else want, f"{kind}.{acc}", ck.where(f), f"{kind} {acc}")
    # the session and authentication frames of the client
    with ck.obligation("session frames"):
        for name, val in (("CommandSession", "9"), ("EventSession", "1"), ("OldCommandSession", "0")):
            mem = ck.r(f"pyown.client:SessionType.{name}")
            for s, m in ck.mcall(ck.st, mem, "to_message"):
                if ck.clean(s, "to_message"):
                    if isinstance(m, ABN):
                        ck.violation(f"SessionType.{name}", "SessionType.to_message", ck.ip.describe_abn(s, m))
                        continue
                    for s2, v in ck.get(s, m, "message"):
                        same(ck, s2, v, Const(f"*99*{val}##"), f"SessionType.{name}",
                             ck.where(ck.r("pyown.client:SessionType.to_message")), f"session frame of {name}")


TAGS = ("Tag", "TagWithParameters", "Value", "What", "Where", "Dimension")


@prop("P02", "The tag constructors are analysed on an unconstrained string and an unconstrained integer: the union of the "
             "languages of the accepting paths must be exactly the tag grammar and every other path must end in InvalidTag.")
def p02(ck):
    ck.rules.append("accepting paths: L = [0-9#]* without '##'; rejecting paths raise InvalidTag; accepted text is kept verbatim")
    for name in TAGS:
        mod = "pyown.tags.base:" if name in ("Tag", "TagWithParameters") else "pyown.tags:"
        f = ck.r(mod + name)
        where = ck.where(f)
        with ck.obligation(f"{name}(str)"):
            st, a = ck.satom(ck.st, "s", L.ANY)
            seen = L.EMPTY
            for s, r in ck.call(st, f, a):
                lg = S.lang_of(s, a)
                if lg.is_empty():
                    continue
                seen = seen | lg
                if not ck.clean(s, f"{name}({lg.example()!r})"):
                    continue
                if isinstance(r, Exc):
                    if not ck.exc_is(s, r, "pyown.exceptions:InvalidTag"):
                        w = ck.witness(s, [a])
                        if w:
                            ck.violation(f"{name}:{ck.exc(s, r)}", where, f"{name}({w[a]!r}) raises {ck.exc(s, r)}, not InvalidTag")
                    else:
                        w = ck.witness(s, [a], lambda g: VALID.accepts(g[a]), seeds={a: (lg & VALID).words(4)})
                        if w:
                            ck.violation(f"{name}:reject", where, f"{name}({w[a]!r}) is rejected although it follows the tag grammar")
                    continue
                bad = (lg - VALID)
                if not bad.is_empty():
                    w = ck.witness(s, [a], lambda g: not VALID.accepts(g[a]), seeds={a: bad.words(4)})
                    if w:
                        ck.violation(f"{name}:accept", where, f"{name}({w[a]!r}) is accepted although it does not follow the tag grammar")
                    else:
                        ck.undecided(f"{name}(str)", "accepting path outside the grammar could not be confirmed")
                for s2, v in ck.get(s, r, "string"):
                    same(ck, s2, v, a, f"{name}:string", where, f"{name}(s).string")
                for s2, v in ck.ip.to_str(s, r):
                    same(ck, s2, v, a, f"{name}:str", where, f"str({name}(s))")
            if not (L.ANY - seen).is_empty():
                ck.undecided(f"{name}(str)", f"inputs not covered, e.g. {(L.ANY - seen).example()!r}")
        with ck.obligation(f"{name}(int)"):
            n = atom("n", "int")
            for s0, pos in S.cmp_const(ck.st, n, ">=", 0):
                for s, r in ck.call(s0, f, n):
                    if not ck.clean(s, f"{name}(int)"):
                        continue
                    if isinstance(r, Exc):
                        if not ck.exc_is(s, r, "pyown.exceptions:InvalidTag"):
                            w = ck.witness(s, [n])
                            if w:
                                ck.violation(f"{name}:int:{ck.exc(s, r)}", where, f"{name}({w[n]!r}) raises {ck.exc(s, r)}, not InvalidTag")
                        elif pos:
                            w = ck.witness(s, [n], lambda g: g[n] >= 0)
                            if w:
                                ck.violation(f"{name}:int:reject", where, f"{name}({w[n]!r}) is rejected")
                        continue
                    if not pos:
                        w = ck.witness(s, [n], lambda g: g[n] < 0)
                        if w:
                            ck.violation(f"{name}:int:accept", where, f"{name}({w[n]!r}) is accepted although '-' is not allowed in a tag")
                        continue
                    for s2, v in ck.get(s, r, "string"):
                        same(ck, s2, v, Term("str", (n,), "str"), f"{name}:int:string", where, f"{name}(n).string")
    def adding(name, where, s, r, parts):
        """with_parameter on the tag r, whose text is parts: a text, an integer."""
        s4, b = ck.satom(s, "q", D.star())
        m = atom("m", "int")
        adds = [(s4, b, b)] + [(s8, m, Term("str", (m,), "str")) for s8, pos in S.cmp_const(s, m, ">=", 0) if pos]
        adds += [(s, Const(0), Const("0"))]
        for s4, arg, text in adds:
            for s5, r5 in ck.mcall(s4, r, "with_parameter", arg):
                if not ck.clean(s5, "with_parameter"):
                    continue
                if isinstance(r5, ABN):
                    ck.violation(f"{name}.with_parameter", where, f"with_parameter({arg!r}): {ck.ip.describe_abn(s5, r5)}")
                    continue
                for s6, v in ck.get(s5, r5, "string"):
                    same(ck, s6, v, cat(parts + [Const("#"), text]), f"{name}.with_parameter", where, f"{name}.with_parameter({arg!r})")

    # structure: value, parameters
    for name in ("Tag", "Value", "TagWithParameters"):
        f = ck.r("pyown.tags.base:" + name)
        with ck.obligation(f"{name}.with_parameter"):
            st, a = ck.satom(ck.st, "v", D.star())
            for s, r in ck.call(st, f, a):
                if isinstance(r, ABN):
                    if ck.clean(s, name):
                        ck.violation(f"{name}:params:raise", ck.where(f), f"{name}(digits) raises {ck.ip.describe_abn(s, r)}")
                    continue
                for s2, v in ck.get(s, r, "tag"):
                    if ck.clean(s2, "tag"):
                        same(ck, s2, v, a, f"{name}.tag", ck.where(f), f"value of {name}")
                adding(name, ck.where(f), s, r, [a])
    for name in ("What", "Where", "Dimension"):
        f = ck.r("pyown.tags:" + name)
        where = ck.where(f)
        for k in (*range(0, 7), 12, 24) if not ck.thorough else (*range(0, 17), 24, 32, 48, 64):
            with ck.obligation(f"{name} with {k} parameters"):
                st = ck.st
                ats = []
                for i in range(k + 1):
                    st, a = ck.satom(st, f"p{i}", D.star() if i in (0, k) else DP)      # the last may be empty
                    ats.append(a)
                parts = []
                for i, a in enumerate(ats):
                    if i:
                        parts.append(Const("#"))
                    parts.append(a)
                for s, r in ck.call(st, f, cat(parts)):
                    if isinstance(r, ABN):
                        if ck.clean(s, name):
                            ck.violation(f"{name}:params:raise", where, f"{name}({cat(parts)!r}) raises {ck.ip.describe_abn(s, r)}")
                        continue
                    for s2, v in ck.get(s, r, "tag"):
                        if ck.clean(s2, "tag"):
                            same(ck, s2, v, ats[0], f"{name}.tag", where, f"value of {name} with {k} parameters")
                    for s2, v in ck.get(s, r, "parameters"):
                        if not ck.clean(s2, "parameters"):
                            continue
                        for s3, items in ck.ip.to_items(s2, v) if not isinstance(v, ABN) else [(s2, v)]:
                            if isinstance(items, ABN) or items is None:
                                ck.undecided(name, "parameters")
                                continue
                            if len(items) != k:
                                ck.violation(f"{name}.parameters", where, f"{name} with {k} parameters reports {len(items)} of them")
                                continue
                            for x, y in zip(items, ats[1:]):
                                same(ck, s3, x, y, f"{name}.parameters", where, f"parameters of {name}")
                    # adding a parameter: a text, an integer
                    if k:               # behind an empty last parameter nothing can be added: the tag would contain the terminator
                        s = s.with_fact(("lang", ats[k]), S.lang_of(s, ats[k]) & DP)
                    adding(name, where, s, r, parts)
        with ck.obligation(f"{name}: a parameter behind an empty one"):
            for text in ("12#", "#", "1#2#", "12#34#5#"):
                for s, r in ck.call(ck.st, f, Const(text)):
                    if isinstance(r, ABN):
                        continue
                    for s2, r2 in ck.mcall(s, r, "with_parameter", Const("7")):
                        if not ck.clean(s2, "with_parameter") or isinstance(r2, Exc) and ck.exc_is(s2, r2, "pyown.exceptions:InvalidTag"):
                            continue
                        for s3, v in ck.get(s2, r2, "string") if not isinstance(r2, ABN) else [(s2, r2)]:
                            ck.violation(f"{name}.with_parameter-empty", where, f"{name}({text!r}).with_parameter('7') gives {ck.show(s3, v)}: the parameter cannot be added "
                                         "without making a terminator, which is InvalidTag", ck.trace_text(s2))


def categories(ck):
    """(name, language, class) : the documented shapes."""
    K = L.EMPTY
    for _, v, _ in who_members(ck):
        K = K | L.const(v)
    st, h, e = L.const("*"), L.const("#"), L.const("##")
    TAG, DIM = CLEAN, DP + (h + DP).star()
    U = DP - K
    U2 = (DP + (h + DP.opt()).plus()) & CLEAN
    vals = (st + TAG).plus()
    shapes = {
        "NormalMessage": lambda w: st + w + st + TAG + st + TAG + e,
        "StatusRequest": lambda w: st + h + w + st + TAG + e,
        "DimensionRequest": lambda w: st + h + w + st + TAG + st + DIM + e,
        "DimensionWriting": lambda w: st + h + w + st + TAG + st + h + DIM + vals + e,
        "DimensionResponse": lambda w: st + h + w + st + TAG + st + DIM + vals + e,
    }
    out = [("ACK frame", L.const("*#*1##"), "ACK"), ("NACK frame", L.const("*#*0##"), "NACK")]
    known = L.const("*#*1##") | L.const("*#*0##")
    for k, f in shapes.items():
        out.append((f"{k} with a known WHO", f(K), k))
        out.append((f"{k} shape with an unknown WHO", f(U), "GenericMessage"))
        out.append((f"{k} shape, WHO with a parameter", f(U2), "GenericMessage"))
        known = known | f(K) | f(U)
    out.append(("single tag frame", st + CLEAN + e, "GenericMessage"))
    out.append(("two tags without a leading #", st + DP + st + CLEAN + e, "GenericMessage"))
    out.append(("more than three tags without a leading #", st + DP + st + CLEAN + st + CLEAN + vals + e, "GenericMessage"))
    out.append(("four tags or more, third neither value nor #value", st + h + K + st + CLEAN + st + L.EPS + vals + e, "GenericMessage"))
    return out


def fields_of(cls, text):
    """The fields a frame of the kind has according to its syntax: {attribute: text or list of texts}."""
    t = text.strip()[1:-2].split("*")
    if cls == "NormalMessage":
        return {"who": t[0], "what": t[1], "where": t[2]}
    if cls == "GenericMessage":
        return {"tags": t}
    if cls in ("ACK", "NACK"):
        return {}
    d = {"who": t[0][1:], "where": t[1]}
    if cls != "StatusRequest":
        d["dimension"] = t[2][1:] if cls == "DimensionWriting" else t[2]
    if cls in ("DimensionWriting", "DimensionResponse"):
        d["values"] = t[3:]
    return d


FIELDS = {"NormalMessage": ("who", "what", "where"), "GenericMessage": ("tags",), "StatusRequest": ("who", "where"), "DimensionRequest": ("who", "where", "dimension"),
          "DimensionWriting": ("who", "where", "dimension", "values"), "DimensionResponse": ("who", "where", "dimension", "values")}


def texts_of(ck, st, v):
    """[(state, abstract text or list of abstract texts)] of a tag or a collection of tags."""
    cell = st.get(v.addr) if isinstance(v, Ref) else None
    if isinstance(v, Tup) or isinstance(cell, ListC):
        out = []
        for s, items in ck.ip.to_items(st, v):
            if isinstance(items, ABN) or items is None:
                return [(s, None)]
            acc = [(s, [])]
            for x in items:
                acc = [(s2, l + [t]) for s1, l in acc for s2, t in ck.ip.to_str(s1, x)]
            out += acc
        return out
    return list(ck.ip.to_str(st, v))


def check_fields(ck, s, r, cls, frame, where, label):
    """The fields of the parse result are the fields of the frame, for every frame of the path."""
    for attr in FIELDS.get(cls, ()):
        for s2, v in ck.get(s, r, attr):
            if not ck.clean(s2, label):
                continue
            if isinstance(v, ABN):
                ck.violation(f"{cls}.{attr}", where, f"{attr} of a parsed {cls}: {ck.ip.describe_abn(s2, v)}")
                continue
            for s3, t in texts_of(ck, s2, v):
                if t is None or isinstance(t, (ABN, Top)) or isinstance(t, list) and any(isinstance(x, (ABN, Top)) for x in t):
                    ck.undecided(label, f"{attr} not modelled")
                    continue
                if not ck.clean(s3, label):
                    continue

                def bad(g):
                    got = [S.ev(x, g) for x in t] if isinstance(t, list) else S.ev(t, g)
                    return got != fields_of(cls, S.ev(frame, g))[attr]

                def good(g):
                    return not bad(g)
                w = ck.witness(s3, atoms_of(frame), bad, n=12)
                if w:
                    got = [S.ev(x, w) for x in t] if isinstance(t, list) else S.ev(t, w)
                    ck.violation(f"{cls}.{attr}", where, f"{S.ev(frame, w)!r} is parsed with {attr} {got!r}, must be {fields_of(cls, S.ev(frame, w))[attr]!r}", ck.trace_text(s3))
                elif not ck.witness(s3, atoms_of(frame), good, n=12):
                    ck.undecided(label, f"cannot evaluate {attr} = {t!r}"[:200])
                else:
                    ck.count("fields")


def long_frames(ck, st, sizes=(12, 20)):
    """(label, state, abstract frame, class): frames with many values, every field an opaque text of its grammar."""
    known = L.EMPTY
    for _, v, _ in who_members(ck):
        known = known | L.const(v)
    for n in sizes:
        for label, who, heads, cls in (("response", "1", ["*"], "DimensionResponse"), ("writing", "13", ["*#"], "DimensionWriting"),
                                       ("unknown WHO", None, ["*"], "GenericMessage")):
            s = st
            parts = [Const("*#")]
            if who is None:
                s, a = ck.satom(s, "who", DP - known)
                parts.append(a)
            else:
                parts.append(Const(who))
            s, b = ck.satom(s, "where", CLEAN)
            s, d = ck.satom(s, "dim", DP)
            parts += [Const("*"), b, Const(heads[0]), d]
            for i in range(n):
                s, x = ck.satom(s, f"v{i}", CLEAN) if opaque_at(i, n) else (s, Const(str(i + 3)))
                parts += [Const("*"), x]
            yield f"{label} with {n} values", s, cat(parts + [Const("##")]), cls


def bounded(ck, n):
    ck.ip.max_fields = n
    ck.assumptions.append(f"messages with at most {n} tags; other lengths are not enumerated")
    return L.regex_language(r"[^*]*(\*[^*]*){0,%d}" % n, "fullmatch")


@prop("P03", "The parser is analysed once per documented frame shape on an opaque string constrained to exactly the regular "
             "language of the shape; every path of every subject string must return an instance of the documented class.")
def p03(ck):
    n = 6 if not ck.thorough else 9
    lim = bounded(ck, n)
    ck.rules.append("for every frame of the shape's language: class of the parse result == documented class, type attribute == documented type")
    f = ck.r("pyown.messages:parse_message")
    where = ck.where(f)
    for name, lg, cls in categories(ck):
        want = ck.r(MSG + cls)
        with ck.obligation(f"{name} -> {cls}"):
            st, a = ck.satom(ck.st, "frame", lg & lim)
            seen = L.EMPTY
            for s, r in ck.call(st, f, a):
                l2 = S.lang_of(s, a)
                if l2.is_empty():
                    continue
                seen = seen | l2
                if not ck.clean(s, name):
                    continue
                ck.count("parse paths")
                if isinstance(r, ABN):
                    w = ck.witness(s, [a])
                    if w:
                        ck.violation(f"{name}:{ck.exc(s, r) if isinstance(r, Exc) else 'abn'}", where,
                                     f"parse of {w[a]!r} ({name}) raises {ck.ip.describe_abn(s, r)}")
                    continue
                c = s.get(r.addr).cls
                if c is not want.info:
                    w = ck.witness(s, [a])
                    if w:
                        ck.violation(f"{name}:{c.name}", where, f"parse of {w[a]!r} ({name}) returns {c.name}, must be {cls}")
                    else:
                        ck.undecided(name, "path not confirmed")
                    continue
                for s2, t in ck.get(s, r, "type"):
                    if not isinstance(t, Ref) or s2.get(t.addr).attrs.get("_value_") != Const(KIND_TYPE[cls]):
                        ck.violation(f"{name}:type", ck.where(want), f"type of a {cls} is {ck.show(s2, t)}, must be {KIND_TYPE[cls]}")
                check_fields(ck, s, r, cls, a, where, name)
            hole = (lg & lim) - seen
            if not hole.is_empty():
                ck.undecided(name, f"frames not covered, e.g. {hole.example()!r}")
            ck.sample(f"{name}: e.g. {lg.example()!r} -> {cls}")


    ck.ip.max_fields = 40
    for label, st, frame, cls in long_frames(ck, ck.st):
        want = ck.r(MSG + cls)
        with ck.obligation(label):
            for s, r in ck.call(st, f, frame):
                if not ck.clean(s, label):
                    continue
                if isinstance(r, ABN) or s.get(r.addr).cls is not want.info:
                    w = ck.witness(s, atoms_of(frame))
                    if w:
                        got = ck.ip.describe_abn(s, r) if isinstance(r, ABN) else s.get(r.addr).cls.name
                        ck.violation(f"long:{cls}", where, f"parse of {S.ev(frame, w)!r} gives {got}, must be {cls}")
                    continue
                check_fields(ck, s, r, cls, frame, where, label)


@prop("P04", "Each message kind is serialised from opaque tags and the resulting abstract string is fed to the parser: on "
             "every path the result must be the same kind with term-identical tags and serialise to the same string; "
             "the reverse direction is checked on the parser's paths over the documented shapes.")
def p04(ck):
    ck.rules.append("parse(serialise(m)) has the kind, WHO, WHERE, WHAT, DIMENSION and VALUES of m, compares equal to m, and serialises to the same frame")
    f = ck.r("pyown.messages:parse_message")
    where = ck.where(f)
    whos = who_members(ck)
    nv = 3 if not ck.thorough else 7
    ck.ip.max_fields = 40
    own_parsers(ck)
    for kind in KIND_TYPE:
        sizes = [*range(1, nv + 1), 12, 20] if kind in ("DimensionWriting", "DimensionResponse") else [1]
        if kind == "GenericMessage":
            continue
        cls = ck.r(MSG + kind)
        for i, (wname, wval, wref) in enumerate(whos if kind not in ("ACK", "NACK") else whos[:1]):
            for k in (sizes if i == 1 else [1]):
                with ck.obligation(f"{kind} who={wval} values={k}"):
                    st, m, frame, attrs = build(ck, ck.st, kind, (wval, wref), k)
                    for s, r in ck.call(st, f, frame):
                        if not ck.clean(s, kind):
                            continue
                        ck.count("round trips")
                        if isinstance(r, ABN):
                            w = ck.witness(s, atoms_of(frame))
                            if w:
                                ck.violation(f"{kind}:raise", where, f"{S.ev(frame, w)!r} does not parse: {ck.ip.describe_abn(s, r)}")
                            continue
                        c = s.get(r.addr).cls
                        if c is not cls.info:
                            w = ck.witness(s, atoms_of(frame))
                            if w:
                                ck.violation(f"{kind}:class", where, f"{S.ev(frame, w)!r} (a {kind}) parses as {c.name}")
                            continue
                        for at, want in attrs.items():
                            for s2, v in ck.get(s, r, at):
                                if at == "values":
                                    for s3, items in ck.ip.to_items(s2, v):
                                        if len(items) != len(want):
                                            ck.violation(f"{kind}:values", where, f"{len(want)} values serialised, {len(items)} parsed")
                                            continue
                                        for x, y in zip(items, want):
                                            for s4, t in ck.ip.to_str(s3, x):
                                                same(ck, s4, t, y, f"{kind}:values", where, f"value of a parsed {kind}")
                                else:
                                    for s3, t in ck.ip.to_str(s2, v):
                                        same(ck, s3, t, want, f"{kind}:{at}", where, f"{at} of a parsed {kind}")
                        for s2, v in ck.get(s, r, "message"):
                            same(ck, s2, v, frame, f"{kind}:frame", where, f"frame of a parsed {kind}")
                        for s2, v in ck.ip.eq(s, m, r):
                            if v == FALSE and not s2.taint:
                                w = ck.witness(s2, atoms_of(frame))
                                if w:
                                    ck.violation(f"{kind}:eq", where, f"parse of {S.ev(frame, w)!r} differs from the {kind} that was serialised")
    # reverse direction: whatever is accepted serialises back to itself
    lim = bounded(ck, 5 if not ck.thorough else 8)
    for name, lg, cls in categories(ck):
        with ck.obligation(f"reverse: {name}"):
            st, a = ck.satom(ck.st, "frame", lg & lim)
            for s, r in ck.call(st, f, a):
                if isinstance(r, ABN) or S.lang_of(s, a).is_empty() or not ck.clean(s, name):
                    continue
                for s2, v in ck.get(s, r, "message"):
                    if isinstance(v, ABN):
                        ck.violation(f"reverse:{name}", where, ck.ip.describe_abn(s2, v))
                        continue
                    w = ck.witness(s2, [a], lambda g: S.ev(v, g) != g[a], n=12)
                    if w:
                        ck.violation(f"reverse:{name}", where, f"{w[a]!r} is parsed as a message that serialises to {S.ev(v, w)!r}")
                    elif not ck.witness(s2, [a], lambda g: S.ev(v, g) == g[a], n=12):
                        ck.undecided(name, f"cannot evaluate {v!r}")
                    else:
                        ck.count("reverse paths")


def own_parsers(ck):
    """The parser of ACK (NACK) accepts the fields of an ACK (NACK) and no others."""
    st, x = ck.satom(ck.st, "x", VALID)
    st, y = ck.satom(st, "y", VALID)
    for kind, digit in (("ACK", "1"), ("NACK", "0")):
        cls = ck.r(MSG + kind)
        meth = ck.method(cls, "parse")
        where = ck.where(meth)
        other = "0" if digit == "1" else "1"
        cases = [("any two fields", st, (x, y))]
        for vals in (("#", digit), ("#", other), ("1", digit), ("", digit), ("#", ""), ("#", digit + digit), ("#" + digit,), ("#",), (), ("#", digit, "1"), ("1", "1", "12"), ("#1", "12")):
            cases.append((repr(list(vals)), st, tuple(map(Const, vals))))
        for label, s0, vals in cases:
            with ck.obligation(f"{kind}.parse, {label}"):
                s0, lst = s0.new(ListC(vals))
                for s, r in ck.mcall(s0, cls, "parse", lst):
                    if not ck.clean(s, label):
                        continue
                    ck.count("own parsers")
                    if isinstance(r, ABN):
                        if not ck.exc_is(s, r, "pyown.exceptions:ParseError") and len(vals) >= 2:
                            ck.violation(f"{kind}:own-raise", where, f"{kind}.parse({label}): {ck.ip.describe_abn(s, r)}", ck.trace_text(s))
                            continue
                        w = ck.witness(s, [x, y], lambda g: [S.ev(v, g) for v in vals] == ["#", digit])
                        if w:
                            ck.violation(f"{kind}:own-rejects", where, f"{kind}.parse(['#', '{digit}']): {ck.ip.describe_abn(s, r)}", ck.trace_text(s))
                    else:
                        w = ck.witness(s, [x, y], lambda g: [S.ev(v, g) for v in vals] != ["#", digit], n=6)
                        if w:
                            ck.violation(f"{kind}:own-accepts", where, f"{kind}.parse accepts the fields {[S.ev(v, w) for v in vals]}", ck.trace_text(s))


@prop("P05", "The parser is analysed on a completely unconstrained string (every Unicode string up to the bound on the number "
             "of tags): each path that raises must raise a member of the documented parse-error family, and each path that "
             "returns must have a subject language inside the frame grammar.")
def p05(ck):
    ck.ip.max_fields = 6 if not ck.thorough else 10
    ck.assumptions.append(f"at most {ck.ip.max_fields} tags per message")
    ck.rules.append("raised class is a subclass of ParseError; accepted strings are in *[0-9#*]*## (surrounding white space ignored) with one ##")
    f = ck.r("pyown.messages:parse_message")
    where = ck.where(f)
    ws = L.regex_language(r"\s*", "fullmatch")
    ok = ws + FRAME + ws
    for name, lg in (("any string", L.ANY),):
        with ck.obligation(name):
            st, a = ck.satom(ck.st, "message", lg)
            seen = L.EMPTY
            for s, r in ck.call(st, f, a):
                l2 = S.lang_of(s, a)
                if l2.is_empty():
                    continue
                seen = seen | l2
                if not ck.clean(s, f"parse of {l2.example()!r}"):
                    continue
                if isinstance(r, Exc):
                    ck.count("rejecting paths")
                    if not ck.exc_is(s, r, "pyown.exceptions:ParseError"):
                        w = ck.witness(s, [a])
                        if w:
                            ck.violation(f"raises:{ck.exc(s, r)}", where, f"parse of {w[a]!r} raises {ck.ip.describe_abn(s, r)}, which is not a ParseError")
                        else:
                            ck.undecided(name, f"{ck.exc(s, r)} not confirmed")
                elif isinstance(r, ABN):
                    ck.undecided(name, repr(r))
                else:
                    ck.count("accepting paths")
                    bad = l2 - ok
                    if not bad.is_empty():
                        w = ck.witness(s, [a], lambda g: not ok.accepts(g[a]), seeds={a: bad.words(4)})
                        if w:
                            ck.violation("accepts", where, f"{w[a]!r} is accepted as a message although it is not a frame")
                        else:
                            ck.undecided(name, "acceptance outside the grammar not confirmed")
            lim = L.regex_language(r"[^*]*(\*[^*]*){0,%d}" % (ck.ip.max_fields - 1), "fullmatch")
            hole = lim - seen
            if not hole.is_empty():
                ck.undecided(name, f"strings not covered, e.g. {hole.example()!r}")
    fields = ck.ip.max_fields
    ck.ip.max_fields = 60
    for n in (10, 16):
        for lname, lg in (("digits", D.star()), ("tags", VALID)):
            label = f"frames of {n} fields of {lname}"
            with ck.obligation(label):
                st = ck.st
                parts = []
                for i in range(n):
                    st, x = ck.satom(st, f"f{i}", lg) if opaque_at(i, n) else (st, Const(str(i + 3)))
                    parts += [Const("*"), x]
                frame = cat(parts + [Const("##")])
                for s, r in ck.call(st, f, frame):
                    if isinstance(r, Exc) and ck.clean(s, label) and not ck.exc_is(s, r, "pyown.exceptions:ParseError"):
                        w = ck.witness(s, atoms_of(frame))
                        if w:
                            ck.violation(f"raises:{ck.exc(s, r)}", where, f"parse of {S.ev(frame, w)!r} raises {ck.ip.describe_abn(s, r)}, which is not a ParseError")
    ck.ip.max_fields = fields
    # frames whose only defect is a forbidden character or terminator must be rejected
    with ck.obligation("malformed frames are rejected"):
        bad = L.ANY - ok
        st, a = ck.satom(ck.st, "message", bad)
        for s, r in ck.call(st, f, a):
            if not isinstance(r, ABN) and not S.lang_of(s, a).is_empty() and ck.clean(s, "malformed"):
                w = ck.witness(s, [a])
                if w:
                    ck.violation("accepts", where, f"{w[a]!r} is accepted as a message although it is not a frame")


@prop("P06", "Every regular expression constant the package compiles is turned into its epsilon-free position automaton and "
             "checked for exponential (EDA) and polynomial (IDA) ambiguity, the exact structural criterion for "
             "super-linear backtracking.")
def p06(ck):
    import ast as _ast
    ck.rules.append("no pattern has two different cycles (EDA) or two connected cycles (IDA) reading the same word")
    base = ck.r("pyown.messages:BaseMessage")
    pats = {}
    for kind in KIND_TYPE:
        cls = ck.r(MSG + kind)
        with ck.obligation(f"{kind}.pattern()"):
            for s, v in ck.mcall(ck.st, cls, "pattern"):
                if isinstance(v, ABN):
                    ck.undecided(kind, "pattern() raises")
                    continue
                c = s.get(v.addr) if isinstance(v, Ref) else None
                p = c.attrs.get("pattern") if c is not None else None
                if isinstance(p, Const):
                    fl = c.attrs.get("flags")
                    pats.setdefault((p.v, fl.v if isinstance(fl, Const) and isinstance(fl.v, int) else 0), ck.where(cls))
                else:
                    ck.undecided(kind, "pattern is not a compiled constant")
    # every other regular expression of the package (call sites)
    for m in ck.modules:
        mod = ck.ip.modules.get(m)
        if mod is None or mod.tree is None:
            continue
        names = {"re"}
        fn = {}
        for n in _ast.walk(mod.tree):
            if isinstance(n, _ast.Import):
                for x in n.names:
                    if x.name == "re":
                        names.add(x.asname or "re")
            if isinstance(n, _ast.ImportFrom) and n.module == "re":
                for x in n.names:
                    fn[x.asname or x.name] = x.name
        for n in _ast.walk(mod.tree):
            if not isinstance(n, _ast.Call):
                continue
            is_re = (isinstance(n.func, _ast.Attribute) and isinstance(n.func.value, _ast.Name) and n.func.value.id in names) or \
                (isinstance(n.func, _ast.Name) and n.func.id in fn)
            if is_re and n.args and isinstance(n.args[0], _ast.Constant) and isinstance(n.args[0].value, str):
                ck.count("regex call sites")
                pats.setdefault((n.args[0].value, 0), f"{os.path.relpath(mod.file, ROOT)}:{n.lineno}")
    ck.count("patterns", len(pats))
    for (p, fl), where in sorted(pats.items()):
        with ck.obligation(f"pattern {p}"):
            amb = L.ambiguity(p, fl & ~32)
            if amb:
                ck.violation(f"{amb[0]}:{p}", where, f"pattern {p!r} is {'exponentially' if amb[0] == 'EDA' else 'polynomially'} ambiguous: "
                             f"repeating {amb[1]!r} makes a failing match super-linear")
            ck.sample(p)
    # the detector itself must still fire
    with ck.obligation("detector self-test"):
        if not L.ambiguity(r"^(a+)+$") or not L.ambiguity(r"^[0-9#]*[0-9]*x$") or L.ambiguity(r"^a*ba*$"):
            raise AnalysisError("ambiguity detector broken")


@prop("P26", "Pairs of messages are built from opaque tags and compared by analysing the comparison, hash and accessor "
             "methods: equal tags give equal messages and hashes, a differing tag or kind gives unequal messages, and no "
             "mutation of caller-owned or returned containers reaches the message.")
def p26(ck):
    ck.rules.append("eq <=> same kind and same tags; eq => same hash; ne == not eq; tags and constructor arguments are not shared with the message")
    whos = who_members(ck)
    w1, w2 = whos[1], whos[2]
    eqw = ck.where(ck.method(ck.r(MSG + "BaseMessage"), "__eq__"))

    def truth(st, op, a, b):
        f = ck.ip.eq if op == "eq" else ck.ip.ne
        for s, v in f(st, a, b):
            if isinstance(v, ABN):
                yield s, v
            else:
                for s2, t in ck.ip.truth(s, v):
                    yield s2, t
    # look-alikes with constant text, all pairs
    a, b = w1[1], w2[1]
    looks = ["*#*1##", "*#*0##", "*1##", "*#1##", f"*{a}*1##", f"*#{a}*1##"]
    for x in (a, b):
        looks += [f"*{x}*1*1##", f"*{x}*1*01##", f"*{x}*1*##", f"*{x}*1*1#4#01##", f"*{x}*1*1#4#02##", f"*{x}*1*1#4##", f"*{x}*1*#4##", f"*{x}*1*4##",
                  f"*{x}*1#0*1##", f"*{x}*1#1*1##", f"*{x}*0*1##", f"*{x}**1##", f"*#{x}*1##", f"*#{x}*1#4#01##", f"*#{x}*#1##", f"*#{x}*##",
                  f"*#{x}*1*1##", f"*#{x}*1*1#2##", f"*#{x}*1*#1*2##", f"*#{x}*1*#1#2*2##", f"*#{x}*1*#1*2*3##", f"*#{x}*1*#1*3*2##", f"*#{x}*1*1*2##",
                  f"*#{x}*1*1*2*##", f"*#{x}*1*1**2##", f"*#{x}*1*1*2*3##", f"*#{x}*1*1*23##", f"*#{x}*1*1*02##"]
    with ck.obligation(f"all pairs of {len(looks)} messages that differ in one detail"):
        st, ms, parse = ck.st, [], ck.r("pyown.messages:parse_message")
        for t in looks + looks:
            outs = [(s, m) for s, m in ck.call(st, parse, Const(t))]
            if len(outs) == 1 and not isinstance(outs[0][1], ABN):
                st, m = outs[0]
                ms.append((t, m))
        n = len(ms) // 2
        for i, (t1, m1) in enumerate(ms[:n]):
            for j, (t2, m2) in enumerate(ms[n:]):
                for op in ("eq", "ne"):
                    ck.count("comparisons")
                    for s, v in truth(st, op, m1, m2):
                        if not ck.clean(s, f"{t1} {op} {t2}"):
                            continue
                        if isinstance(v, ABN):
                            ck.violation(f"pair:{op}:raise", eqw, f"{t1} {op} {t2}: {ck.ip.describe_abn(s, v)}")
                        elif v != ((t1 == t2) == (op == "eq")):
                            ck.violation(f"pair:{op}", eqw, f"message {t1} {'==' if op == 'eq' else '!='} message {t2} is {v}", ck.trace_text(s))
            hs = [v for m in (m1, ms[n + i][1]) for s, v in ck.call(st, M.b_hash, m) if ck.clean(s, "hash")]
            if len(hs) == 2 and hs[0] != hs[1]:
                ck.violation("pair:hash", eqw, f"two messages {t1} have different hashes")
    built = {}
    for kind in KIND_TYPE:
        with ck.obligation(f"{kind} == {kind}"):
            st, m1, f1, at = build(ck, ck.st, kind, w1[1:], 2, prefix="a")
            st, m2, f2, _ = build(ck, st, kind, w1[1:], 2, prefix="b")
            ats1, ats2 = sorted(atoms_of(f1), key=repr), sorted(atoms_of(f2), key=repr)
            pair = {x.args[0][1:]: x for x in ats2}

            def equal(g):
                return all(g[x] == g[pair[x.args[0][1:]]] for x in ats1)
            for op in ("eq", "ne"):
                for s, v in truth(st, op, m1, m2):
                    if isinstance(v, ABN):
                        ck.violation(f"{kind}:{op}:raise", eqw, ck.ip.describe_abn(s, v))
                        continue
                    res = v if op == "eq" else not v
                    ck.count("comparisons")
                    soft = s.taint
                    w = ck.witness(s, ats1 + ats2, lambda g: equal(g) != res, n=3)
                    if w:
                        if soft and "predicate" not in soft:
                            ck.undecided(kind, soft)
                            continue
                        ck.violation(f"{kind}:{op}", eqw, f"{S.ev(f1, w)!r} {op} {S.ev(f2, w)!r} is {res if op == 'eq' else not res}")
            # identical tags: equal and same hash
            st, m1, f1, at = build(ck, ck.st, kind, w1[1:], 2)
            st, m2, f2, _ = build(ck, st, kind, w1[1:], 2)
            for s, v in truth(st, "eq", m1, m2):
                if v is not True and not isinstance(v, ABN) and ck.clean(s, "eq"):
                    ck.violation(f"{kind}:same", eqw, f"two {kind} with the same tags are not equal")
            hs = []
            for m in (m1, m2):
                for s, v in ck.call(st, M.b_hash, m):
                    if isinstance(v, ABN):
                        ck.violation(f"{kind}:hash", eqw, f"hash of a {kind}: {ck.ip.describe_abn(s, v)}")
                    else:
                        hs.append(v)
            if len(hs) == 2 and hs[0] != hs[1]:
                w, same_ = ck.differ(st, hs[0], hs[1])
                ck.undecided(kind, f"hash terms differ: {hs}") if not w else ck.violation(f"{kind}:hash", eqw, "equal messages have different hashes")
            built[kind] = True
    with ck.obligation("different kinds are different"):
        kinds = list(KIND_TYPE)
        for i, k1 in enumerate(kinds):
            for k2 in kinds:
                if k1 == k2:
                    continue
                st, m1, f1, _ = build(ck, ck.st, k1, w1[1:], 2)
                st, m2, f2, _ = build(ck, st, k2, w1[1:], 2)
                for s, v in truth(st, "eq", m1, m2):
                    if v is True and ck.clean(s, "eq"):
                        w = ck.witness(s, atoms_of(f1) | atoms_of(f2), lambda g: True, n=3)
                        if w is not None:
                            ck.violation(f"{k1}=={k2}", eqw, f"{k1} {S.ev(f1, w)!r} equals {k2} {S.ev(f2, w)!r}")
    for kind in KIND_TYPE:
        if kind == "GenericMessage":
            continue
        with ck.obligation(f"generic message with the text of a {kind}"):
            st, m1, frame, _ = build(ck, ck.st, kind, w1[1:], 2)
            parts = list(frame.parts if isinstance(frame, Str) else [frame])
            parts[0] = Const(parts[0].v[1:])
            parts[-1] = Const(parts[-1].v[:-2])
            for s, tags in M.split(ck.ip, st, cat(parts), "*"):
                s, lst = s.new(ListC(tags))
                s, m2 = ck.call1(s, ck.r(MSG + "GenericMessage"), lst)
                for x, y in ((m1, m2), (m2, m1)):
                    for s1, v in truth(s, "eq", x, y):
                        if v is True and ck.clean(s1, "eq"):
                            ck.violation(f"generic=={kind}", eqw, f"a generic message equals the {kind} of the same text", ck.trace_text(s1))
    with ck.obligation("different WHO are different"):
        for kind in ("NormalMessage", "StatusRequest", "DimensionRequest", "DimensionWriting", "DimensionResponse"):
            st, m1, f1, _ = build(ck, ck.st, kind, w1[1:], 1)
            st, m2, f2, _ = build(ck, st, kind, w2[1:], 1)
            for s, v in truth(st, "eq", m1, m2):
                if v is True and ck.clean(s, "eq"):
                    ck.violation(f"{kind}:who", eqw, f"two {kind} with different WHO are equal")
    # isolation
    with ck.obligation("caller list of a generic message"):
        st, m, frame, at = build(ck, ck.st, "GenericMessage", w1[1:], 2)
        for s, _ in ck.mcall(st, at["list"], "append", Const("9")):
            for s2, v in ck.get(s, m, "message"):
                same(ck, s2, v, frame, "generic:alias", ck.where(ck.r(MSG + "GenericMessage")), "generic message after its caller changed the list")
    for kind in KIND_TYPE:
        with ck.obligation(f"{kind}.tags is a copy"):
            st, m, frame, at = build(ck, ck.st, kind, w1[1:], 2)
            for s, v in ck.get(st, m, "tags"):
                if isinstance(v, ABN):
                    ck.violation(f"{kind}:tags", eqw, ck.ip.describe_abn(s, v))
                    continue
                if isinstance(v, Ref) and isinstance(s.get(v.addr), ListC):
                    for s1, _ in ck.mcall(s, v, "append", Const("9")):
                        for s2, x in ck.get(s1, m, "message"):
                            same(ck, s2, x, frame, f"{kind}:tags", ck.where(ck.r(MSG + kind)), f"{kind} after its returned tags changed")


# ------------------------------------------------------------------------------------------------ P29
@prop("P29", "Pairs of tags of every class, and a tag and a string, an integer or a foreign object, are compared by analysing their comparison and hash methods on opaque texts: "
             "a path answers 'equal' only where the texts are equal and 'different' only where they differ; equal ones hash alike; parameters obtained from a tag are not shared with it.")
def p29(ck):
    ck.rules.append("eq <=> same text; ne == not eq; eq => same hash (tags and strings); foreign object: unequal, no exception; a created or extended tag leaves the original unchanged")

    def cls(name):
        return ck.r(("pyown.tags.base:" if name in ("Tag", "TagWithParameters") else "pyown.tags:") + name)

    def verdict(st, op, a, b):
        for s, v in (ck.ip.eq if op == "eq" else ck.ip.ne)(st, a, b):
            if isinstance(v, ABN):
                yield s, v
            else:
                yield from ck.ip.truth(s, v)

    def made(st, name, text):
        return [(s, t) for s, t in ck.call(st, cls(name), text) if not isinstance(t, ABN)]

    def judge(label, where, st, a, b, ta, tb, same_text):
        ats = sorted(atoms_of(ta) | atoms_of(tb), key=repr)
        for op in ("eq", "ne"):
            for s, v in verdict(st, op, a, b):
                ck.count("comparisons")
                if not ck.clean(s, label):
                    continue
                if isinstance(v, ABN):
                    ck.violation(f"{label}:raise", where, f"{label}: {op} raises {ck.ip.describe_abn(s, v)}", ck.trace_text(s))
                    continue
                res = v if op == "eq" else not v
                if not ats:
                    w = {} if same_text({}) != res else None
                else:
                    w = ck.witness(s, ats, lambda g: same_text(g) != res, n=4)
                if w is not None and w is not False:
                    ck.violation(f"{label}:{op}", where, f"{label}: {S.ev(ta, w)!r} {'==' if op == 'eq' else '!='} {S.ev(tb, w)!r} is {v}", ck.trace_text(s))

    def hashes(label, where, st, a, b):
        hs = [v for m in (a, b) for s, v in ck.call(st, M.b_hash, m) if ck.clean(s, label)]
        if len(hs) == 2 and not any(isinstance(h, ABN) for h in hs):
            if hs[0] != hs[1]:
                ck.violation(f"{label}:hash", where, f"{label}: equal texts, different hashes {ck.show(st, hs[0])} and {ck.show(st, hs[1])}")
        elif any(isinstance(h, ABN) for h in hs):
            ck.violation(f"{label}:hash", where, f"{label}: cannot be hashed")
    st, x = ck.satom(ck.st, "x", VALID)
    st, y = ck.satom(st, "y", VALID)
    names = list(TAGS)
    ev = S.ev
    for n1 in names:
        where = ck.where(cls(n1))
        for n2 in names:
            with ck.obligation(f"{n1} and {n2}"):
                for s1, a in made(st, n1, x):
                    for s2, b in made(s1, n2, y):
                        judge(f"{n1}, {n2}", where, s2, a, b, x, y, lambda g: g[x] == g[y])
                    for s2, b in made(s1, n2, x):
                        hashes(f"{n1}, {n2}", where, s2, a, b)
        with ck.obligation(f"{n1} and str"):
            for s1, a in made(st, n1, x):
                judge(f"{n1}, str", where, s1, a, y, x, y, lambda g: g[x] == g[y])
                judge(f"str, {n1}", where, s1, y, a, y, x, lambda g: g[x] == g[y])
                hashes(f"{n1}, str", where, s1, a, x)
            s0, z = ck.satom(st, "z", L.ANY)
            for s1, a in made(s0, n1, x):
                judge(f"{n1}, str", where, s1, a, z, x, z, lambda g: g[x] == g[z])
        texts = ("", "0", "00", "1", "01", "10", "11", "#1", "1#", "1#0", "1#4#01", "1#4#1", "#4#01", "0#4#01", "#", "#1#2", "1#2", "2#1", "12")
        with ck.obligation(f"{n1}: all pairs of {len(texts)} texts that differ in one detail"):
            for n2 in dict.fromkeys((n1, "Tag", "TagWithParameters")):
                for t1 in texts:
                    for s1, a in made(ck.st, n1, Const(t1)):
                        for t2 in texts:
                            for s2, b in made(s1, n2, Const(t2)):
                                judge(f"{n1}, {n2}", where, s2, a, b, Const(t1), Const(t2), lambda g: t1 == t2)
                                if t1 == t2:
                                    hashes(f"{n1}, {n2}", where, s2, a, b)
            for t1 in texts:
                for s1, a in made(ck.st, n1, Const(t1)):
                    for t2 in texts + (" 1", "1 ", "1\n", "*1", "1##", "one"):
                        judge(f"{n1}, str", where, s1, a, Const(t2), Const(t1), Const(t2), lambda g: t1 == t2)
        with ck.obligation(f"{n1} and other objects"):
            s0, lst = st.new(ListC((x,)))
            for s1, a in made(s0, n1, x):
                for other in (NONE, lst, Tup((x,))):
                    judge(f"{n1}, {ck.show(s1, other)}", where, s1, a, other, x, NONE, lambda g: False)
        with ck.obligation(f"{n1} and int"):
            for n in (0, 1, 7, 10, 12, 100):
                for text in ("0", "1", "7", "01", "12", "#1", "1#0", ""):
                    for s1, a in made(st, n1, Const(text)):
                        judge(f"{n1}, int", where, s1, a, Const(n), Const(text), Const(n), lambda g: text == str(n))
        with ck.obligation(f"{n1} keeps its text"):
            for s1, a in made(st, n1, x):
                for s2, b in ck.mcall(s1, a, "with_parameter", Const("5")):
                    for s3, v in ck.get(s2, a, "string"):
                        same(ck, s3, v, x, f"{n1}:kept", where, f"{n1}(s).string after with_parameter")
    whos = who_members(ck)
    where = ck.where(cls("Who"))
    with ck.obligation(f"pairs of {len(whos)} WHO members"):
        for _, v1, m1 in whos:
            for _, v2, m2 in whos:
                judge("WHO members", where, ck.st, m1, m2, Const(v1), Const(v2), lambda g: v1 == v2)
    with ck.obligation("WHO members and text"):
        for _, v1, m1 in whos:
            for text in dict.fromkeys((v1, "0" + v1, v1 + "0", "1", "")):
                judge("WHO member, str", where, ck.st, m1, Const(text), Const(v1), Const(text), lambda g: v1 == text)
                for s1, b in made(ck.st, "Tag", Const(text)):
                    judge("WHO member, Tag", where, s1, m1, b, Const(v1), Const(text), lambda g: v1 == text)
                    if text == v1:
                        hashes("WHO member, Tag", where, s1, m1, b)
            hashes("WHO member, str", where, ck.st, m1, Const(v1))


# ------------------------------------------------------------------------------------------------ P30
EXC = "pyown.exceptions:"
FAMILY = {"OWNException": (), "ParseError": ("OWNException",), "InvalidData": ("ParseError",), "InvalidMessage": ("ParseError",), "InvalidTag": ("ParseError",),
          "InvalidSession": ("OWNException",), "InvalidAuthentication": ("OWNException",), "ResponseError": ("OWNException",)}


def family(n):
    out = {n}
    for b in FAMILY[n]:
        out |= family(b)
    return out


@prop("P30", "The class hierarchy of the library's errors is read off the interpreted module and compared with the documented one; every error is constructed on opaque values and "
             "the attributes and text it carries are compared, as normal forms, with the value it was made from, both directly and where tags and frames are rejected.")
def p30(ck):
    ck.rules.append("documented bases and no other family; .tag / .message / .data are the offending value; str(error) contains it")
    for n in FAMILY:
        with ck.obligation(f"family of {n}"):
            c = ck.r(EXC + n)
            if not any(k.name == "Exception" for k in c.info.mro):
                ck.violation(f"family-{n}", "pyown/exceptions.py", f"{n} is not an Exception")
            for o in FAMILY:
                if c.info.is_sub(ck.r(EXC + o).info) != (o in family(n)):
                    ck.violation(f"family-{n}", "pyown/exceptions.py", f"{n} is {'' if c.info.is_sub(ck.r(EXC + o).info) else 'not '}a {o}")

    def carries(label, where, s, e, attr, want, shown=None, atoms=()):
        for s1, v in ck.get(s, e, attr):
            if isinstance(v, ABN):
                if ck.clean(s1, label):
                    ck.violation(f"{label}:{attr}", where, f"{label}: no attribute {attr}: {ck.ip.describe_abn(s1, v)}")
                continue
            same(ck, s1, v, want, f"{label}:{attr}", where, f"{label}.{attr}")
        if shown is None:
            return
        for s1, v in ck.ip.to_str(s, e):
            if not ck.clean(s1, label):
                continue
            if isinstance(v, ABN):
                ck.violation(f"{label}:str", where, f"{label}: str() raises {ck.ip.describe_abn(s1, v)}")
                continue
            g = ck.witness(s1, list(atoms), lambda g: S.ev(shown, g) not in S.ev(v, g), n=4)
            if g is not None:
                ck.violation(f"{label}:str", where, f"the text of {label} for {S.ev(shown, g)!r} is {S.ev(v, g)!r}")

    def build_exc(name, st, *args):
        for s, e in ck.call(st, ck.r(EXC + name), *args):
            if not ck.clean(s, name):
                continue
            if isinstance(e, ABN):
                ck.violation(f"{name}:raises", "pyown/exceptions.py", f"{name}(...) raises {ck.ip.describe_abn(s, e)}", ck.trace_text(s))
                continue
            yield s, e
    st, x = ck.satom(ck.st, "x", L.syms(L.ALL - L.NONASCII).star())
    st, y = ck.satom(st, "y", VALID)
    st, z = ck.satom(st, "z", VALID)
    where = "pyown/exceptions.py"
    with ck.obligation("InvalidTag(text)"):
        for s, e in build_exc("InvalidTag", st, x):
            carries("InvalidTag", where, s, e, "tag", x, x, [x])
    with ck.obligation("InvalidMessage(text)"):
        for s, e in build_exc("InvalidMessage", st, x):
            carries("InvalidMessage", where, s, e, "message", x, x, [x])
    for text in ("*#13**#22*21*00*00*001*00*16*11*2025##", "1#2" * 40, "*1*1*12##" * 60, "percent %s %d", "braces {} {0}", "new\nline", "caf\u00e9"):
        with ck.obligation(f"errors of {text[:20]!r} ({len(text)} characters)"):
            for name, attr in (("InvalidTag", "tag"), ("InvalidMessage", "message")):
                for s, e in build_exc(name, st, Const(text)):
                    carries(name, where, s, e, attr, Const(text), Const(text))
    for k in range(4):
        with ck.obligation(f"InvalidMessage of {k} fields"):
            vals = (y, z, Const("#1"))[:k]
            s0, lst = st.new(ListC(vals))
            parts = [Const("*")]
            for i, v in enumerate(vals):
                parts += ([Const("*")] if i else []) + [v]
            text = cat(parts + [Const("##")], "str")
            for s, e in build_exc("InvalidMessage", s0, lst):
                carries(f"InvalidMessage of {k} fields", where, s, e, "message", text, text, [y, z])
    with ck.obligation("InvalidData(bytes)"):
        for b in (b"", b"\x00", b"\xff\xfe", b"*1*1\xe012##"):
            for s, e in build_exc("InvalidData", st, Const(b)):
                carries("InvalidData", where, s, e, "data", Const(b), Const(b.hex()))
    for n in TAGS:
        with ck.obligation(f"{n}: the error names the text"):
            s0, a = ck.satom(ck.st, "s", L.ANY - VALID)
            for s, e in ck.call(s0, ck.r(("pyown.tags.base:" if n in ("Tag", "TagWithParameters") else "pyown.tags:") + n), a):
                if isinstance(e, Exc) and ck.clean(s, n) and ck.exc_is(s, e, EXC + "InvalidTag"):
                    carries(f"the error of {n}", ck.where(ck.r("pyown.tags.base:Tag")), s, e.value, "tag", a)
    f = ck.r("pyown.messages:parse_message")
    for text in ("", "1", "*", "##", "*1*1*12", "*1*1*12#", "1*1*12##", "*1*1*12##*1*0*12##", "*1*a*12##", "*1*1*12##x", "x*1*1*12##", "*1 1*12##", "*#*1", "hello", "*1*-1*12##"):
        with ck.obligation(f"the error of the frame {text!r}"):
            for s, e in ck.call(ck.st, f, Const(text)):
                if not ck.clean(s, text) or not isinstance(e, Exc):
                    continue
                for n, attr in (("InvalidMessage", "message"), ("InvalidTag", "tag")):
                    if ck.exc_is(s, e, EXC + n):
                        for s1, v in ck.get(s, e.value, attr):
                            if isinstance(v, Const) and isinstance(v.v, str) and v.v not in text and ck.clean(s1, text):
                                ck.violation("frame-error", ck.where(f), f"parsing {text!r}: the error carries {v.v!r}")
