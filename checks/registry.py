"""P27, P28: the WHO registry, the item factory and cache, the classification of addresses."""
from .common import *
from .env import World
from .items import AU, CA, EN, GW, LT, SG, DM, norm
from .messages import CLEAN, DP, VALID, who_members

# WHO numbers of docs/original, with a word of their description
NUMBERS = {
    "SCENE": ("0", "scen"), "LIGHTING": ("1", "light"), "AUTOMATION": ("2", "autom"), "LOAD_CONTROL": ("3", "load"), "THERMOREGULATION": ("4", "thermo"),
    "BURGLAR_ALARM": ("5", "alarm"), "DOOR_ENTRY_SYSTEM": ("6", "door entry"), "VIDEO_DOOR_ENTRY": ("7", "video"), "AUXILIARY": ("8", "aux"), "GATEWAY": ("13", "gateway"),
    "ACTUATORS_LOCKS": ("14", "lock"), "CEN_1": ("15", "cen"), "SOUND_DIFFUSION_1": ("16", "sound"), "MH200N_SCENE": ("17", "mh200n"), "ENERGY_MANAGEMENT": ("18", "energy management"),
    "SOUND_DIFFUSION_2": ("22", "sound"), "LIGHTING_MANAGEMENT": ("24", "lighting management"), "CEN_2": ("25", "cen"), "AUTOMATION_DIAGNOSTICS": ("1001", "automation diag"),
    "THERMOREGULATION_DIAGNOSTICS": ("1004", "thermoregulation diag"), "DEVICE_DIAGNOSTICS": ("1013", "device diag"), "ENERGY_DIAGNOSTICS": ("1018", "energy diag"),
}
FACTORY = {"1": LT, "2": AU, "7": CA, "13": GW, "18": EN}


def text_of(ck, s, v):
    v = ck.ip.payload(s, v) if isinstance(v, Ref) else v
    return v


def only(ck, outs, what):
    """The clean outcomes."""
    return [(s, v) for s, v in outs if ck.clean(s, what)]


@prop("P27", "The registry is evaluated member by member from its source; the factory and the cache are interpreted on opaque addresses (case split on equality) and on sequences of "
             "requests, comparing the identity, the WHO and the address of the items returned.")
def p27(ck):
    ck.rules.append("WHO text = protocol number, distinct descriptions; get_item(who, where): class, who, where; same pair => same object, other pair => other object; unsupported => KeyError, every time")
    whos = who_members(ck)
    wcls = ck.r("pyown.tags:Who")
    names = {}
    for n, v, ref in whos:
        with ck.obligation(f"WHO {n}"):
            if n not in NUMBERS:
                ck.undecided(n, "not in the documents")
                continue
            if v != NUMBERS[n][0]:
                ck.violation(f"who-{n}", "pyown/tags/who.py", f"Who.{n} is {v}, documented {NUMBERS[n][0]}")
            for label, outs in (("str()", ck.ip.to_str(ck.st, ref)), ("string", ck.get(ck.st, ref, "string")), ("tag", ck.get(ck.st, ref, "tag"))):
                for s, t in only(ck, outs, label):
                    if isinstance(t, ABN) or text_of(ck, s, t) != Const(v):
                        ck.violation(f"who-text-{n}", "pyown/tags/who.py", f"{label} of Who.{n} is {ck.show(s, t) if not isinstance(t, ABN) else ck.ip.describe_abn(s, t)}, its number is {v}")
            for s, m in only(ck, ck.call(ck.st, wcls, Const(v)), "lookup"):
                if m != ref:
                    ck.violation(f"who-lookup-{n}", "pyown/tags/who.py", f"Who({v!r}) is not Who.{n}")
            for s, d in only(ck, ck.get(ck.st, ref, "name"), "name"):
                d = text_of(ck, s, d) if not isinstance(d, ABN) else d
                if isinstance(d, ABN):
                    ck.violation(f"who-name-{n}", "pyown/tags/who.py", f"Who.{n} has no description: {ck.ip.describe_abn(s, d)}")
                elif not isinstance(d, Const):
                    ck.undecided(n, "description not constant")
                else:
                    if not isinstance(d.v, str) or NUMBERS[n][1] not in d.v.lower():
                        ck.violation(f"who-name-{n}", "pyown/tags/who.py", f"the description of Who.{n} is {d.v!r}")
                    if d.v in names:
                        ck.violation(f"who-name-{n}", "pyown/tags/who.py", f"Who.{n} and Who.{names[d.v]} have the same description {d.v!r}")
                    names[d.v] = n
    with ck.obligation("the registry is complete"):
        missing = sorted(set(NUMBERS) - {n for n, _, _ in whos})
        if missing:
            ck.violation("who-missing", "pyown/tags/who.py", f"no WHO member for {', '.join(missing)}")
    with ck.obligation("classes"):
        for cls, num in ((LT, "1"), (DM, "1"), (AU, "2"), (CA, "7"), (EN, "18"), (SG, "18"), (GW, "13")):
            c = ck.r(cls)
            found = c.info.lookup("who")
            if found and isinstance(found[1], Wrap) and found[1].kind == "classmethod" and isinstance(found[1].f, Wrap):
                ck.violation("class-who-chained", "pyown/items", f"the WHO of {found[0].name} is a classmethod around a property: not usable on the class with Python 3.13 and later")
            for s, v in only(ck, ck.get(ck.st, c, "who"), "who"):
                if isinstance(v, ABN) or v not in [r for _, x, r in whos if x == num]:
                    ck.violation(f"class-who-{cls.split(':')[1]}", "pyown/items", f"the WHO of {cls.split(':')[1]} is {ck.show(s, v) if not isinstance(v, ABN) else ck.ip.describe_abn(s, v)}, documented {num}")
    addresses(ck)
    cache(ck, whos)


def addresses(ck):
    """An item made from a text has the WHERE of that text; a text that is no tag is refused before there is an item."""
    w = World(ck)
    st, c = w.client(ck.st)
    for cls in (LT, DM, AU, CA):
        C, name = ck.r(cls), cls.split(":")[1]
        where = ck.where(ck.method(C, "__init__"))
        for label, lg in (("a valid address", VALID), ("any other text", L.ANY - VALID)):
            with ck.obligation(f"{name}(client, {label})"):
                s0, x = ck.satom(st, "A", lg)
                good = lg is VALID
                for s, it in ck.call(s0, C, c, x):
                    if not ck.clean(s, label):
                        continue
                    if isinstance(it, ABN):
                        if good or not ck.exc_is(s, it, "pyown.exceptions:InvalidTag"):
                            g = ck.witness(s, [x])
                            if g:
                                ck.violation(f"address-{'refused' if good else 'error'}-{name}", where, f"{name}(client, {g[x]!r}): {ck.ip.describe_abn(s, it)}", ck.trace_text(s))
                        continue
                    if not good:
                        g = ck.witness(s, [x])
                        if g:
                            ck.violation(f"address-accepted-{name}", where, f"{name}(client, {g[x]!r}) is created although the address is not a tag", ck.trace_text(s))
                        continue
                    for s2, v in ck.get(s, it, "where"):
                        if not ck.clean(s2, label) or isinstance(v, ABN):
                            continue
                        for s3, t in only(ck, ck.get(s2, v, "string"), label):
                            if t != x and (isinstance(t, ABN) or ck.differ(s3, t, x)[0] is not None):
                                ck.violation(f"address-{name}", where, f"the address of {name}(client, text) is {ck.ip.describe_abn(s3, t) if isinstance(t, ABN) else ck.show(s3, t)}", ck.trace_text(s3))


def cache(ck, whos):
    w = World(ck)
    st, c = w.client(ck.st)
    gi = ck.where(ck.method(ck.r("pyown.client:Client"), "get_item"))
    wt = ck.r("pyown.tags:Where")

    def addr(st, a):
        return [(s, x) for s, x in ck.call(st, wt, a) if not isinstance(x, ABN) and not s.taint]

    def get(st, who, where, by=c):
        for s, f in ck.get(st, c, "get_item"):
            yield from ck.call(s, f, who, where, client=by)

    langs = {"18": [L.const("5") + DP, L.const("1") + DP, L.const("7") + DP + L.const("#0")]}
    for n, num, ref in whos:
        cls = FACTORY.get(num)
        for lg in langs.get(num, [CLEAN]):
            with ck.obligation(f"get_item(Who.{n}, {lg.example()!r}...)"):
                st1, x = ck.satom(st, "X", lg)
                st1, y = ck.satom(st1, "Y", lg)
                for s, a in addr(st1, x):
                    for s, a2 in addr(s, x):
                        for s, b in addr(s, y):
                            pair(ck, gi, get, s, n, num, ref, cls, a, a2, b, x, y, c)
    sup = [(num, ref) for n, num, ref in whos if num in FACTORY]
    some = ["0", "00", "1", "01", "11", "011", "0110", "1001", "110", "12", "21", "11#4#01", "11#4#02", "11#3#01", "1#4#01", "0#4#01", "#1", "#11", "#1#4#01", "1#1", "77"]
    for num, ref in sup:
        texts = ["51", "15", "151", "511", "11", "111", "11", "71#0", "711#0", "75#0", "5255", "55", "515", "1127"] if num == "18" else some
        with ck.obligation(f"a sequence of requests for WHO {num}"):
            seq = texts + texts[::-1]
            s, got = st, {}
            for a in seq:
                outs = []
                for s1, wa in addr(s, Const(a)):
                    outs += only(ck, get(s1, ref, wa), "get_item")
                if len(outs) != 1:
                    ck.undecided(a, f"{len(outs)} paths")
                    break
                s, it = outs[0]
                if isinstance(it, ABN):
                    ck.violation("get-raises", gi, f"get_item(WHO {num}, {a}): {ck.ip.describe_abn(s, it)}", ck.trace_text(s))
                    break
                if got.setdefault(a, it) != it:
                    ck.violation("get-again", gi, f"asking again for (WHO {num}, {a}) gives another item", ck.trace_text(s))
                if num != "13":
                    for s2, v in only(ck, ck.get(s, it, "where"), "where"):
                        if norm(ck, s2, v) != ("TAG", Const(a)):
                            ck.violation("get-where", gi, f"the item requested at {a} (WHO {num}) is at {ck.show(s2, v)}", ck.trace_text(s2))
                for b, i2 in got.items():
                    if b != a and i2 == it:
                        ck.violation("get-shared", gi, f"addresses {b} and {a} of WHO {num} share one item", ck.trace_text(s))
    with ck.obligation("many items"):
        n = 300 if not ck.thorough else 1100
        s, first = st, {}
        for num, ref in sup:
            if num == "13":
                continue
            for a in [f"5{i}" for i in list(range(n if num == "1" else 3)) + [0, 1]]:
                outs = [o for s1, wa in addr(s, Const(a)) for o in only(ck, get(s1, ref, wa), "get_item")]
                if len(outs) != 1 or isinstance(outs[0][1], ABN):
                    ck.undecided(a, f"{len(outs)} paths")
                    break
                s, it = outs[0]
                if first.setdefault((num, a), it) != it:
                    ck.violation("get-again-many", gi, f"after {len(first)} items, asking again for (WHO {num}, {a}) gives another item")
    with ck.obligation("different WHO, same address"):
        st1, x = ck.satom(st, "X", L.const("5") + DP)
        for s, a in addr(st1, x):
            states = [(s, ())]
            for num, ref in sup + sup:
                nxt = []
                for s1, got in states:
                    for s2, it in only(ck, get(s1, ref, a), "get_item"):
                        if isinstance(it, ABN):
                            ck.violation("get-raises", gi, f"get_item(WHO {num}): {ck.ip.describe_abn(s2, it)}", ck.trace_text(s2))
                        else:
                            nxt.append((s2, got + ((num, it),)))
                states = nxt
            for s1, got in states:
                for i, (na, ia) in enumerate(got):
                    for nb, ib in got[:i]:
                        if (ia == ib) != (na == nb):
                            ck.violation("get-mixed", gi, f"items of WHO {na} and WHO {nb} at one address are {'the same object' if ia == ib else 'different objects'}", ck.trace_text(s1))
    st2, other = w.client(st)
    for num, ref in sup:
        with ck.obligation(f"WHO {num}: the client named does not matter for a cached item"):
            st1, x = ck.satom(st2, "X", L.const("5") + DP)
            for s, a in addr(st1, x):
                for s, a2 in addr(s, x):
                    for s, it in only(ck, get(s, ref, a, other), "get_item"):
                        for s1, cl in only(ck, ck.get(s, it, "client"), "client") if not isinstance(it, ABN) else ():
                            if cl != other:
                                ck.violation("get-client", gi, "the new item does not use the client it was requested for", ck.trace_text(s1))
                        for s1, it2 in only(ck, get(s, ref, a2, c), "get_item"):
                            if it2 != it:
                                ck.violation("get-client-again", gi, f"asking again for (WHO {num}, the same address) with another client gives another item", ck.trace_text(s1))
    with ck.obligation("requests that look alike when WHO and address are run together"):
        # the addresses of every supported WHO that continue the number of another
        s, got = st, {}
        for tail in ("1", "51", "11", "8", "851", "31", "3"):
            for num, ref in sup:
                texts = [tail] + [o[len(num):] + tail for o, _ in sup if o.startswith(num) and o != num] + [num[len(o):] + tail for o, _ in sup if num.startswith(o) and o != num]
                for a in texts:
                    if num == "18" and a[0] not in "15" or num == "18" and len(a) < 2:
                        continue
                    outs = []
                    for s1, wa in addr(s, Const(a)):
                        outs += only(ck, get(s1, ref, wa), "get_item")
                    if len(outs) != 1 or isinstance(outs[0][1], ABN):
                        ck.undecided(a, f"{len(outs)} paths")
                        continue
                    s, it = outs[0]
                    for k, i2 in got.items():
                        if (k == (num, a)) != (i2 == it):
                            ck.violation("get-alike", gi, f"(WHO {k[0]}, {k[1]}) and (WHO {num}, {a}) give {'the same item' if i2 == it else 'different items'}", ck.trace_text(s))
                    got[num, a] = it
        ck.count("pairs compared", len(got))
    with ck.obligation("an unsupported request leaves the cache as it was"):
        st1, x = ck.satom(st, "X", L.const("5") + DP)
        for s, a in addr(st1, x):
            for s, first in only(ck, get(s, sup[0][1], a), "get_item"):
                for n, num, ref in whos:
                    if num in FACTORY:
                        continue
                    for s2, r in only(ck, get(s, ref, a), "unsupported"):
                        for s3, r2 in only(ck, get(s2, ref, a), "unsupported again"):
                            if not isinstance(r2, Exc) or not ck.exc_is(s3, r2, "KeyError"):
                                ck.violation("unsupported-again", gi, f"WHO {num} is unsupported but the second request for it does not raise KeyError", ck.trace_text(s3))
                        for s3, it in only(ck, get(s2, sup[0][1], a), "after"):
                            if it != first:
                                ck.violation("unsupported-cache", gi, f"after a request for the unsupported WHO {num} the cached item is another one", ck.trace_text(s3))
    with ck.obligation("a refused address is refused again"):
        st1, x = ck.satom(st, "X", L.const("2") + DP)
        en = [r for n, num, r in whos if num == "18"][0]
        for s, a in addr(st1, x):
            for k in range(2):
                outs = only(ck, get(s, en, a), "refused")
                for s2, r in outs:
                    if not isinstance(r, Exc) or not ck.exc_is(s2, r, "pyown.exceptions:InvalidTag"):
                        ck.violation("refused", gi, f"an energy item at an address of no family: {ck.ip.describe_abn(s2, r) if isinstance(r, ABN) else 'an item'}", ck.trace_text(s2))
                s = outs[0][0] if outs else s


def pair(ck, gi, get, s, n, num, ref, cls, a, a2, b, x, y, client):
    for s1, it in only(ck, get(s, ref, a), "get_item"):
        if cls is None:
            if not isinstance(it, Exc) or not ck.exc_is(s1, it, "KeyError"):
                ck.violation("unsupported", gi, f"WHO {num} has no items but get_item gives {ck.ip.describe_abn(s1, it) if isinstance(it, ABN) else ck.show(s1, it)}", ck.trace_text(s1))
            continue
        if isinstance(it, ABN):
            ck.violation("get-raises", gi, f"get_item(Who.{n}): {ck.ip.describe_abn(s1, it)}", ck.trace_text(s1))
            continue
        cell = s1.get(it.addr)
        if cls.split(":")[1] not in [k.name for k in cell.cls.mro]:
            ck.violation("get-class", gi, f"the item for WHO {num} is a {cell.cls.name}, documented {cls.split(':')[1]}", ck.trace_text(s1))
        for s2, v in only(ck, ck.get(s1, it, "who"), "who"):
            if v != ref:
                ck.violation("get-who", gi, f"the item requested for WHO {num} has WHO {ck.show(s2, v) if not isinstance(v, ABN) else '?'}", ck.trace_text(s2))
        if num != "13":
            for s2, v in only(ck, ck.get(s1, it, "where"), "where"):
                t = norm(ck, s2, v)
                if t != ("TAG", x):
                    ck.violation("get-where", gi, f"the item requested at {ck.show(s2, x)} is at {ck.show(s2, v)}", ck.trace_text(s2))
        for s2, v in only(ck, ck.get(s1, it, "client"), "client"):
            if v != client:
                ck.violation("get-client", gi, "the new item does not use the client it was requested for", ck.trace_text(s2))
        for s2, it2 in only(ck, get(s1, ref, a2), "again"):
            if it2 != it:
                ck.violation("get-again", gi, f"asking again for (WHO {num}, the same address) gives another item", ck.trace_text(s2))
        for s2, it3 in only(ck, get(s1, ref, b), "other"):
            if isinstance(it3, ABN):
                ck.violation("get-raises", gi, f"get_item(Who.{n}): {ck.ip.describe_abn(s2, it3)}", ck.trace_text(s2))
                continue
            for s3, e in ck.ip.eq(s2, x, y):
                same_ = e == TRUE or e is True
                if (it3 == it) != same_ and not s3.taint:
                    w = ck.witness(s3, [x, y])
                    if w is None:
                        continue
                    ck.violation("get-shared" if it3 == it else "get-split", gi, f"addresses {S.ev(x, w)!r} and {S.ev(y, w)!r} give {'the same item' if it3 == it else 'different items'}", ck.trace_text(s3))
            for s3, it4 in only(ck, get(s2, ref, a2), "after another"):
                if it4 != it:
                    ck.violation("get-again", gi, f"asking again for (WHO {num}, the first address) after another request gives another item", ck.trace_text(s3))
            for s3, it4 in only(ck, get(s2, ref, b), "second again"):
                if it4 != it3:
                    ck.violation("get-again", gi, f"asking again for (WHO {num}, the second address) gives another item", ck.trace_text(s3))


# ------------------------------------------------------------------------------------------------ P28
def rx(p):
    return L.regex_language(p, "fullmatch")


INT = r"(0[1-9]|1[0-5])"
AREA, POINT, GROUP = r"(00|[1-9]|100)", r"(00(0[1-9]|1[0-5])|[1-9][1-9]|10(0[1-9]|1[0-5])|0[1-9]1[0-5])", r"#([1-9]|[1-9][0-9]|1[0-9][0-9]|2[0-4][0-9]|25[0-5])"
TYPES = {
    "GENERAL": [("general of the system", "0")],
    "AMBIENT": [("area", AREA), ("area of a local bus", AREA + "#4#" + INT)],
    "LIGHT_POINT": [("point", POINT), ("point of a local bus", POINT + "#4#" + INT)],
    "GROUP": [("group", GROUP), ("group of a local bus", GROUP + "#4#" + INT)],
    "LOCAL_BUS": [("general of a local bus", "0#4#" + INT), ("local bus", "#4#" + INT)],
}


@prop("P28", "Language-based case analysis: the classification and the energy constructors are interpreted on an opaque address of each documented language (and of their complement); "
             "the result must be the documented one on every path.")
def p28(ck):
    ck.rules.append("address in the documented language of a type => that type; no address => ValueError; energy item: in the language of a family => that family, else InvalidTag")
    wt = ck.r("pyown.tags:Where")
    where = "pyown/tags/where.py Where.type"
    for typ, rows in TYPES.items():
        for label, p in rows:
            with ck.obligation(f"{label} {p}"):
                st, x = ck.satom(ck.st, "A", rx(p))
                u, want = len(ck.undecided_), ("ENUM", "WhereType", typ)
                judge_type(ck, wt, where, st, x, want, label)
                if len(ck.undecided_) > u:
                    # the language is finite: decide it word by word
                    del ck.undecided_[u:]
                    for w in rx(p).all_words():
                        judge_type(ck, wt, where, ck.st, Const(w), want, label)
                        ck.count("addresses enumerated")
    with ck.obligation("no address"):
        judge_type(ck, wt, where, ck.st, Const(""), None, "the empty address")
    energy(ck)


def judge_type(ck, wt, where, st, x, want, label):
    n = 0
    for s, a in ck.call(st, wt, x):
        if not ck.clean(s, label):
            continue
        if isinstance(a, ABN):
            w = ck.witness(s, [x])
            ck.violation(f"type-{label}", where, f"the documented address {S.ev(x, w or {}) if w is not None else '?'!r} is refused: {ck.ip.describe_abn(s, a)}")
            continue
        for s2, t in ck.get(s, a, "type"):
            if not ck.clean(s2, label):
                continue
            n += 1
            if want is None:
                if not isinstance(t, Exc):
                    ck.violation(f"type-{label}", where, f"{label} has a type")
                continue
            got = None if isinstance(t, ABN) else norm(ck, s2, t)
            if got == want:
                continue
            w = ck.witness(s2, [x])
            if w is None and not isinstance(x, Const):
                ck.undecided(label, "no witness")
                continue
            ck.violation(f"type-{label}", where, f"{S.ev(x, w or {})!r} ({label}) is {ck.ip.describe_abn(s2, t) if isinstance(t, ABN) else got[2] if isinstance(got, tuple) and len(got) > 2 else ck.show(s2, t)}, documented {want[2]}", ck.trace_text(s2))
    if not n and not ck.undecided_:
        ck.undecided(label, "no path")


def energy(ck):
    w = World(ck)
    st, c = w.client(ck.st)
    fam = {"STOP_GO": L.const("1") + DP, "POWER_METER": L.const("5") + DP, "ACTUATOR": L.const("7") + DP + L.const("#0")}
    n = 12 if ck.thorough else 8
    ck.assumptions.append(f"energy addresses with fewer than {n} parameters")
    rest = (VALID & S.nfields_upto("#", n)) - fam["STOP_GO"] - fam["POWER_METER"] - fam["ACTUATOR"]
    for cls in (EN, SG):
        C = ck.r(cls)
        name = cls.split(":")[1]
        where = ck.where(ck.method(C, "__init__"))
        ok = fam if cls == EN else {"STOP_GO": fam["STOP_GO"]}
        cases = [(k, v, k in ok) for k, v in fam.items()] + [("other", rest, False)]
        for k, lg, good in cases:
            for as_tag in (False, True):
                with ck.obligation(f"{name} at {k} address{' (tag)' if as_tag else ''}"):
                    s0, x = ck.satom(st, "A", lg)
                    starts = [(s0, x)]
                    if as_tag:
                        starts = [(s, t) for s, t in ck.call(s0, ck.r("pyown.tags:Where"), x) if not isinstance(t, ABN)]
                    for s0, arg in starts:
                        for s, it in ck.call(s0, C, c, arg):
                            if not ck.clean(s, k):
                                continue
                            if good != (not isinstance(it, ABN)) or not good and not (isinstance(it, Exc) and ck.exc_is(s, it, "pyown.exceptions:InvalidTag")):
                                a = ck.witness(s, [x])
                                if a is None:
                                    ck.undecided(k, "no witness")
                                    continue
                                ck.violation(f"{name}-{k}", where, f"{name} at {S.ev(x, a)!r} ({k}): {ck.ip.describe_abn(s, it) if isinstance(it, ABN) else 'accepted'}, must be {'accepted' if good else 'refused with InvalidTag'}", ck.trace_text(s))
                                continue
                            if not good:
                                continue
                            for s2, t in ck.mcall(s, it, "get_type"):
                                if ck.clean(s2, k) and (isinstance(t, ABN) or norm(ck, s2, t) != ("ENUM", "TypeEnergy", k)):
                                    ck.violation(f"{name}-type-{k}", where, f"{name} at a {k} address has type {norm(ck, s2, t)[2] if not isinstance(t, ABN) else ck.ip.describe_abn(s2, t)}", ck.trace_text(s2))
