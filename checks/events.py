"""P20, P21: the event loop - delivery of events to callbacks, and its survival."""
from .common import *
from .auth import members
from .env import LOST, SILENCE, World, data
from .items import AU, CA, DM, DP, EN, GW, INT, FLT, LT, SG, STOPGO, judge, norm, reply_where, text, values, WHO
from .messages import CLEAN, D, VALID, who_members

GWM = "pyown.items.gateway:WhatGateway"


class Event:
    """One kind of event: how it is registered, frames that carry it and the arguments its callbacks get."""

    def __init__(self, cls, reg, frames, what=None, item=None):
        self.cls, self.reg, self.frames, self.what, self.item = cls, reg, frames, what, item or cls

    @property
    def label(self):
        return f"{self.cls.split(':')[1]}.{self.reg}" + (f"({self.what})" if self.what else "")


def camera_codes(ck):
    return {v.v: n for n, (r, v) in members(ck, ck.st, "pyown.items.camera:WhatCamera").items()}


def vals(ck, st, names, langs=None, tag="e"):
    out = []
    for n in names:
        st, v = ck.satom(st, f"{n}_{tag}", (langs or {}).get(n, DP))
        out.append(v)
    return st, out


def dimension(dim, n, conv, params=0):
    """Frames *#who*where*dim[#p..]*v1*..*vn## ; conv: (params, values) -> arguments"""
    def f(ck, st, who, r, tag):
        st, ps = vals(ck, st, [f"p{k}" for k in range(params)], tag=tag)
        st, vs = vals(ck, st, [f"v{k}" for k in range(n)], tag=tag)
        parts = [f"*#{who}*", r, f"*{dim}"]
        for p in ps:
            parts += ["#", p]
        for v in vs:
            parts += ["*", v]
        yield "", st, tuple(parts + ["##"]), conv(ps, vs)
    return f


def table(ck):
    ints = lambda ps, vs: tuple(INT(v) for v in vs)         # noqa: E731
    ev = []

    def status(ck, st, who, r, tag):
        yield "OFF", st, ("*1*0*", r, "##"), (FALSE,)
        yield "ON", st, ("*1*1*", r, "##"), (TRUE,)
        st1, p = vals(ck, st, ["p"], tag=tag)
        yield "OFF at a speed", st1, ("*1*0#", p[0], "*", r, "##"), (FALSE,)
        yield "ON at a speed", st1, ("*1*1#", p[0], "*", r, "##"), (TRUE,)
        st1, w = ck.satom(st, f"what_{tag}", L.regex_language(r"[2-9]|1[0-8]|2[0-9]", "fullmatch"))
        yield "level, timed or blinking", st1, ("*1*", w, "*", r, "##"), (TRUE,)
    ev.append(Event(LT, "on_status_change", status))
    ev.append(Event(LT, "on_temporization_change", dimension("2", 3, ints)))
    ev.append(Event(DM, "on_luminosity_change", dimension("1", 2, ints), item=LT))
    ev.append(Event(DM, "on_hsv_change", dimension("12", 3, ints), item=LT))
    ev.append(Event(DM, "on_white_temp_change", dimension("14", 1, ints), item=LT))

    def automation(ck, st, who, r, tag):
        for w, n in (("0", "STOP"), ("1", "UP"), ("2", "DOWN")):
            yield n, st, (f"*2*{w}*", r, "##"), (("ENUM", "WhatAutomation", n),)
    ev.append(Event(AU, "on_status_change", automation))

    def camera(ck, st, who, r, tag):
        for w, n in camera_codes(ck).items():
            yield n, st, (f"*7*{w}*", r, "##"), (("ENUM", "WhatCamera", n), ("MSG", cat([Const(f"*7*{w}*"), r, Const("##")])))
    ev.append(Event(CA, "on_status_change", camera))

    def mask(ck, st, who, r, tag):
        n = len(STOPGO)
        for m in [0, (1 << n) - 1] + [1 << k for k in range(n)] + [0b1010101010101, 0b1100110011001]:
            yield f"{m:013b}", st, ("*#18*", r, f"*250*{m:013b}##"), (("OBJ", "StopGoStatus", {nm: Const(bool(m >> k & 1)) for k, nm in enumerate(STOPGO)}),)

    def decoded(dim, spec, params=0, first=False):
        def f(ck, st, who, r, tag):
            st, ps = vals(ck, st, [f"p{k}" for k in range(params)], tag=tag)
            for label, s, vs, e in values(ck, st, spec, tag):
                for w in ("", "#") if who == "13" else ("",):
                    parts = [f"*#{who}*", r, f"*{w}{dim}"]
                    for p in ps:
                        parts += ["#", p]
                    for v in vs:
                        parts += ["*", v]
                    e2 = (e,) if not (isinstance(e, tuple) and isinstance(e[0], V)) else e
                    yield label + (" written" if w else ""), s, tuple(parts + ["##"]), tuple(INT(p) for p in ps) + e2
        return f
    pv = lambda k: lambda ps, vs: (INT(ps[0]),) * (k > 1) + tuple(INT(v) for v in vs[:-1]) + (FLT(vs[-1]),)       # noqa: E731
    fl = lambda ps, vs: (FLT(vs[0]),)        # noqa: E731
    ev.append(Event(EN, "on_daily_totalizers_hourly", dimension("511", 2, lambda ps, vs: (INT(ps[1]), INT(ps[0]), INT(vs[0]), FLT(vs[1])), 2)))
    for n, d in (("on_monthly_average_hourly", "512"), ("on_monthly_totalizers_current_year", "513"), ("on_monthly_totalizers_last_year", "514")):
        ev.append(Event(EN, n, dimension(d, 2, pv(2), 1)))
    ev.append(Event(EN, "on_stop_go_status", mask))
    for n, d in (("on_instant_power", "113"), ("on_energy_unit_totalizer", "51"), ("on_partial_totalizer_current_month", "53"), ("on_partial_totalizer_current_day", "54")):
        ev.append(Event(EN, n, dimension(d, 1, fl)))
    ev.append(Event(EN, "on_energy_unit_per_month", dimension("52", 1, lambda ps, vs: (INT(ps[1]), INT(ps[0]), FLT(vs[0])), 2)))
    ev.append(Event(EN, "on_actuators_info", decoded("71", "actuator")))
    ev.append(Event(EN, "on_totalizer_since_reset", decoded("72", "totalizer", 1)))
    ev.append(Event(EN, "on_differential_current_level", dimension("73", 1, ints)))
    for n, d, spec in (("TIME", "0", "time"), ("DATE", "1", "date"), ("IP_ADDRESS", "10", "ip"), ("NET_MASK", "11", "netmask"), ("MAC_ADDRESS", "12", "mac"), ("DEVICE_TYPE", "15", "model"),
                       ("FIRMWARE_VERSION", "16", "version"), ("UPTIME", "19", "uptime"), ("DATE_TIME", "22", "datetime"), ("KERNEL_VERSION", "23", "version"),
                       ("DISTRIBUTION_VERSION", "24", "version")):
        ev.append(Event(GW, "register_callback", decoded(d, spec), what=n))
    return ev


class Refused(Exception):
    """Registering a callback raises."""


class Loop:
    """An event client; callbacks registered through the public registration functions."""

    def __init__(self, ck):
        self.ck, self.ip = ck, ck.ip
        self.w = World(ck)
        self.st, self.c = self.w.started(ck.st, "EventSession")
        self.gw = members(ck, ck.st, GWM)

    def callback(self, st, mode=None):
        return M.ext_inst(self.ip, st, "verif.Callback", mode=Const(mode) if mode else NONE)

    def register(self, st, ev, mode=None):
        ck = self.ck
        st, cb = self.callback(st, mode)
        for s, f in ck.get(st, ck.r(ev.cls), ev.reg):
            if isinstance(f, ABN):
                raise AnalysisError(f"anchor vanished: {ev.label}")
            args = (self.gw[ev.what][0], cb) if ev.what else (cb,)
            outs = [(s2, r) for s2, r in ck.call(s, f, *args) if not s2.taint]
            if len(outs) == 1 and isinstance(outs[0][1], ABN):
                raise Refused(ev, outs[0])
            if len(outs) != 1:
                raise Exception(f"{ev.label} cannot be called: " + "; ".join(ck.ip.describe_abn(x, r) if isinstance(r, ABN) else "ok" for x, r in outs))
            return outs[0][0], cb

    def run(self, st, *steps, **kw):
        """Runs loop() on the script, the connection being lost at the end, then everything scheduled: yields (state, end)."""
        ck = self.ck
        st = self.w.script(st, *steps, LOST)
        for s, r in ck.mcall(st, self.c, "loop", **kw):
            for s2 in M.run_ready(ck.ip, s):
                yield s2, r

    def where(self):
        return self.ck.where(self.ck.method(self.ck.r("pyown.client:Client"), "loop"))


def ran(s):
    return [p for k, p, loc in s.events("ran")]


def frame_where(ck, st, ev, tag, bus=False):
    if ev.cls == EN and ev.reg == "on_stop_go_status":
        return reply_where(ck, st, SG, tag)
    if ev.cls == EN and ev.reg in ("on_instant_power", "on_energy_unit_totalizer", "on_daily_totalizers_hourly"):
        st, r = ck.satom(st, f"R{tag}", DP)
        return st, cat([Const("5"), r])
    return reply_where(ck, st, ev.item, tag, bus)


def check_run(ck, lp, s, p, cb, ev, r, want, client, where, what):
    """One invocation: callback cb with (item, *want)."""
    key = f"{ev.cls.split(':')[1]}-{ev.reg}" + (f"-{ev.what}" if ev.what else "")
    if p[0] != cb:
        return False
    args = p[1:]
    if len(args) != 1 + len(want):
        ck.violation(key, where, f"{what}: the callback gets {len(args)} arguments ({', '.join(text(ck, s, norm(ck, s, x)) for x in args)}), documented {1 + len(want)}", ck.trace_text(s))
        return True
    it = args[0]
    cell = s.get(it.addr) if isinstance(it, Ref) else None
    if not isinstance(cell, Inst) or ev.item.split(":")[1] not in [k.name for k in cell.cls.mro]:
        ck.violation(key, where, f"{what}: the first argument is {ck.show(s, it)}, not the {ev.item.split(':')[1]} item", ck.trace_text(s))
        return True
    if ev.item != GW:
        s2, wv = ck.get1(s, it, "where")
        judge(ck, s2, wv, ("TAG", r), key, where, f"{what}: address of the item")
    s2, cl = ck.get1(s, it, "client")
    if cl != client:
        ck.violation(key + "-client", where, f"{what}: the item does not use the client given to the loop", ck.trace_text(s))
    for k, (g, e) in enumerate(zip(args[1:], want)):
        if isinstance(e, tuple) and e[0] == "MSG":
            for s3, t in ck.ip.to_str(s, g):
                if t != e[1]:
                    ck.violation(key, where, f"{what}: argument {k + 1} is {ck.show(s3, t)}, not the message", ck.trace_text(s))
            continue
        judge(ck, s, g, e, key, where, f"{what}: argument {k + 1}")
    return True


@prop("P20", "The event loop is interpreted, from the bytes received to the tasks scheduled, for every kind of event of every item family with opaque contents, with two callbacks "
             "registered for the event and one for each other event: the invocations and their abstract arguments must be exactly the documented ones, in registration order.")
def p20(ck):
    ck.rules.append("event => each callback registered for it is scheduled once, in order, with (item, documented values); no other callback is invoked")
    lp = Loop(ck)
    evs = table(ck)
    where = lp.where()
    st, others = lp.st, {}
    for ev in list(evs):
        try:
            st, others[ev] = lp.register(st, ev)
        except Refused as e:
            with ck.obligation(f"{ev.label}: registration"):
                f = ck.method(ck.r(ev.cls), ev.reg)
                ck.violation(f"{ev.label}-registration", ck.where(f), f"registering a callback with {ev.label}: {ck.ip.describe_abn(*e.args[1])}", ck.trace_text(e.args[1][0]))
            evs.remove(ev)
    base = st
    st, cmd = lp.w.client(base)
    for ev in evs:
        # two more callbacks of this event: three in all, the first registered before everything else
        st1, b = lp.register(st, ev)
        st1, c = lp.register(st1, ev)
        mine = [others[ev], b, c]
        for bus in (False, True) if ev.cls in (LT, DM, AU) else (False,):
            s0, r = frame_where(ck, st1, ev, "x", bus)
            for label, s0, parts, want in ev.frames(ck, s0, WHO[ev.cls], r, "x"):
                what = f"{ev.label} {label}"
                with ck.obligation(what):
                    n = 0
                    for s, end in lp.run(s0, data(*parts), client=cmd):
                        if not ck.clean(s, what):
                            continue
                        n += 1
                        rs = ran(s)
                        if [p[0] for p in rs] != mine:
                            names = [("itself" if p[0] in mine else next((e.label for e, x in others.items() if x == p[0]), "?")) for p in rs]
                            ck.violation(f"{ev.label}-invocations", where, f"{what}: {len(rs)} callbacks run ({', '.join(names) or 'none'}), must be the 3 registered for the event, in order", ck.trace_text(s))
                            continue
                        for p, cb in zip(rs, mine):
                            check_run(ck, lp, s, p, cb, ev, r, want, cmd, where, what)
                        ck.sample(f"{what}: {', '.join(text(ck, s, norm(ck, s, x)) for x in rs[0][2:])[:120]}")
                    if not n and not ck.undecided_:
                        ck.undecided(what, "no path")
    sequences(ck, lp, evs, base, others, where)
    crowded(ck, lp, evs, base, others, where)
    silent(ck, lp, base, where)


def sequences(ck, lp, evs, st, others, where):
    """Two events in a row, and the second again: every one is delivered with its own data, for one item."""
    for ev in evs:
        if ev.what and ev.what not in ("TIME", "IP_ADDRESS"):
            continue
        for ev2 in [e for e in evs if e.item == ev.item and e != ev and frame_family(e) == frame_family(ev)][:1] + [ev]:
            with ck.obligation(f"{ev.label} then {ev2.label}"):
                s0, r = frame_where(ck, st, ev, "x")
                l1, s0, p1, w1 = next(iter(ev.frames(ck, s0, WHO[ev.cls], r, "x")))
                l2, s0, p2, w2 = next(iter(ev2.frames(ck, s0, WHO[ev2.cls], r, "y")))
                for steps in ([data(*p1), data(*p2)], [data(*p1, *p2)]):
                    for s, end in lp.run(s0, *steps):
                        if not ck.clean(s, "sequence"):
                            continue
                        rs = ran(s)
                        if [p[0] for p in rs] != [others[ev], others[ev2]]:
                            ck.violation(f"sequence-{ev.label}", where, f"{ev.label} followed by {ev2.label}: {len(rs)} callbacks run", ck.trace_text(s))
                            continue
                        check_run(ck, lp, s, rs[0], others[ev], ev, r, w1, lp.c, where, ev.label)
                        check_run(ck, lp, s, rs[1], others[ev2], ev2, r, w2, lp.c, where, ev2.label)
                        if rs[0][1] != rs[1][1]:
                            ck.violation(f"sequence-item-{ev.label}", where, f"two events of one address give two items ({ev.label}, {ev2.label})", ck.trace_text(s))


def crowded(ck, lp, evs, st, others, where):
    """Events of several addresses in a row, among them the general, area, group and local-bus ones: each concerns the item at its own address, once."""
    lists = {LT: ["11", "12", "0", "1", "#1", "11#4#01", "0#4#01", "11", "0", "00", "100"], EN: ["51", "52", "51", "5255"], "7": ["71#0", "72#0", "71#0"], "SG": ["11", "12", "11"]}
    for ev in evs:
        if ev.cls == GW:
            continue
        addrs = lists["SG" if ev.reg == "on_stop_go_status" else "7" if ev.cls == EN and frame_family(ev) == "7" else EN if ev.cls == EN else LT]
        with ck.obligation(f"{ev.label} at several addresses"):
            s0, exp = st, []
            for i, a in enumerate(addrs):
                l1, s0, p1, w1 = next(iter(ev.frames(ck, s0, WHO[ev.cls], Const(a), f"c{i}")))
                exp.append((a, p1, w1))
            for s, end in lp.run(s0, *[data(*p) for a, p, w in exp]):
                if not ck.clean(s, "addresses"):
                    continue
                rs = ran(s)
                if [p[0] for p in rs] != [others[ev]] * len(exp):
                    ck.violation(f"crowd-{ev.label}", where, f"{ev.label} for {len(exp)} events at {', '.join(addrs)}: {len(rs)} callbacks run", ck.trace_text(s))
                    continue
                items = {}
                for p, (a, _, w) in zip(rs, exp):
                    check_run(ck, lp, s, p, others[ev], ev, Const(a), w, lp.c, where, f"{ev.label} at {a} after other addresses")
                    if items.setdefault(a, p[1]) != p[1]:
                        ck.violation(f"crowd-item-{ev.label}", where, f"two events of address {a} give two items ({ev.label})", ck.trace_text(s))


def frame_family(ev):
    return "SG" if ev.reg == "on_stop_go_status" else "5" if ev.reg in ("on_instant_power", "on_energy_unit_totalizer", "on_daily_totalizers_hourly") else "7"


def other_messages(ck, st, whos):
    """Messages that are no documented event: yields (label, state, parts)."""
    st, r = ck.satom(st, "R", DP)
    st, x = ck.satom(st, "x", DP)
    yield "ACK", st, ("*#*1##",)
    yield "NACK", st, ("*#*0##",)
    st1, d = ck.satom(st, "dim", DP - L.const("1") - L.const("2") - L.const("12") - L.const("14"))
    yield "another lighting dimension", st1, ("*#1*", r, "*", d, "*", x, "*", x, "*", x, "##")
    yield "an automation dimension", st, ("*#2*", r, "*10*", x, "##")
    yield "a camera dimension", st, ("*#7*", r, "*10*", x, "##")
    for k in range(251, 264):
        yield f"energy dimension {k}", st, ("*#18*1", r, f"*{k}*1##")
    st1, d = ck.satom(st, "dim", DP - L.regex_language("0|1|10|11|12|15|16|19|22|23|24", "fullmatch"))
    yield "another gateway dimension", st1, ("*#13**", d, "*", x, "##")
    for n, num, ref in whos:
        yield f"status request of WHO {num}", st, (f"*#{num}*", r, "##")
        if num not in ("1", "2", "7", "13", "18"):
            yield f"normal message of WHO {num}", st, (f"*{num}*", x, "*", r, "##")
            yield f"dimension of WHO {num}", st, (f"*#{num}*", r, "*2*", x, "*", x, "*", x, "##")
    yield "message of an unknown WHO", st, ("*999*1*", r, "##")


def silent(ck, lp, st, where):
    whos = who_members(ck)
    for label, s0, parts in other_messages(ck, st, whos):
        with ck.obligation(f"no callback for: {label}"):
            for s, end in lp.run(s0, data(*parts)):
                if ck.clean(s, label) and ran(s):
                    ck.violation(f"silent-{label}", where, f"{label}: {len(ran(s))} callbacks are invoked although it is none of their events", ck.trace_text(s))


# ------------------------------------------------------------------------------------------------ P21
def any_messages(ck, st, whos):
    """Messages of every kind and WHO with opaque or missing contents: yields (label, state, parts)."""
    one = L.const("#") + DP
    few = L.const("") | one | (one + one) | (one + one + one)           # up to three parameters per tag
    sc, par = D.star() + few, DP + few
    st, x = ck.satom(st, "x", sc)
    st, nonce = ck.satom(st, "nonce", DP)
    nums = [num for n, num, ref in whos] + ["999"]
    dims = {"1": ["1", "2", "12", "14", "8"], "13": ["0", "1", "10", "11", "12", "15", "16", "19", "22", "23", "24", "99"], "2": ["10"], "7": ["1"],
            "18": ["511", "512", "513", "514", "250", "113", "51", "52", "53", "54", "71", "72", "73", "1200", "251", "99"]}
    wheres = {"18": [L.const("5") + DP, L.const("7") + DP + L.const("#0"), L.const("1") + DP, sc], "13": [L.const("")]}
    yield "ACK", st, ("*#*1##",)
    yield "NACK", st, ("*#*0##",)
    yield "nonce", st, ("*#", nonce, "##")
    for num in nums:
        for i, lg in enumerate(wheres.get(num, [sc])):
            st1, r = ck.satom(st, "R", lg)
            yield f"normal, WHO {num}", st1, (f"*{num}*", x, "*", r, "##")
            yield f"status request, WHO {num}", st1, (f"*#{num}*", r, "##")
            yield f"two fields, WHO {num}", st1, (f"*{num}*", x, "##")
            yield f"dimension request, WHO {num}", st1, (f"*#{num}*", r, "*", x, "##")
            for d in dims.get(num, ["7"]):
                if i and not ck.thorough and d not in ("51", "52", "250", "72"):
                    continue
                yield f"dimension request {d}, WHO {num}", st1, (f"*#{num}*", r, f"*{d}##")
                top = 9 if num == "13" else 7 if num == "18" else 4
                for k in range(0, top):
                    # all values digits; then one of them anything a tag can be (also empty)
                    wild = [None] + ([k - 1] if k and not ck.thorough else list(range(k)))
                    for wl in wild:
                        s2, vs = vals(ck, st1, [f"v{j}" for j in range(k)], {f"v{j}": sc if j == wl else DP for j in range(k)}, "m")
                        body = [p for v in vs for p in ("*", v)]
                        for w in ("", "#") if num in ("13", "1") and wl is None else ("",):
                            yield f"dimension {w}{d} with {k} values, WHO {num}", s2, (f"*#{num}*", r, f"*{w}{d}", *body, "##")
                        if num == "18" and d in ("511", "512", "513", "514", "52", "72") and wl is None:
                            s3, p = ck.satom(s2, "par", par)
                            yield f"dimension {d} with a parameter and {k} values, WHO {num}", s3, (f"*#{num}*", r, f"*{d}#", p, *body, "##")
                            yield f"dimension {d} with two parameters and {k} values, WHO {num}", s3, (f"*#{num}*", r, f"*{d}#", p, "#3", *body, "##")


# imprecisions that only add outcomes: a path that survives them survives in every case
ADDITIVE = ("timezone offset", "ip address text", "day of month", "integer literal with sign or underscore", "int literal")


MODES = ["Exception", "KeyError", "TypeError", "asyncio.CancelledError", "raise on call", "not a coroutine", "blocks"]


@prop("P21", "The event loop is interpreted on every kind of message for every WHO with opaque and missing contents, and with callbacks that fail in every way; on every path a "
             "following event must reach its callback and the loop must end only with the connection.")
def p21(ck):
    ck.assumptions.append("at most four parameters per tag of a received message")
    ck.rules.append("message; then an event with a registered callback: on every path the second is delivered and the loop leaves only when the connection is lost")
    lp = Loop(ck)
    where = lp.where()
    evs = table(ck)
    st = lp.st
    for ev in evs:
        st, _ = lp.register(st, ev)
    sent = [e for e in evs if e.cls == AU][0]
    st, mark = lp.register(st, sent)
    S2 = data("*2*1*77##")
    bare = lp.register(lp.st, sent)
    whos = who_members(ck)
    for label, s0, parts in any_messages(ck, st, whos):
        with ck.obligation(label):
            survive(ck, lp, lp.run(s0, data(*parts), S2), mark, where, label, parts)
        ck.count("messages")
    with ck.obligation("no callback registered"):
        s0, m2 = bare
        for label, s1, parts in ((l, s, p) for l, s, p in any_messages(ck, s0, whos[:3]) if "dimension" not in l or " 3 values" in l):
            survive(ck, lp, lp.run(s1, data(*parts), S2), m2, where, label + ", no callbacks", parts)
    for ev in evs:
        for mode in MODES:
            with ck.obligation(f"{ev.label}: callback that fails ({mode})"):
                s0 = lp.st
                s0, bad = lp.register(s0, ev, mode)
                s0, good = lp.register(s0, ev)
                s0, mk = lp.register(s0, sent)
                s0, r = frame_where(ck, s0, ev, "x")
                label, s0, parts, want = next(iter(ev.frames(ck, s0, WHO[ev.cls], r, "x")))
                S3 = S2
                if ev is sent and mode in ("raise on call", "not a coroutine", "blocks"):
                    continue            # the failing callback is registered for the second event, too
                outs = lp.run(s0, data(*parts), S3)
                survive(ck, lp, outs, mk, where, f"{ev.label} with a callback that fails ({mode})", parts, good if mode in MODES[:4] else None)
    with ck.obligation("the gateway is silent for a long time"):
        s0, mk = bare
        for k, steps in enumerate(((SILENCE, S2), (S2, SILENCE, S2), (SILENCE, SILENCE, S2), (data("*#*1##"), SILENCE, S2), (data("*2*1*7"), SILENCE, data("7##")))):
            survive(ck, lp, lp.run(s0, *steps), mk, where, "silence", ("no message for a long time",))
            survive(ck, lp, lp.run(st, *steps), mark, where, "silence", ("no message for a long time",))
    with ck.obligation("long series of messages that are no events"):
        s0, mk = bare
        n = 60 if not ck.thorough else 400
        for k, series in enumerate((("*#*1##",), ("*#*0##",), ("*#5##", "*99*1*1##"), ("*4*1*12##", "*#4*1*0*0250##"), ("*#1*12##", "*#1*12*1##"),
                                    ("*#13**99*1##", "*#13**0##", "*#13**0*1##"), ("*#18*9*113*5##", "*#18*51*113##", "*18*1*51##"), ("*7*1##", "*7*9999*4000##"), ("*1*1000#1*12##", "*2*9*12##"))):
            text = "".join(series[i % len(series)] for i in range(n * 5 if k < 3 else n))
            for s1, m1 in ((s0, mk), (st, mark)):
                survive(ck, lp, lp.run(s1, data(text), S2), m1, where, f"many messages like {' '.join(series)}", (text[:60] + "...",))
    with ck.obligation("a callback that failed gets the next event"):
        def ready(w, s):
            yield from M.run_ready(ck.ip, s)
        for ev in evs:
            for mode in MODES[:3] if ev.cls in (LT, GW) or ck.thorough else MODES[:1]:
                s0, bad = lp.register(lp.st, ev, mode)
                s0, good = lp.register(s0, ev)
                s0, r = frame_where(ck, s0, ev, "x")
                label, s0, parts, want = next(iter(ev.frames(ck, s0, WHO[ev.cls], r, "x")))
                steps = [x for i in range(3) for x in (data(*parts), ("fn", ready), ("fn", ready))]
                for s, end in lp.run(s0, *steps):
                    if not ck.clean(s, ev.label):
                        continue
                    for cb, name in ((bad, "the callback that fails"), (good, "the other callback")):
                        k = [p[0] for p in ran(s)].count(cb)
                        if k != 3:
                            ck.violation("callback-forgotten", where, f"{ev.label}: {name} is invoked {k} times for three events, one after the other ({mode})", ck.trace_text(s))
    with ck.obligation("several failures in a row"):
        s0 = lp.st
        ev = evs[0]
        for mode in MODES[:4]:
            s0, bad = lp.register(s0, ev, mode)
        s0, mk = lp.register(s0, sent)
        s0, r = frame_where(ck, s0, ev, "x")
        label, s0, parts, want = next(iter(ev.frames(ck, s0, WHO[ev.cls], r, "x")))
        survive(ck, lp, lp.run(s0, data(*parts, *parts), data(*parts), S2), mk, where, "several failing callbacks", parts)


def additive(s):
    ts = s.taint if isinstance(s.taint, (list, tuple, set, frozenset)) else [s.taint]
    return all(str(x) in ADDITIVE for x in ts)


def survive(ck, lp, outs, mark, where, label, parts, good=None):
    n = 0
    for s, end in outs:
        fine = not isinstance(end, ABN) and mark in [p[0] for p in ran(s)] and (good is None or good in [p[0] for p in ran(s)])
        if fine and s.taint and additive(s):
            n += 1
            continue
        if not ck.clean(s, label):
            continue
        n += 1
        if fine:
            continue
        msg = ck.show(s, cat([Const(p) if isinstance(p, str) else p for p in parts]))
        if isinstance(end, ABN):
            ck.violation("loop-ends", where, f"{label}: after {msg} the loop ends: {ck.ip.describe_abn(s, end)}", ck.trace_text(s))
        elif mark not in [p[0] for p in ran(s)]:
            ck.violation("loop-stops", where, f"{label}: the event that follows {msg} is not delivered", ck.trace_text(s))
        elif good is not None and good not in [p[0] for p in ran(s)]:
            ck.violation("callback-lost", where, f"{label}: the other callback of the event does not run", ck.trace_text(s))
    if not n and not ck.undecided_:
        ck.undecided(label, "no path")
