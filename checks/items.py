"""P14-P19, P27, P28: items - commands, requests, their frames and the decoding of replies."""
from .common import *
from .env import LOST, SILENCE, World, data, writes
from .messages import CLEAN, DP, D, build, same, to_bytes, who_members

LT, DM = "pyown.items.lighting:Light", "pyown.items.lighting:Dimmer"
AU, CA = "pyown.items:Automation", "pyown.items:Camera"
EN, SG = "pyown.items.energy:EnergyManagement", "pyown.items.energy:StopGo"
GW = "pyown.items:Gateway"
WHO = {LT: "1", DM: "1", AU: "2", CA: "7", EN: "18", SG: "18", GW: "13"}
N255 = L.regex_language(r"[1-9][0-9]?|1[0-9][0-9]|2[0-4][0-9]|25[0-5]", "fullmatch")
WHERES = {LT: CLEAN, DM: CLEAN, AU: CLEAN, CA: CLEAN, EN: L.const("7") + N255 + L.const("#0"),
          SG: L.const("1") + L.regex_language(r"[1-9][0-9]?|1[01][0-9]|12[0-7]", "fullmatch"), GW: None}
# what a WHERE of the class can look like in replies
BIT = L.const("0") | L.const("1")


class Op:
    """One command or request of an item class, as documented."""

    def __init__(self, cls, name, frame, args=(), kind="cmd", reply=None, key=None, call=None):
        self.cls, self.name, self.frame, self.args, self.kind, self.reply = cls, name, frame, list(args), kind, reply
        self.key = key or f"{cls.split(':')[1].lower()}-{name}"
        self.call = call or {}
        self.pos = ()

    @property
    def label(self):
        return f"{self.cls.split(':')[1]}.{self.name}({', '.join(a[0] for a in self.args)})"


def A(name, lo=None, hi=None, bounded=True):
    """Integer argument with its documented range; bounded: values outside are refused."""
    return (name, lo, hi, bounded)


def table():
    """The commands and requests of the protocol documents (docs/original/who*.md)."""
    ops = []

    def cmd(cls, name, what, args=(), **kw):
        ops.append(Op(cls, name, ("what", what), args, **kw))

    def write(cls, name, dim, vals, args, **kw):
        ops.append(Op(cls, name, ("write", dim, vals), args, **kw))

    def req(cls, name, dim, reply, args=(), kind="dim", **kw):
        ops.append(Op(cls, name, ("dim", dim) if dim is not None else ("status",), args, kind=kind, reply=reply, **kw))

    for c in (LT, DM):
        cmd(c, "turn_on", ["1"])
        cmd(c, "turn_off", ["0"])
        for n, w in (("1_min", "11"), ("2_min", "12"), ("3_min", "13"), ("4_min", "14"), ("5_min", "15"), ("15_min", "16"), ("0_5_sec", "18")):
            cmd(c, "turn_on_" + n, [w])
        # WHO 1 documents no 30 minute command: see known_findings.txt
        cmd(c, "turn_on_30_min", ["?"], key="light-turn_on_30_min")
        write(c, "temporization_command", ["2"], ["hour", "minute", "second"], [A("hour", 0, 23), A("minute", 0, 59), A("second", 0, 59)])
        req(c, "temporization_request", ["2"], ("where", 0, 1, 2))
        req(c, "request_working_time_lamp", ["8"], ("where", 0))
    for i in range(10):
        cmd(LT, f"blink_{(i + 1) // 2}_{5 * ((i + 1) % 2)}_sec", [str(20 + i)])
    req(LT, "get_status", None, "light", kind="status")
    cmd(DM, "turn_on", ["1", "#", "speed"], [A("speed", 0, 255)], key="dimmer-turn_on-speed")
    cmd(DM, "turn_off", ["0", "#", "speed"], [A("speed", 0, 255)], key="dimmer-turn_off-speed")
    for i in range(2, 11):
        cmd(DM, f"set_{i}0_percent", [str(i)])
    for n, w in (("up_percent", "30"), ("down_percent", "31")):
        cmd(DM, n, [w])
        cmd(DM, n, [w, "#", "value"], [A("value", 0, 100)], key=f"dimmer-{n}-value")
        cmd(DM, n, [w, "#", "value", "#", "speed"], [A("value", 0, 100), A("speed", 0, 255)], key=f"dimmer-{n}-value-speed")
        cmd(DM, n, [w, "#1#", "speed"], [A("speed", 0, 255)], key=f"dimmer-{n}-speed")
    write(DM, "set_brightness_with_speed", ["1"], ["brightness", "speed"], [A("brightness", 100, 200, False), A("speed", 0, 255, False)])
    write(DM, "set_hsv", ["12"], ["hue", "saturation", "value"], [A("hue", 0, 359), A("saturation", 0, 100), A("value", 0, 100)])
    write(DM, "set_white_temperature", ["14"], ["temperature"], [A("temperature", 1, 65534)])
    req(DM, "get_status", None, "dimmer", kind="status")
    req(DM, "request_current_brightness_speed", ["1"], ("where", 0, 1))
    req(DM, "request_current_hsv", ["12"], ("where", 0, 1, 2))
    req(DM, "request_current_white_temperature", ["14"], ("where", 0))

    for n, w in (("stop", "0"), ("up", "1"), ("down", "2")):
        cmd(AU, n, [w])
    req(AU, "get_status", None, "automation", kind="status")

    cmd(CA, "receive_video", ["0"])
    nw = {"free_resources": 9, "zoom_in": 120, "zoom_out": 121}
    for i, n in ((130, "x_coordinate"), (140, "y_coordinate"), (150, "luminosity"), (160, "contrast"), (170, "color"), (180, "quality")):
        nw["increase_" + n], nw["decrease_" + n] = i, i + 1
    for n, w in nw.items():
        ops.append(Op(CA, n, ("bare", [str(w)])))
    for x in range(1, 5):
        for y in range(1, 5):
            ops.append(Op(CA, "display_dial", ("bare", [f"3{x}{y}"]), key=f"camera-dial-{x}{y}", call={"x": Const(x), "y": Const(y)}))

    cmd(EN, "start_sending_daily_totalizers_hourly", ["57#", "month", "#", "day"], [A("day", 1, 31, False), A("month", 1, 12, False)])
    for n, w in (("average_hourly", "58"), ("totalizers_current_year", "59"), ("totalizers_last_year", "510")):
        cmd(EN, "start_sending_monthly_" + n, [w + "#", "month"], [A("month", 1, 12, False)])
    cmd(EN, "enable_actuator", ["71"])
    cmd(EN, "force_actuator_on", ["73"])
    cmd(EN, "force_actuator_on", ["73#", "time"], [A("time", 1, 254, False)], key="energy-force-time")
    cmd(EN, "force_actuator_off", ["74"])
    cmd(EN, "reset_totalizers", ["75#", "tot_n"], [A("tot_n", 1, 2, False)])
    write(EN, "start_sending_instant_power", ["1200#", "power_type"], ["time"], [A("time", 1, 255, False), A("power_type", 1, 9, False)])
    write(EN, "start_sending_instant_power", ["1200#1"], ["time"], [A("time", 1, 255, False)], key="energy-power-default")
    write(EN, "stop_sending_instant_power", ["1200#", "power_type"], ["0"], [A("power_type", 1, 9, False)])
    write(EN, "stop_sending_instant_power", ["1200#1"], ["0"], [], key="energy-stop-default")
    for n, d in (("get_active_power", "113"), ("get_energy_unit_totalizer", "51"), ("get_partial_totalizer_current_month", "53"),
                 ("get_partial_totalizer_current_day", "54")):
        req(EN, n, [d], ("float", 0), kind="single")
    req(EN, "get_energy_unit_per_month", ["52#", "year", "#", "month"], ("float", 0), [A("month", 1, 12, False), A("year", 0, 99, False)], kind="single")
    req(EN, "get_actuators_info", ["71"], "actuator", kind="single")
    req(EN, "get_totalizers", ["72#", "tot_n"], "totalizer", [A("tot_n", 1, 2, False)], kind="single")
    req(EN, "get_differential_current_level", ["73"], ("int", 0), kind="single")
    cmd(SG, "enable_automatic_reset", ["26"])
    cmd(SG, "disable_automatic_reset", ["27"])
    req(SG, "request_status", ["250"], "stopgo", kind="stopgo")

    for n, d, r in (("get_time", "0", "time"), ("get_date", "1", "date"), ("get_ip", "10", "ip"), ("get_netmask", "11", "netmask"), ("get_macaddress", "12", "mac"),
                    ("get_model", "15", "model"), ("get_firmware", "16", "version"), ("get_uptime", "19", "uptime"), ("get_datetime", "22", "datetime"),
                    ("get_kernel_version", "23", "version"), ("get_distribution_version", "24", "version")):
        req(GW, n, [d], r, kind="single")
    return ops


class Items:
    """A started command client and one item of each class."""

    def __init__(self, ck, session="CommandSession"):
        self.ck, self.ip = ck, ck.ip
        self.w = World(ck)
        self.st, self.c = self.w.started(ck.st, session)

    def item(self, cls, st=None, lang=None, name="W"):
        """(state, item, address value)"""
        ck = self.ck
        st = st or self.st
        if cls == GW:
            outs = list(ck.call(st, ck.r(cls), self.c))
            a = Const("")
        else:
            st, a = ck.satom(st, name, lang or WHERES[cls])
            outs = list(ck.call(st, ck.r(cls), self.c, a))
        outs = [o for o in outs if not o[0].taint]
        if len(outs) != 1 or isinstance(outs[0][1], ABN):
            raise Exception(f"{cls} cannot be created: " + "; ".join(self.ip.describe_abn(s, v) if isinstance(v, ABN) else "ok" for s, v in outs))
        return outs[0][0], outs[0][1], a

    def args(self, st, op, over=None):
        """Arguments within their documented ranges."""
        kw = dict(op.call)
        for n, lo, hi, _ in op.args:
            if over and n in over:
                lo, hi = over[n]
            if lo is not None and lo == hi:
                kw[n] = Const(lo)
            else:
                st, kw[n] = self.ck.iatom(st, n, lo, hi)
        return st, kw

    def run(self, st, it, op, kw, *steps):
        """Yields (state, [values], end): end None or an abnormal outcome."""
        ck = self.ck
        st = self.w.script(st, *steps)
        for s, f in ck.get(st, it, op.name):
            if isinstance(f, ABN):
                raise AnalysisError(f"anchor vanished: {op.label}")
            for s1, v in ck.call(s, f, *op.pos, **kw):
                if isinstance(v, Coro):
                    yield from ck.drain(s1, v)
                elif isinstance(v, ABN):
                    yield s1, [], v
                else:
                    yield s1, [v], None

    ELSEWHERE = {EN: "79#0", SG: "19", GW: ""}

    def aged(self, cls):
        """(state, item, address): an item with a past. Another item of its class, then the item itself, has done everything it can do, once, with other arguments."""
        ck = self.ck
        st, it, a = self.item(cls)
        st, other = ck.call1(st, ck.r(cls), self.c, *([] if cls == GW else [Const(self.ELSEWHERE.get(cls, "23"))]))
        for x, r in ((other, 8), (it, 9)):
            for op in [o for o in table() if o.cls == cls]:
                kw = {n: Const(hi if hi is not None else 7) for n, lo, hi, _ in op.args} | op.call
                if op.kind == "cmd":
                    steps = [data(ACK)]
                elif op.kind == "stopgo":
                    steps = [data("*#18*19*250*0000000000001##"), data(ACK)]
                else:
                    _, st, ps, _ = next(replies(ck, self, st, op, kw, r, full=False))
                    steps = [data(*ps), data(ACK)]
                outs = [s for s, vals, end in self.run(st, x, op, kw, *steps) if end is None and not s.taint]
                st = outs[0] if outs else st
        st = self.w.script(st).copy()
        st.trace = None
        return st, it, a

    def frame(self, st, op, a, kw, who=None):
        """The documented frame of the operation."""
        who = who or WHO[op.cls]

        def parts(ps):
            out = []
            for p in ps:
                if p in kw:
                    v = kw[p]
                    out += [x for s, x in self.ip.to_str(st, v)][:1]
                else:
                    out.append(Const(p))
            return out
        f = op.frame
        if f[0] == "what":
            x = [Const(f"*{who}*")] + parts(f[1]) + [Const("*"), a, Const("##")]
        elif f[0] == "bare":
            x = [Const(f"*{who}*")] + parts(f[1]) + [Const("##")]
        elif f[0] == "status":
            x = [Const(f"*#{who}*"), a, Const("##")]
        elif f[0] == "dim":
            x = [Const(f"*#{who}*"), a, Const("*")] + parts(f[1]) + [Const("##")]
        else:
            x = [Const(f"*#{who}*"), a, Const("*#")] + parts(f[1])
            for v in f[2]:
                x += [Const("*")] + parts([v])
            x.append(Const("##"))
        return cat(x)

    def where_of(self, op):
        return self.ck.where(self.ck.method(self.ck.r(op.cls), op.name))

    def next_message(self, s):
        """What a read after the operation returns: list of (state, text or abnormal outcome)."""
        out = []
        for s2, m in self.ck.mcall(self.w.script(s), self.c, "read_message"):
            if isinstance(m, ABN):
                out.append((s2, m))
                continue
            for s3, t in self.ip.to_str(s2, m):
                out.append((s3, t))
        return out


ACK, NACK = "*#*1##", "*#*0##"
SENT = "*1*1*77##"        # a message that belongs to somebody else


def reply_kinds(ck, st, who):
    """Replies of every kind as (label, state, parts)."""
    st, x = ck.satom(st, "rx", DP)
    st, y = ck.satom(st, "ry", DP)
    st, z = ck.satom(st, "rz", DP)
    w = Const(who)
    other = Const("1" if who != "1" else "2")
    return [
        ("ACK", st, (ACK,)), ("NACK", st, (NACK,)),
        ("normal", st, ("*", w, "*", x, "*", y, "##")), ("normal of another WHO", st, ("*", other, "*", x, "*", y, "##")),
        ("status request", st, ("*#", w, "*", y, "##")), ("dimension request", st, ("*#", w, "*", y, "*", x, "##")),
        ("dimension response", st, ("*#", w, "*", y, "*", x, "*", z, "##")), ("dimension writing", st, ("*#", w, "*", y, "*#", x, "*", z, "##")),
        ("generic", st, ("*", w, "*", x, "##")), ("unknown WHO", st, ("*999*", x, "*", y, "##")), ("nonce", st, ("*#", x, "##")),
        ("like an ACK", st, ("*#*10##",)), ("an ACK and more", st, ("*#*1*1##",)), ("an ACK with a parameter", st, ("*#*1#0##",)),
    ]


def raw_commands(ck, st):
    """The command primitives every item inherits, called directly: (state, op)."""
    st, x = ck.satom(st, "what", DP)
    out = []
    for cls in (LT, DM, CA):
        for args in ([x], [Const("0")], [Const("12")], [Const("1000#1")]):
            out.append((st, "send_normal_message", cls, ("what", [v.v if isinstance(v, Const) else "what" for v in args]), list(args), {"what": x}))
        for vs in ((), ("1",), ("1", "2"), ("", "7", ""), ("1", "2", "3", "4", "5", "6", "7")):
            s, vals = st, []
            for v in vs:
                s, o = ck.call1(s, ck.r("pyown.tags:Value"), Const(v))
                vals.append(o)
            s2, d = ck.call1(s, ck.r("pyown.tags:Dimension"), Const("4"))
            out.append((s, "send_dimension_writing", cls, ("write", ["4"], list(vs)), [Const("4")] + vals, {}))
            out.append((s2, "send_dimension_writing", cls, ("write", ["4"], list(vs)), [d] + vals, {}))
    r = []
    for i, (s, name, cls, frame, pos, kw) in enumerate(out):
        op = Op(cls, name, frame, key=f"raw-{name}")
        op.pos = tuple(pos)
        r.append((s, op, kw))
    return r


def commands(ops):
    return [o for o in ops if o.kind == "cmd"]


# ------------------------------------------------------------------------------------------------ P14
@prop("P14", "Every command of every item class is interpreted, down to the transport, against every kind of reply, a silent gateway and a lost connection: the write effect must "
             "occur exactly once before the single read, normal completion must be exactly the ACK paths, and the next message must be left for the next reader.")
def p14(ck):
    ck.rules.append("one write, then one read; normal exit iff reply = ACK, else ResponseError; silence => TimeoutError; loss => InvalidSession; the message after the reply stays queued")
    I = Items(ck)
    ops = commands(table()) + clock_ops()
    for op in ops:
        where = I.where_of(op)
        st0, it, a = I.item(op.cls)
        st1, kw = I.args(st0, op)
        if op.reply == "clock":
            st1, kw = op.make(ck, st1)
        kinds = reply_kinds(ck, st1, WHO[op.cls])
        if not ck.thorough and op.frame[0] in ("what", "bare") and not op.args and op.name not in ("turn_on", "stop", "receive_video", "zoom_in", "enable_actuator", "enable_automatic_reset"):
            kinds = [k for k in kinds if k[0] in ("ACK", "NACK", "normal", "dimension response")]
        with ck.obligation(op.label if not op.call else op.key):
            p14_one(ck, I, op, where, st1, it, kw, kinds)
    for i, (st, op, kw) in enumerate(raw_commands(ck, I.st)):
        with ck.obligation(f"{op.label} called directly, {i}"):
            st1, it, a = I.item(op.cls, st=st)
            p14_one(ck, I, op, I.where_of(op), st1, it, {}, reply_kinds(ck, st1, WHO[op.cls]))
    ck.sample("replies: " + ", ".join(k[0] for k in reply_kinds(ck, ck.st, "1")))
    pasts = {}
    for op in ops:
        where = I.where_of(op)
        if op.cls not in pasts:
            pasts[op.cls] = I.aged(op.cls)
        st0, it, a = pasts[op.cls]
        st1, kw = op.make(ck, st0) if op.reply == "clock" else I.args(st0, op)
        with ck.obligation(f"{op.label if not op.call else op.key} on an item with a past"):
            again(ck, I, op, where, st1, it, kw)
    with ck.obligation("a message received before the command"):
        for op in ops:
            st0, it, a = I.item(op.cls)
            st1, kw = op.make(ck, st0) if op.reply == "clock" else I.args(st0, op)
            for s0 in I.w.do(st1, data(ACK, SENT)):
                for s, vals, end in I.run(s0, it, op, kw):
                    if not ck.clean(s, op.label):
                        continue
                    one_write(ck, s, op, I.where_of(op), "already received")
                    if end is not None:
                        ck.violation(f"{op.key}-before", I.where_of(op), f"{op.label}: an ACK that is already there is not taken as the reply: {ck.ip.describe_abn(s, end)}", ck.trace_text(s))
                    else:
                        leftover(ck, I, s, op, I.where_of(op), "already received")


def again(ck, I, op, where, st1, it, kw):
    """The same command three times in a row, each with its own reply."""
    sts = [st1]
    for i, (reply, good) in enumerate(((ACK, True), (NACK, False), (ACK, True), (ACK, True))):
        nxt = []
        for s0 in sts:
            s0 = s0.copy()
            s0.trace = None
            for s, vals, end in I.run(s0, it, op, kw, data(reply, SENT)):
                if not ck.clean(s, op.label):
                    continue
                one_write(ck, s, op, where, f"{'ACK' if good else 'NACK'} of repetition {i + 1}")
                if good and end is not None:
                    ck.violation(f"{op.key}-again", where, f"{op.label}, repetition {i + 1}: fails although the gateway acknowledged it: {ck.ip.describe_abn(s, end)}", ck.trace_text(s))
                    continue
                if not good and not (isinstance(end, Exc) and ck.exc_is(s, end, "pyown.exceptions:ResponseError")):
                    ck.violation(f"{op.key}-again", where, f"{op.label}, repetition {i + 1}: a NACK does not give the response error", ck.trace_text(s))
                    continue
                for s2, t in I.next_message(s):
                    if ck.clean(s2, "next") and t != Const(SENT):
                        ck.violation(f"{op.key}-again", where, f"{op.label}, repetition {i + 1}: the message after its reply is not left for the next reader", ck.trace_text(s2))
                    nxt.append(s2)
        sts = nxt[:2]


def p14_one(ck, I, op, where, st1, it, kw, kinds):
    for label, st, parts in kinds:
        for s, vals, end in I.run(st, it, op, kw, data(*parts, SENT)):
            if not ck.clean(s, label):
                continue
            one_write(ck, s, op, where, label)
            if label == "ACK":
                if end is not None:
                    ck.violation(f"{op.key}-ack", where, f"{op.label} fails although the gateway acknowledged it: {ck.ip.describe_abn(s, end)}", ck.trace_text(s))
                    continue
            else:
                if end is None:
                    ck.violation(f"{op.key}-nack", where, f"{op.label} succeeds although the reply is a {label} message", ck.trace_text(s))
                    continue
                if not isinstance(end, Exc):
                    ck.violation(f"{op.key}-hang", where, f"{op.label} never ends after a {label} reply", ck.trace_text(s))
                    continue
                if not ck.exc_is(s, end, "pyown.exceptions:ResponseError"):
                    ck.violation(f"{op.key}-error", where, f"{op.label}: a {label} reply gives {ck.exc(s, end)} instead of the response error", ck.trace_text(s))
                    continue
            leftover(ck, I, s, op, where, label)
    for late in ((), (SILENCE, data(ACK)), (SILENCE, SILENCE, data(ACK))):
        for s, vals, end in I.run(st1, it, op, kw, *late):
            if not ck.clean(s, "silence"):
                continue
            if not (isinstance(end, Exc) and ck.exc_is(s, end, "TimeoutError")):
                ck.violation(f"{op.key}-timeout", where, f"{op.label}: a silent gateway gives {ck.ip.describe_abn(s, end) if end is not None else 'a normal end'}", ck.trace_text(s))
            else:
                one_write(ck, s, op, where, "none")
    for s, vals, end in I.run(st1, it, op, kw, LOST):
        if ck.clean(s, "loss"):
            one_write(ck, s, op, where, "connection lost")
        if ck.clean(s, "loss") and not (isinstance(end, Exc) and ck.exc_is(s, end, "pyown.exceptions:InvalidSession")):
            ck.violation(f"{op.key}-lost", where, f"{op.label}: a lost connection gives {ck.ip.describe_abn(s, end) if end is not None else 'a normal end'}", ck.trace_text(s))
    ck.count("commands")


def one_write(ck, s, op, where, label):
    n = len(writes(s))
    if n != 1:
        ck.violation(f"{op.key}-writes", where, f"{op.label} writes {n} frames (reply {label})", ck.trace_text(s))
    evs = [k for k, p, loc in s.events() if k in ("write", "get")]
    if n and "get" in evs and evs[0] != "write":
        ck.violation(f"{op.key}-order", where, f"{op.label} reads before it writes", ck.trace_text(s))


def leftover(ck, I, s, op, where, label):
    for s2, t in I.next_message(s):
        if not ck.clean(s2, "next message"):
            continue
        if t != Const(SENT):
            what = ck.ip.describe_abn(s2, t) if isinstance(t, ABN) else ck.show(s2, t)
            ck.violation(f"{op.key}-consumed", where, f"{op.label} does not consume exactly the messages of its exchange (reply {label}): the next read gives {what} instead of the following message {SENT}", ck.trace_text(s2))


class ClockOp(Op):
    def __init__(self, name, dim, make):
        super().__init__(GW, name, ("write", [dim], []), reply="clock")
        self.make = make


def clock_ops():
    def mk(kind):
        def make(ck, st):
            st, d = clock_value(ck, st, kind, 2)
            return st, {("bus_date" if kind == "date" else "bus_time"): d}
        return make
    return [ClockOp("set_time", "0", mk("time")), ClockOp("set_date", "1", mk("date")), ClockOp("set_datetime", "22", mk("datetime"))]


def clock_value(ck, st, kind, offset=None, fields=None):
    """A time, date or datetime with opaque fields and a whole-hour offset."""
    rng = {"hour": (0, 23), "minute": (0, 59), "second": (0, 59), "day": (1, 28), "month": (1, 12), "year": (1, 9999)}
    names = {"time": ("hour", "minute", "second"), "date": ("year", "month", "day"), "datetime": ("year", "month", "day", "hour", "minute", "second")}[kind]
    kw = {}
    for n in names + (("microsecond",) if fields and "microsecond" in fields else ()):
        if fields and n in fields:
            kw[n] = Const(fields[n])
        else:
            st, kw[n] = ck.iatom(st, n, *rng[n])
    if kind != "date" and offset is not None:
        s, td = ext_new(ck, st, "timedelta", hours=Const(offset))
        st, kw["tzinfo"] = ext_new(ck, s, "timezone", td)
    return ext_new(ck, st, kind, **kw)


def ext_new(ck, st, kind, *args, **kw):
    outs = [(s, v) for s, v in M.dt_new(kind)(ck.ip, st, args, kw) if not isinstance(v, ABN)]
    return outs[0]


def ops_for_timeouts(ck, w):
    I = Items(ck)
    for op in table():
        if op.call and op.key != "camera-dial-11":
            continue
        st, it, a = I.item(op.cls)
        st, kw = I.args(st, op)

        def f(s, it=it, op=op, kw=kw):
            for s2, vals, end in I.run(s, it, op, kw):
                yield s2, end if end is not None else (vals[-1] if vals else NONE)
        yield op.label, st, f, I.where_of(op)


# ------------------------------------------------------------------------------------------------ P16
@prop("P16", "Effect analysis of every command and request with opaque address and arguments over their whole ranges: the abstract frame that reaches the transport is compared with "
             "the frame the protocol documents (WHO, own address, WHAT or DIMENSION code, argument positions).")
def p16(ck):
    ck.rules.append("bytes written = documented frame of the command, as abstract strings over the address and the arguments")
    I = Items(ck)
    for op in table():
        where = I.where_of(op)
        with ck.obligation(op.label if not op.call else op.key):
            langs = [None] + ([L.const("5") + N255] if op.cls == EN else [])
            for lg in langs:
                st, it, a = I.item(op.cls, lang=lg)
                st, kw = I.args(st, op)
                judge_frame(ck, I, op, where, I.run(st, it, op, kw, data(ACK)), st, a, kw)
    pasts = {}
    for op in table():
        where = I.where_of(op)
        if op.frame[1:] == (["?"],):
            continue        # no documented frame: judged above
        if op.cls not in pasts:
            pasts[op.cls] = I.aged(op.cls)
        with ck.obligation(f"{op.label if not op.call else op.key} on an item with a past"):
            st, it, a = pasts[op.cls]
            st, kw = I.args(st, op)
            for i in range(2):
                outs = list(I.run(st, it, op, kw, data(ACK)))
                judge_frame(ck, I, op, where, outs, st, a, kw, suffix="-past")
                ends = [s for s, vals, end in outs if not s.taint]
                if not ends:
                    break
                st = ends[0].copy()
                st.trace = None
    now = atom("now", "datetime")
    seeds = {now: [__import__("datetime").datetime(2024, 3, 5, 6, 7), __import__("datetime").datetime(2031, 11, 12), __import__("datetime").datetime(2009, 1, 30)]}
    at = {n: Term("attr", (now, n), "int") for n in ("day", "month", "year")}
    yy = Term("mod", (at["year"], Const(100)), "int")
    for op in table():
        if op.cls != EN or not ({"day", "month", "year"} & {x[0] for x in op.args}):
            continue
        where = I.where_of(op)
        names = [x[0] for x in op.args]
        for given in [c for n in range(len(names)) for c in itertools.combinations(names, n)]:
            with ck.obligation(f"{op.label} with the current date for {', '.join(n for n in names if n not in given)}"):
                st, it, a = I.item(op.cls)
                st, kw = I.args(st, op)
                want = {n: (kw[n] if n in given else (yy if n == "year" else at[n])) for n in names}
                kw2 = {n: (kw[n] if n in given else NONE) for n in names}
                judge_frame(ck, I, op, where, I.run(st, it, op, kw2, data(ACK)), st, a, want, seeds=seeds, suffix="-now")
    for i, (st, op, kw) in enumerate(raw_commands(ck, I.st)):
        if op.frame[0] == "write" and not op.frame[2]:
            continue        # no such frame is documented
        with ck.obligation(f"{op.label} called directly, {i}"):
            st1, it, a = I.item(op.cls, st=st)
            judge_frame(ck, I, op, I.where_of(op), I.run(st1, it, op, {}, data(ACK)), st1, a, kw, suffix="-raw")
    with ck.obligation("items of another WHO"):
        for cls in (LT, DM, AU, CA):
            done = set()
            for op in table():
                if op.cls != cls or op.args or (op.frame[0], op.kind) in done:
                    continue
                done.add((op.frame[0], op.kind))
                st, x = ck.satom(I.st, "W", CLEAN)
                for given in (Const("24"), ck.get1(st, ck.r("pyown.tags:Who"), "LIGHTING_MANAGEMENT")[1]):
                    s, before = ck.call1(st, ck.r(cls), I.c, x)
                    s, it = ck.call1(s, ck.r(cls), I.c, x, who=given)
                    s, after = ck.call1(s, ck.r(cls), I.c, x)
                    judge_frame(ck, I, op, I.where_of(op), I.run(s, it, op, dict(op.call), data(ACK)), s, x, dict(op.call), suffix="-who", who="24")
                    for y in (before, after):
                        judge_frame(ck, I, op, I.where_of(op), I.run(s, y, op, dict(op.call), data(ACK)), s, x, dict(op.call), suffix="-beside")
    with ck.obligation("addresses given as tags"):
        for cls in (LT, AU, CA):
            op = [o for o in commands(table()) if o.cls == cls and not o.args and o.frame[0] == "what"][0]
            st, x = ck.satom(I.st, "W", CLEAN)
            for s, wt in ck.call(st, ck.r("pyown.tags:Where"), x):
                if isinstance(wt, ABN):
                    continue
                s, it = ck.call1(s, ck.r(cls), I.c, wt)
                judge_frame(ck, I, op, I.where_of(op), I.run(s, it, op, {}, data(ACK)), s, x, {}, suffix="-tag")


def judge_frame(ck, I, op, where, outs, st, a, kw, seeds=None, suffix="", who=None):
    n = 0
    for s, vals, end in outs:
        if not ck.clean(s, op.label):
            continue
        n += 1
        ws = writes(s)
        if not ws:
            ck.violation(op.key + suffix, where, f"{op.label} sends nothing: {ck.ip.describe_abn(s, end) if end is not None else 'normal end'}", ck.trace_text(s))
            continue
        want = to_bytes(I.frame(s, op, a, kw, who))
        got = ws[0][0]
        if got == want:
            ck.sample(f"{op.label} -> {ck.show(s, got)}")
            continue
        w, _ = ck.differ(s, got, want, seeds=seeds)
        if w is None:
            if isinstance(got, Const) and isinstance(want, Const):
                ck.violation(op.key + suffix, where, f"{op.label} sends {got.v!r}, documented {want.v!r}")
            else:
                ck.undecided(op.label, f"cannot compare {ck.show(s, got)} with {ck.show(s, want)}")
            continue
        doc = "no such command is documented" if "*?*" in str(S.ev(want, w)) else f"documented {S.ev(want, w)!r}"
        ck.violation(op.key + suffix, where, f"{op.label} sends {S.ev(got, w)!r}, {doc} ({ck.asg_text(w)})", ck.trace_text(s))
    return n


# ------------------------------------------------------------------------------------------------ P17
@prop("P17", "Range analysis: every command with a documented argument range is interpreted with each argument below, above and inside its range (as intervals); the write effect must "
             "be absent and the exit exceptional outside, and the exit must not be a refusal inside.")
def p17(ck):
    ck.rules.append("argument outside its documented range => exceptional exit and no write on every path; inside => the command is sent")
    I = Items(ck)
    for op in table():
        bounded = [x for x in op.args if x[3]]
        if not bounded or op.kind != "cmd":
            continue
        where = I.where_of(op)
        st0, it, a = I.item(op.cls)
        for n, lo, hi, _ in bounded:
            for side, rng in (("below", (None, lo - 1)), ("above", (hi + 1, None))):
                with ck.obligation(f"{op.label}: {n} {side} {lo}-{hi}"):
                    st, kw = I.args(st0, op, {n: rng})
                    refuse(ck, I, op, where, st, it, kw, f"{n}-{side}")
            for v in (lo, hi):
                with ck.obligation(f"{op.label}: {n} = {v}"):
                    st, kw = I.args(st0, op, {n: (v, v)})
                    accept(ck, I, op, where, st, it, kw, n)
        with ck.obligation(f"{op.label}: inside"):
            st, kw = I.args(st0, op)
            accept(ck, I, op, where, st, it, kw, "inside")
        with ck.obligation(f"{op.label}: constants at and beyond the limits"):
            corners(ck, I, op, where, st0, it, [x[:3] for x in op.args], {x[0] for x in bounded})
    dial = Op(CA, "display_dial", ("bare", ["3"]), [A("x", 1, 4), A("y", 1, 4)])
    where = I.where_of(dial)
    st0, it, a = I.item(CA)
    with ck.obligation(f"{dial.label}: constants at and beyond the limits"):
        corners(ck, I, dial, where, st0, it, [("x", 1, 4), ("y", 1, 4)], {"x", "y"})
    for n in ("x", "y"):
        o = "y" if n == "x" else "x"
        for side, rng in (("below", (None, 0)), ("above", (5, None))):
            for k in range(1, 5):
                with ck.obligation(f"{dial.label}: {n} {side} 1-4, {o} = {k}"):
                    st, kw = I.args(st0, dial, {n: rng, o: (k, k)})
                    refuse(ck, I, dial, where, st, it, kw, f"{n}-{side}")
    for x in range(1, 5):
        for y in range(1, 5):
            with ck.obligation(f"{dial.label}: {x}, {y}"):
                st, kw = I.args(st0, dial, {"x": (x, x), "y": (y, y)})
                accept(ck, I, dial, where, st, it, kw, f"{x}{y}")


def corners(ck, I, op, where, st, it, args, bounded):
    """Constant propagation on the limits of the ranges: comparisons of arithmetic over several arguments are exact on constants."""
    inside = {n: sorted({lo if lo is not None else 0, (lo or 0) + 1, hi if hi is not None else 7}) for n, lo, hi in args}
    out = {n: [lo - 1, hi + 1, hi + 2, 10 * hi + 9, -hi] for n, lo, hi in args if n in bounded}
    names = [a[0] for a in args]
    for vals in itertools.product(*[inside[n] for n in names]):
        accept(ck, I, op, where, st, it, {**dict(op.call), **{n: Const(v) for n, v in zip(names, vals)}}, "inside")
    for k in range(1, len(names) + 1):
        for bad in itertools.combinations([n for n in names if n in bounded], k):
            for vals in itertools.product(*[out[n] if n in bad else inside[n] for n in names]):
                kw = {n: Const(v) for n, v in zip(names, vals)}
                refuse(ck, I, op, where, st, it, {**dict(op.call), **kw}, "-".join(bad) + "-corner")


def refuse(ck, I, op, where, st, it, kw, key):
    for s, vals, end in I.run(st, it, op, kw, data(ACK)):
        if not ck.clean(s, op.label):
            continue
        if not writes(s) and isinstance(end, Exc):
            continue
        w = ck.witness(s, [x for x in kw.values() if isinstance(x, Term)])
        if w is None and any(isinstance(x, Term) for x in kw.values()):
            ck.undecided(op.label, "no witness for an accepting path")
            continue
        what = "sends " + repr(S.ev(writes(s)[0][0], w or {})) if writes(s) and not isinstance(writes(s)[0][0], Top) else "ends normally without sending"
        try:
            consts = ", ".join(f"{k}={v.v}" for k, v in kw.items() if isinstance(v, Const))
            ck.violation(f"{op.key}-{key}", where, f"{op.label} with {ck.asg_text(w or {})} {consts} {what}", ck.trace_text(s))
        except S.NoValue:
            ck.violation(f"{op.key}-{key}", where, f"{op.label} with {ck.asg_text(w or {})} is sent", ck.trace_text(s))


def accept(ck, I, op, where, st, it, kw, key):
    for s, vals, end in I.run(st, it, op, kw, data(ACK)):
        if not ck.clean(s, op.label):
            continue
        if end is None and len(writes(s)) == 1:
            continue
        w = ck.witness(s, [x for x in kw.values() if isinstance(x, Term)])
        if w is None and any(isinstance(x, Term) for x in kw.values()):
            ck.undecided(op.label, "no witness for a refusing path")
            continue
        consts = ", ".join(f"{k}={v.v}" for k, v in kw.items() if isinstance(v, Const))
        ck.violation(f"{op.key}-{key}-refused", where, f"{op.label} with {ck.asg_text(w or {})} {consts}: {ck.ip.describe_abn(s, end) if end is not None else 'nothing is sent'}", ck.trace_text(s))


# ------------------------------------------------------------------------------------------------ replies
import datetime as _dtm  # noqa: E402

H2 = L.regex_language(r"[01][0-9]|2[0-3]", "fullmatch")
M2 = L.regex_language(r"[0-5][0-9]", "fullmatch")
DAY2 = L.regex_language(r"0[1-9]|1[0-9]|2[0-8]", "fullmatch")
MON2 = L.regex_language(r"0[1-9]|1[0-2]", "fullmatch")
YEAR = L.regex_language(r"[12][0-9][0-9][0-9]", "fullmatch")
OCT = L.regex_language(r"[0-9]|[1-9][0-9]|1[0-9][0-9]|2[0-4][0-9]|25[0-5]", "fullmatch")
WD = L.regex_language(r"0[0-6]", "fullmatch")
STOPGO = ["open", "failure", "block", "open_cc", "open_ground_fault", "open_vmax", "self_test_off", "auto_reset_off", "check_off",
          "waiting_closing", "first_24h_open", "power_fail_down", "power_fail_up"]
MODELS = {"2": "MHServer", "4": "MH200", "6": "F452", "7": "F452V", "11": "MHServer2", "12": "H4684", "23": "HL4684", "200": "MH202"}


def INT(v):
    return Term("int", (v,), "int") if not isinstance(v, Const) else Const(int(v.v))


def FLT(v):
    return Term("float", (v,), "float") if not isinstance(v, Const) else Const(float(v.v))


def dt(kind, **kw):
    if all(isinstance(v, Const) for v in kw.values()):
        return Const(getattr(_dtm, kind)(**{k: v.v for k, v in kw.items()}))
    return Term("new", (kind, (), tuple(sorted(kw.items()))), {"timezone": "tz"}.get(kind, kind))


def tz_const(text):
    if text == "":
        return Const(_dtm.timezone.utc)
    h = int(text[1:3])
    return Const(_dtm.timezone(_dtm.timedelta(hours=h if text[0] == "0" else -h)))


ZONES = ["", "000", "001", "002", "012", "101", "105", "112"]


def values(ck, st, spec, i, full=True):
    """Well-formed VALUES of a dimension reply: yields (label, state, [value texts], expected)."""
    def at(st, n, lg):
        return ck.satom(st, f"{n}{i}", lg)
    if isinstance(spec, tuple):
        if spec[0] in ("float", "int"):
            s, v = at(st, "v", DP)
            yield "", s, [v], (FLT(v) if spec[0] == "float" else INT(v))
            return
        vs = []
        s = st
        for k in spec[1:]:
            s, v = at(s, f"v{k}_", DP)
            vs.append(v)
        yield "", s, vs, ("WHERE",) + tuple(INT(v) for v in vs)
        return
    if spec == "actuator":
        names = ["disabled", "forcing", "threshold", "protection", "phase", "advanced"]
        rows = [[0] * 5 + [2], [1] * 5 + [1]] + [[1 if j == k else 0 for j in range(5)] + [2] for k in range(5)] + [[0] * 5 + [1]]
        for r in rows:
            yield str(r), st, [Const(str(x)) for x in r], ("OBJ", "ActuatorStatus", {n: Const(bool(x) if n != "advanced" else x == 1) for n, x in zip(names, r)})
        return
    if spec == "totalizer":
        s, e = at(st, "e", DP)
        s, d = at(s, "d", DAY2)
        s, m = at(s, "m", MON2)
        s, y = at(s, "y", YEAR)
        s, h = at(s, "h", H2)
        s, mi = at(s, "mi", M2)
        yield "", s, [e, d, m, y, h, mi], (dt("datetime", year=INT(y), month=INT(m), day=INT(d), hour=INT(h), minute=INT(mi)), FLT(e))
        return
    if spec == "time":
        for z in ZONES if full else ZONES[:2]:
            s, h = at(st, "h", H2)
            s, m = at(s, "m", M2)
            s, x = at(s, "s", M2)
            yield f"zone {z!r}", s, [h, m, x, Const(z)], dt("time", hour=INT(h), minute=INT(m), second=INT(x), tzinfo=tz_const(z))
        return
    if spec == "date":
        s, w = at(st, "w", WD)
        s, d = at(s, "d", DAY2)
        s, m = at(s, "m", MON2)
        s, y = at(s, "y", YEAR)
        yield "", s, [w, d, m, y], dt("date", year=INT(y), month=INT(m), day=INT(d))
        return
    if spec == "datetime":
        for z in ZONES if full else ZONES[:2]:
            s, h = at(st, "h", H2)
            s, m = at(s, "m", M2)
            s, x = at(s, "s", M2)
            s, w = at(s, "w", WD)
            s, d = at(s, "d", DAY2)
            s, mo = at(s, "mo", MON2)
            s, y = at(s, "y", YEAR)
            yield f"zone {z!r}", s, [h, m, x, Const(z), w, d, mo, y], dt("datetime", year=INT(y), month=INT(mo), day=INT(d), hour=INT(h), minute=INT(m), second=INT(x), tzinfo=tz_const(z))
        return
    if spec in ("ip", "netmask"):
        vs = []
        s = st
        for k in range(4):
            s, v = at(s, f"o{k}_", OCT)
            vs.append(v)
        t = []
        for k, v in enumerate(vs):
            t += ([Const(".")] if k else []) + [Term("str", (INT(v),), "str")]
        yield "", s, vs, (Term("new", ("ipv4", (cat(t),), ()), "ip") if spec == "ip" else cat(t))
        return
    if spec in ("mac", "version"):
        vs = []
        s = st
        for k in range(6 if spec == "mac" else 3):
            s, v = at(s, f"o{k}_", DP)
            vs.append(v)
        t = []
        for k, v in enumerate(vs):
            t += ([Const(":" if spec == "mac" else ".")] if k else []) + [v]
        yield "", s, vs, cat(t)
        return
    if spec == "uptime":
        vs = []
        s = st
        for k in range(4):
            s, v = at(s, f"u{k}_", DP)
            vs.append(v)
        yield "", s, vs, dt("timedelta", days=INT(vs[0]), hours=INT(vs[1]), minutes=INT(vs[2]), seconds=INT(vs[3]))
        return
    if spec == "model":
        for v, n in list(MODELS.items()) + [("5", "GENERIC"), ("999", "GENERIC")]:
            yield f"model {v}", st, [Const(v)], ("ENUM", "GatewayModel", n)
        return
    raise Exception(spec)


def reply_where(ck, st, cls, i=0, bus=False):
    """The address in a reply: digits, with a level when on a local bus."""
    if cls == GW:
        return st, Const("")
    st, r = ck.satom(st, f"R{i}", DP)
    if cls == EN:
        return st, cat([Const("7"), r, Const("#0")])
    if cls == SG:
        return st, cat([Const("1"), r])
    if bus:
        st, r2 = ck.satom(st, f"B{i}", DP)
        return st, cat([r, Const("#4#"), r2])
    return st, r


def replies(ck, I, st, op, kw, i=0, full=True, bus=False):
    """Well-formed replies to a request: yields (label, state, frame parts, expected value or None when nothing is yielded)."""
    who = WHO[op.cls]
    st, r = reply_where(ck, st, op.cls, i, bus)
    if op.kind == "status":
        tab = {"light": [("1", TRUE), ("0", FALSE)], "dimmer": [("0", Const(0))] + [(str(n), Const(10 * n)) for n in range(2, 11)],
               "automation": [("0", ("ENUM", "WhatAutomation", "STOP")), ("1", ("ENUM", "WhatAutomation", "UP")), ("2", ("ENUM", "WhatAutomation", "DOWN"))]}[op.reply]
        if op.reply == "light" and i % 2:
            tab = tab[::-1]
        for w, e in tab if full else tab[:1]:
            yield f"WHAT {w}", st, (f"*{who}*{w}*", r, "##"), (("TAG", r), e)
        return
    dim = []
    for p in op.frame[1]:
        dim += [x for s, x in ck.ip.to_str(st, kw[p])][:1] if p in kw else [Const(p)]
    for label, s, vs, e in values(ck, st, op.reply, i, full):
        parts = [f"*#{who}*", r, "*"] + dim
        for v in vs:
            parts += ["*", v]
        if isinstance(e, tuple) and e and e[0] == "WHERE":
            e = (("TAG", r),) + e[1:]
        yield label, s, tuple(parts + ["##"]), e


def norm(ck, s, v):
    """Comparable form of a value."""
    if isinstance(v, Tup):
        return tuple(norm(ck, s, x) for x in v.items)
    if isinstance(v, Ref):
        c = s.get(v.addr)
        if isinstance(c, Inst):
            if c.cls.is_enum:
                return ("ENUM", c.cls.name, c.attrs["_name_"].v)
            if any(k.name == "Tag" for k in c.cls.mro):
                s2, t = ck.get1(s, v, "string")
                return ("TAG", ck.ip.payload(s2, t) if isinstance(t, Ref) else t)
            return ("OBJ", c.cls.name, {k: norm(ck, s, x) for k, x in c.attrs.items()})
        if isinstance(c, ListC):
            return tuple(norm(ck, s, x) for x in c.items)
    return v


def text(ck, s, v):
    if isinstance(v, ABN):
        return ck.ip.describe_abn(s, v)
    if isinstance(v, V):
        return ck.show(s, v)
    if isinstance(v, tuple) and v and v[0] == "ENUM":
        return f"{v[1]}.{v[2]}"
    if isinstance(v, tuple) and v and v[0] == "OBJ":
        return f"{v[1]}({', '.join(f'{k}={text(ck, s, x)}' for k, x in v[2].items())})"
    if isinstance(v, tuple):
        return "(" + ", ".join(text(ck, s, x) if not isinstance(x, str) else x for x in v) + ")"
    return str(v)


def compare(ck, s, got, want):
    """None when equal for every input of the path, else a text; "?..." when it cannot be decided."""
    if isinstance(want, tuple) and isinstance(got, tuple):
        if want and want[0] == "OBJ":
            if got[:2] != want[:2]:
                return f"is a {got[1] if len(got) > 1 else got}"
            for k, x in want[2].items():
                if k not in got[2]:
                    return f"has no {k}"
                r = compare(ck, s, got[2][k], x)
                if r:
                    return f"{k}: {r}" if not r.startswith("?") else r
            return None
        if want and want[0] == "ENUM":
            return None if got == want else f"{text(ck, s, got)}, must be {text(ck, s, want)}"
        if len(got) != len(want):
            return f"{text(ck, s, got)} has {len(got)} elements, must have {len(want)}"
        for k, (x, y) in enumerate(zip(got, want)):
            if isinstance(x, str) and isinstance(y, str):
                if x != y:
                    return f"{text(ck, s, got)}, must be {text(ck, s, want)}"
                continue
            r = compare(ck, s, x, y)
            if r:
                return r if want[0] == "TAG" or r.startswith("?") else f"element {k}: {r}"
        return None
    if isinstance(want, tuple) and want and want[0] == "TAG" and isinstance(got, (Str, Term, Const)):
        return compare(ck, s, got, want[1])         # the address as plain text
    if isinstance(got, (tuple, str)) or isinstance(want, (tuple, str)):
        if isinstance(got, Top):
            return "?not modelled"
        return f"{text(ck, s, got)}, must be {text(ck, s, want)}"
    if got == want:
        return None
    if isinstance(got, Top):
        return "?not modelled"
    if isinstance(got, Const) and isinstance(want, Const):
        return f"{got.v!r}, must be {want.v!r}"
    seeds = {}
    w, eq = ck.differ(s, got, want)
    if eq:
        return None
    if w is not None:
        return f"{S.ev(got, w)!r}, must be {S.ev(want, w)!r} when {ck.asg_text(w)}"
    return f"?cannot compare {text(ck, s, got)} with {text(ck, s, want)}"


def judge(ck, s, got, want, key, where, what):
    r = compare(ck, s, norm(ck, s, got) if isinstance(got, V) else got, want)
    if r is None:
        return True
    if r.startswith("?"):
        ck.undecided(ck.cur or key, f"{what}: {r[1:]}")
    else:
        ck.violation(key, where, f"{what}: {r}", ck.trace_text(s))
    return False


# ------------------------------------------------------------------------------------------------ P18
@prop("P18", "Dataflow from the fields of an opaque reply to the value returned: every request is interpreted on replies with opaque fields (finite fields enumerated) and the result is "
             "compared, as an abstract value, with the documented interpretation of the documented positions.")
def p18(ck):
    ck.rules.append("result = documented function of the documented positions of the reply, as abstract values over the opaque fields")
    I = Items(ck)
    for op in table():
        if op.kind == "cmd":
            continue
        where = I.where_of(op)
        st0, it, a = I.item(op.cls)
        st0, kw = I.args(st0, op)
        if op.kind == "stopgo":
            stopgo(ck, I, op, where, st0, it)
            continue
        both = [x for bus in ((False, True) if op.cls in (LT, DM, AU) else (False,)) for x in replies(ck, I, st0, op, kw, bus=bus)]
        for label, st, parts, want in both:
            with ck.obligation(f"{op.label} {label}"):
                n = 0
                for s, vals, end in I.run(st, it, op, kw, data(*parts, ACK)):
                    if not ck.clean(s, op.label):
                        continue
                    n += 1
                    if end is not None:
                        ck.violation(f"{op.key}-raises", where, f"{op.label} {label}: {ck.ip.describe_abn(s, end)}", ck.trace_text(s))
                    elif len(vals) != 1:
                        ck.violation(f"{op.key}-count", where, f"{op.label} {label}: {len(vals)} values for one reply", ck.trace_text(s))
                    else:
                        judge(ck, s, vals[0], want, f"{op.key}-value", where, f"{op.label} {label}")
                        ck.sample(f"{op.label} {label}: {text(ck, s, norm(ck, s, vals[0]))[:150]}")
                if not n and not ck.undecided_:
                    ck.undecided(op.label, "no path")
    pasts = {}
    for op in table():
        if op.kind in ("cmd", "stopgo"):
            continue
        where = I.where_of(op)
        if op.cls not in pasts:
            pasts[op.cls] = I.aged(op.cls)
        st, it, a = pasts[op.cls]
        st, kw = I.args(st, op)
        with ck.obligation(f"{op.label} on an item with a past"):
            for i in range(2):
                label, st, parts, want = next(replies(ck, I, st, op, kw, i, full=False))
                outs = [(s, vals, end) for s, vals, end in I.run(st, it, op, kw, data(*parts, ACK)) if ck.clean(s, op.label)]
                for s, vals, end in outs:
                    if end is not None:
                        ck.violation(f"{op.key}-past", where, f"{op.label}, asked again: {ck.ip.describe_abn(s, end)}", ck.trace_text(s))
                    elif len(vals) != 1:
                        ck.violation(f"{op.key}-past", where, f"{op.label}, asked again: {len(vals)} values for one reply", ck.trace_text(s))
                    else:
                        judge(ck, s, vals[0], want, f"{op.key}-past", where, f"{op.label}, asked again")
                if not outs:
                    break
                st = outs[0][0].copy()
                st.trace = None
    netinfo(ck, I)


def netinfo(ck, I):
    op = Op(GW, "get_netinfo", ("dim", ["10"]))
    where = I.where_of(op)
    with ck.obligation("Gateway.get_netinfo"):
        st, it, a = I.item(GW)
        for (ipt, mask) in (("192.168.1.35", "255.255.255.0"), ("10.3.7.9", "255.0.0.0"), ("172.16.200.1", "255.255.240.0")):
            f1 = "*#13**10*" + ipt.replace(".", "*") + "##" + ACK
            f2 = "*#13**11*" + mask.replace(".", "*") + "##" + ACK
            for s, vals, end in I.run(st, it, op, {}, data(f1), data(f2)):
                if not ck.clean(s, "netinfo"):
                    continue
                if end is not None:
                    ck.violation("netinfo-raises", where, ck.ip.describe_abn(s, end), ck.trace_text(s))
                    continue
                try:
                    g = S.ev(vals[0], {})
                except Exception:
                    ck.undecided("netinfo", "not modelled")
                    continue
                import ipaddress
                if g != ipaddress.IPv4Network(f"{ipt}/{mask}", strict=False):
                    ck.violation("netinfo-value", where, f"address {ipt} and mask {mask} give {g}")


def stopgo(ck, I, op, where, st, it):
    st, r = ck.satom(st, "R", WHERES[SG])
    n = len(STOPGO)
    masks = [0, (1 << n) - 1] + [1 << k for k in range(n)] + [0b1010101010101, 0b0101010101010, 0b1100110011001]
    for m in masks:
        with ck.obligation(f"{op.label} mask {m:013b}"):
            want = ("OBJ", "StopGoStatus", {nm: Const(bool(m >> k & 1)) for k, nm in enumerate(STOPGO)})
            single_bits = []
            for k in range(n):
                single_bits += [f"*#18*", r, f"*{251 + k}*{m >> k & 1}##"]
            for extra in ((), tuple(single_bits)):
                for s, vals, end in I.run(st, it, op, {}, data("*#18*", r, f"*250*{m:013b}##", *extra, ACK)):
                    if not ck.clean(s, op.label):
                        continue
                    if end is not None:
                        ck.violation("stopgo-raises", where, f"mask {m:013b}: {ck.ip.describe_abn(s, end)}", ck.trace_text(s))
                    else:
                        judge(ck, s, vals[0], want, "stopgo-value", where, f"{op.label} mask {m:013b}")
    dims = ck.r("pyown.items.energy.enums:DimensionEnergy")
    mem = {}
    for s, items in ck.ip.to_items(ck.st, dims):
        for x in items:
            c = s.get(x.addr)
            mem[c.attrs["_value_"].v] = x
    for k, nm in enumerate(STOPGO):
        d = str(251 + k)
        with ck.obligation(f"{op.label} dimension {d}"):
            for b in "01":
                want = ("OBJ", "StopGoStatus", {x: (Const(b == "1") if x == nm else NONE) for x in STOPGO})
                kw = {"dim_req": mem[d]} if d in mem else None
                if kw is None:
                    ck.undecided(d, "no such dimension in DimensionEnergy")
                    continue
                for s, vals, end in I.run(st, it, op, kw, data("*#18*", r, f"*{d}*{b}##", ACK)):
                    if not ck.clean(s, op.label):
                        continue
                    ws = writes(s)
                    if not ws or "*%s##" % d not in ck.show(s, ws[0][0]):
                        ck.violation("stopgo-request", where, f"the request for dimension {d} is {ck.show(s, ws[0][0]) if ws else 'not sent'}")
                    if end is not None:
                        ck.violation(f"stopgo-raises-{d}", where, f"dimension {d}: {ck.ip.describe_abn(s, end)}", ck.trace_text(s))
                    else:
                        judge(ck, s, vals[0], want, f"stopgo-value-{d}", where, f"{op.label} dimension {d} = {b}")


# ------------------------------------------------------------------------------------------------ P15
@prop("P15", "Every request is interpreted, down to the transport, against reply sequences m^k followed by each kind of terminator (ACK, NACK, every other message kind, silence, loss), with "
             "opaque contents: the write effect occurs once, the values are those of the k replies in order, the exit is the one the terminator calls for, and what follows it stays queued.")
def p15(ck):
    ck.rules.append("values = decoded replies in order up to the ACK; NACK or another kind => response error; silence => TimeoutError; loss => InvalidSession; nothing after the terminator is consumed; "
                    "single-value requests return the first and raise the response error when there is none")
    I = Items(ck)
    ks = (0, 1, 2, 3, 4, 40) if ck.thorough else (0, 1, 2, 20)
    for op in table():
        if op.kind == "cmd":
            continue
        where = I.where_of(op)
        st0, it, a = I.item(op.cls)
        st0, kw = I.args(st0, op)
        skip = ("ACK", "normal of another WHO", "unknown WHO") + (("normal",) if op.kind == "status" else ("dimension response",))
        for k in ks:
            st, parts, want = st0, [], []
            for i in range(k):
                if op.kind == "stopgo":
                    st, r = reply_where(ck, st, SG, i)
                    m = "0000000000001" if i == 0 else "1" * 13
                    ps, e = ["*#18*", r, "*250*" + m + "##"], ("OBJ", "StopGoStatus", {n: Const(m[-1 - j] == "1") for j, n in enumerate(STOPGO)})
                else:
                    label, st, ps, e = next(replies(ck, I, st, op, kw, i, full=False))
                parts.append(ps)
                want.append(e)
            lists = op.kind in ("status", "dim")
            for label, s0, t in reply_kinds(ck, st, WHO[op.cls]) + [("silence", st, None), ("late ACK", st, None), ("loss", st, None)]:
                if k > 4 and label not in ("ACK", "NACK") or label in skip and label != "ACK" or (k == 2 and not ck.thorough and label not in ("ACK", "NACK", "generic", "silence")):
                    continue
                with ck.obligation(f"{op.label}: {k} replies, {label}"):
                    steps = [data(*p) for p in parts]
                    steps += [LOST] if label == "loss" else [SILENCE, data(ACK)] if label == "late ACK" else [] if t is None else [data(*t, SENT)]
                    n = 0
                    for s, vals, end in I.run(s0, it, op, kw, *steps):
                        if not ck.clean(s, label):
                            continue
                        n += 1
                        what = f"{op.label} with {k} replies, then {label}"
                        nw = len(writes(s))
                        if nw != 1:
                            ck.violation(f"{op.key}-writes", where, f"{what}: {nw} frames are written", ck.trace_text(s))
                        if op.kind == "stopgo" and label == "ACK" and k != 1:
                            # the status accumulates every reply (P18 decides its fields)
                            if isinstance(end, Exc) and not ck.exc_is(s, end, "pyown.exceptions:ResponseError") or end is not None and not isinstance(end, Exc):
                                ck.violation(f"{op.key}-ack", where, f"{what}: {ck.ip.describe_abn(s, end)}", ck.trace_text(s))
                            leftover(ck, I, s, op, where, label)
                            continue
                        ok = label == "ACK" and (lists or k)
                        if ok and end is not None:
                            ck.violation(f"{op.key}-ack", where, f"{what}: {ck.ip.describe_abn(s, end)}", ck.trace_text(s))
                            continue
                        if not ok:
                            exp = {"silence": "TimeoutError", "late ACK": "TimeoutError", "loss": "pyown.exceptions:InvalidSession"}.get(label, "pyown.exceptions:ResponseError")
                            if not isinstance(end, Exc) or not ck.exc_is(s, end, exp):
                                got = ck.ip.describe_abn(s, end) if end is not None else "ends normally"
                                ck.violation(f"{op.key}-{'nack' if t else label}", where, f"{what}: {got}, must raise {exp.split(':')[-1]}", ck.trace_text(s))
                                continue
                        exps = want if lists else want[:1] if ok else []
                        if len(vals) != len(exps):
                            ck.violation(f"{op.key}-count", where, f"{what}: {len(vals)} values, must be {len(exps)}", ck.trace_text(s))
                        else:
                            for j, (g, e) in enumerate(zip(vals, exps)):
                                judge(ck, s, g, e, f"{op.key}-value", where, f"{what}, value {j}")
                        if t is not None:
                            leftover(ck, I, s, op, where, label)
                    if not n and not ck.undecided_:
                        ck.undecided(op.label, "no path")
            ck.count("reply sequences")
    pasts = {}
    for op in table():
        if op.kind in ("cmd", "stopgo"):
            continue
        where = I.where_of(op)
        if op.cls not in pasts:
            pasts[op.cls] = I.aged(op.cls)
        st, it, a = pasts[op.cls]
        st, kw = I.args(st, op)
        with ck.obligation(f"{op.label} on an item with a past"):
            lists = op.kind in ("status", "dim")
            for i, k in enumerate((1, 0, 2, 1)):
                parts, want = [], []
                for j in range(k):
                    label, st, ps, e = next(replies(ck, I, st, op, kw, 4 * i + j, full=False))
                    parts += ps
                    want.append(e)
                s0 = st.copy()
                s0.trace = None
                nxt = []
                for s, vals, end in I.run(s0, it, op, kw, data(*parts, ACK, SENT)):
                    what = f"{op.label}, exchange {i + 1} with {k} replies"
                    if not ck.clean(s, what):
                        continue
                    if len(writes(s)) != 1:
                        ck.violation(f"{op.key}-past-writes", where, f"{what}: {len(writes(s))} frames are written", ck.trace_text(s))
                    if (end is None) != bool(lists or k) or end is not None and not (isinstance(end, Exc) and ck.exc_is(s, end, "pyown.exceptions:ResponseError")):
                        ck.violation(f"{op.key}-past", where, f"{what}: {'ends normally' if end is None else ck.ip.describe_abn(s, end)}", ck.trace_text(s))
                        continue
                    exps = want if lists else want[:1]
                    if len(vals) != len(exps):
                        ck.violation(f"{op.key}-past-count", where, f"{what}: {len(vals)} values, must be {len(exps)}", ck.trace_text(s))
                    else:
                        for g, e in zip(vals, exps):
                            judge(ck, s, g, e, f"{op.key}-past-value", where, what)
                    for s2, t in I.next_message(s):
                        if ck.clean(s2, "next") and t != Const(SENT):
                            ck.violation(f"{op.key}-past-consumed", where, f"{what}: the message after the exchange is not left for the next reader", ck.trace_text(s2))
                        nxt.append(s2)
                if not nxt:
                    break
                st = nxt[0]
    with ck.obligation("an ACK received before the request"):
        for op in [o for o in table() if o.kind in ("status", "dim", "single")]:
            st0, it, a = I.item(op.cls)
            st1, kw = I.args(st0, op)
            for s0 in I.w.do(st1, data(ACK, SENT)):
                for s, vals, end in I.run(s0, it, op, kw):
                    if not ck.clean(s, op.label):
                        continue
                    if isinstance(end, Blocked) or isinstance(end, Exc) and not ck.exc_is(s, end, "pyown.exceptions:ResponseError"):
                        ck.violation(f"{op.key}-before", I.where_of(op), f"{op.label}: an ACK that is already there does not close the exchange: {ck.ip.describe_abn(s, end)}", ck.trace_text(s))
                    else:
                        leftover(ck, I, s, op, I.where_of(op), "already received")
    raw(ck, I)


def raw(ck, I):
    """The request generators of BaseItem used directly."""
    for cls, name, args, parts in ((LT, "send_status_request", (), lambda i, x, y: ("*1*", x, "*", y, "##")),
                                   (LT, "send_dimension_request", (Const("7"),), lambda i, x, y: ("*#1*", x, "*7*", y, "##"))):
        where = ck.where(ck.method(ck.r(cls), name))
        st0, it, a = I.item(cls)
        for k in (0, 1, 2, 3, 300) if not ck.thorough else (0, 1, 2, 3, 4, 5, 1100):
            with ck.obligation(f"{name}: {k} replies"):
                st, steps, want = st0, [], []
                for i in range(k):
                    if k > 5:
                        x, y = str(i % 2), str(i)
                    else:
                        st, x = ck.satom(st, f"x{i}", DP)
                        st, y = ck.satom(st, f"y{i}", DP)
                    p = parts(i, x, y)
                    want.append(cat([Const(q) if isinstance(q, str) else q for q in p]))
                    steps.append(data(*p))
                op = Op(cls, name, None)
                for s, f in ck.get(I.w.script(st, *steps, data(ACK, SENT)), it, name):
                    for s1, v in ck.call(s, f, *args):
                        for s2, vals, end in ck.drain(s1, v):
                            if not ck.clean(s2, name):
                                continue
                            if end is not None:
                                ck.violation(f"{name}-raises", where, ck.ip.describe_abn(s2, end), ck.trace_text(s2))
                                continue
                            got = [ck.ip.to_str(s2, m) for m in vals]
                            got = [[t for _, t in g] for g in got]
                            if [g[0] if len(g) == 1 else None for g in got] != want:
                                ck.violation(f"{name}-values", where, f"{name} with {k} replies yields {[ck.show(s2, g[0]) for g in got]}", ck.trace_text(s2))
                            leftover(ck, I, s2, op, where, "ACK")


# ------------------------------------------------------------------------------------------------ P19


def readback(frame, d):
    """The reply that carries the values of the frame that set dimension d; None when the frame has another shape."""
    head, new = f"*#13**#{d}*", f"*#13**{d}*"
    if isinstance(frame, Const):
        t = frame.v.decode() if isinstance(frame.v, bytes) else frame.v
        return [new + t[len(head):]] if t.startswith(head) and t.endswith("##") else None
    if not isinstance(frame, Str) or not isinstance(frame.parts[0], Const):
        return None
    t = frame.parts[0].v
    t = t.decode() if isinstance(t, bytes) else t
    if not t.startswith(head):
        return None
    return [new + t[len(head):]] + [Const(p.v.decode()) if isinstance(p, Const) and isinstance(p.v, bytes) else p for p in frame.parts[1:]]


@prop("P19", "Composition of the two dataflow summaries: the frame written by each setter for opaque fields and every whole-hour offset is fed back, as a reply, to the corresponding "
             "getter, and the abstract result must be the original value; the weekday is decided on constant dates of every weekday; naive values must raise with no write.")
def p19(ck):
    ck.rules.append("get(set(v)) = v as abstract values over opaque fields and all whole-hour offsets; values at their documented positions and widths; weekday = (isoweekday mod 7); "
                    "naive => exception and no write")
    I = Items(ck)
    dims = {"time": "0", "date": "1", "datetime": "22"}
    offs = list(range(-23, 24)) if ck.thorough else list(range(-12, 15)) + [-23, 23]
    for kind, d in dims.items():
        arg = "bus_date" if kind == "date" else "bus_time"
        setop, getop = Op(GW, "set_" + kind, ("write", [d], [])), Op(GW, "get_" + kind, ("dim", [d]))
        where = I.where_of(setop)
        st0, it, a = I.item(GW)
        for off in offs if kind != "date" else [None]:
            with ck.obligation(f"{kind} with opaque fields, offset {off}"):
                st, v = clock_value(ck, st0, kind, off)
                roundtrip(ck, I, it, setop, getop, arg, d, st, v, where, f"{kind} at offset {off}", kind)
        if kind != "time":
            for day in days(ck):
                with ck.obligation(f"{kind} {day}"):
                    f = {"year": day.year, "month": day.month, "day": day.day, "hour": 1, "minute": 2, "second": 3}
                    off = None if kind == "date" else 1
                    st, v = clock_value(ck, st0, kind, off, f)
                    roundtrip(ck, I, it, setop, getop, arg, d, st, v, where, f"{kind} {day}", kind, day,
                              (f"*#13**#1*" if kind == "date" else "*#13**#22*01*02*03*001*") + f"{day.isoweekday() % 7:02d}*{day.day:02d}*{day.month:02d}*{day.year}##"
                              if day.year >= 1000 else None)
        if kind != "date":
            for h, m, x in ((0, 0, 0), (23, 59, 59), (9, 8, 7), (10, 20, 30)):
                for off in (-1, 0, 1) if not ck.thorough else offs:
                    with ck.obligation(f"{kind} {h:02d}:{m:02d}:{x:02d} offset {off}"):
                        f = {"hour": h, "minute": m, "second": x, "year": 2024, "month": 10, "day": 9}
                        st, v = clock_value(ck, st0, kind, off, f)
                        roundtrip(ck, I, it, setop, getop, arg, d, st, v, where, f"{kind} {h:02d}:{m:02d}:{x:02d} offset {off}", kind, _dtm.date(2024, 10, 9),
                                  f"*#13**#{d}*{h:02d}*{m:02d}*{x:02d}*{'1' if off < 0 else '0'}{abs(off):02d}" + ("##" if kind == "time" else "*03*09*10*2024##"))
            for us in (1, 499999, 500000, 999999):
                for x in (7, 59):
                    with ck.obligation(f"{kind} with {us} microseconds after second {x}"):
                        f = {"hour": 23, "minute": 59, "second": x, "year": 2024, "month": 10, "day": 9}
                        st, v = clock_value(ck, st0, kind, 1, {**f, "microsecond": us})
                        st, want = clock_value(ck, st, kind, 1, f)
                        roundtrip(ck, I, it, setop, getop, arg, d, st, v, where, f"{kind} 23:59:{x:02d}.{us:06d}", kind, _dtm.date(2024, 10, 9), None, want)
            with ck.obligation(f"{kind} without a time zone"):
                st, v = clock_value(ck, st0, kind, None)
                for s, vals, end in I.run(st, it, setop, {arg: v}, data(ACK)):
                    if not ck.clean(s, "naive"):
                        continue
                    if writes(s) or not isinstance(end, Exc):
                        ck.violation(f"naive-{kind}", where, f"{setop.name} of a value without a time zone {'sends a frame' if writes(s) else 'ends normally'}", ck.trace_text(s))


def days(ck):
    base = [_dtm.date(2024, 1, 1) + _dtm.timedelta(days=k) for k in range(7)]
    base += [_dtm.date(2024, 2, 29), _dtm.date(2023, 12, 31), _dtm.date(2000, 2, 29), _dtm.date(2100, 3, 1), _dtm.date(2025, 10, 26), _dtm.date(1999, 11, 30), _dtm.date(2031, 7, 31)]
    # the years at the ends of the range and where their number of digits, or the century, changes
    base += [_dtm.date(y, 3, 4) for y in (1, 9, 10, 24, 69, 99, 100, 999, 1000, 1899, 1900, 1969, 1970, 1999, 2001, 2037, 2038, 2099, 2999, 9999)]
    if ck.thorough:
        base += [_dtm.date(2023, 1, 1) + _dtm.timedelta(days=k) for k in range(731)]
    return base


def roundtrip(ck, I, it, setop, getop, arg, d, st, v, where, what, kind, day=None, frame=None, want=None):
    n = 0
    for s, vals, end in I.run(st, it, setop, {arg: v}, data(ACK)):
        if not ck.clean(s, what):
            continue
        n += 1
        ws = writes(s)
        if end is not None or not ws:
            ck.violation(f"{setop.name}-raises", where, f"{what}: {ck.ip.describe_abn(s, end) if end is not None else 'nothing is sent'}", ck.trace_text(s))
            continue
        fr = ws[0][0]
        rb = readback(fr, d)
        if rb is None:
            if isinstance(fr, Top):
                ck.undecided(what, "frame not modelled")
            else:
                ck.violation(f"{setop.name}-frame", where, f"{what}: the frame is {ck.show(s, fr)}")
            continue
        if frame is not None and fr != Const(frame.encode()):
            ck.violation(f"{setop.name}-frame", where, f"{what}: the frame is {ck.show(s, fr)}, documented {frame}")
        if day is not None and kind != "time":
            if isinstance(fr, Const):
                fs = fr.v.decode().split("*")
                w = fs[4] if kind == "date" else fs[8] if len(fs) > 8 else ""
                if w.strip("#") != f"{day.isoweekday() % 7:02d}":
                    ck.violation(f"{setop.name}-weekday", where, f"{what}: day of week {w}, must be {day.isoweekday() % 7:02d} (00 = Sunday)")
            else:
                ck.undecided(what, "weekday of a constant date is not constant")
        # the values at their documented positions must also be what any reader of the frame sees: feed them to the getter
        for s2, v2, end2 in I.run(s, it, getop, {}, data(*rb, ACK)):
            if not ck.clean(s2, what):
                continue
            if end2 is not None:
                ck.violation(f"{getop.name}-raises", I.where_of(getop), f"{what}: reading back {ck.show(s, fr)}: {ck.ip.describe_abn(s2, end2)}", ck.trace_text(s2))
            else:
                judge(ck, s2, v2[0], want or v, f"{kind}-readback", I.where_of(getop), f"{what}: read back")
    if not n and not ck.undecided_:
        ck.undecided(what, "no path")
