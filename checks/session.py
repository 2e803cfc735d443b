"""P09, P10, P11, P23, P25: sessions, the handshake, the password, time-outs and the lifecycle of the client."""
from .common import *
from .env import LOST, M, World, data, writes
from .messages import DP, KIND_TYPE, build, same, to_bytes, who_members

D = L.DIGIT
SESSIONS = {"OldCommandSession": "0", "CommandSession": "9", "EventSession": "1"}
CMD = ("OldCommandSession", "CommandSession")
CLIENT = "pyown.client:Client"
PW = atom("password", "str")


# ------------------------------------------------------------------------------------------------ cryptographic primitives as opaque terms
def fkey(f):
    return f"{f.module.name}:{f.qual}"


def opaque_crypto(ck):
    """The digest of the OPEN algorithm and the digit codec become uninterpreted functions on non-constant data
    (P12 and P13 decide what they compute)."""
    ip = ck.ip

    def real(key, f, st, args, kw):
        h = ip.stubs.pop(key)
        try:
            return list(ip.call(st, f, args, kw))
        finally:
            ip.stubs[key] = h

    def params(f, args, kw):
        names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
        d = dict(zip(names, args))
        d.update(kw)
        return [d.get(n) for n in names]

    calc = ck.r("pyown.auth:own_calc_pass")
    h2d, d2h = ck.r("pyown.auth:hex_to_digits"), ck.r("pyown.auth:digits_to_hex")

    def s_calc(ip, st, args, kw):
        p = params(calc, args, kw)
        if len(p) != 2 or None in p or all(isinstance(x, Const) for x in p):
            yield from real(fkey(calc), calc, st, args, kw)
            return
        pw, nonce = p
        pv = ip.payload(st, pw) if isinstance(pw, Ref) else pw
        if isinstance(pv, (Term, Str)) and pv.typ == "str":
            for s, ok in S.pred(st, pv, DP):
                if not ok:
                    # whatever the code does with a password that is not a number, on a representative nonce
                    # (only how it fails matters here: a digest, if one is computed, is P12's subject)
                    for s2, v in real(fkey(calc), calc, s, (pw, Const("123")), {}):
                        if isinstance(v, Exc):
                            yield s2, v
                t = Term("open_digest", (pv, nonce), "str")
                yield s.with_fact(("lang", t), DP), t
            return
        t = Term("open_digest", (pv, nonce), "str")
        yield st.with_fact(("lang", t), DP), t

    def s_h2d(ip, st, args, kw):
        x = params(h2d, args, kw)[0]
        if isinstance(x, Const) or x is None or isinstance(x, Top):
            yield from real(fkey(h2d), h2d, st, args, kw)
            return
        t = x.args[0] if isinstance(x, Term) and x.op == "d2h" else Term("h2d", (x,), "str")
        yield st.with_fact(("lang", t), D.star()) if t.op == "h2d" else st, t

    def s_d2h(ip, st, args, kw):
        x = params(d2h, args, kw)[0]
        if isinstance(x, Const) or x is None or isinstance(x, Top):
            yield from real(fkey(d2h), d2h, st, args, kw)
            return
        if isinstance(x, Term) and x.op == "h2d":
            yield st, x.args[0]
            return
        ok = Term("encodes_hex", (x,), "bool")
        for s, b in [(s1, b1) for s0, d in S.pred(st, x, D.star()) for s1, b1 in (ip.truth_fact(s0, ok, False) if d else [(s0, False)])]:
            if b:
                t = Term("d2h", (x,), "str")
                yield s.with_fact(("lang", t), L.chars("0123456789abcdef").star()), t
            else:
                yield ip.raise_(s, "ValueError", "not a hex string")
    ip.stubs[fkey(calc)] = s_calc
    ip.stubs[fkey(h2d)] = s_h2d
    ip.stubs[fkey(d2h)] = s_d2h


# ------------------------------------------------------------------------------------------------ P09
@prop("P09", "Typestate of the client (new, started, closed, start refused, start failed) x session type: every send, read, item command and run of the "
             "event loop is interpreted in every state; the write effect must be absent and the error be InvalidSession where the session forbids it.")
def p09(ck):
    ck.rules.append("(state, session, operation) -> InvalidSession and no write effect unless the operation is allowed there; allowed sends write once")
    w = World(ck)
    cl = ck.r(CLIENT)
    whos = who_members(ck)
    sw, rw, lw = (ck.where(ck.method(cl, n)) for n in ("send_message", "read_message", "loop"))

    def states(sess):
        st, c = w.client(ck.st, sess)
        yield "new", st, c
        st, c = w.started(ck.st, sess)
        yield "started", st, c
        for s, v in ck.mcall(st, c, "close"):
            if not isinstance(v, ABN):
                yield "closed", s, c
                for s2 in w.do(s, LOST):
                    yield "closed and lost", s2, c
        st, c = w.client(ck.st, sess)
        for s, v in ck.mcall(w.script(st, data("*#*1##"), data("*#*0##")), c, "start"):
            if isinstance(v, Exc):
                yield "failed to start", w.script(s), c
        st, c = w.client(ck.st, sess)
        w.refuse = "OSError"
        outs = list(ck.mcall(st, c, "start"))
        w.refuse = False
        for s, v in outs:
            if isinstance(v, Exc):
                yield "connection refused", s, c

    def strip(s):
        s = w.script(s).copy()
        s.trace = None
        return s

    def rejected(s, v, what, key, where):
        if not ck.clean(s, what):
            return
        if not (isinstance(v, Exc) and ck.exc_is(s, v, "pyown.exceptions:InvalidSession")):
            r = "waits" if isinstance(v, Blocked) else "raises " + ck.ip.exc_name(s, v) if isinstance(v, Exc) else "is accepted"
            ck.violation(key, where, f"{what} {r} instead of raising InvalidSession", ck.trace_text(s))
        if writes(s):
            ck.violation(key + "-write", where, f"{what} transmits {ck.show(s, writes(s)[0][0])}", ck.trace_text(s))
    for sess in SESSIONS:
        for name, st, c in states(sess):
            st = strip(st)
            label = f"{sess} client {name}"
            ck.count("states")
            with ck.obligation(f"{label}: kind of session"):
                for s, v in ck.mcall(st, c, "is_cmd_session"):
                    if ck.clean(s, label):
                        for s2, b in ck.ip.truth(s, v):
                            if b != (sess in CMD):
                                ck.violation("session-kind", ck.where(ck.method(cl, "is_cmd_session")), f"{label}: is_cmd_session is {b}", "")
            kinds = list(KIND_TYPE) if name in ("started", "closed", "new") else ["NormalMessage"]
            for kind in kinds:
                with ck.obligation(f"{label}: send {kind}"):
                    s0, m, want, _ = build(ck, st, kind, (whos[1][1], whos[1][2]), 1)
                    for s, v in ck.mcall(s0, c, "send_message", m):
                        if name == "started" and sess in CMD:
                            if not ck.clean(s, label):
                                continue
                            if isinstance(v, ABN):
                                ck.violation("send-refused", sw, f"{label}: a send fails: {ck.ip.describe_abn(s, v)}", ck.trace_text(s))
                            elif len(writes(s)) != 1:
                                ck.violation("send-count", sw, f"{label}: a send writes {len(writes(s))} times", ck.trace_text(s))
                            else:
                                same(ck, s, writes(s)[0][0], to_bytes(want), "send-bytes", sw, f"{label}: bytes sent")
                        else:
                            rejected(s, v, f"{label}: sending a {kind}", "send-session", sw)
            if name != "started":
                with ck.obligation(f"{label}: forced send"):
                    s0, m, want, _ = build(ck, st, "NormalMessage", (whos[1][1], whos[1][2]), 1)
                    for s, v in ck.mcall(s0, c, "send_message", m, force=TRUE):
                        rejected(s, v, f"{label}: sending with force", "send-dead", sw)
                with ck.obligation(f"{label}: read"):
                    for a in ((), (NONE,), (Const(3),)):
                        for s, v in ck.mcall(st, c, "read_message", *a):
                            rejected(s, v, f"{label}: reading", "read-dead", rw)
            if name != "started" or sess in CMD:
                with ck.obligation(f"{label}: event loop"):
                    for kw in ({}, {"client": c}):
                        for s, v in ck.mcall(st, c, "loop", **kw):
                            rejected(s, v, f"{label}: running the event loop", "loop-session", lw)
            if name != "started" or sess not in CMD:
                with ck.obligation(f"{label}: item commands"):
                    s0, x = ck.satom(st, "where", DP)
                    s0, wh = ck.call1(s0, ck.r("pyown.tags:Where"), x)
                    for cls, meth, args in (("pyown.items.lighting:Light", "turn_on", ()), ("pyown.items.automation:Automation", "up", ()),
                                            ("pyown.items.camera:Camera", "zoom_in", ()), ("pyown.items.lighting:Dimmer", "set_white_temperature", (Const(100),)),
                                            ("pyown.items.gateway:Gateway", "get_ip", ())):
                        s1, it = ck.call1(s0, ck.r(cls), c, wh)
                        for s, v in ck.mcall(s1, it, meth, *args):
                            rejected(s, v, f"{label}: {cls.split(':')[1]}.{meth}", "item-session", ck.where(ck.method(ck.r(cls), meth)))


# ------------------------------------------------------------------------------------------------ handshake scripts
def bad_then_lost(*parts):
    """Text that is no frame: the receiver rejects it and the event loop then drops the connection."""
    d = data(*parts)

    def f(wd, s):
        for s2 in wd.do(s, d):
            if s2.aux.get("env:error"):
                yield from wd.do(s2.with_aux("env:error", None), ("lost", "ValueError"))
            else:
                yield s2
    return ("fn", f)


def reply_classes(ck, st, stage, pfx):
    """[(name, steps)] partitioning what the gateway may send (plus silence and loss)."""
    def at(n, lg):
        nonlocal st
        st, a = ck.satom(st, f"{pfx}{n}", lg)
        return a
    who = who_members(ck)[1][1]
    unknown = DP - L.const("98")
    for x in who_members(ck):
        unknown = unknown - L.const(x[1])
    out = [
        ("ACK", [data("*#*1##")]),
        ("NACK", [data("*#*0##")]),
        ("nonce", [data("*#", at("nonce", DP), "##")]),
        ("dirty nonce", [data("*#", at("n1", D.star()), "#", at("n2", D.star()), "##")]) if False else
        ("dirty nonce", [data("*#", at("n1", DP), "#", at("n2", DP), "##")]),
        ("hmac 1", [data("*98*1##")]),
        ("hmac 2", [data("*98*2##")]),
        ("hmac other", [data("*98*", at("alg", DP - L.const("1") - L.const("2")), "##")]),
        ("normal", [data(f"*{who}*", at("what", DP), "*", at("where", DP), "##")]),
        ("status", [data(f"*#{who}*", at("swhere", DP), "##")]),
        ("request", [data(f"*#{who}*", at("rwhere", DP), "*", at("rdim", DP), "##")]),
        ("response", [data(f"*#{who}*", at("dwhere", DP), "*", at("ddim", DP), "*", at("dval", DP), "##")]),
        ("writing", [data(f"*#{who}*", at("wwhere", DP), "*#", at("wdim", DP), "*", at("wval", DP), "##")]),
        ("session echo", [data("*99*9##")]),
        ("empty frame", [data("*##")]),
        ("two fields like a nonce", [data("*#", at("tn1", unknown), "*", at("tn2", DP), "##")]),
        ("three fields like a nonce", [data("*#", at("th1", unknown), "*", at("th2", DP), "*", at("th3", DP), "##")]),
        ("two numbers", [data("*", at("u1", unknown), "*", at("u2", DP), "##")]),
        ("three numbers", [data("*", at("v1", unknown), "*", at("v2", DP), "*", at("v3", DP), "##")]),
        ("98 with a #", [data("*#98*", at("h98", DP), "##")]),
        ("98 with parameters", [data("*98#", at("p98", DP), "*", at("q98", DP), "##")]),
        ("98 without a method", [data("*98*##")]),
        ("two nonces", [data("*#", at("nn1", DP), "*#", at("nn2", DP), "##")]) if stage != 4 else ("two nonces", [data("*#12*#34##")]),
        ("garbage", [bad_then_lost("hello##")]),
        ("silence", []),
        ("loss", [LOST]),
    ]
    return st, out


ENDS = ("silence", "loss", "garbage")


def equalities(st):
    """Pairs of values the path knows to be equal."""
    out = []
    for (k, t), v in st.facts.items():
        if k == "truth" and isinstance(t, Term) and t.op in ("cmp", "eq"):
            a = t.args
            if t.op == "cmp" and len(a) == 3:
                if (a[1] == "==" and v is True) or (a[1] == "!=" and v is False):
                    out.append((a[0], a[2]))
            elif t.op == "eq" and v is True:
                out.append((a[0], a[1]))
    return out


WRAPPERS = ("hexstr", "h2d", "d2h", "utf8", "bytes", "fromhex", "lower", "upper", "decode", "encode", "unhex")


def unwrap(v):
    while True:
        if isinstance(v, Str) and len(v.parts) == 1:
            v = v.parts[0]
        elif isinstance(v, Str) and len(v.parts) == 2 and v.parts[0] == Const("#"):
            v = v.parts[1]
        elif isinstance(v, Term) and v.op in WRAPPERS and v.args and isinstance(v.args[0], V):
            v = v.args[0]
        else:
            return v


def mentions(v, x):
    if v == x:
        return True
    if isinstance(v, Term):
        return any(mentions(a, x) for a in v.args if isinstance(a, V))
    if isinstance(v, Str):
        return any(mentions(a, x) for a in v.parts)
    if isinstance(v, Tup):
        return any(mentions(a, x) for a in v.items)
    return False


def session_frame(sess):
    return Const(f"*99*{SESSIONS[sess]}##".encode())


ACKB, NACKB = Const(b"*#*1##"), Const(b"*#*0##")


class Hand:
    """The documented handshake as an automaton over reply classes, with the frames the client sends."""

    def __init__(self, ck, w, sess, pw):
        self.ck, self.w, self.sess, self.pw = ck, w, sess, pw
        self.where = ck.where(ck.method(ck.r(CLIENT), "start"))

    def proof(self, st, which, ra, rb, alg):
        ck = self.ck
        f = ck.r(f"pyown.auth:{which}_hmac")
        a = ck.r("pyown.auth:AuthAlgorithm." + ("SHA1" if alg == "1" else "SHA256"))
        outs = list(ck.call(st, f, server_key=ra, client_key=rb, password=self.pw, hash_algorithm=a))
        if len(outs) != 1 or isinstance(outs[0][1], ABN):
            raise Exception(f"{which}_hmac is not a total function")
        return outs[0][1]

    def answer(self, st):
        """(rb, proof) of the client's HMAC answer in the third frame, or None when it has another shape."""
        ws = writes(st)
        if len(ws) < 3:
            return None
        v = ws[2][0]
        parts = v.parts if isinstance(v, Str) else (v,)
        if len(parts) == 5 and parts[0] == Const("*#") and parts[2] == Const("*") and parts[4] == Const("##") and \
                all(isinstance(x, Term) and x.op == "h2d" for x in (parts[1], parts[3])):
            return parts[1].args[0], parts[3].args[0]
        return None


def run_word(ck, w, c, st, word, steps, hand, good_step=None):
    for s, v in ck.mcall(w.script(st, *steps), c, "start"):
        ck.count("handshakes")
        yield s, v


def accepted(word):
    """Does the documented handshake end successfully on the reply classes?"""
    w = list(word)
    if w[:1] != ["ACK"]:
        return False
    if w[1:2] == ["ACK"]:
        return True
    if w[1:2] == ["nonce"]:
        return w[2:3] == ["ACK"]
    if w[1:2] in (["hmac 1"], ["hmac 2"]) and w[2:3] == ["nonce"]:
        return w[3:4] in (["confirmation"], ["nonce"])          # "nonce" there: any digits; only if they are the confirmation
    return False


def words(ck, st):
    """All words of reply classes up to the point where the documented handshake is decided, with one more reply after it."""
    st, r1 = reply_classes(ck, st, 1, "a_")
    st, r2 = reply_classes(ck, st, 2, "b_")
    st, r3 = reply_classes(ck, st, 3, "c_")
    st, r4 = reply_classes(ck, st, 4, "d_")
    out = []
    for n1, s1 in r1:
        if n1 != "ACK":
            out.append(((n1,), s1))
            if n1 not in ENDS:
                out.append(((n1, "ACK"), s1 + [data("*#*1##")]))
            continue
        for n2, s2 in r2:
            if n2 in ENDS:
                out.append(((n1, n2), s1 + s2))
            elif n2 == "ACK":
                out.append(((n1, n2), s1 + s2))
            elif n2 == "nonce":
                for n3, s3 in r3:
                    out.append(((n1, n2, n3), s1 + s2 + s3))
            elif n2 in ("hmac 1", "hmac 2"):
                for n3, s3 in r3:
                    if n3 == "nonce":
                        for n4, s4 in r4:
                            out.append(((n1, n2, n3, n4), s1 + s2 + s3 + s4))
                    else:
                        out.append(((n1, n2, n3), s1 + s2 + s3))
                        if n3 not in ENDS:
                            out.append(((n1, n2, n3, "ACK"), s1 + s2 + s3 + [data("*#*1##")]))
            else:
                out.append(((n1, n2), s1 + s2))
                out.append(((n1, n2, "ACK"), s1 + s2 + [data("*#*1##")]))
    return st, out


def confirmation_step(hand, ra_digits, alg, forge=None):
    """The gateway's correct confirmation, computed from the client's answer."""
    def f(wd, s):
        ck = hand.ck
        a = hand.answer(s)
        if a is None:
            yield s.with_aux("hs:shape", True)
            return
        ra = Term("d2h", (ra_digits,), "str")
        if forge == "client":
            p = hand.proof(s, "client", ra, a[0], alg)
        else:
            p = hand.proof(s, "server", ra, a[0], alg)
        t = Term("h2d", (Term("hexstr", (p,), "str"),), "str")
        s = s.with_fact(("lang", t), DP)
        yield from wd.do(s, data("*#", t, "##"))
    return ("fn", f)


@prop("P10", "start() is interpreted against a gateway that sends every sequence of reply classes (each class a regular language of frames, plus silence, "
             "loss and garbage) up to the decision of the documented handshake; success paths must be exactly the accepted words, an HMAC success must carry the equality "
             "of the full expected confirmation with the reply, and the frames written must follow the documented sequence.")
def p10(ck):
    ck.rules.append("start succeeds on a path iff its reply word is accepted by the documented handshake automaton; frames written are its prefix")
    ck.assumptions.append("own_calc_pass and the digit codec are uninterpreted here; P12 and P13 decide what they compute")
    opaque_crypto(ck)
    w = World(ck)
    for sess in SESSIONS:
        st0, c = w.client(ck.st, sess, password=PW)
        st0 = st0.with_fact(("lang", PW), DP)
        hand = Hand(ck, w, sess, PW)
        st0, ws = words(ck, st0)
        if sess != "CommandSession" and not ck.thorough:
            ws = [x for x in ws if len(x[0]) <= 2 or x[0][2] in ("ACK", "NACK", "nonce", "silence")]
        for word, steps in ws:
            with ck.obligation(f"{sess}: {' / '.join(word)}"):
                for s, v in run_word(ck, w, c, st0, word, steps, hand):
                    judge_handshake(ck, s, v, word, hand)
        target(ck, w, sess, hand)
        for alg in ("1", "2"):
            with ck.obligation(f"{sess}: HMAC {alg} with the correct confirmation"):
                st1, ra = ck.satom(st0, "ra", DP)
                steps = [data("*#*1##"), data(f"*98*{alg}##"), data("*#", ra, "##"), confirmation_step(hand, ra, alg)]
                ok, dirty, failed = 0, False, None
                for s, v in ck.mcall(w.script(st1, *steps), c, "start"):
                    if not ck.clean(s, "HMAC"):
                        dirty = True
                        continue
                    if isinstance(v, ABN) and len(writes(s)) <= 2:
                        failed = (s, v)
                    if s.fact(("truth", Term("encodes_hex", (ra,), "bool"))) is False:
                        continue        # not a key
                    if s.aux.get("hs:shape"):
                        shape(ck, s, hand)
                        continue
                    ok += 1
                    if isinstance(v, ABN):
                        ck.violation("hmac-rejected", hand.where, f"the correct confirmation of the gateway does not start the session: {ck.ip.describe_abn(s, v)}", ck.trace_text(s))
                    else:
                        check_hmac_frames(ck, s, hand, ra, alg)
                if not ok and failed and not dirty:
                    ck.violation("hmac-rejected", hand.where, f"no key of the gateway is answered: {ck.ip.describe_abn(*failed)}", ck.trace_text(failed[0]))
                elif not ok:
                    ck.undecided("HMAC", "no path reaches the confirmation")


def target(ck, w, sess, hand):
    """The connection goes to the host and the port of the client, and asks for its session type, however the client is constructed."""
    cls = ck.r("pyown.client:Client")
    st, lp = M.ext_inst(ck.ip, ck.st, "asyncio.AbstractEventLoop")
    st = st.with_fact(("lang", PW), DP)
    st, host = ck.satom(st, "host", L.syms(L.ALL - L.NONASCII).plus())
    st, port = ck.iatom(st, "port", 1, 65535)
    typ = ck.r(f"pyown.client:SessionType.{sess}")
    forms = [("by position", (host, port, PW, typ), {}), ("by name", (), dict(host=host, port=port, password=PW, session_type=typ))]
    if sess == "CommandSession":
        forms.append(("by default", (host, port, PW), {}))
    for h, p in (("192.168.1.35", 20000), ("gateway.local", 25000), ("fe80::1%eth0", 20000), ("2001:db8::35", 1), ("0", 65535)):
        forms.append((f"{h} {p}", (Const(h), Const(p), PW, typ), {}))
    for name, args, kw in forms:
        with ck.obligation(f"{sess}: target of the connection, arguments {name}"):
            s0, c = ck.call1(st, cls, *args, loop=lp, **kw)
            if isinstance(c, ABN):
                ck.undecided("construction", ck.ip.describe_abn(s0, c))
                continue
            for s, v in ck.mcall(w.script(s0, data("*#*1##"), data("*#*1##")), c, "start"):
                if not ck.clean(s, "start") or isinstance(v, ABN):
                    continue
                t = s.aux.get("env:target")
                if t is None or t[2] is not None or t[0] is None or t[1] is None:
                    ck.undecided("start", "the target of the connection is not known")
                    continue
                h, p = (args or tuple(kw.values()))[:2]
                if t[0] != h or t[1] != p:
                    if ck.differ(s, t[0], h)[0] is not None or ck.differ(s, t[1], p)[0] is not None:
                        ck.violation("connects-elsewhere", hand.where, f"the client of {ck.show(s, h)}, {ck.show(s, p)} connects to {ck.show(s, t[0])}, {ck.show(s, t[1])}", ck.trace_text(s))
                    else:
                        ck.undecided("start", "the target of the connection is not known")
                ws = [x[0] for x in writes(s)]
                if ws and ws[0] != session_frame(sess):
                    ck.violation("session-type", hand.where, f"a client constructed as {sess} ({name}) asks for {ck.show(s, ws[0])}", ck.trace_text(s))


def shape(ck, s, hand):
    ws = writes(s)
    if all(x[0] == ACKB or x[0] == session_frame(hand.sess) for x in ws):
        ck.violation("hmac-no-answer", hand.where, "the gateway's key is never answered; frames written: " + " ".join(ck.show(s, x[0]) for x in ws[:6]), ck.trace_text(s))
        return
    if len(ws) >= 3:
        v = ws[2][0]
        parts = v.parts if isinstance(v, Str) else (v,)
        if any(isinstance(p, Term) and p.op in ("hexstr", "hmac", "digest") for p in parts):
            ck.violation("hmac-frame", hand.where, f"the HMAC answer is not encoded in digits: {ck.show(s, v)}", ck.trace_text(s))
            return
    ck.undecided("HMAC answer", "the client's answer has an unexpected shape")


def check_hmac_frames(ck, s, hand, ra, alg):
    ws = [x[0] for x in writes(s)]
    if len(ws) != 4 or ws[0] != session_frame(hand.sess) or ws[1] != ACKB or ws[3] != ACKB:
        ck.violation("hmac-sequence", hand.where, "frames written: " + " ".join(ck.show(s, x) for x in ws[:6]) + "; documented: session, ACK, answer, ACK", ck.trace_text(s))
        return
    a = hand.answer(s)
    if a is None:
        shape(ck, s, hand)
        return
    rb, pr = a
    if not any(isinstance(x, Term) and str(x.args[0]).startswith("random") for x in atoms_of(rb)):
        ck.violation("hmac-nonce", hand.where, "the client key is not random: " + ck.show(s, rb), ck.trace_text(s))
    want = Term("hexstr", (hand.proof(s, "client", Term("d2h", (ra,), "str"), rb, alg),), "str")
    if unwrap(pr) != unwrap(want):
        ck.violation("hmac-proof", hand.where, "the proof sent is not the client proof over the keys exchanged and the password", ck.trace_text(s))


def judge_handshake(ck, s, v, word, hand):
    label = " / ".join(word)
    if not ck.clean(s, label):
        return
    if isinstance(v, Blocked):
        ck.violation("handshake-hang", hand.where, f"start waits for ever after {label}", ck.trace_text(s))
        return
    ok = accepted(word)
    good = not isinstance(v, ABN)
    ws = [x[0] for x in writes(s)]
    if good and not ok:
        ck.violation("handshake-accepts", hand.where, f"start succeeds after the replies {label}", ck.trace_text(s))
        return
    if good and word[1] in ("hmac 1", "hmac 2"):
        alg = word[1][-1]
        ra, conf = atom("c_nonce", "str"), atom("d_nonce", "str")
        a = hand.answer(s)
        if a is None:
            shape(ck, s, hand)
            return
        srv = hand.proof(s, "server", Term("d2h", (ra,), "str"), a[0], alg)
        eqs = equalities(s)
        if any({unwrap(x), unwrap(y)} == {srv, conf} for x, y in eqs):
            check_hmac_frames(ck, s, hand, ra, alg)
            return
        some = [(x, y) for x, y in eqs if (mentions(x, srv) and mentions(y, conf)) or (mentions(y, srv) and mentions(x, conf))]
        if some and not any("take" in repr(p) or "drop" in repr(p) or "last" in repr(p) for p in some):
            ck.undecided(label, "the confirmation is compared in a form the analysis does not know")
            return
        if any((mentions(x, conf) or mentions(y, conf)) and all(str(k.args[0]).endswith("_nonce") for k in atoms_of(x) | atoms_of(y)) for x, y in eqs):
            ck.undecided(label, "the path assumes that two of the replies are equal")
            return
        ck.violation("hmac-unchecked", hand.where, "start succeeds although the confirmation of the gateway was not compared completely with the expected one"
                     + (": compares " + "; ".join(f"{ck.show(s, x)[:60]} == {ck.show(s, y)[:60]}" for x, y in eqs) if eqs else ""), ck.trace_text(s))
        return
    if not good and ok and word[1] not in ("hmac 1", "hmac 2"):
        ck.violation("handshake-rejects", hand.where, f"start fails after the replies {label}: {ck.ip.describe_abn(s, v)}", ck.trace_text(s))
        return
    # frames written
    seq = []
    if word[0] == "ACK":
        seq.append(session_frame(hand.sess))
        if word[1:2] == ("nonce",):
            seq.append(cat([Const("*#"), Term("open_digest", (PW, atom("b_nonce", "str")), "str"), Const("##")], "bytes"))
        elif word[1:2] in (("hmac 1",), ("hmac 2",)):
            seq.append(ACKB)
    n = 0
    for x in ws:
        if n < len(seq) and x == seq[n]:
            n += 1
            continue
        if x == NACKB and x == ws[-1] and not good:
            continue
        if n == 2 and word[1:2] in (("hmac 1",), ("hmac 2",)) and word[2:3] == ("nonce",):
            n += 1          # the answer, checked on the successful paths
            continue
        if n < len(seq) and isinstance(x, (Str, Const)):
            d, eq = ck.differ(s, x, seq[n])
            if d is None and not isinstance(x, Const) and not mentions(x, PW):
                pass
        ck.violation("handshake-frame", hand.where, f"after the replies {label} the client writes {ck.show(s, x)}"
                     + (f" where the protocol documents {ck.show(s, seq[n])}" if n < len(seq) else ", which the protocol does not foresee"), ck.trace_text(s))
        return
    if good and n != len(seq):
        ck.violation("handshake-missing", hand.where, f"start succeeds after {label} having written {len(ws)} frames, not {len(seq)}", ck.trace_text(s))


# ------------------------------------------------------------------------------------------------ P11
SANITIZERS = ("open_digest", "hmac")


def leaks(v, pw, depth=0):
    """Does the password flow into the value other than through a sanitising digest?"""
    if v == pw:
        return True
    if isinstance(v, Term):
        if v.op in SANITIZERS:
            if v.op == "hmac" and len(v.args) > 1:
                return False
            return any(isinstance(a, V) and a != pw and leaks(a, pw, depth + 1) for a in v.args[1:])
        return any(isinstance(a, V) and leaks(a, pw, depth + 1) for a in v.args)
    if isinstance(v, Str):
        return any(leaks(a, pw, depth + 1) for a in v.parts)
    if isinstance(v, Tup):
        return any(leaks(a, pw, depth + 1) for a in v.items)
    if isinstance(v, Bits):
        return any(isinstance(b, tuple) and (b[1] == pw or mentions(b[1], pw)) for b in v.bits)
    return False


def heap_leak(ck, st, v, pw, seen=None, depth=0):
    """leaks() through exceptions, lists and messages."""
    if isinstance(v, Exc):
        v = v.value
    seen = set() if seen is None else seen
    if isinstance(v, Ref):
        if v.addr in seen or depth > 4:
            return False
        seen.add(v.addr)
        cell = st.get(v.addr)
        if isinstance(cell, Inst):
            if cell.payload is not None and heap_leak(ck, st, cell.payload, pw, seen, depth + 1):
                return True
            if cell.cls.is_sub(ck.ip.classes["BaseException"]):
                skip = ("__traceback__", "__context__") if "__suppress__" in cell.attrs else ("__traceback__",)
                return any(heap_leak(ck, st, x, pw, seen, depth + 1) for k, x in cell.attrs.items() if k not in skip)
            return False
        if isinstance(cell, ListC):
            return any(heap_leak(ck, st, x, pw, seen, depth + 1) for x in cell.items)
        return False
    if isinstance(v, Tup):
        return any(heap_leak(ck, st, x, pw, seen, depth + 1) for x in v.items)
    return isinstance(v, V) and leaks(v, pw)


def sinks(ck, st, v, label, pw):
    for kind, payload, loc in st.events():
        if kind in ("write", "log", "print", "extcall", "raise"):
            for x in payload:
                if heap_leak(ck, st, x, pw):
                    where = f"{loc[0]}:{loc[1]} {loc[2]}" if loc else "?"
                    what = {"write": "transmitted", "log": "logged", "print": "printed", "raise": "put in an exception", "extcall": "given to an external call"}[kind]
                    ck.violation(f"password-{kind}", where, f"the password is {what} in clear or reversibly: {ck.show(st, x)[:160]} ({label})", ck.trace_text(st))
    if isinstance(v, Exc) and heap_leak(ck, st, v, pw):
        ck.violation("password-exception", "start", f"the exception {ck.ip.exc_name(st, v)} carries the password ({label})", ck.trace_text(st))


def digest_sinks(ck):
    """What the digest function itself logs, prints or raises while it works on the password."""
    calc = ck.r("pyown.auth:own_calc_pass")
    stub = ck.ip.stubs.pop(fkey(calc), None)
    name = atom("password_value", "int")
    bits = Bits([("b", name, i) for i in range(32)], 0)
    st0 = ck.st.with_fact(("lang", PW), DP)
    ck.ip.int_values[PW] = bits
    try:
        for nonce in ("0", "00", "000", "0000000000", "1", "5", "9", "70", "1234", "987654321"):
            with ck.obligation(f"inside the digest of nonce {nonce}"):
                for pw in (PW, bits):
                    for s, v in ck.call(st0, calc, pw, Const(nonce)):
                        if not ck.clean(s, f"nonce {nonce}"):
                            continue
                        for s2, text in ck.ip.to_str(s, v) if isinstance(v, V) and not isinstance(v, ABN) else ():
                            if v in (PW, bits, name) or text in (PW, Term("str", (name,), "str"), Term("str", (bits,), "str")):
                                ck.violation("password-digest", ck.where(calc), f"the answer to the challenge {nonce!r} is the password itself", ck.trace_text(s))
                        for kind, payload, loc in s.events():
                            if kind not in ("write", "log", "print", "extcall", "raise"):
                                continue
                            for x in payload:
                                if x == v or isinstance(x, Bits) and list(ck.ip.to_str(s, x))[0][1] == v:
                                    continue        # the digest itself
                                if heap_leak(ck, s, x, PW) or any(heap_leak(ck, s, x, a) for a in (name, bits)):
                                    ck.violation(f"password-{kind}", f"{loc[0]}:{loc[1]} {loc[2]}" if loc else ck.where(calc),
                                                 f"the password, or a value from which it is recovered, reaches a {kind} while its digest is computed: {ck.show(s, x)[:160]}",
                                                 ck.trace_text(s))
    finally:
        ck.ip.int_values.pop(PW, None)
        if stub is not None:
            ck.ip.stubs[fkey(calc)] = stub


@prop("P11", "Information flow: the password is an opaque source; start, close, sending, reading, the event loop and the text forms of the client are interpreted over every "
             "reply word; a sink (transmitted bytes, log record, print, exception argument) that depends on it outside a digest/HMAC term is a violation.")
def p11(ck):
    ck.rules.append("no flow source(password) -> sink(write, log, print, exception) except through open_digest(password, nonce) or HMAC(...)")
    opaque_crypto(ck)
    w = World(ck)
    for lgname, lg in (("numeric", DP), ("arbitrary", None)):
        for sess in SESSIONS:
            st0, c = w.client(ck.st, sess, password=PW)
            if lg is not None:
                st0 = st0.with_fact(("lang", PW), lg)
            hand = Hand(ck, w, sess, PW)
            st0, ws = words(ck, st0)
            if sess != "CommandSession" or lg is None:
                ws = [x for x in ws if len(x[0]) <= 2 or (x[0][2] in ("ACK", "NACK", "nonce", "silence") and (len(x[0]) < 4 or x[0][3] in ("ACK", "NACK", "nonce")))]
            with ck.obligation(f"{sess}, {lgname} password: {len(ws)} handshakes"):
                for word, steps in ws:
                    for s, v in run_word(ck, w, c, st0, word, steps, hand):
                        if ck.clean(s, " / ".join(word)):
                            ck.count("sinks", sum(1 for e in s.events() if e[0] in ("write", "log", "print", "raise")))
                            sinks(ck, s, v, " / ".join(word), PW)
                        if not isinstance(v, ABN):
                            for s2, v2 in ck.mcall(w.script(s), c, "close"):
                                if ck.clean(s2, "close"):
                                    sinks(ck, s2, v2, "close", PW)
            with ck.obligation(f"{sess}, {lgname} password: HMAC"):
                for alg in ("1", "2"):
                    st1, ra = ck.satom(st0, "ra", DP)
                    steps = [data("*#*1##"), data(f"*98*{alg}##"), data("*#", ra, "##"), confirmation_step(hand, ra, alg)]
                    for s, v in ck.mcall(w.script(st1, *steps), c, "start"):
                        if ck.clean(s, "HMAC"):
                            sinks(ck, s, v, f"HMAC {alg}", PW)
            with ck.obligation(f"{sess}, {lgname} password: text forms of the client"):
                for conv in (ck.ip.to_str, ck.ip.to_repr):
                    for s, v in conv(st0, c):
                        if isinstance(v, V) and leaks(v, PW):
                            ck.violation("password-repr", ck.where(ck.r(CLIENT)), "the text form of the client contains the password", "")
    digest_sinks(ck)
    with ck.obligation("a command and the event loop"):
        st, c = w.started(ck.st, "CommandSession", password=PW)
        s0, wh = ck.call1(st, ck.r("pyown.tags:Where"), Const("12"))
        s0, it = ck.call1(s0, ck.r("pyown.items.lighting:Light"), c, wh)
        for rep in ([data("*#*1##")], [data("*#*0##")], [LOST], []):
            for s, v in ck.mcall(w.script(s0, *rep), it, "turn_on"):
                if ck.clean(s, "turn_on"):
                    sinks(ck, s, v, "turn_on", PW)
        st, c = w.started(ck.st, "EventSession", password=PW)
        for s, v in ck.mcall(w.script(st, data("*1*1*12##"), LOST), c, "loop"):
            if ck.clean(s, "loop"):
                sinks(ck, s, v, "loop", PW)


# ------------------------------------------------------------------------------------------------ P23
def timeouts_at_block(st):
    pass


@prop("P23", "Every operation that waits for the gateway is interpreted with a gateway that stays silent at each of its waiting points; the wait must end by a "
             "time-out in force there (a finite constant, or exactly the one the caller gave), unless the caller asked for none.")
def p23(ck):
    ck.rules.append("every path that waits with a silent gateway ends with TimeoutError; the limit in force is the caller's, by default a positive finite constant")
    opaque_crypto(ck)
    w = World(ck)
    cl = ck.r(CLIENT)
    rw = ck.where(ck.method(cl, "read_message"))
    sw = ck.where(ck.method(cl, "start"))

    def limits(st):
        return [p[0] for k, p, _ in st.events("timeout_enter")]

    def bounded(s, v, what, where, key):
        if not ck.clean(s, what):
            return
        if isinstance(v, Exc) and ck.exc_is(s, v, "TimeoutError"):
            ls = [x for x in limits(s) if x != NONE]
            last = ls[-1] if ls else None
            if isinstance(last, Const) and (not isinstance(last.v, (int, float)) or last.v <= 0 or last.v > 120):
                ck.violation(key + "-limit", where, f"{what}: the limit in force is {last.v!r} seconds", ck.trace_text(s))
            return
        r = "waits for ever" if isinstance(v, Blocked) else "raises " + ck.ip.exc_name(s, v) if isinstance(v, Exc) else "ends normally"
        ck.violation(key, where, f"{what} {r} when the gateway stays silent", ck.trace_text(s))
    for sess in SESSIONS:
        st, c = w.started(ck.st, sess)
        with ck.obligation(f"{sess}: read with the default limit"):
            for s, v in ck.mcall(st, c, "read_message"):
                bounded(s, v, "a read", rw, "read-default")
                if not any(x == Const(5) for x in limits(s)) and isinstance(v, Exc):
                    ck.violation("read-default-value", rw, f"the default limit is {[ck.show(s, x) for x in limits(s)]} instead of the documented 5 seconds", ck.trace_text(s))
        with ck.obligation(f"{sess}: read with the caller's limit"):
            s0, n = ck.iatom(st, "timeout", 0, 1000)
            for args, kw in (((n,), {}), ((), {"timeout": n})):
                for s, v in ck.mcall(s0, c, "read_message", *args, **kw):
                    if not ck.clean(s, "read"):
                        continue
                    if not (isinstance(v, Exc) and ck.exc_is(s, v, "TimeoutError")):
                        ck.violation("read-timeout", rw, "a read with a limit does not time out when the gateway stays silent", ck.trace_text(s))
                    elif any(x != n for x in limits(s)):
                        ck.violation("read-timeout-value", rw, f"the limit in force is {[ck.show(s, x) for x in limits(s)]}, not the caller's", ck.trace_text(s))
        with ck.obligation(f"{sess}: limits of every size"):
            for x in (0, 0.25, 0.5, 1, 2, 3, 4.5, 5, 7, 10, 30, 61, 120, 600, 3600, 86400, 1000000):
                for s, v in ck.mcall(st, c, "read_message", timeout=Const(x)):
                    if not ck.clean(s, "read"):
                        continue
                    if not (isinstance(v, Exc) and ck.exc_is(s, v, "TimeoutError")):
                        ck.violation("read-timeout", rw, f"a read with the limit {x} does not time out when the gateway stays silent", ck.trace_text(s))
                    elif any(y != Const(x) for y in limits(s)):
                        ck.violation("read-timeout-value", rw, f"the limit in force is {[ck.show(s, y) for y in limits(s)]}, not the caller's {x}", ck.trace_text(s))
        with ck.obligation(f"{sess}: read without limit waits"):
            for s, v in ck.mcall(st, c, "read_message", NONE):
                if ck.clean(s, "read") and not isinstance(v, Blocked):
                    ck.violation("read-unlimited", rw, f"a read without limit ends ({ck.ip.describe_abn(s, v) if isinstance(v, ABN) else 'with a message'}) although nothing was received", ck.trace_text(s))
        with ck.obligation(f"{sess}: unlimited read after any silence still delivers"):
            for s, v in ck.mcall(w.script(st, ("tick",), ("tick",), data("*#*1##")), c, "read_message", NONE):
                if ck.clean(s, "read") and isinstance(v, ABN):
                    ck.violation("read-unlimited", rw, "a read without limit does not wait for the message", ck.trace_text(s))
    for sess in SESSIONS:
        st0, c = w.client(ck.st, sess, password=PW)
        st0 = st0.with_fact(("lang", PW), DP)
        st1, ra = ck.satom(st0, "ra", DP)
        for steps in ([], [data("*#*1##")], [data("*#*1##"), data("*#", ra, "##")], [data("*#*1##"), data("*98*1##")], [data("*#*1##"), data("*98*2##")],
                      [data("*#*1##"), data("*98*1##"), data("*#", ra, "##")], [data("*#*1##"), data("*98*2##"), data("*#", ra, "##")]):
            with ck.obligation(f"{sess}: handshake silent after {len(steps)} replies"):
                for s, v in ck.mcall(w.script(st1, *steps), c, "start"):
                    if s.fact(("truth", Term("encodes_hex", (ra,), "bool"))) is False:
                        continue
                    bounded(s, v, f"start after {len(steps)} replies", sw, "handshake")
    from .items import ops_for_timeouts
    for name, st, f, where in ops_for_timeouts(ck, w):
        with ck.obligation(f"{name}: silence"):
            for s, v in f(w.script(st)):
                bounded(s, v, name, where, "item")


# ------------------------------------------------------------------------------------------------ P25
@prop("P25", "Resource typestate of the connection: start is interpreted with a failure of every class (refused, unexpected reply, garbage, silence, loss, cancellation) at every "
             "step; on every exceptional exit the transport must be closed, the error must reach the caller and later operations must be refused without effects. close is interpreted in every state, repeatedly.")
def p25(ck):
    ck.rules.append("exceptional exit of start => transport.close() on the path; close => closed; afterwards send/read => InvalidSession, no write; close is idempotent")
    opaque_crypto(ck)
    w = World(ck)
    cl = ck.r(CLIENT)
    where, cw = ck.where(ck.method(cl, "start")), ck.where(ck.method(cl, "close"))
    whos = who_members(ck)

    def closed(s):
        t = s.aux.get("env:transport")
        return t is None or s.get(t.addr).attrs["closed"] == TRUE or any(k == "close" for k, _, _ in s.events())

    def dead(s, c, label, key):
        n0 = len(writes(s))
        s0, m, want, _ = build(ck, w.script(s), "NormalMessage", (whos[1][1], whos[1][2]), 1, prefix="z")
        for op, args, kw in (("send_message", (m,), {}), ("send_message", (m,), {"force": TRUE}), ("read_message", (), {})):
            for s2, v in ck.mcall(s0, c, op, *args, **kw):
                if not ck.clean(s2, label):
                    continue
                if not (isinstance(v, Exc) and ck.exc_is(s2, v, "pyown.exceptions:InvalidSession")):
                    r = "waits" if isinstance(v, Blocked) else "raises " + ck.ip.exc_name(s2, v) if isinstance(v, Exc) else "is accepted"
                    ck.violation(key, ck.where(ck.method(cl, op)), f"{op} {r} {label}", ck.trace_text(s2))
                if len(writes(s2)) != n0:
                    ck.violation(key + "-write", ck.where(ck.method(cl, op)), f"{op} transmits {label}", ck.trace_text(s2))

    for sess in SESSIONS:
        st0, c = w.client(ck.st, sess, password=PW)
        st0 = st0.with_fact(("lang", PW), DP)
        st0, ws = words(ck, st0)
        if sess != "CommandSession" and not ck.thorough:
            ws = [x for x in ws if len(x[0]) <= 2 or x[0][-1] in ("NACK", "silence", "nonce")]
        st1, ra = ck.satom(st0, "ra", DP)
        can = ("cancel",)
        for pre in ([], [data("*#*1##")], [data("*#*1##"), data("*#", ra, "##")], [data("*#*1##"), data("*98*1##")], [data("*#*1##"), data("*98*2##"), data("*#", ra, "##")]):
            ws = ws + [(("cancelled", str(len(pre))), pre + [can])]
        for word, steps in ws:
            label = " / ".join(word)
            with ck.obligation(f"{sess}: {label}"):
                for s, v in ck.mcall(w.script(st1, *steps), c, "start"):
                    ck.count("starts")
                    if isinstance(v, Blocked) or not ck.clean(s, label):
                        continue
                    if not isinstance(v, Exc):
                        if closed(s):
                            ck.violation("start-silent", where, f"start gives up after {label} (it closes the connection) but the caller gets no error", ck.trace_text(s))
                        continue
                    ck.count("failed starts")
                    if not closed(s):
                        ck.violation("start-leak", where, f"start fails with {ck.ip.exc_name(s, v)} after {label} and leaves the connection open", ck.trace_text(s))
                    else:
                        dead(s, c, f"after a failed start ({label})", "start-usable")
        with ck.obligation(f"{sess}: connection refused"):
            w.refuse = "OSError"
            outs = []
            for e in ("OSError", "ConnectionRefusedError", "TimeoutError"):
                w.refuse = e
                outs += list(ck.mcall(st1, c, "start"))
            w.refuse = False
            for s, v in outs:
                if not ck.clean(s, "refused"):
                    continue
                if not isinstance(v, Exc):
                    ck.violation("start-refused", where, "start does not report a refused connection", ck.trace_text(s))
                elif not ck.exc_is(s, v, "TimeoutError") and not ck.exc_is(s, v, "OSError"):
                    ck.violation("start-refused-error", where, f"a refused connection is reported as {ck.ip.exc_name(s, v)}", ck.trace_text(s))
                else:
                    dead(s, c, "after a refused connection", "start-usable")
        with ck.obligation(f"{sess}: close"):
            variants = [("a new client", *w.client(ck.st, sess)), ("a started client", *w.started(ck.st, sess))]
            s2, c2 = w.started(ck.st, sess)
            for s3 in w.do(s2, data("*1*1*12##*#*0##")):
                variants.append(("a client with unread messages", s3, c2))
            for s3 in w.do(s2, LOST):
                variants.append(("a client whose connection was lost", s3, c2))
            for s3 in w.do(s2, ("pause",)):
                variants.append(("a client whose transport is paused", s3, c2))
            for name, s2, c2 in variants:
                sts = [s2]
                for k in range(3):
                    nxt = []
                    for s in sts:
                        for s3, v in ck.mcall(w.script(s), c2, "close"):
                            if not ck.clean(s3, name):
                                continue
                            if isinstance(v, ABN):
                                ck.violation("close-fails", cw, f"closing {name} for the {k + 1}. time: {ck.ip.describe_abn(s3, v)}", ck.trace_text(s3))
                                continue
                            if not closed(s3):
                                ck.violation("close-leak", cw, f"closing {name} leaves the connection open", ck.trace_text(s3))
                                continue
                            nxt.append(s3)
                    sts = nxt
                    for s in sts:
                        dead(s, c2, f"after closing {name}", "close-usable")
