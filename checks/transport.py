"""P07, P08, P22, P24: the byte stream, the message queue, connection loss and flow control."""
from .common import *
from .env import StartFailed, LOST, World, data, writes
from .messages import CLEAN, DP, KIND_TYPE, MSG, build, same, who_members
from itertools import combinations, product

D = L.DIGIT
PROTO = "pyown.protocol:OWNProtocol"


# ------------------------------------------------------------------------------------------------ P07
def digits(ck, st, name):
    """A digit string cut somewhere: two adjacent opaque pieces, the second possibly empty."""
    st, a = ck.satom(st, name + "'", DP)
    st, b = ck.satom(st, name + "''", D.star())
    return st, [a, b]


def template(ck, st, kind, who, pfx):
    """Tokens of an abstract frame of the kind; every token boundary is a possible end of a segment."""
    def tag(st, n, param=False):
        st, t = digits(ck, st, pfx + n)
        if param:
            st, u = digits(ck, st, pfx + n + "p")
            t = t + [Const("#")] + u
        return st, t
    w = [Const(c) for c in who]
    star, h = Const("*"), Const("#")
    if kind == "ACK":
        return st, [star, h, star, Const("1"), h, h]
    if kind == "NACK":
        return st, [star, h, star, Const("0"), h, h]
    if kind == "generic":
        st, a = tag(st, "n")
        return st, [star, h] + a + [h, h]
    st, where = tag(st, "where", kind == "normal")
    if kind == "normal":
        st, what = tag(st, "what", True)
        return st, [star] + w + [star] + what + [star] + where + [h, h]
    if kind == "status":
        return st, [star, h] + w + [star] + where + [h, h]
    st, dim = tag(st, "dim", kind == "response")
    if kind == "request":
        return st, [star, h] + w + [star] + where + [star] + dim + [h, h]
    st, v0 = tag(st, "v0")
    st, v1 = tag(st, "v1")
    mid = [star, h] if kind == "writing" else [star]
    return st, [star, h] + w + [star] + where + mid + dim + [star] + v0 + [star] + v1 + [h, h]


def chunks(tokens, cuts):
    out, prev = [], 0
    for c in list(cuts) + [len(tokens)]:
        out.append(cat(tokens[prev:c], "bytes") if any(not isinstance(t, Const) for t in tokens[prev:c])
                   else Const("".join(t.v for t in tokens[prev:c]).encode()))
        prev = c
    return out


def stream(ck, w, st, p, frames, pieces, label):
    """Feeds the pieces, then reads: the messages must be the frames."""
    where = ck.where(ck.method(ck.r(PROTO), "data_received"))
    sts = [st]
    for x in pieces:
        nxt = []
        for s in sts:
            for s2 in w.do(s, ("data", x)):
                ck.paths += 1
                if s2.aux.get("env:error"):
                    if ck.clean(s2, label):
                        a = ck.witness(s2, [], n=4)
                        if a is not None or not s2.facts:
                            ck.violation("segment-rejected", where, f"receiving a segment of well-formed frames raises {s2.aux['env:error'][1]} "
                                         f"(segments: {show(ck, s2, pieces, a)})", ck.trace_text(s2))
                        else:
                            ck.undecided(label, "rejecting path without a concrete witness")
                    continue
                nxt.append(s2)
        sts = nxt
    for s in sts:
        read_all(ck, w, s, p, frames, pieces, label, where)


def between(ck, w, who):
    """Segments of one frame with other activity of the session between them."""
    where = ck.where(ck.method(ck.r(PROTO), "data_received"))
    f1, f2 = f"*{who}*1*12##", f"*#{who}*7*1*5##"
    for sess in ("CommandSession", "EventSession"):
        base, c = w.started(ck.st, sess)
        p = base.aux["env:proto"]
        st, m = ck.call1(base, ck.r("pyown.messages:parse_message"), Const("*1*0*13##"))

        def act(s, *steps):
            sts = [s]
            for a in steps:
                sts = [y for x in sts for y in w.do(x, a)]
            return [x.with_aux("env:error", None) if x.aux.get("env:error") and x.aux["env:error"][0] not in ("data_received",) else x for x in sts]

        def timed_out(s):
            return [s2 for s2, v in ck.mcall(w.script(s), c, "read_message") if isinstance(v, Exc)]

        def sends(s):
            return [s2 for s2, v in ck.mcall(w.script(s), c, "send_message", m, force=TRUE) if not isinstance(v, ABN)]

        def paused_send(s):
            out = []
            for s1 in w.do(s, ("pause",)):
                out += [s2 for s2, v in ck.mcall(w.script(s1, ("resume",)), c, "send_message", m, force=TRUE) if not isinstance(v, ABN)]
            return out
        acts = [("a pause", lambda s: act(s, ("pause",))), ("a pause and a resume", lambda s: act(s, ("pause",), ("resume",))),
                ("a read that times out", timed_out), ("a message sent", sends), ("a message sent after a pause", paused_send)]
        for name, f in acts:
            with ck.obligation(f"{sess}: {name} between two segments"):
                for n in range(1, len(f1)):
                    sts = act(st, ("data", Const(f1[:n].encode())))
                    sts = [y for x in sts for y in f(x)]
                    for s in sts:
                        if not ck.clean(s, name):
                            continue
                        ck.count("segmentations")
                        stream(ck, w, s, p, [Const(f1), Const(f2)], [Const((f1[n:] + f2[:5]).encode()), Const(f2[5:].encode())], f"{f1} cut at {n}, {name} between")
        with ck.obligation(f"{sess}: a read waits while the segments arrive"):
            for n in range(1, len(f1)):
                for limit in ((), (NONE,)):
                    for s, v in ck.mcall(w.script(st, data(f1[:n]), ("tick",), data(f1[n:] + f2)), c, "read_message", *limit):
                        if not ck.clean(s, "read"):
                            continue
                        ck.count("segmentations")
                        if isinstance(v, ABN):
                            ck.violation("segment-waiting", where, f"a read waiting while {f1} arrives in two segments cut at {n} ends with {ck.ip.describe_abn(s, v)}", ck.trace_text(s))
                            continue
                        for s2, t in ck.ip.to_str(s, v):
                            same(ck, s2, t, Const(f1), "segment-waiting", where, "message read while waiting")
                        for s1 in w.flush(s):
                            read_all(ck, w, s1, p, [Const(f2)], [], "after a waiting read", where)


def neighbours(ck, w, who):
    """Segments of one stream while another connection of the same process receives, pauses, ends."""
    f1, f2 = f"*{who}*1*12##", f"*#{who}*7*1*5##"
    for sess in ("CommandSession", "EventSession"):
        w.started(ck.st, sess)
        try:
            st, n1 = w.neighbour(ck.st, sess)
            (st, n1), = w.there(st, n1, data("*1*0*99##*1*0*9"), ("pause",))
            st, c = w.started(st, sess)
        except StartFailed as e:
            if e.clean:
                ck.violation("segment-beside", ck.where(ck.method(ck.r(PROTO), "data_received")), f"beside another connection that received messages: {e}")
            continue
        p = st.aux["env:proto"]
        st, n2 = w.neighbour(st, sess)
        with ck.obligation(f"{sess}: other connections of the process between the segments"):
            for k, steps in enumerate(((), (data("8##"),), (data("8##*1*1"),), (("resume",),), (("pause",),), (LOST,), (data("*1*1*5##"), LOST))):
                for env in (n1, n2):
                    for n in (1, 5, len(f1) - 1, len(f1)):
                        for s in w.do(st, data(f1[:n])):
                            for s1, _ in w.there(s, env, *steps):
                                if s1.aux.get("env:error") or not ck.clean(s1, "neighbour"):
                                    continue
                                ck.count("segmentations")
                                stream(ck, w, s1, p, [Const(f1), Const(f2)], [Const((f1[n:] + f2[:5]).encode()), Const(f2[5:].encode())], f"{f1} cut at {n}, another connection active between")


def show(ck, st, pieces, asg):
    out = []
    for x in pieces:
        try:
            v = S.ev(x, asg or {})
            out.append(repr(v))
        except Exception:
            out.append(ck.show(st, x))
    return " ".join(out)


def read_all(ck, w, st, p, frames, pieces, label, where):
    sts = [st]
    for i, f in enumerate(frames):
        nxt = []
        for s in sts:
            for s2, m in ck.mcall(w.script(s), p, "receive_messages"):
                if not ck.clean(s2, label):
                    continue
                if isinstance(m, Blocked):
                    a = ck.witness(s2, [], n=4)
                    if a is None and s2.facts:
                        ck.undecided(label, "no witness for a missing message")
                    else:
                        ck.violation("segment-lost", where, f"message {i + 1} of {len(frames)} is never delivered "
                                     f"(segments: {show(ck, s2, pieces, a)})", ck.trace_text(s2))
                    continue
                if isinstance(m, ABN):
                    ck.violation("segment-read", where, f"reading raises {ck.ip.describe_abn(s2, m)}", ck.trace_text(s2))
                    continue
                for s3, t in ck.ip.to_str(s2, m):
                    if not ck.clean(s3, label):
                        continue
                    if same(ck, s3, t, f, "segment-content", where, f"message {i + 1} ({label})"):
                        nxt.append(s3)
        sts = nxt
    for s in sts:
        for s2, m in ck.mcall(w.script(s), p, "receive_messages"):
            if not ck.clean(s2, label):
                continue
            if not isinstance(m, Blocked):
                a = ck.witness(s2, [], n=4)
                ck.violation("segment-extra", where, f"one more message than frames is delivered (segments: {show(ck, s2, pieces, a)})", ck.trace_text(s2))


KINDS = ["ACK", "NACK", "generic", "normal", "status", "request", "response", "writing"]


@prop("P07", "The receive path of a connected protocol is interpreted over abstract streams: frames of every kind whose numeric fields "
             "are opaque digit strings (any length), cut at every token boundary, inside every field and inside the terminator. The text of the "
             "messages then read through the public reader must be the frames, in order and nothing else.")
def p07(ck):
    ck.rules.append("for every cut of the stream: messages read == frames sent; the receiver raises nothing; no extra message")
    w = World(ck)
    base, p, t = w.protocol(ck.st)
    whos = [x for x in who_members(ck) if len(x[1]) <= 2]
    who = next((x[1] for x in whos if len(x[1]) == 2), whos[0][1])

    def frame(tokens):
        return cat(tokens)
    # frames with constant text: degenerate ones cut everywhere, long ones, long bursts
    odd = ["*##", "**##", "***##", "*#*##", "*1##", f"*{who}**##", f"*#{who}*##", f"*#{who}**1##", f"*{who}*1#*12#3#4##", f"*#{who}*1*#1**##"]
    if ck.thorough:
        odd += ["****##", "*1*##", f"*{who}***##", f"*#{who}*1*1***##", "*99*1*1##", "*#99*1##", "*#*##"]
    with ck.obligation(f"{len(odd)} frames with empty fields, every segmentation in two"):
        for x in odd:
            for tail in ("", "*#*1##"):
                text = x + tail
                for c in range(0, len(text)):
                    ck.count("segmentations")
                    pieces = [Const(y.encode()) for y in ((text[:c], text[c:]) if c else (text,))]
                    stream(ck, w, base, p, [Const(y) for y in ([x, tail] if tail else [x])], pieces, f"{text} cut at {c}")
    for n in (300, 5000, 70000):
        long = [f"*{who}*1*" + "1234567890" * (n // 10) + "##",
                f"*#{who}*12*1" + "*123456789" * (min(n, 5000) // 10) + "##"]
        with ck.obligation(f"frames of {n} characters"):
            for x in long:
                text = x + "*#*1##"
                k = len(x)
                for c in ((), (k // 2,), (k // 3, 2 * k // 3), (9, k - 1), (k - 2, k + 1), (k,)):
                    ck.count("segmentations")
                    cc = (0, *c, len(text))
                    stream(ck, w, base, p, [Const(x), Const("*#*1##")], [Const(text[i:j].encode()) for i, j in zip(cc, cc[1:])],
                           f"a frame of {k} characters cut at {c}")
    between(ck, w, who)
    neighbours(ck, w, who)
    with ck.obligation("one character at a time"):
        x = f"*#{who}*12*1" + "*123456789" * 30 + "##"
        ck.count("segmentations")
        stream(ck, w, base, p, [Const(x)], [Const(y.encode()) for y in x], "a frame of 300 characters, one at a time")
    with ck.obligation("burst of 1100 frames"):
        xs = [f"*{who}*{i % 2}*{i}##" for i in range(1100)]
        ck.ip.loop_limit = 1300
        ck.count("segmentations")
        text = "".join(xs)
        stream(ck, w, base, p, [Const(y) for y in xs], [Const(text.encode())], "1100 frames")
        stream(ck, w, base, p, [Const(y) for y in xs], [Const(text[i:i + 1000].encode()) for i in range(0, len(text), 1000)], "1100 frames, 1000 characters at a time")
    for kind in KINDS:
        st, tok = template(ck, base, kind, who, "a")
        n = len(tok)
        cutsets = [()] + [(i,) for i in range(1, n)]
        pairs = list(combinations(range(1, n), 2))
        if kind in ("ACK", "NACK"):
            cutsets = [c for k in range(0, n) for c in combinations(range(1, n), k)]
        else:
            cutsets += pairs if ck.thorough else [c for i, c in enumerate(pairs) if i % 7 == 0 or c[1] >= n - 1]
            cutsets.append(tuple(range(1, n)))
        with ck.obligation(f"one {kind} frame, {len(cutsets)} segmentations"):
            for c in cutsets:
                ck.count("segmentations")
                stream(ck, w, st, p, [frame(tok)], chunks(tok, c), f"{kind} cut at {c}")
        ck.sample(f"{kind}: tokens {' '.join(ck.show(st, x) for x in tok)}")
    second = ["ACK", "normal", "response"] if not ck.thorough else KINDS
    for k1, k2 in product(KINDS, second):
        st, t1 = template(ck, base, k1, who, "a")
        st, t2 = template(ck, st, k2, who, "b")
        tok = t1 + t2
        n, b = len(tok), len(t1)
        near = sorted({x for x in (b - 2, b - 1, b, b + 1, b + 2, n - 1) if 0 < x < n})
        cutsets = [()] + ([(i,) for i in range(1, n)] if ck.thorough or k2 == "ACK" else [(i,) for i in near])
        cutsets += list(combinations(near, 2)) + [tuple(range(1, n))]
        with ck.obligation(f"{k1} then {k2}, {len(cutsets)} segmentations"):
            for c in cutsets:
                ck.count("segmentations")
                stream(ck, w, st, p, [frame(t1), frame(t2)], chunks(tok, c), f"{k1}+{k2} cut at {c}")
    # longer bursts in one segment, and a burst whose last frame is incomplete
    for n in ([3, 5] if not ck.thorough else range(3, 9)):
        st, toks = base, []
        for i in range(n):
            st, x = template(ck, st, KINDS[(i * 3 + 3) % len(KINDS)], who, f"f{i}_")
            toks.append(x)
        allt = [x for y in toks for x in y]
        with ck.obligation(f"burst of {n} frames"):
            for c in [(), (len(allt) - 1,), (len(allt) - 2,), (len(toks[0]) + 1, len(allt) - 1), (len(toks[0]) - 1, len(toks[0]) + len(toks[1]) - 1)]:
                ck.count("segmentations")
                stream(ck, w, st, p, [frame(x) for x in toks], chunks(allt, c), f"burst of {n} cut at {c}")


# ------------------------------------------------------------------------------------------------ P08, P22
def frames_of(ck, st, n):
    """n distinct abstract frames (kinds alternate), as (text, step)."""
    whos = who_members(ck)
    kinds = ["ACK", "normal", "response", "generic", "status", "NACK", "writing"]
    out = []
    for i in range(n):
        st, tok = template(ck, st, kinds[(i + 1) % len(kinds)], whos[1][1], f"m{i}_")
        out.append(cat(tok))
    return st, out


def as_data(f):
    return ("data", cat(f.parts if isinstance(f, Str) else [f], "bytes") if not isinstance(f, Const) else Const(f.v.encode()))


def texts(ck, st, got):
    """The abstract texts of the messages."""
    sts = [(st, [])]
    for m in got:
        nxt = []
        for s, acc in sts:
            for s2, t in ck.ip.to_str(s, m):
                nxt.append((s2, acc + [t]))
        sts = nxt
    yield from sts


class Hist:
    """One history: states with the list of outcomes of the reads so far."""

    def __init__(self, ck, w, reader, label, where):
        self.ck, self.w, self.reader, self.label, self.where = ck, w, reader, label, where

    def run(self, st, ops):
        """ops: F (a frame arrives), R (a read; may have to wait), T (a read that must time out), X (loss); yields (state, outcomes)."""
        sts = [(st, [])]
        for op in ops:
            nxt = []
            for s, outs in sts:
                if op[0] == "R":
                    s = self.w.script(s, *op[1])
                    for s2, v in self.reader(s):
                        if isinstance(v, Exc) and not self.ck.exc_is(s2, v, "pyown.exceptions:InvalidSession") and not self.ck.exc_is(s2, v, "TimeoutError"):
                            if self.ck.clean(s2, self.label):
                                self.ck.violation("read-error", self.where, f"a read raises {self.ck.ip.describe_abn(s2, v)} ({self.label})", self.ck.trace_text(s2))
                            continue
                        # what was not consumed by this read arrives afterwards
                        rest = s2.aux.get("env:script", ())
                        pend = [self.w.script(s2)]
                        for a in rest:
                            pend = [y for x in pend for y in self.w.do(x, a)]
                        for s3 in pend:
                            nxt.append((s3, outs + [v]))
                elif op[0] == "S":
                    for s2, v in op[1](self.w.script(s)):
                        if not isinstance(v, ABN):
                            nxt.append((s2, outs))
                        elif self.ck.clean(s2, self.label):
                            self.ck.violation("send-error", self.where, f"a send between the reads fails: {self.ck.ip.describe_abn(s2, v)} ({self.label})", self.ck.trace_text(s2))
                else:
                    for s2 in self.w.do(s, op[1]):
                        nxt.append((s2, outs))
            sts = nxt
        for s, outs in sts:
            self.ck.paths += 1
            if s.aux.get("env:error") and self.ck.clean(s, self.label):
                self.ck.violation("callback-error", self.where, f"{s.aux['env:error'][0]} raises {s.aux['env:error'][1]} ({self.label})", self.ck.trace_text(s))
                continue
            yield s, outs


def expect(ck, s, outs, want, where, label, key, timeouts):
    """outs must be the wanted texts / 'end' / 'wait' in order."""
    if not ck.clean(s, label):
        return
    if len(outs) != len(want):
        raise Exception("lengths")
    for i, (o, x) in enumerate(zip(outs, want)):
        if x == "end":
            if isinstance(o, Exc) and ck.exc_is(s, o, "pyown.exceptions:InvalidSession"):
                continue
            what = "waits for ever" if isinstance(o, Blocked) else ("raises " + ck.ip.exc_name(s, o) if isinstance(o, Exc) else "returns a message")
            ck.violation(key + "-end", where, f"read {i + 1} after the connection was lost {what} instead of ending with InvalidSession ({label})", ck.trace_text(s))
            return
        if x == "wait":
            if isinstance(o, Blocked) or (isinstance(o, Exc) and ck.exc_is(s, o, "TimeoutError")):
                continue
            what = "raises " + ck.ip.exc_name(s, o) if isinstance(o, Exc) else "returns a message"
            ck.violation(key + "-early", where, f"read {i + 1} {what} although no message was received ({label})", ck.trace_text(s))
            return
        if isinstance(o, Blocked) or isinstance(o, Exc):
            what = "waits" if isinstance(o, Blocked) else "raises " + ck.ip.exc_name(s, o)
            ck.violation(key + "-lost", where, f"read {i + 1} {what} instead of delivering message {ck.show(s, x)} ({label})", ck.trace_text(s))
            return
        for s2, t in ck.ip.to_str(s, o):
            if ck.clean(s2, label):
                if not same(ck, s2, t, x, key + "-order", where, f"read {i + 1} ({label})"):
                    return


def histories(n, reads, timeouts):
    """Words over F (frame arrives), R (read) and T (read that finds nothing)."""
    def go(word, f, q, r, t):
        yield word
        if f < n:
            yield from go(word + "F", f + 1, q + 1, r, t)
        if q > 0 and r < reads:
            yield from go(word + "R", f, q - 1, r + 1, t)
        if q == 0 and r < reads and f < n:
            yield from go(word + "W", f + 1, q, r + 1, t)      # waits, then the frame arrives
        if q == 0 and t < timeouts:
            yield from go(word + "T", f, q, r, t + 1)
    return sorted(set(go("", 0, 0, 0, 0)), key=lambda x: (len(x), x))


def run_word(ck, w, st, frames, word, reader, label, where, key, tail=(), sender=None):
    h = Hist(ck, w, reader, label, where)
    ops, want, fi, ri = [], [], 0, 0
    for c in word:
        if c == "F":
            ops.append(("F", as_data(frames[fi])))
            fi += 1
        elif c == "W":
            ops.append(("R", (as_data(frames[fi]),)))
            fi += 1
            want.append(frames[ri])
            ri += 1
        elif c == "R":
            ops.append(("R", ()))
            want.append(frames[ri])
            ri += 1
        elif c == "T":
            ops.append(("R", ()))
            want.append("wait")
        elif c == "S":
            ops.append(("S", sender))
    for t in tail:
        ops.append(t[0])
        if t[1] is not None:
            if t[1] == "next":
                if ri < fi:
                    want.append(frames[ri])
                    ri += 1
                else:
                    want.append("end")
            else:
                want.append(t[1])
    for s, outs in h.run(st, ops):
        expect(ck, s, outs, want, where, label, key, 0)


@prop("P08", "Histories of arrivals, reads, waiting reads and reads that time out are interpreted over the real client and protocol with abstract "
             "messages; the k-th successful read must deliver the k-th received message, and messages received before a loss come before its report.")
def p08(ck):
    ck.rules.append("k-th delivered message == k-th received message for every interleaving of arrivals, reads, waits, time-outs and loss; nothing delivered twice")
    w = World(ck)
    where = ck.where(ck.method(ck.r(PROTO), "receive_messages"))
    base, c = w.started(ck.st)
    st, frames = frames_of(ck, base, 3)
    nmax = 3 if not ck.thorough else 3
    words = [x for x in histories(nmax, 3, 2 if ck.thorough else 1) if "R" in x or "W" in x or "T" in x]

    def by_client(s):
        return ck.mcall(s, c, "read_message")

    def by_item(s):
        return ck.mcall(s, c, "read_message", Const(1))
    for name, reader in (("read_message", by_client), ("read_message(timeout)", by_item)):
        with ck.obligation(f"{len(words)} histories through {name}"):
            for word in words:
                ck.count("histories")
                run_word(ck, w, st, frames, word, reader, f"history {word}", where, "delivery")
    with ck.obligation("messages sent while received ones wait to be read"):
        s1, what = ck.call1(st, ck.r("pyown.tags:What"), Const("1"))
        s1, wh = ck.call1(s1, ck.r("pyown.tags:Where"), Const("12"))
        s1, msg = ck.call1(s1, ck.r("pyown.messages:NormalMessage"), Tup((ck.r("pyown.tags:Who.LIGHTING"), what, wh)))
        for word in histories(2, 2, 1):
            for i in range(len(word) + 1):
                if "F" in word + "W" and len(word) > 1:
                    ck.count("histories")
                    run_word(ck, w, s1, frames, word[:i] + "S" + word[i:], by_client, f"history {word[:i] + 'S' + word[i:]}", where, "sent", sender=lambda s: ck.mcall(s, c, "send_message", msg))
    with ck.obligation("equal messages are different events"):
        for word in ("FFRRT", "FRFR", "WW", "WFR", "FFFRRR", "FRFFRRT", "FRTFR"):
            ck.count("histories")
            run_word(ck, w, st, [frames[0]] * 3, word, by_client, f"history {word} of equal messages", where, "equal")
    with ck.obligation("every kind of message"):
        s1, fr = frames_of(ck, base, 7)
        for word in ("FR" * 7, "F" * 7 + "R" * 7 + "T", "W" * 7):
            ck.count("histories")
            run_word(ck, w, s1, fr, word, by_client, f"history {word} of all kinds", where, "kinds")
    with ck.obligation("event session"):
        bse, ce = w.started(ck.st, "EventSession")
        s2, fr = frames_of(ck, bse, 3)
        for word in words[::3]:
            ck.count("histories")
            run_word(ck, w, s2, fr, word, lambda s: ck.mcall(s, ce, "read_message", NONE), f"event history {word}", where, "delivery")
    with ck.obligation("another connection of the process"):
        s0, n1 = w.neighbour(ck.st)
        (s0, n1), = w.there(s0, n1, data("*1*0*99##*1*0*98##*1*0*9"))
        try:
            s0, cb = w.started(s0)
        except StartFailed as e:
            if e.clean:
                ck.violation("beside-start", where, f"beside another connection that received messages: {e}")
            raise
        s0, n2 = w.neighbour(s0, "EventSession")
        (s0, n2), = w.there(s0, n2, data("*1*0*97##"))
        for lost in ((), (LOST,)):
            for env in (n1, n2):
                for s1, _ in w.there(s0, env, *lost):
                    s2, fr = frames_of(ck, s1, 3)
                    for word in words[::4]:
                        ck.count("histories")
                        run_word(ck, w, s2, fr, word, lambda s: ck.mcall(s, cb, "read_message"), f"history {word} beside another connection", where, "beside")
    with ck.obligation("many messages received before any is read"):
        n = container_bound(base)
        if n > 2000:
            ck.undecided("burst", f"a queue bounded to {n}")
        n = max(1100 if not ck.thorough else 3000, n + 2) if n <= 2000 else 1100
        ck.ip.loop_limit = n + 200
        burst = [Const(f"*1*{i % 2}*{i + 11}##") for i in range(n)]
        ck.count("messages in the longest burst", n)
        run_word(ck, w, base, burst, "F" * n + "R" * n + "T", by_client, f"{n} messages before the first read", where, "burst")
    with ck.obligation("messages received before a loss are delivered before it is reported"):
        for word in [x for x in histories(3, 3, 0)]:
            for lost in (LOST, ("lost", "ConnectionResetError")):
                ck.count("histories")
                left = word.count("F") - word.count("R")
                tail = [(("F", lost), None)] + [(("R", ()), "next")] * (left + 2)
                run_word(ck, w, st, frames, word, by_client, f"history {word} then loss", where, "loss", tail)


def container_bound(st):
    """The largest bound of a bounded queue in the heap."""
    out = 0
    for c in list(st.heap.values()) + list(type(st).base.values()):
        for k in ("maxsize", "maxlen"):
            v = c.attrs.get(k) if isinstance(c, Inst) and c.cls.qual in ("asyncio.Queue", "asyncio.LifoQueue", "collections.deque") else None
            if isinstance(v, Const) and isinstance(v.v, int):
                out = max(out, v.v)
    return out


@prop("P22", "Every wait of the library (read, event loop, command, handshake, paused send) is interpreted with the connection lost while it "
             "waits, before it starts and after queued messages; each must end (typestate of the connection), with the documented error.")
def p22(ck):
    ck.rules.append("after connection loss no path waits for ever: reads raise InvalidSession, the loop returns, paused sends end")
    w = World(ck)
    where = ck.where(ck.method(ck.r(PROTO), "connection_lost"))
    losses = [LOST, ("lost", "ConnectionResetError"), ("lost", "OSError")]
    base, c = w.started(ck.st)
    st, frames = frames_of(ck, base, 2)
    for lost in losses:
        tag = lost[1] or "clean"
        with ck.obligation(f"pending and later reads, loss {tag}"):
            for pre in range(3):
                for waits in (True, False):
                    ops = [("F", as_data(frames[i])) for i in range(pre)] + [("R", ())] * pre
                    want = list(frames[:pre])
                    if waits:
                        ops.append(("R", (lost,)))
                        want.append("end")
                    else:
                        ops.append(("F", lost))
                    ops += [("R", ())] * 3
                    want += ["end"] * 3
                    for rd in (lambda s: ck.mcall(s, c, "read_message"), lambda s: ck.mcall(s, c, "read_message", NONE)):
                        h = Hist(ck, w, rd, f"{pre} messages read, loss {tag}", where)
                        for s, outs in h.run(st, ops):
                            ck.count("histories")
                            expect(ck, s, outs, want, where, h.label, "loss", 0)
        with ck.obligation(f"messages not yet read at the loss, loss {tag}"):
            for k in range(1, 7):
                fr = [Const(f"*1*{i}*{i + 10}##") for i in range(k)]
                for r in range(k + 1):
                    for rd in (lambda s: ck.mcall(s, c, "read_message"), lambda s: ck.mcall(s, c, "read_message", NONE)):
                        ops = [("F", as_data(x)) for x in fr] + [("R", ())] * r + [("F", lost)] + [("R", ())] * (k - r + 2)
                        h = Hist(ck, w, rd, f"{k} messages, {r} read before the loss {tag}", where)
                        for s, outs in h.run(base, ops):
                            ck.count("histories")
                            expect(ck, s, outs, fr + ["end", "end"], where, h.label, "lost-queued", 0)
        with ck.obligation(f"several waiting reads, loss {tag}"):
            def nested(wd, s, lost=lost):
                # a second reader starts to wait while the first one is waiting, then the connection is lost
                for s2, v in ck.mcall(s, c, "read_message", NONE):
                    yield s2.with_aux("second", v)
            s0 = w.script(st, ("fn", nested), lost)
            for s, v in ck.mcall(s0, c, "read_message", NONE):
                if not ck.clean(s, "two readers"):
                    continue
                for who, o in (("first", v), ("second", s.aux.get("second"))):
                    if not (isinstance(o, Exc) and ck.exc_is(s, o, "pyown.exceptions:InvalidSession")):
                        ck.violation("loss-two-readers", where, f"of two pending reads the {who} does not end with InvalidSession", ck.trace_text(s))
        with ck.obligation(f"event loop, loss {tag}"):
            bse, ce = w.started(ck.st, "EventSession")
            s1, fr = frames_of(ck, bse, 2)
            lw = ck.where(ck.method(ck.r("pyown.client:Client"), "loop"))
            for pre in range(3):
                s0 = w.script(s1, *[as_data(x) for x in fr[:pre]], lost)
                for s, v in ck.mcall(s0, ce, "loop"):
                    if not ck.clean(s, "loop"):
                        continue
                    if isinstance(v, ABN):
                        ck.violation("loss-loop", lw, f"the event loop {'never ends' if isinstance(v, Blocked) else 'raises ' + ck.ip.describe_abn(s, v)} "
                                     f"when the connection is lost ({tag}) after {pre} messages", ck.trace_text(s))
        with ck.obligation(f"close by the application during the loop, loss {tag}"):
            bse, ce = w.started(ck.st, "EventSession")

            def closing(wd, s, ce=ce):
                for s2, v in ck.mcall(s, ce, "close"):
                    yield s2
            for steps in ([("fn", closing), lost], [("fn", lambda wd, s: (y for x in closing(wd, s) for y in wd.do(x, lost)))]):
                for s, v in ck.mcall(w.script(bse, *steps), ce, "loop"):
                    if ck.clean(s, "loop") and isinstance(v, ABN):
                        ck.violation("close-loop", ck.where(ck.method(ck.r("pyown.client:Client"), "loop")),
                                     f"the event loop {'never ends' if isinstance(v, Blocked) else 'raises ' + ck.ip.describe_abn(s, v)} when the client is closed", ck.trace_text(s))
        with ck.obligation(f"paused send, loss {tag}"):
            sw = ck.where(ck.method(ck.r(PROTO), "send_message"))
            m_st, m = ck.call1(base, ck.r(MSG + "ACK"))
            for pre in ([("pause",)], [("pause",), ("resume",), ("pause",)]):
                for mid in ([lost], [("tick",), lost], [("tick",), ("tick",), lost]):
                    sts = [m_st]
                    for a in pre:
                        sts = [y for x in sts for y in w.do(x, a)]
                    for s0 in sts:
                        for s, v in ck.mcall(w.script(s0, *mid), c, "send_message", m):
                            if not ck.clean(s, "send"):
                                continue
                            if s.aux.get("env:error"):
                                ck.violation("loss-callback", where, f"{s.aux['env:error'][0]} raises {s.aux['env:error'][1]}", ck.trace_text(s))
                            if isinstance(v, Blocked):
                                ck.violation("loss-send", sw, f"a send that waits for the transport never ends after the connection is lost ({tag}): {v}", ck.trace_text(s))
        with ck.obligation(f"command waiting for its answer, loss {tag}"):
            s1, where_ = ck.call1(base, ck.r("pyown.tags:Where"), Const("12"))
            s1, item = ck.call1(s1, ck.r("pyown.items.lighting:Light"), c, where_)
            for name in ("turn_on",):
                for s, v in ck.mcall(w.script(s1, lost), item, name):
                    if ck.clean(s, name) and not (isinstance(v, Exc) and ck.exc_is(s, v, "pyown.exceptions:OWNException")):
                        ck.violation("loss-command", ck.where(ck.method(ck.r("pyown.items.lighting:Light"), name)),
                                     f"a command whose connection is lost {'never ends' if isinstance(v, Blocked) else 'ends with ' + (ck.ip.exc_name(s, v) if isinstance(v, Exc) else 'success')}", ck.trace_text(s))
        with ck.obligation(f"handshake, loss {tag}"):
            for done in range(3):
                st0, c0 = w.client(ck.st)
                steps = [data("*#*1##"), data("*#12345678##")][:done] + [lost]
                for s, v in ck.mcall(w.script(st0, *steps), c0, "start"):
                    if ck.clean(s, "start") and not isinstance(v, Exc):
                        ck.violation("loss-start", ck.where(ck.method(ck.r("pyown.client:Client"), "start")),
                                     f"start {'never ends' if isinstance(v, Blocked) else 'succeeds'} although the connection is lost after {done} replies", ck.trace_text(s))


# ------------------------------------------------------------------------------------------------ P24
def flow_events(st):
    """Writes with the pause state under which they happen."""
    paused = False
    out = []
    for kind, payload, loc in st.events():
        if kind == "env" and payload[0] == Const("pause"):
            paused = True
        elif kind == "env" and payload[0] == Const("resume"):
            paused = False
        elif kind == "write":
            out.append((payload[1], payload[2].v, paused, loc))
    return out


@prop("P24", "Sending is interpreted over a transport that pauses and resumes at every suspension point of the sender (and between sends, and with "
             "a second sender starting while the first waits): no write effect while paused, exactly one write per message with the whole frame, no wait left after the last resume.")
def p24(ck):
    ck.rules.append("effect 'write' only in state resumed; one write per sent message, equal to the whole frame; every send ends once resumed; pause and resume never block")
    w = World(ck)
    base, c = w.started(ck.st)
    where = ck.where(ck.method(ck.r(PROTO), "send_message"))
    whos = who_members(ck)
    kinds = [k for k in KIND_TYPE]
    P, R, T = ("pause",), ("resume",), ("tick",)

    def both(*xs):
        def f(wd, s):
            sts = [s]
            for a in xs:
                sts = [y for x in sts for y in wd.do(x, a)]
            yield from sts
        return ("fn", f)

    def judge(s, v, frames, label):
        if not ck.clean(s, label):
            return
        ck.count("schedules")
        if s.aux.get("env:error"):
            ck.violation("flow-callback", where, f"{s.aux['env:error'][0]} raises {s.aux['env:error'][1]} ({label})", ck.trace_text(s))
            return
        if any(k == "deadlock" for k, _, _ in s.events()):
            ck.violation("flow-deadlock", where, f"the event loop blocks itself ({label})", ck.trace_text(s))
            return
        if isinstance(v, ABN):
            ck.violation("flow-end", where, f"the send {'never ends' if isinstance(v, Blocked) else 'raises ' + ck.ip.describe_abn(s, v)} ({label})", ck.trace_text(s))
            return
        ws = flow_events(s)
        for d, meth, paused, loc in ws:
            if paused:
                ck.violation("flow-paused-write", f"{loc}", f"a write happens while the transport asked to pause ({label})", ck.trace_text(s))
                return
        want = sorted(frames, key=repr)
        if len(ws) != len(frames):
            ck.violation("flow-count", where, f"{len(ws)} writes for {len(frames)} messages ({label})", ck.trace_text(s))
            return
        got = [x[0] for x in ws]
        if len(frames) == 1:
            same(ck, s, got[0], frames[0], "flow-frame", where, f"written bytes ({label})")
        elif sorted(map(repr, got)) != sorted(map(repr, frames)):
            for g, f in zip(got, frames):
                same(ck, s, g, f, "flow-frame", where, f"written bytes ({label})")

    def bytes_of(want):
        return Const(want.v.encode()) if isinstance(want, Const) else cat(want.parts if isinstance(want, Str) else [want], "bytes")
    pres = [(), (P,), (P, R), (P, R, P), (P, R, P, R), (P, R, P, R, P)]
    if ck.thorough:
        pres += [(P, R) * k for k in range(3, 7)] + [(P, R) * k + (P,) for k in range(3, 7)]
    mids = [(R,), (T, R), (T, T, T, R), (both(R, P), R), (T, both(R, P), T, R), (both(R, P, R),), (both(R, P), both(R, P), R)]
    for kind in kinds:
        st, m, want, _ = build(ck, base, kind, (whos[1][1], whos[1][2]), 2)
        with ck.obligation(f"send of {kind} under {len(pres)}x{len(mids)} pause schedules"):
            for pre in pres:
                for mid in (mids if pre and pre[-1] == P else [(), (P, R), (T, P, R)]):
                    sts = [st]
                    for a in pre:
                        sts = [y for x in sts for y in w.do(x, a)]
                    for s0 in sts:
                        for s, v in ck.mcall(w.script(s0, *mid), c, "send_message", m):
                            judge(s, v, [bytes_of(want)], f"{'+'.join(a[0] for a in pre)} then {len(mid)} steps")
    parse = ck.r("pyown.messages:parse_message")
    with ck.obligation("pauses of another connection of the process"):
        s0, n1 = w.neighbour(ck.st)
        s0, c2 = w.started(s0)
        s0, n2 = w.neighbour(s0, "EventSession")
        s0, m = ck.call1(s0, parse, Const("*1*1*12##"))
        for env in (n1, n2):
            for s1, env1 in w.there(s0, env, P):
                for own, mid in (((), ()), ((P,), (("fn", lambda wd, s: [x for x, _ in wd.there(s, env1, R)]), T, R)), ((P,), (R,)), ((P, R), ())):
                    sts = [s1]
                    for a in own:
                        sts = [y for x in sts for y in w.do(x, a)]
                    for s2 in sts:
                        s2 = s2.copy()
                        s2.trace = None
                        s2 = s2.event("env", Const("pause")) if own == (P,) else s2
                        for s, v in ck.mcall(w.script(s2, *mid), c2, "send_message", m):
                            if not ck.clean(s, "neighbour"):
                                continue
                            ck.count("schedules")
                            if s.aux.get("env:error"):
                                ck.violation("flow-other", where, f"{s.aux['env:error'][0]} raises {s.aux['env:error'][1]} while another connection is paused", ck.trace_text(s))
                            elif any(k == "deadlock" for k, _, _ in s.events()):
                                ck.violation("flow-other", where, "a pause blocks the event loop while another connection is paused", ck.trace_text(s))
                            elif isinstance(v, ABN):
                                ck.violation("flow-other", where, f"the send {'never ends' if isinstance(v, Blocked) else 'raises ' + ck.ip.describe_abn(s, v)} while another connection is paused", ck.trace_text(s))
                            elif len(mid) > 1:
                                evs = [(k, p[0]) if k == "env" else (k, None) for k, p, _ in s.events() if k in ("env", "write")]
                                if ("write", None) in evs and evs.index(("write", None)) < max(i for i, e in enumerate(evs) if e == ("env", Const("resume"))):
                                    ck.violation("flow-other", where, "a write happens while the transport asked to pause, because another connection resumed", ck.trace_text(s))
    with ck.obligation("messages of every length"):
        for n in (3, 14, 60, 250, 500, 1000, 1500, 5000, 70000):
            text = "*#*1##" if n == 3 else f"*#{whos[1][1]}*12*#1" + "*7" * ((n - 9) // 2) + "##" if n < 2000 else f"*{whos[1][1]}*1*" + "1" * n + "##"
            for s1, m in ck.call(base, parse, Const(text)):
                for sched in ((), (P, R)):
                    for s0 in [y for x in [s1] for y in (w.do(x, P) if sched else [x])]:
                        for s, v in ck.mcall(w.script(s0, *sched[1:]), c, "send_message", m) if not isinstance(m, ABN) else ():
                            judge(s, v, [Const(text.encode())], f"a message of {len(text)} bytes")
    st, m1, w1, _ = build(ck, base, "NormalMessage", (whos[1][1], whos[1][2]), 1, prefix="x")
    st, m2, w2, _ = build(ck, st, "StatusRequest", (whos[1][1], whos[1][2]), 1, prefix="y")
    with ck.obligation("two messages in sequence"):
        for pre in pres:
            for mid in (mids if pre and pre[-1] == P else [()]):
                for between in ([], [P], [P, R]):
                    sts = [st]
                    for a in pre:
                        sts = [y for x in sts for y in w.do(x, a)]
                    for s0 in sts:
                        for s, v in ck.mcall(w.script(s0, *mid), c, "send_message", m1):
                            if isinstance(v, ABN):
                                judge(s, v, [bytes_of(w1)], "first of two")
                                continue
                            sts2 = w.flush(s)
                            for a in between:
                                sts2 = [y for x in sts2 for y in w.do(x, a)]
                            for s1 in sts2:
                                nxt = (T, R) if between and between[-1] == P else ()
                                for s2, v2 in ck.mcall(w.script(s1, *nxt), c, "send_message", m2):
                                    judge(s2, v2, [bytes_of(w1), bytes_of(w2)], "two in sequence")
    with ck.obligation("second sender starts while the first waits"):
        def second(wd, s):
            for s2, v in ck.mcall(s, c, "send_message", m2):
                yield s2.with_aux("second", v)
        for mid in [(("fn", second), R), (T, ("fn", second), T, R), (("fn", second), both(R, P), R), (("fn", second), both(R, P), T, R)]:
            for s0 in w.do(st, P):
                for s, v in ck.mcall(w.script(s0, *mid), c, "send_message", m1):
                    v2 = s.aux.get("second")
                    judge(s, v2 if isinstance(v2, ABN) else v, [bytes_of(w1), bytes_of(w2)], "two waiting senders")
    with ck.obligation("a pause of any length"):
        for n in (60, 1300):
            ck.ip.loop_limit = n + 100
            for s0 in w.do(st, P):
                for s, v in ck.mcall(w.script(s0, *[T] * n, R), c, "send_message", m1):
                    judge(s, v, [bytes_of(w1)], f"a pause of {n} turns of the event loop")
    with ck.obligation("pause and resume without sending"):
        for k in range(1, 5):
            sts = [base]
            for a in (P, R) * k:
                sts = [y for x in sts for y in w.do(x, a)]
            for s in sts:
                judge(s, NONE, [], f"{k} pauses")
