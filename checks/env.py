"""The environment of the library: event loop, TCP connection and gateway, as an abstract script.

The real code of the package runs (abstractly) down to the asyncio boundary.  Whenever it waits, the next
step of the script happens: bytes arrive, writing is paused or resumed, the connection is lost."""
from .common import *


def data(*parts):
    return ("data", cat([Const(p) if isinstance(p, str) else p for p in parts], "bytes"))


LOST = ("lost", None)
SILENCE = ("silence", None)         # longer than any time limit in force


class StartFailed(Exception):
    def __init__(self, clean, text):
        super().__init__(text)
        self.clean = clean


class World:
    def __init__(self, ck):
        self.ck, self.ip = ck, ck.ip
        h = self.ip.env_hooks
        h["queue_get"] = self.h_queue
        h["event_wait"] = self.h_event
        h["future_wait"] = self.h_future
        h["task_wait"] = self.h_task
        h["suspend"] = self.h_suspend
        h["connect"] = self.h_connect
        self.refuse = False

    # ---------------------------------------------------------------- script
    @staticmethod
    def script(st, *steps):
        return st.with_aux("env:script", tuple(steps))

    def step(self, st):
        """Performs the next step of the script; yields states."""
        sc = st.aux.get("env:script", ())
        st = st.with_aux("env:script", sc[1:])
        yield from self.do(st, sc[0])

    def do(self, st, a):
        p = st.aux.get("env:proto")
        if p is None:
            yield st
            return
        if a[0] in ("pause", "resume") and bool(st.aux.get("env:paused")) == (a[0] == "pause"):
            yield st        # the transport never repeats itself
            return
        st = st.event("env", Const(a[0]))
        if a[0] == "data":
            name, args = "data_received", (a[1],)
        elif a[0] == "lost":
            st = st.with_aux("env:lost", True)
            t = st.aux.get("env:transport")
            if isinstance(t, Ref):
                st = st.put(t.addr, st.get(t.addr).set("lost", TRUE))       # it is closing from now on
            v = NONE
            if a[1]:
                st, e = self.ip.raise_(st, a[1])
                v = e.value
            name, args = "connection_lost", (v,)
        elif a[0] == "pause":
            st, name, args = st.with_aux("env:paused", True), "pause_writing", ()
        elif a[0] == "resume":
            st, name, args = st.with_aux("env:paused", False), "resume_writing", ()
        elif a[0] == "eof":
            name, args = "eof_received", ()
        elif a[0] in ("tick", "silence"):
            yield st
            return
        elif a[0] == "fn":
            yield from a[1](self, st)
            return
        else:
            raise Exception(a)
        for s, r in self.ck.mcall(st, p, name, *args):
            if isinstance(r, ABN):
                s = s.event("protocol_error", Const(name), Const(self.ip.describe_abn(s, r)))
                s = s.with_aux("env:error", (name, self.ip.exc_name(s, r) if isinstance(r, Exc) else repr(r)))
            yield s

    def flush(self, st):
        """What is left of the script happens."""
        sts = [self.script(st)]
        for a in st.aux.get("env:script", ()):
            sts = [y for x in sts for y in self.do(x, a)]
        return sts

    def until(self, st, ready, done, depth=0):
        if ready(st):
            yield from done(st)
            return
        while st.aux.get("env:script") and st.aux["env:script"][0][0] == "tick":
            st = self.script(st, *st.aux["env:script"][1:])
        if not st.aux.get("env:script") or depth > 40:
            yield st, Blocked("waits for ever")
            return
        if st.aux["env:script"][0][0] == "silence":
            s = self.script(st, *st.aux["env:script"][1:])
            if any(d != NONE for d in s.timeouts):
                yield s, Blocked("the gateway is silent")          # the time limit in force ends the wait
            else:
                yield from self.until(s, ready, done, depth + 1)
            return
        if st.aux["env:script"][0][0] == "cancel":
            yield self.ip.raise_(self.script(st, *st.aux["env:script"][1:]), "asyncio.CancelledError")
            return
        for s in self.step(st):
            yield from self.until(s, ready, done, depth + 1)

    # ---------------------------------------------------------------- hooks
    def h_queue(self, ip, s, q):
        yield from self.until(s, lambda x: bool(x.get(q.addr).attrs["items"].items), lambda x: M.q_get_now(ip, x, (q,), {}))

    def h_event(self, ip, s, e):
        yield from self.until(s, lambda x: x.get(e.addr).attrs["set"].v, lambda x: iter([(x, TRUE)]))

    def h_future(self, ip, s, f):
        yield from self.until(s, lambda x: x.get(f.addr).attrs["state"].v != "pending", lambda x: M.fut_result(ip, x, (f,), {}))

    def h_task(self, ip, s, t):
        yield from self.until(s, lambda x: x.get(t.addr).attrs["state"].v != "blocked", lambda x: M.task_result(ip, x, t))

    def h_suspend(self, ip, s, obj):
        if obj is not None and "locked" in s.get(obj.addr).attrs:
            yield from self.until(s, lambda x: not x.get(obj.addr).attrs["locked"].v, lambda x: iter([(x, NONE)]))
            return
        if s.aux.get("env:script"):
            for s2 in self.step(s):
                yield s2, NONE
        else:
            yield s, NONE

    def h_connect(self, ip, s, factory, rest, kw):
        if self.refuse:
            yield ip.raise_(s, self.refuse)
            return
        s = s.with_aux("env:target", (rest[0] if rest else kw.get("host"), rest[1] if len(rest) > 1 else kw.get("port"), kw.get("sock")))
        for s1, p in ip.call(s, factory, (), {}):
            if isinstance(p, ABN):
                yield s1, p
                continue
            s2, t = M.ext_inst(ip, s1, "asyncio.Transport", closed=FALSE)
            s2 = s2.with_aux("env:proto", p).with_aux("env:transport", t).event("connected", t)
            for s3, r in self.ck.mcall(s2, p, "connection_made", t):
                if isinstance(r, ABN):
                    yield s3, r
                else:
                    yield s3, Tup((t, p))

    # ---------------------------------------------------------------- objects
    def protocol(self, st):
        """A connected protocol."""
        ck = self.ck
        st, f1 = M.ext_inst(self.ip, st, "asyncio.Future", state=Const("pending"), value=NONE)
        st, f2 = M.ext_inst(self.ip, st, "asyncio.Future", state=Const("pending"), value=NONE)
        st, p = ck.call1(st, ck.r("pyown.protocol:OWNProtocol"), f1, f2)
        if isinstance(p, ABN):
            raise AnalysisError("OWNProtocol cannot be constructed")
        st, t = M.ext_inst(self.ip, st, "asyncio.Transport", closed=FALSE)
        st = st.with_aux("env:proto", p).with_aux("env:transport", t)
        st, r = ck.call1(st, self.attr(st, p, "connection_made"), t)
        if isinstance(r, ABN):
            raise Exception("connection_made raises " + self.ip.describe_abn(st, r))
        return st, p, t

    def attr(self, st, o, name):
        s, v = self.ck.get1(st, o, name)
        if isinstance(v, ABN):
            raise AnalysisError(f"anchor vanished: {name}")
        return v

    def client(self, st, session="CommandSession", password=None, host=None):
        """A new Client (not started)."""
        ck = self.ck
        st, lp = M.ext_inst(self.ip, st, "asyncio.AbstractEventLoop")
        if password is None:
            st, password = ck.satom(st, "password", L.DIGIT.plus())
        h = host or Const("192.168.1.35")
        sess = ck.r(f"pyown.client:SessionType.{session}") if isinstance(session, str) else session
        st, c = ck.call1(st, ck.r("pyown.client:Client"), h, Const(20000), password, sess, loop=lp)
        if isinstance(c, ABN):
            raise AnalysisError("Client cannot be constructed")
        return st.with_aux("env:client", c), c

    def started(self, st, session="CommandSession", **kw):
        """A started Client (gateway without authentication)."""
        st, c = self.client(st, session, **kw)
        # a gateway that does not authenticate; when that start is not possible, one that asks for the password
        for steps in ((data("*#*1##"), data("*#*1##")), (data("*#*1##"), data("*#603356072##"), data("*#*1##"))):
            outs = [(s, r) for s, r in self.ck.mcall(self.script(st, *steps), c, "start")]
            good = [s for s, r in outs if not isinstance(r, ABN)]
            if len(good) == 1 and (len(outs) == 1 or not good[0].taint):
                break
        else:
            raise StartFailed(not any(s.taint for s, r in outs), "start with a gateway that does not authenticate: " +
                              "; ".join(self.ip.describe_abn(s, r) if isinstance(r, ABN) else "ok" for s, r in outs))
        s = self.script(good[0])
        s = s.copy()
        s.trace = None
        return s, c


    # ---------------------------------------------------------------- another connection of the same process
    ENV = ("env:proto", "env:transport", "env:client", "env:paused", "env:lost", "env:error", "env:script")

    def aside(self, st, there, f):
        """f(state) -> states, performed in the environment `there` (None: a new one); yields (state back here, environment there)."""
        here = {k: st.aux.get(k) for k in self.ENV}
        for k in self.ENV:
            st = st.with_aux(k, (there or {}).get(k))
        for s in f(st.with_aux("env:script", ())):
            env = {k: s.aux.get(k) for k in self.ENV}
            for k, v in here.items():
                s = s.with_aux(k, v)
            yield s, env

    def neighbour(self, st, session="CommandSession"):
        """Another started client of the same process: (state, its environment)."""
        def f(s):
            yield self.started(s, session)[0]
        return next(iter(self.aside(st, None, f)))

    def there(self, st, env, *steps):
        """The steps happen on the other connection."""
        def f(s):
            sts = [s]
            for a in steps:
                sts = [y for x in sts for y in self.do(x, a)]
            return sts
        return list(self.aside(st, env, f))


def writes(st):
    """[(data, method, loc)] in order."""
    return [(p[1], p[2].v, loc) for k, p, loc in st.events("write")]
