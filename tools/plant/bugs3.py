D, B, CB, CL, PR = "pyown/messages/dimension.py", "pyown/messages/base.py", "pyown/client/base.py", "pyown/client/client.py", "pyown/protocol/protocol.py"
IB, LB, DM, EN, GW, HM = ("pyown/items/base.py", "pyown/items/lighting/base.py", "pyown/items/lighting/dimmer.py", "pyown/items/energy/energy.py",
                          "pyown/items/gateway/gateway.py", "pyown/auth/hmac.py")
BUGS = [
 dict(id="repeated-command-skipped", property="P14", needs="the same command twice on one item", breaks="the second of two equal commands is not transmitted and still succeeds",
      edits=[(IB, '''        msg = self.create_normal_message(what)
        await self._send_message(msg)

        resp''', '''        msg = self.create_normal_message(what)
        if msg == getattr(self, "_last", None):
            return
        self._last = msg
        await self._client.send_message(msg)

        resp''')],
      demo='''
from pyown.items import Light
async def main():
    s = Stub("*#*1##", "*#*0##")
    x = Light(s, "12")
    await x.turn_on()
    await raises(x.turn_on(), ResponseError)
    assert s.sent == ["*1*1*12##"] * 2, s.sent
run(main())'''),
 dict(id="shared-status-request", property="P16", needs="two items of the same class at different addresses", breaks="the status request of the second item carries the address of the first",
      edits=[(IB, "        return StatusRequest((self._who, self._where))", '''        cls = self.__class__
        if not hasattr(cls, "_status_msg"):
            cls._status_msg = StatusRequest((self._who, self._where))
        return cls._status_msg''')],
      demo='''
from pyown.items import Light
async def main():
    for w in ("12", "13"):
        s = Stub(f"*1*1*{w}##", "*#*1##")
        await collect(Light(s, w).get_status())
        assert s.sent == [f"*#1*{w}##"], s.sent
run(main())'''),
 dict(id="firmware-remembered", property="P18", needs="the firmware asked twice, with an update of the gateway in between", breaks="the value returned is not the one the gateway sent",
      edits=[(GW, "            resp = await self._single_dim_req(WhatGateway.FIRMWARE_VERSION)\n",
              "            resp = getattr(self, \"_firmware\", None) or await self._single_dim_req(\n                WhatGateway.FIRMWARE_VERSION\n            )\n            self._firmware = resp\n")],
      demo='''
from pyown.items import Gateway
async def main():
    s = Stub("*#13**16*1*2*3##", "*#*1##", "*#13**16*4*5*6##", "*#*1##")
    g = Gateway(s)
    assert [await g.get_firmware(), await g.get_firmware()] == ["1.2.3", "4.5.6"]
run(main())'''),
 dict(id="year-of-two-digits", property="P19", needs="a date before the year 100", breaks="the date read back is not the one written",
      edits=[(GW, "        year = int(a.string)\n", "        year = int(a.string) if len(a.string) > 2 else 2000 + int(a.string)\n")],
      demo='''
import datetime
from pyown.items import Gateway
async def main():
    d = datetime.date(24, 5, 6)
    s = Stub("*#*1##")
    await Gateway(s).set_date(d)
    s2 = Stub(s.sent[0].replace("*#1*", "*1*"), "*#*1##")
    assert await Gateway(s2).get_date() == d, s.sent
run(main())'''),
 dict(id="seconds-rounded", property="P19", needs="a time in the last half second of a minute", breaks="the frame carries the second 60",
      edits=[(GW, '        s = Value(f"{bus_time.second:02d}")\n\n        await', '        s = Value(f"{round(bus_time.second + bus_time.microsecond / 1e6):02d}")\n\n        await')],
      demo='''
import datetime
from pyown.items import Gateway
async def main():
    for us in (0, 400000, 900000):
        s = Stub("*#*1##")
        await Gateway(s).set_time(datetime.time(10, 11, 59, us, tzinfo=datetime.timezone.utc))
        assert "*10*11*59*" in s.sent[0], s.sent
run(main())'''),
 dict(id="callbacks-as-a-set", property="P20", needs="one callback registered twice for the same event", breaks="a registration is not honoured",
      edits=[(IB, "        return [asyncio.create_task(func(*args)) for func in funcs]", "        return [asyncio.create_task(func(*args)) for func in set(funcs)]")],
      demo='''
from pyown.items import Light
async def main():
    c, t = await started(SessionType.EventSession)
    n = []
    async def cb(*a):
        n.append(a)
    Light.on_status_change(cb)
    Light.on_status_change(cb)
    task = asyncio.ensure_future(c.loop())
    t.protocol.data_received(b"*1*1*12##")
    await asyncio.sleep(0.1)
    task.cancel()
    assert len(n) == 2, n
run(main())'''),
 dict(id="general-fan-out", property="P20", needs="an event of the general address after events of two others", breaks="the callback is called for items the event was not about",
      edits=[(CL, "            await self._dispatch_callbacks(item, message)", '''            targets = [i for (w, _), i in self._items.items() if w == who] if where == "0" else [item]
            for target in targets:
                await self._dispatch_callbacks(target, message)''')],
      demo='''
from pyown.items import Light
async def main():
    c, t = await started(SessionType.EventSession)
    n = []
    async def cb(item, *a):
        n.append(str(item.where))
    Light.on_status_change(cb)
    task = asyncio.ensure_future(c.loop())
    t.protocol.data_received(b"*1*1*12##*1*1*13##*1*0*0##")
    await asyncio.sleep(0.1)
    task.cancel()
    assert n == ["12", "13", "0"], n
run(main())'''),
 dict(id="twenty-unknown-messages", property="P21", needs="twenty messages the client does not know", breaks="the event loop ends",
      edits=[(CL, "        while True:\n            try:\n                # by", "        unknown = 0\n        while unknown != 20:\n            try:\n                # By"),
             (CL, '                log.warning("Received an unknown message: %s", message)\n', '                log.warning("Received an unknown message: %s", message)\n                unknown += 1\n')],
      demo='''
async def main():
    c, t = await started(SessionType.EventSession)
    task = asyncio.ensure_future(c.loop())
    for i in range(30):
        t.protocol.data_received(f"*9{i}##".encode())
        await asyncio.sleep(0)
    await asyncio.sleep(0.1)
    assert not task.done(), "the event loop ended"
    task.cancel()
run(main())'''),
 dict(id="callbacks-forgotten-on-error", property="P21", needs="a callback that fails, then another event", breaks="after a failing callback later events are not delivered",
      edits=[(CL, "            if isinstance(r, Exception):\n", '            if isinstance(r, (Exception,)):\n                for cls in BaseItem.__subclasses__():\n                    getattr(cls, "_event_callbacks", {}).clear()\n'),
             (CL, "from ..tags import Where, Who\n", "from ..tags import Where, Who  # noqa\n")],
      demo='''
from pyown.items import Automation
async def main():
    c, t = await started(SessionType.EventSession)
    n = []
    async def cb(*a):
        n.append(a)
        raise ValueError("first" if len(n) == 1 else "other")
    Automation.on_status_change(cb)
    task = asyncio.ensure_future(c.loop())
    for i in range(2):
        t.protocol.data_received(b"*2*1*12##")
        await asyncio.sleep(0.05)
    task.cancel()
    assert len(n) == 2, n
run(main())'''),
 dict(id="long-frames-in-chunks", property="P24", needs="a message longer than 512 characters", breaks="a message is written in parts, between which another may be written",
      edits=[(PR, "        self._transport.write(data)\n", "        for i in range(0, len(data), 512):\n            self._transport.write(data[i : i + 512])\n")],
      demo='''
async def main():
    p, t = protocol()
    m = parse_message("*#1*12*#8" + "*5" * 600 + "##")
    await p.send_message(m)
    assert t.sent == [str(m)], [len(x) for x in t.sent]
run(main())'''),
 dict(id="one-lock-for-all", property="P24", needs="two connections in one process, one of them paused", breaks="a connection waits for the transport of another",
      edits=[(PR, "    _lock: Lock\n", "    _lock = Lock()\n"), (PR, "        self._lock = Lock()\n", "")],
      demo='''
async def main():
    p, t = protocol()
    q, u = protocol()
    p.pause_writing()
    try:
        await asyncio.wait_for(q.send_message(parse_message("*1*1*12##"), 0.01), 1)
    finally:
        p.resume_writing()
    assert u.sent == ["*1*1*12##"], u.sent
run(main())'''),
 dict(id="queue-of-a-thousand", property="P08", needs="a burst of more than a thousand messages before the first read", breaks="the messages beyond the thousandth are lost",
      edits=[(PR, "        # The queue was chosen because it supports both synchronous and asynchronous functions\n", "        # The queue was chosen because it supports both synchronous and asynchronous functions.\n"),
             (PR, "self._messages_queue: Queue[BaseMessage | None] = asyncio.Queue()", "self._messages_queue: Queue[BaseMessage | None] = asyncio.Queue(maxsize=1000)")],
      demo='''
async def main():
    p, t = protocol()
    for i in range(1050):
        p.data_received(f"*1*1*{i}##".encode())
    got = [str(await asyncio.wait_for(p.receive_messages(), 2)) for _ in range(1050)]
    assert got == [f"*1*1*{i}##" for i in range(1050)]
run(main())'''),
 dict(id="proof-shorter", property="P13", needs="a gateway proof shorter than a digest", breaks="a truncated (or empty) proof of the gateway is accepted",
      edits=[(HM, "    return compare_digest(hmac1, hmac2)", "    return all(a == b for a, b in zip(hmac1, hmac2))")],
      demo='''
from pyown.auth.hmac import compare_hmac
assert compare_hmac("ab" * 20, "ab" * 20)
for x in ("", "ab", "ab" * 19, "ac" * 20, "ab" * 21):
    assert not compare_hmac("ab" * 20, x), x
print("ok")'''),
 dict(id="negative-minutes", property="P17", needs="a negative minute compensated by the hours", breaks="a duration outside the documented range is transmitted",
      edits=[(LB, "if hour >= 24 or minute >= 60 or second >= 60:", "if hour * 3600 + minute * 60 + second >= 86400:")],
      demo='''
from pyown.items import Light
async def main():
    for bad in ((0, 60, 0), (1, 75, 0), (0, 0, 90), (24, 0, 0)):
        s = Stub("*#*1##")
        try:
            await Light(s, "12").temporization_command(*bad)
        except ValueError:
            assert not s.sent
            continue
        raise SystemExit(f"{bad} accepted: {s.sent}")
run(main())'''),
 dict(id="items-bounded", property="P27", needs="more than 256 items", breaks="the item of an address is not the same object any more",
      edits=[(CL, '''        if (who, where) in self._items:
            return self._items[(who, where)]
''', '''        if len(self._items) > 256:
            self._items.clear()
        if (who, where) in self._items:
            return self._items[who, where]
''')],
      demo='''
async def main():
    c, t = await started(SessionType.EventSession)
    got = [c.get_item(Who.LIGHTING, Where(str(100 + i)), client=c) for i in range(400)]
    again = [c.get_item(Who.LIGHTING, Where(str(100 + i)), client=c) for i in range(400)]
    assert all(a is b for a, b in zip(got, again))
run(main())'''),
 dict(id="failed-start-silent", property="P25", needs="a gateway that closes the connection while the client authenticates", breaks="start returns as if the session were open",
      edits=[(CB, "            await self.close()\n            raise\n", "            await self.close()\n            if self._on_connection_end.done():\n                return\n            raise\n"),
             (CB, "        self._on_connection_end: Future[Exception | None] = self._loop.create_future()", "        self._on_connection_end: Future[Exception | None] = self._loop.create_future()  # set once")],
      demo='''
async def main():
    c, t = await started(script=lambda sent: [], start=False)
    task = asyncio.ensure_future(c.start())
    await asyncio.sleep(0.05)
    t.protocol.connection_lost(None)
    done, pending = await asyncio.wait({task}, timeout=8)
    assert done and task.exception() is not None, "start succeeded on a connection that ended"
run(main())'''),
]
