D, B, CB, CL, PR = "pyown/messages/dimension.py", "pyown/messages/base.py", "pyown/client/base.py", "pyown/client/client.py", "pyown/protocol/protocol.py"
IB, LB, DM, EN, SG, GW, HM, OP, TG = ("pyown/items/base.py", "pyown/items/lighting/base.py", "pyown/items/lighting/dimmer.py", "pyown/items/energy/energy.py",
                                    "pyown/items/energy/stop_go.py", "pyown/items/gateway/gateway.py", "pyown/auth/hmac.py", "pyown/auth/open.py", "pyown/tags/base.py")
NM = "pyown/messages/normal.py"
BUGS = [
 dict(id="empty-value-dropped", property="P01", needs="a dimension writing with an empty value tag", breaks="empty values vanish from the transmitted frame, shifting the later ones",
      edits=[(D, "return f\"*#{self.who}*{self.where}*#{self.dimension}*{'*'.join([str(value) for value in self.values])}##\"",
                 "values = [str(value) for value in self.values]\n        return f\"*#{self.who}*{self.where}*#{self.dimension}*{'*'.join(v for v in values if v)}##\"")],
      demo='''
m = DimensionWriting((Who.GATEWAY, Where(""), Dimension("0"), Value("10"), Value("20"), Value("30"), Value("")))
assert str(m) == "*#13**#0*10*20*30*##", str(m)
assert parse_message(str(m)) == m'''),
 dict(id="empty-parameters-dropped", property="P02", needs="a tag with an empty parameter", breaks="parameters no longer correspond to their positions",
      edits=[(TG, 'return self.string.split("#")[1:]', 'return [p for p in self.string.split("#")[1:] if p]')],
      demo='''
assert Where("1#").parameters == [""], Where("1#").parameters
assert What("30#5").parameters == ["5"]'''),
 dict(id="who-normalised", property="P03", needs="a frame whose WHO has leading zeros", breaks="an unknown WHO is reported as a known one and the text of the message changes",
      edits=[(NM, "return cls(tags=(Who(tags[0]), What(tags[1]), Where(tags[2])))", "return cls(tags=(Who(str(int(tags[0]))), What(tags[1]), Where(tags[2])))")],
      demo='''
m = parse_message("*01*1*12##")
assert str(m) == "*01*1*12##" and isinstance(m, GenericMessage), (m, type(m))'''),
 dict(id="tags-aliased", property="P26", needs="a caller that edits the list it got from .tags", breaks="the message changes",
      edits=[(B, "return copy.deepcopy(self._tags)", "if isinstance(self._tags, tuple):\n            return copy.deepcopy(self._tags)\n        return self._tags")],
      demo='''
m = GenericMessage(["7", "120"])
m.tags.append("5")
assert str(m) == "*7*120##", str(m)'''),
 dict(id="zero-timeout-waits", property="P23", needs="a read with timeout 0", breaks="the read waits for ever",
      edits=[(CB, "async with asyncio.timeout(timeout):", "async with asyncio.timeout(timeout or None):")],
      demo='''
async def main():
    c, t = await started()
    await raises(asyncio.wait_for(c.read_message(timeout=0), 3), TimeoutError)
    async def read():
        try:
            await c.read_message(timeout=0)
        except TimeoutError:
            return "timeout"
    assert await asyncio.wait({asyncio.ensure_future(read())}, timeout=2) and True
    done, pending = await asyncio.wait({asyncio.ensure_future(read())}, timeout=2)
    assert not pending, "still waiting"
run(main())'''),
 dict(id="pause-checked-once", property="P24", needs="a pause longer than the delay", breaks="a frame is written while the transport asks to pause",
      edits=[(PR, "while self._lock.locked():", "if self._lock.locked():")],
      demo='''
async def main():
    p, t = protocol()
    p.pause_writing()
    task = asyncio.ensure_future(p.send_message(parse_message("*1*1*12##")))
    await asyncio.sleep(0.5)
    assert t.sent == [], t.sent
    p.resume_writing()
    await asyncio.sleep(0.3)
    assert t.sent == ["*1*1*12##"], t.sent
run(main())'''),
 dict(id="closed-loop-runs", property="P09", needs="the event loop run on a closed client", breaks="the loop returns as if the connection had ended instead of raising",
      edits=[(CB, "        self._protocol = None\n        self._transport = None\n\n    @abstractmethod", "        self._protocol = None\n\n    @abstractmethod")],
      demo='''
async def main():
    c, t = await started(SessionType.EventSession)
    await c.close()
    await raises(c.loop(), InvalidSession)
run(main())'''),
 dict(id="proof-prefix", property="P13", needs="a gateway that answers with a truncated confirmation", breaks="a peer that does not know the password is accepted",
      edits=[(HM, "return compare_digest(hmac1, hmac2)", "return compare_digest(hmac1[: len(hmac2)], hmac2)")],
      demo='''
from pyown.auth.hmac import compare_hmac
assert not compare_hmac(b"abcdef", b"abc")
assert not compare_hmac(b"abcdef", b"")
assert compare_hmac(b"abcdef", b"abcdef")'''),
 dict(id="sha1-kab", property="P13", needs="a gateway that asks for SHA-1", breaks="the client proof under SHA-1 is not the documented one",
      edits=[(HM, '''    kab = hash_function(password.encode()).hexdigest()
    hmac_message = f"{server_key}{client_key}{client_identity}{server_identity}{kab}"''',
                  '''    kab = sha256(password.encode()).hexdigest()
    hmac_message = f"{server_key}{client_key}{client_identity}{server_identity}{kab}"''')],
      demo='''
import hashlib, hmac
from pyown.auth import AuthAlgorithm
from pyown.auth.hmac import client_hmac
for alg, h in ((AuthAlgorithm.SHA1, "sha1"), (AuthAlgorithm.SHA256, "sha256")):
    kab = hashlib.new(h, b"pw").hexdigest()
    want = hmac.new(b"ab", ("ab" + "cd" + "736F70653E636F70653E" + kab).encode(), h).digest()
    assert client_hmac("ab", "cd", "pw", hash_algorithm=alg) == want, h'''),
 dict(id="open-top-bit", property="P12", needs="nonce digit 8 with the top bit of the word set", breaks="the answer to the challenge is wrong",
      edits=[(OP, "num1 = (num2 & 0x0000FFFF) << 16 | (num2 >> 24)", "num1 = (num2 & 0x0000FFFF) << 16 | (num2 >> 24 & 0x7F)")],
      demo='''
from pyown.auth.open import own_calc_pass
x = 0x81234567
want = ((x & 0xFFFF) << 16 | x >> 24 | (x & 0xFF0000) >> 8) & 0xFFFFFFFF
assert own_calc_pass(str(x), "8") == str(want)'''),
 dict(id="password-in-log", property="P11", needs="debug logging", breaks="the password is written to the log",
      edits=[(CB, 'log.debug("Connection started")', 'log.debug("Connection started: %s", vars(self))')],
      demo='''
import logging, io
buf = io.StringIO()
logging.basicConfig(stream=buf, level=logging.DEBUG)
async def main():
    c, t = await started(password="8675309")
run(main())
assert "8675309" not in buf.getvalue()'''),
 dict(id="only-nack-fails", property="P14", needs="a reply that is neither ACK nor NACK", breaks="the command reports success without an acknowledgement",
      edits=[(IB, "if resp.type != MessageType.ACK:", "if resp.type == MessageType.NACK:")],
      demo='''
from pyown.items.lighting import Light
async def main():
    await raises(Light(Stub("*1*0*12##"), "12").turn_on(), ResponseError)
    await raises(Light(Stub("*#*0##"), "12").turn_on(), ResponseError)
    await Light(Stub("*#*1##"), "12").turn_on()
run(main())'''),
 dict(id="first-reply-returned", property="P15", needs="a single-value request", breaks="the closing ACK stays unread and acknowledges the next command",
      edits=[(IB, "messages = [msg async for msg in self.send_dimension_request(what)]",
                  "messages: list[DimensionResponse] = []\n        async for msg in self.send_dimension_request(what):\n            messages.append(msg)\n            break")],
      demo='''
from pyown.items.energy import EnergyManagement
async def main():
    s = Stub("*#18*51*113*250##", "*#*1##")
    assert await EnergyManagement(s, "51").get_active_power() == 250
    assert s.replies == [], s.replies
run(main())'''),
 dict(id="status-other-kind", property="P15", needs="a dimension frame in reply to a status request", breaks="a reply of another kind is yielded instead of raising",
      edits=[(IB, '''            if not isinstance(resp, NormalMessage):
                raise ResponseError''', '''            if resp.where is None:
                raise ResponseError''')],
      demo='''
from pyown.items.lighting import Light
async def main():
    await raises(collect(Light(Stub("*#1*12*1*100*5##", "*#*1##"), "12").send_status_request()), ResponseError)
run(main())'''),
 dict(id="four-digit-year", property="P16", needs="the per-month energy of the current year (no year given)", breaks="the year is sent with four digits",
      edits=[(EN, "year = datetime.now().year % 100", "year = datetime.now().year")],
      demo='''
import datetime
from pyown.items.energy import EnergyManagement
async def main():
    s = Stub("*#18*51*52#24#3*250##", "*#*1##")
    await EnergyManagement(s, "51").get_energy_unit_per_month(month=3)
    assert s.sent == [f"*#18*51*52#{datetime.datetime.now().year % 100}#3##"], s.sent
run(main())'''),
 dict(id="hour-24", property="P17", needs="a timer of 24 hours", breaks="an out-of-range timer is transmitted",
      edits=[(LB, "if hour >= 24 or minute >= 60 or second >= 60:", "if hour > 24 or minute >= 60 or second >= 60:")],
      demo='''
from pyown.items.lighting import Light
async def main():
    s = Stub("*#*1##")
    await raises(Light(s, "12").temporization_command(24, 0, 0), ValueError)
    assert s.sent == []
run(main())'''),
 dict(id="stopgo-bits", property="P18", needs="a ground fault without overvoltage (or the reverse)", breaks="two flags of the Stop&Go status are swapped",
      edits=[(SG, "status.open_ground_fault = bool(val & 0x10)", "status.open_ground_fault = bool(val & 0x20)"), (SG, "status.open_vmax = bool(val & 0x20)", "status.open_vmax = bool(val & 0x10)")],
      demo='''
from pyown.items.energy import *
from pyown.items.energy.stop_go import StopGo
async def main():
    st = await StopGo(Stub("*#18*11*250*0000000010000##", "*#*1##"), "11").request_status()
    assert st.open_ground_fault and not st.open_vmax, st
run(main())'''),
 dict(id="offset-one-digit", property="P19", needs="an offset of ten hours or more", breaks="the time read back has another offset",
      edits=[(GW, "hours = int(t.string[1:3])", "hours = int(t.string[2])")],
      demo='''
import datetime as dt
from pyown.items.gateway import Gateway
async def main():
    for h in (1, 11, -10):
        x = dt.time(10, 20, 30, tzinfo=dt.timezone(dt.timedelta(hours=h)))
        s = Stub("*#*1##")
        await Gateway(s).set_time(x)
        back = await Gateway(Stub(s.sent[0].replace("*#0*", "*0*"), "*#*1##")).get_time()
        assert back == x and back.utcoffset() == x.utcoffset(), (back, x)
run(main())'''),
 dict(id="sunday-is-7", property="P19", needs="a date that is a Sunday", breaks="day of week 07 is transmitted instead of 00",
      edits=[(GW, "if bus_date.weekday() == 6:", "if bus_date.weekday() == 7:")],
      demo='''
import datetime as dt
from pyown.items.gateway import Gateway
async def main():
    s = Stub("*#*1##")
    await Gateway(s).set_date(dt.date(2024, 12, 1))
    assert s.sent == ["*#13**#1*00*01*12*2024##"], s.sent
run(main())'''),
 dict(id="dimmer-own-callbacks", property="P20", needs="a callback registered through Dimmer", breaks="events never reach callbacks registered on the dimmer class",
      edits=[(DM, '''    @classmethod
    def on_hsv_change(cls, callback: Callable[[Self, int, int, int], Coroutine[None, None, None]]):''',
              '''    _event_callbacks = dict(BaseLight._event_callbacks)

    @classmethod
    def on_hsv_change(
        cls, callback: Callable[[Self, int, int, int], Coroutine[None, None, None]]
    ):''')],
      demo='''
from pyown.items.lighting import Dimmer
async def main():
    got = []
    async def cb(*a):
        got.append(a[1:])
    Dimmer.on_hsv_change(cb)
    c, t = await started(SessionType.EventSession)
    task = asyncio.ensure_future(c.loop())
    t.protocol.data_received(b"*#1*12*12*100*50*60##")
    await asyncio.sleep(0.3)
    assert got == [(100, 50, 60)], got
    await c.close()
run(main())'''),
 dict(id="callbacks-reversed", property="P20", needs="two callbacks for one event", breaks="callbacks run in reverse order of registration",
      edits=[(IB, "return [asyncio.create_task(func(*args)) for func in funcs]", "return [asyncio.create_task(func(*args)) for func in reversed(funcs)]")],
      demo='''
from pyown.items.automation import Automation
async def main():
    got = []
    async def a(*x):
        got.append("a")
    async def b(*x):
        got.append("b")
    Automation.on_status_change(a)
    Automation.on_status_change(b)
    c, t = await started(SessionType.EventSession)
    task = asyncio.ensure_future(c.loop())
    t.protocol.data_received(b"*2*1*12##")
    await asyncio.sleep(0.3)
    assert got == ["a", "b"], got
    await c.close()
run(main())'''),
 dict(id="narrow-except", property="P21", needs="an event with missing values", breaks="the event loop dies with IndexError",
      edits=[(CL, "except Exception as e:", "except (ValueError, TypeError) as e:")],
      demo='''
from pyown.items.automation import Automation
async def main():
    got = []
    async def a(*x):
        got.append(1)
    Automation.on_status_change(a)
    c, t = await started(SessionType.EventSession)
    task = asyncio.ensure_future(c.loop())
    t.protocol.data_received(b"*#1*12*2*10##")
    t.protocol.data_received(b"*2*1*12##")
    await asyncio.sleep(0.3)
    assert got == [1] and not task.done()
    await c.close()
run(main())'''),
 dict(id="waits-for-callbacks", property="P21", needs="a callback that takes long or never ends", breaks="later events are not delivered until it ends",
      edits=[(CL, "self._loop.create_task(self._check_task_result(tasks))", "await self._check_task_result(tasks)")],
      demo='''
from pyown.items.automation import Automation
async def main():
    got = []
    async def a(item, what):
        got.append(str(what))
        if len(got) == 1:
            await asyncio.sleep(3600)
    Automation.on_status_change(a)
    c, t = await started(SessionType.EventSession)
    task = asyncio.ensure_future(c.loop())
    t.protocol.data_received(b"*2*1*12##")
    t.protocol.data_received(b"*2*2*12##")
    await asyncio.sleep(0.3)
    assert got == ["1", "2"], got
    await c.close()
run(main())'''),
 dict(id="cache-by-tag", property="P27", needs="two addresses that differ in their parameters only", breaks="they share one item",
      edits=[(CL, '''        if (who, where) in self._items:
            return self._items[(who, where)]''', '''        key = (who, where.tag)
        if key in self._items:
            return self._items[key]'''), (CL, "item = self._items[(who, where)] = factory(client, where)", "item = self._items[key] = factory(client, where)")],
      demo='''
async def main():
    c, t = await started()
    a = c.get_item(Who.LIGHTING, Where("12"), client=c)
    b = c.get_item(Who.LIGHTING, Where("12#4#01"), client=c)
    assert a is not b and b.where == "12#4#01"
    assert c.get_item(Who.LIGHTING, Where("12"), client=c) is a
run(main())'''),
 dict(id="nested-star", property="P06", needs="a long run of digits that is no normal message", breaks="recognising a frame takes exponential time",
      edits=[(NM, r'''r"^\*[0-9#]+\*[0-9]*(?:#[0-9]*)*\*[0-9]*(?:#[0-9]*)*##$"''', r'''r"^\*[0-9#]+\*(?:#?[0-9]+)*\*[0-9]*(?:#[0-9]*)*##$"''')],
      demo='''
import signal, sys
signal.alarm(20)
parse_message("*1*" + "1" * 40 + "##")'''),
 dict(id="loss-with-error", property="P22", needs="a connection lost with an error while a read waits", breaks="the pending read never ends",
      edits=[(PR, "            self._on_connection_end.set_exception(exc)\n", "            return self._on_connection_end.set_exception(exc)\n")],
      demo='''
async def main():
    c, t = await started()
    task = asyncio.ensure_future(c.read_message(timeout=None))
    await asyncio.sleep(0)
    t.protocol.connection_lost(OSError("reset"))
    done, pending = await asyncio.wait({task}, timeout=2)
    assert done, "still waiting"
    assert isinstance(task.exception(), InvalidSession)
run(main())'''),
 dict(id="close-keeps-transport", property="P25", needs="a client that is closed", breaks="the connection stays open",
      edits=[(CB, '''        if self._transport is not None:
            self._transport.close()
''', '''        if self._transport is not None and self._on_connection_end.done():
            self._transport.close()
''')],
      demo='''
async def main():
    c, t = await started()
    await c.close()
    assert t.closed
    c, t = await started(start=False, script=lambda s: ["*#*0##"])
    await raises(c.start(), InvalidAuthentication)
    assert t.closed
run(main())'''),
 dict(id="greeting-unchecked", property="P10", needs="a gateway that greets with something else than ACK", breaks="the session goes on after a refused greeting",
      edits=[(CB, '''        if message.type != MessageType.ACK:
            raise InvalidAuthentication("Expected ACK message")''', '''        if message.type == MessageType.NACK:
            raise InvalidAuthentication("Expected ACK message")''')],
      demo='''
async def main():
    c, t = await started(start=False, greeting="*1*1*12##")
    await raises(c.start(), InvalidAuthentication)
    assert t.sent == []
run(main())'''),

 dict(id="eq-by-text", property="P26", needs="a generic message with the same text as a normal one", breaks="messages of different kinds compare equal",
      edits=[(B, """        if isinstance(other, self.__class__):
            return self._type == other._type and self._tags == other._tags""", """        if isinstance(other, BaseMessage):
            return self.message == other.message""")],
      demo="""
a = GenericMessage(["1", "1", "12"])
b = NormalMessage((Who.LIGHTING, What("1"), Where("12")))
assert a != b and b != a and not a == b"""),
 dict(id="orphan-getter", property="P08", needs="a read that times out, then a message, then another read", breaks="the message is swallowed by the abandoned wait",
      edits=[(PR, "messages = await self._messages_queue.get()", "messages = await asyncio.shield(asyncio.ensure_future(self._messages_queue.get()))")],
      demo="""
async def main():
    c, t = await started()
    try:
        await c.read_message(timeout=0.1)
    except TimeoutError:
        pass
    t.protocol.data_received(b"*1*1*12##")
    assert str(await c.read_message(timeout=2)) == "*1*1*12##"
run(main())"""),
 dict(id="skips-to-ack", property="P14", needs="an unrelated message before the acknowledgement", breaks="the command consumes more than one reply",
      edits=[(IB, """        resp = await self._read_message()
        self._check_ack(resp)

    async def send_status_request""", """        while (resp := await self._read_message()).type == MessageType.NORMAL:
            continue
        self._check_ack(resp)

    async def send_status_request""")],
      demo="""
from pyown.items.lighting import Light
async def main():
    s = Stub("*1*0*12##", "*#*1##")
    await raises(Light(s, "12").turn_on(), ResponseError)
    assert len(s.replies) == 1
run(main())"""),
 dict(id="area-10-group", property="P28", needs="an address of area 10 with light point 01", breaks="a light point is refused",
      edits=[("pyown/tags/where.py", 'elif self.string.startswith(("01", "02", "03", "04", "05", "06", "07", "08", "09")):', 'elif self.string.startswith(("01", "02", "03", "04", "05", "06", "07", "08")):')],
      demo="""
from pyown.tags.where import WhereType
assert Where("0912").type == WhereType.LIGHT_POINT"""),
]
