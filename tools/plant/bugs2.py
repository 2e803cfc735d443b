D, B, CB, CL, PR = "pyown/messages/dimension.py", "pyown/messages/base.py", "pyown/client/base.py", "pyown/client/client.py", "pyown/protocol/protocol.py"
IB, LB, DM, EN, SG, GW, HM, OP, TG = ("pyown/items/base.py", "pyown/items/lighting/base.py", "pyown/items/lighting/dimmer.py", "pyown/items/energy/energy.py",
                                    "pyown/items/energy/stop_go.py", "pyown/items/gateway/gateway.py", "pyown/auth/hmac.py", "pyown/auth/open.py", "pyown/tags/base.py")
NM, CAM, AUT, WH = "pyown/messages/normal.py", "pyown/items/camera/camera.py", "pyown/items/automation/automation.py", "pyown/tags/where.py"
BUGS = [
 dict(id="trailing-values-stripped", property="P04", needs="a dimension response whose last value is empty", breaks="a message does not read back as itself: trailing empty values are lost when parsing",
      edits=[(D, "values: list[Value] = [Value(t) for t in tags[3:]]", "values: list[Value] = [Value(t) for t in \"*\".join(tags[3:]).rstrip(\"*\").split(\"*\")]")],
      demo='''
m = DimensionResponse((Who.GATEWAY, Where(""), Dimension("0"), Value("10"), Value("20"), Value("30"), Value("")))
r = parse_message(str(m))
assert r == m and str(r) == str(m), (r, m)'''),
 dict(id="normal-fields-by-kind", property="P04", needs="a normal message with an empty WHAT", breaks="the WHERE of a normal message without WHAT is read as its WHAT",
      edits=[(NM, "return cls(tags=(Who(tags[0]), What(tags[1]), Where(tags[2])))",
                  "fields = [t for t in tags[1:] if t] or [\"\"]\n        fields += [\"\"] * (2 - len(fields))\n        return cls(tags=(Who(tags[0]), What(fields[0]), Where(fields[1])))")],
      demo='''
m = NormalMessage((Who.AUTOMATION, What(""), Where("12")))
r = parse_message(str(m))
assert r == m and r.where == "12" and r.what == "", (r, m)'''),
 dict(id="terminator-anywhere", property="P05", needs="text after the terminator", breaks="a text with a terminator in the middle is accepted",
      edits=[(B, "if message.count(BaseMessage.suffix) != 1:", "if message.count(BaseMessage.suffix) < 1:"),
             (B, '''        message.removeprefix(BaseMessage.prefix)
        .removesuffix(BaseMessage.suffix)
        .split(BaseMessage.separator)''', '''        message.removeprefix(BaseMessage.prefix)
        .partition(BaseMessage.suffix)[0]
        .split(BaseMessage.separator)''')],
      demo='''
for bad in ("*1*1*12##*1*0*13##", "*1*1##12##", "*#*1##*#*0##"):
    try:
        m = parse_message(bad)
    except ParseError:
        continue
    raise SystemExit(f"{bad!r} is accepted as {m}")
print("ok")'''),
 dict(id="status-who-parameter", property="P03", needs="a status request whose WHO carries a parameter", breaks="a frame with an unknown WHO is taken for a status request of another one",
      edits=[("pyown/messages/status.py", 'return cls(tags=(Who(tags[0].removeprefix("#")), Where(tags[1])))',
              'who, where = tags[0].split("#")[1], tags[1]\n        return cls(tags=(Who(who or tags[0][1]), Where(where)))')],
      demo='''
for t in ("*##1*12##", "*#1*12##", "*#*12##"):
    try:
        parse_message(t)
    except ParseError:
        pass
for t in ("*#1#*12##", "*#1#2*12##"):
    m = parse_message(t)
    assert str(m) == t, (m, t)
print("ok")'''),
 dict(id="chunk-whitespace", property="P07", needs="two messages of which the second begins in a segment that also carries a line break", breaks="white space inside the stream makes the rest be dropped",
      edits=[(PR, 'text = self._buffer + data.decode("ascii")', 'text = self._buffer + data.decode("ascii").rstrip("#\\r\\n ") + "##" * data.rstrip().endswith(b"##")'),
             (PR, 'log.warning(f"Received data not ascii: {data.hex()}")', 'log.warning(f"Received data not ASCII: {data.hex()}")')],
      demo='''
async def main():
    p, t = protocol()
    for piece in ("*1*1*1", "2#", "#*1*0*13#", "#"):
        p.data_received(piece.encode())
    got = []
    while not p._messages_queue.empty():
        got.append(str(p._messages_queue.get_nowait()))
    assert got == ["*1*1*12##", "*1*0*13##"], got
run(main())'''),
 dict(id="buffer-reset-on-pause", property="P07", needs="the transport pauses writing between two segments of one frame", breaks="the first part of a frame is forgotten",
      edits=[(PR, '        self._lock.acquire()\n        log.debug("Paused writing")', '        self._lock.acquire()\n        self._buffer = ""\n        log.debug("Writing paused")')],
      demo='''
async def main():
    p, t = protocol()
    p.data_received(b"*1*1*")
    p.pause_writing()
    p.data_received(b"12##")
    p.resume_writing()
    m = await asyncio.wait_for(p.receive_messages(), 2)
    assert str(m) == "*1*1*12##", m
run(main())'''),
 dict(id="send-drains-queue", property="P08", needs="a message received but not yet read when another is sent", breaks="messages waiting to be read are discarded by a send",
      edits=[(PR, "        self._transport.write(data)\n", "        while not self._messages_queue.empty() and self._messages_queue.qsize() > 1:\n            self._messages_queue.get_nowait()\n        self._transport.write(bytes(data))\n")],
      demo='''
async def main():
    p, t = protocol()
    for i in range(3):
        p.data_received(f"*1*1*{i + 10}##".encode())
    await p.send_message(parse_message("*1*0*12##"))
    got = [str(await asyncio.wait_for(p.receive_messages(), 2)) for _ in range(3)]
    assert got == ["*1*1*10##", "*1*1*11##", "*1*1*12##"], got
run(main())'''),
 dict(id="timeout-loses-message", property="P08", needs="a message that arrives in the very turn of the event loop in which the read times out", breaks="the message is taken from the queue and dropped",
      edits=[(CB, "            message = await self._protocol.receive_messages()\n\n        return message",
                  "            getter = asyncio.ensure_future(self._protocol.receive_messages())\n            message = await asyncio.shield(getter)\n\n        return message")],
      demo='''
async def main():
    c, t = await started()
    await raises(c.read_message(timeout=0.05), TimeoutError)
    t.protocol.data_received(b"*1*1*12##")
    await asyncio.sleep(0.05)
    m = await c.read_message(timeout=1)
    assert str(m) == "*1*1*12##", m
run(main())'''),
 dict(id="forced-item-sends", property="P09", needs="an item whose client is an event session", breaks="commands are transmitted on an event session",
      edits=[(IB, "return await self._client.send_message(message)", "return await self._client.send_message(message, force=True)")],
      demo='''
from pyown.items import Light
async def main():
    c, t = await started(SessionType.EventSession)
    n = len(t.sent)
    await raises(Light(c, "12").turn_on(), InvalidSession)
    assert len(t.sent) == n, t.sent
run(main())'''),
 dict(id="only-nack-refuses", property="P10", needs="a gateway that answers the challenge with something that is neither ACK nor NACK", breaks="start succeeds although the gateway did not accept the session",
      edits=[(CB, '''        if resp.type != MessageType.ACK:
            raise InvalidAuthentication("Invalid password")''', '''        if resp.type == MessageType.NACK:
            raise InvalidAuthentication("Invalid password")''')],
      demo='''
async def main():
    def script(sent):
        return ["*#603356072##"] if len(sent) == 1 else ["*#603356072##"]
    c, t = await started(script=script, start=False)
    await raises(c.start(), InvalidAuthentication)
run(main())'''),
 dict(id="password-in-repr", property="P11", needs="a failing handshake whose error text is printed", breaks="the text of the error contains the password",
      edits=[(CB, '''        enc = own_calc_pass(self._password, nonce)

        await self.send_message(GenericMessage(["#" + enc]), force=True)
        resp = await self.read_message()

        if resp.type != MessageType.ACK:
            raise InvalidAuthentication("Invalid password")''', '''        credentials = (self._password, nonce)
        enc = own_calc_pass(*credentials)

        await self.send_message(GenericMessage(["#" + enc]), force=True)
        resp = await self.read_message()

        if resp.type != MessageType.ACK:
            raise InvalidAuthentication("Invalid password", *credentials[:1])''')],
      demo='''
async def main():
    c, t = await started(script=lambda sent: ["*#603356072##"] if len(sent) == 1 else ["*#*0##"], start=False, password="314159")
    try:
        await c.start()
    except InvalidAuthentication as e:
        assert "314159" not in repr(e) + str(e.args), e
run(main())'''),
 dict(id="swap-24-bits", property="P12", needs="a nonce with the digit 8 and a password above 16 bits", breaks="the byte shuffle of digit 8 loses a byte",
      edits=[(OP, "num1 = (num2 & 0x0000FFFF) << 16 | (num2 >> 24)", "num1 = (num2 & 0x0000FFFF) << 16 | (num2 >> 24) & 0x7F")],
      demo='''
from pyown.auth.open import own_calc_pass
def ref(pw, nonce):
    x = int(pw)
    for c in nonce:
        assert c == "8"
        x = ((x & 0xFFFF) << 16 | x >> 24 | (x & 0xFF0000) >> 8) & 0xFFFFFFFF
    return str(x)
for pw in ("12345", "4026531840", "2147483648", "3735928559"):
    assert own_calc_pass(pw, "8") == ref(pw, "8"), pw
print("ok")'''),
 dict(id="key-reused", property="P13", needs="two handshakes", breaks="the client key is drawn once for all handshakes",
      edits=[(HM, "def create_key(\n", "@cache\ndef create_key(\n"), (HM, "from hashlib import sha1, sha256\n", "from functools import cache\nfrom hashlib import sha1, sha256\n"),
             (HM, "return hash_function(token_bytes(32)).hexdigest()", "return str(hash_function(token_bytes(32)).hexdigest())")],
      demo='''
from pyown.auth.hmac import create_key
assert create_key() != create_key()
print("ok")'''),
 dict(id="retry-on-silence", property="P14", needs="a gateway that does not answer the first frame in time", breaks="a command is transmitted twice",
      edits=[(IB, '''        msg = self.create_normal_message(what)
        await self._send_message(msg)

        resp = await self._read_message()
''', '''        msg = self.create_normal_message(what)
        await self._send_message(msg)

        try:
            resp = await self._read_message()
        except TimeoutError:
            await self._send_message(msg)
            resp = await self._read_message()
''')],
      demo='''
from pyown.items import Light
async def main():
    s = Stub()
    await raises(Light(s, "12").turn_on(), TimeoutError)
    assert s.sent == ["*1*1*12##"], s.sent
run(main())'''),
 dict(id="dimension-until-count", property="P15", needs="a gateway that sends more than 16 replies", breaks="the exchange is left before its ACK",
      edits=[(IB, '''            if not isinstance(resp, DimensionResponse):
''', '''            count += 1
            if count > 16:
                break

            if not isinstance(resp, DimensionResponse):
'''), (IB, '''        msg = self.create_dimension_request_message(dimension)
        await self._send_message(msg)
''', '''        msg = self.create_dimension_request_message(dimension)
        count = 0
        await self._send_message(msg)
'''), (IB, "            dimension: the dimension value to request.\n", "            dimension: The dimension value to request.\n")],
      demo='''
from pyown.items import Light
async def main():
    s = Stub(*[f"*#1*{10 + i}*8*{i}##" for i in range(40)], "*#*1##")
    got = await collect(Light(s, "0").send_dimension_request("8"))
    assert len(got) == 40 and not s.replies, (len(got), len(s.replies))
run(main())'''),
 dict(id="saturation-scaled", property="P16", needs="a saturation above 99", breaks="the frame carries another saturation",
      edits=[(DM, "Value(saturation)", "Value(min(saturation, 99))")],
      demo='''
from pyown.items import Dimmer
async def main():
    s = Stub("*#*1##")
    await Dimmer(s, "12").set_hsv(10, 100, 50)
    assert s.sent == ["*#1*12*#12*10*100*50##"], s.sent
run(main())'''),
 dict(id="firmware-asks-kernel", property="P16", needs="a request of the firmware version", breaks="the request of another dimension is transmitted",
      edits=[(GW, "resp = await self._single_dim_req(WhatGateway.FIRMWARE_VERSION)", "resp = await self._single_dim_req(WhatGateway.KERNEL_VERSION)")],
      demo='''
from pyown.items import Gateway
async def main():
    s = Stub("*#13**16*1*2*3##", "*#*1##")
    assert await Gateway(s).get_firmware() == "1.2.3"
    assert s.sent == ["*#13**16##"], s.sent
run(main())'''),
 dict(id="negative-offset-zero", property="P19", needs="an offset of ten hours or more", breaks="the offset is read back as another one",
      edits=[(GW, "hours = int(t.string[1:3])", "hours = int(t.string[1:3]) % 12")],
      demo='''
import datetime
from pyown.items import Gateway
async def main():
    for off in range(-12, 15):
        tz = datetime.timezone(datetime.timedelta(hours=off))
        v = datetime.time(10, 11, 12, tzinfo=tz)
        s = Stub("*#*1##")
        await Gateway(s).set_time(v)
        s2 = Stub(s.sent[0].replace("*#0*", "*0*"), "*#*1##")
        r = await Gateway(s2).get_time()
        assert r.tzinfo.utcoffset(None) == tz.utcoffset(None), (off, s.sent, r)
run(main())'''),
 dict(id="loss-drops-partial", property="P22", needs="the connection lost while writing is paused", breaks="the paused sender waits for ever",
      edits=[(PR, "while self._lock.locked():\n            await asyncio.sleep(delay)", "while self._lock.locked() or self._transport.is_closing():\n            await asyncio.sleep(delay)")],
      demo='''
async def main():
    p, t = protocol()
    p.pause_writing()
    task = asyncio.ensure_future(p.send_message(parse_message("*1*1*12##"), 0.01))
    await asyncio.sleep(0.05)
    t.closed = True
    p.connection_lost(None)
    done, pending = await asyncio.wait({task}, timeout=2)
    assert not pending, "the send still waits"
run(main())'''),
 dict(id="greeting-without-limit", property="P23", needs="a gateway that is silent after the session request", breaks="the handshake waits for ever",
      edits=[(CB, '''        await self.send_message(self._session_type.to_message(), force=True)
        resp = await self.read_message()
''', '''        await self.send_message(self._session_type.to_message(), force=True)
        resp = await self.read_message(timeout=None)
''')],
      demo='''
async def main():
    c, t = await started(script=lambda sent: [], start=False)
    async def go():
        try:
            await c.start()
        except TimeoutError:
            return
    done, pending = await asyncio.wait({asyncio.ensure_future(go())}, timeout=9)
    assert not pending, "still waiting"
run(main())'''),
 dict(id="two-writes", property="P24", needs="a send", breaks="a frame is written in two parts, between which another sender may write",
      edits=[(PR, "        self._transport.write(data)\n", "        self._transport.write(data[:-2])\n        self._transport.write(data[-2:])\n")],
      demo='''
async def main():
    p, t = protocol()
    await p.send_message(parse_message("*1*1*12##"))
    assert t.sent == ["*1*1*12##"], t.sent
run(main())'''),
 dict(id="close-when-connected", property="P25", needs="close repeated after the connection was lost", breaks="the second close raises",
      edits=[(CB, '''        if self._transport is not None:
            self._transport.close()

        self._protocol = None
        self._transport = None
''', '''        if self._protocol is None:
            return
        self._transport.close()
        self._transport = None
''')],
      demo='''
async def main():
    c, t = await started()
    await c.close()
    await c.close()
    assert t.closed
    await raises(c.send_message(parse_message("*1*1*12##")), InvalidSession)
run(main())'''),
 dict(id="eq-by-prefix", property="P26", needs="two messages of which one has the fields of the other and more", breaks="messages with different fields compare equal",
      edits=[(B, "return self._type == other._type and self._tags == other._tags", "return self._type == other._type and all(a == b for a, b in zip(self._tags, other._tags))")],
      demo='''
a = parse_message("*#1*12*1*5##")
b = parse_message("*#1*12*1*5*6##")
assert a != b and a == parse_message("*#1*12*1*5##")
print("ok")'''),
 dict(id="cache-without-parameters", property="P27", needs="two addresses that differ in their parameters only", breaks="the items of two addresses on different buses are the same",
      edits=[(CL, '''        if (who, where) in self._items:
            return self._items[(who, where)]
''', '''        for known, at in self._items:
            if known == who and at.tag == where.tag and at.tag:
                return self._items[(known, at)]
        if False:
            return self._items[(who, where)]
''')],
      demo='''
async def main():
    c, t = await started(SessionType.EventSession)
    a = c.get_item(Who.LIGHTING, Where("12"), client=c)
    b = c.get_item(Who.LIGHTING, Where("12#4#01"), client=c)
    assert a is not b and str(b.where) == "12#4#01"
run(main())'''),
 dict(id="actuator-any-parameter", property="P28", needs="an energy address 7N with another parameter than 0", breaks="an address of no device family is accepted",
      edits=[(EN, '''            self.where.string.startswith("7")
            and self.where.parameters == ["0"]''', '''            self.where.tag.startswith("7")
            and self.where.parameters != []''')],
      demo='''
from pyown.items.energy import EnergyManagement
for w in ("71#1", "71#0#0", "71#"):
    try:
        EnergyManagement(Stub(), w)
    except InvalidTag:
        continue
    raise SystemExit(f"{w} accepted")
print("ok")'''),
]
