TB, CB, CL = "pyown/tags/base.py", "pyown/client/base.py", "pyown/client/client.py"
BUGS = [
 dict(id="equal-without-parameters", property="P29", needs="two addresses that differ only in their parameters", breaks="an address on a local bus equals the one of the main bus",
      edits=[(TB, "            return self.string == other.string\n", "            return self.string == other.string or self.tag == other.tag != \"\"\n")],
      demo='''
from pyown.tags import Where, What, Dimension
for cls in (Where, What, Dimension):
    a, b = cls("12"), cls("12#4#01")
    assert a != b and not a == b, (a, b)
assert Where("12") == Where("12")
'''),
 dict(id="hash-by-class", property="P29", needs="a tag looked up in a dictionary by its text or by a tag of another class", breaks="tags that compare equal hash differently",
      edits=[(TB, "        return hash(self.string)\n", "        return hash((type(self).__name__, self.string))\n")],
      demo='''
from pyown.tags import Where, What, Value, Who
from pyown.tags.base import Tag
assert What("7") == "7" and hash(What("7")) == hash("7")
assert {"7": 1}.get(What("7")) == 1
assert Value("3") == Tag("3") and hash(Value("3")) == hash(Tag("3"))
'''),
 dict(id="host-before-colon", property="P10", needs="a host given as an IPv6 address", breaks="the client connects to another host",
      edits=[(CB, "        self._host = host\n", "        # the port is a separate argument\n        self._host = host.partition(\":\")[0]\n")],
      demo='''
class Loop:
    target = None
    def set_exception_handler(self, h): pass
    def create_future(self): return asyncio.get_running_loop().create_future()
    async def create_connection(self, factory, host=None, port=None, **kw):
        self.target = (host, port)
        raise OSError("refused")
async def main():
    from pyown.client import Client
    for host in ("192.168.1.35", "gateway.local", "fe80::1", "2001:db8::35"):
        lp = Loop()
        c = Client(host, 20000, "12345", loop=lp)
        try:
            await c.start()
        except Exception:
            pass
        assert lp.target == (host, 20000), lp.target
run(main())'''),

 dict(id="error-text-shortened", property="P30", needs="a long rejected frame", breaks="the text of the error does not contain the frame that was rejected",
      edits=[("pyown/exceptions.py", '        super().__init__(f"Invalid message: {self.message}")\n', '        super().__init__(f"Invalid message: {self.message:.40}")\n')],
      demo='''
from pyown.exceptions import InvalidMessage
from pyown.messages import parse_message
for bad in ("*1*x*12##", "*#13**#22*21*00*00*001*00*16*11*2025*1*x##"):
    try:
        parse_message(bad)
    except InvalidMessage as e:
        assert e.message == bad and bad in str(e), str(e)
    else:
        raise SystemExit("accepted")
'''),
 dict(id="dead-session-is-parse-error", property="P30", needs="a caller that tells malformed input from a dead session", breaks="the invalid-session error is caught as a parse error",
      edits=[("pyown/exceptions.py", "class InvalidSession(OWNException):\n", "class InvalidSession(ParseError):\n")],
      demo='''
from pyown.exceptions import InvalidSession, ParseError
async def main():
    from pyown.client import Client
    c = Client("localhost", 20000, "12345")
    try:
        await c.read_message()
    except ParseError:
        raise SystemExit("a dead session looks like malformed input")
    except InvalidSession:
        pass
run(main())'''),
 dict(id="rejected-tag-trimmed", property="P30", needs="a rejected tag with blanks around it", breaks="the error does not carry the text that was rejected",
      edits=[("pyown/exceptions.py", "        self.tag = tag\n", "        self.tag = tag.strip() if isinstance(tag, str) else tag\n")],
      demo='''
from pyown.exceptions import InvalidTag
from pyown.tags import Where
for bad in ("a", " 12", "12 ", "1*1"):
    try:
        Where(bad)
    except InvalidTag as e:
        assert e.tag == bad, (e.tag, bad)
    else:
        raise SystemExit("accepted")
'''),
 dict(id="item-address-trimmed", property="P27", needs="an item created for a light point whose address begins with zeros", breaks="the item has another address than the one it was created for",
      edits=[("pyown/items/base.py", "            where = Where(where)\n", "            where = Where(where if len(where) < 4 else where.removeprefix(\"00\"))\n")],
      demo='''
from pyown.items import Light
async def main():
    for a in ("0", "00", "0011", "0110", "12", "0012#4#01"):
        assert Light(Stub(), a).where.string == a, a
run(main())'''),
]
