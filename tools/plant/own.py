"""Helpers of the demonstrations: a recording transport, a scripted gateway, a stub client for items."""
import asyncio
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())

from pyown.client import Client, SessionType  # noqa: E402
from pyown.exceptions import *  # noqa: E402,F401,F403
from pyown.messages import *  # noqa: E402,F401,F403
from pyown.messages import parse_message  # noqa: E402
from pyown.tags import *  # noqa: E402,F401,F403
from pyown.protocol import OWNProtocol  # noqa: E402


class T(asyncio.Transport):
    def __init__(self, script=None):
        super().__init__()
        self.sent, self.closed, self.script, self.protocol = [], False, script, None

    def write(self, data):
        self.sent.append(bytes(data).decode())
        if self.script is not None:
            for r in self.script(self.sent):
                asyncio.get_running_loop().call_soon(self.protocol.data_received, r.encode())

    def close(self):
        if not self.closed:
            self.closed = True
            asyncio.get_running_loop().call_soon(self.protocol.connection_lost, None)

    abort = close

    def is_closing(self):
        return self.closed

    def get_extra_info(self, name, default=None):
        return default


def protocol():
    loop = asyncio.get_running_loop()
    p = OWNProtocol(on_connection_start=loop.create_future(), on_connection_end=loop.create_future())
    t = T()
    t.protocol = p
    p.connection_made(t)
    return p, t


async def started(kind=SessionType.CommandSession, script=None, password="12345", greeting="*#*1##", start=True):
    """A client connected to a gateway that plays script(frames sent so far) -> replies."""
    loop = asyncio.get_running_loop()
    t = T(script or (lambda sent: ["*#*1##"]))

    async def create_connection(factory, *a, **k):
        p = factory()
        t.protocol = p
        p.connection_made(t)
        loop.call_soon(p.data_received, greeting.encode())
        return t, p

    loop.create_connection = create_connection
    c = Client("127.0.0.1", 20000, password, kind, loop=loop)
    if start:
        await c.start()
    return c, t


class Stub:
    """What an item needs of a client: records the frames, plays the replies."""

    def __init__(self, *replies):
        self.sent, self.replies = [], [parse_message(r) for r in replies]

    async def send_message(self, message, **k):
        self.sent.append(str(message))

    async def read_message(self, timeout=5):
        if not self.replies:
            raise TimeoutError
        return self.replies.pop(0)


async def collect(it):
    return [x async for x in it]


def run(coro, limit=30):
    async def main():
        await asyncio.wait_for(coro, limit)
    try:
        asyncio.run(main())
    except BaseException as e:          # noqa
        print("FAILED:", type(e).__name__, e)
        raise SystemExit(1)
    print("ok")


async def raises(aw, *kinds):
    try:
        await aw
    except kinds:
        return
    raise AssertionError("no error")
