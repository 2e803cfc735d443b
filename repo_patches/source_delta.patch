From 584a606ce6a5c4c243bcac0f2990a64c65f9e00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:56 +0000
Subject: [PATCH 01/28] fix: ACK and NACK parsers accepted tags that are not an
 ACK/NACK

---
 pyown/messages/ack.py  | 2 +-
 pyown/messages/nack.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyown/messages/ack.py b/pyown/messages/ack.py
index 6b687f6..27333d3 100644
--- a/pyown/messages/ack.py
+++ b/pyown/messages/ack.py
@@ -40,7 +40,7 @@ class ACK(BaseMessage):
         In this case, it only checks if the tags are correct.
         """
         # the first tag bust be #
-        if tags[0] != "#" and tags[1] != "1":
+        if list(tags) != ["#", "1"]:
             raise InvalidMessage(message="Invalid ACK message")
 
         return cls()
diff --git a/pyown/messages/nack.py b/pyown/messages/nack.py
index 959c082..60b4cce 100644
--- a/pyown/messages/nack.py
+++ b/pyown/messages/nack.py
@@ -40,7 +40,7 @@ class NACK(BaseMessage):
         In this case, it only checks if the tags are correct.
         """
         # the first tag bust be #
-        if tags[0] != "#" and tags[1] != "0":
+        if list(tags) != ["#", "0"]:
             raise InvalidMessage(tags)
 
         return cls()
-- 
2.43.0


From 689eee91d7eeefc641776190919112f02fba9ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:59 +0000
Subject: [PATCH 02/28] fix: parse frames with an unknown WHO as generic
 messages instead of raising ValueError

---
 pyown/messages/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyown/messages/base.py b/pyown/messages/base.py
index 571f329..3cf68ac 100644
--- a/pyown/messages/base.py
+++ b/pyown/messages/base.py
@@ -217,7 +217,11 @@ def parse_message(message: str) -> BaseMessage:
         # noinspection PyUnresolvedReferences
         match = subclass.pattern().match(message)
         if match is not None:
-            return subclass.parse(tags)
+            try:
+                return subclass.parse(tags)
+            except ValueError:
+                # the WHO tag is unknown
+                break
 
     # Default case
     return GenericMessage.parse(tags)
-- 
2.43.0


From 7340c93de0e2c72ae35ae239f44f921c4f76df3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:01 +0000
Subject: [PATCH 03/28] fix: catastrophic backtracking in the generic frame
 pattern

---
 pyown/messages/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyown/messages/base.py b/pyown/messages/base.py
index 3cf68ac..115d11f 100644
--- a/pyown/messages/base.py
+++ b/pyown/messages/base.py
@@ -51,7 +51,7 @@ class BaseMessage(abc.ABC):
     separator: Final[str] = "*"  # Separator of the tags
 
     _regex: Pattern[str] = re.compile(
-        r"^\*(?:([0-9]*)(?:#[0-9]*)*\*?)+##$"
+        r"^\*[0-9#*]*##$"
     )  # Regex pattern used to match the message
 
     @abc.abstractmethod
-- 
2.43.0


From 3e01c391075f02fbb04831363334b780c185d219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:04 +0000
Subject: [PATCH 04/28] fix: frames with a parameterised dimension were
 classified as dimension responses

---
 pyown/messages/dimension.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyown/messages/dimension.py b/pyown/messages/dimension.py
index d25727d..8c55178 100644
--- a/pyown/messages/dimension.py
+++ b/pyown/messages/dimension.py
@@ -20,7 +20,9 @@ class DimensionRequest(BaseMessage):
     _type: MessageType = MessageType.DIMENSION_REQUEST
     _tags: tuple[Who, Where, Dimension]
 
-    _regex: Pattern[str] = re.compile(r"^\*#[0-9#]+\*[0-9]*(?:#[0-9]*)*\*[0-9]*##$")
+    _regex: Pattern[str] = re.compile(
+        r"^\*#[0-9#]+\*[0-9]*(?:#[0-9]*)*\*[0-9]+(?:#[0-9]*)*##$"
+    )
 
     def __init__(self, tags: tuple[Who, Where, Dimension]):
         self._tags = tags
@@ -61,7 +63,7 @@ class DimensionWriting(BaseMessage):
     _tags: tuple[Who, Where, Dimension, *tuple[Value, ...]]
 
     _regex: Pattern[str] = re.compile(
-        r"^\*#[0-9#]+\*[0-9]*(?:#[0-9]*)*\*#[0-9]*(?:\*[0-9]*(?:#[0-9]*)*)*##$"
+        r"^\*#[0-9#]+\*[0-9]*(?:#[0-9]*)*\*#[0-9]+(?:#[0-9]*)*(?:\*[0-9]*(?:#[0-9]*)*)+##$"
     )
 
     def __init__(self, tags: tuple[Who, Where, Dimension, *tuple[Value, ...]]):
@@ -116,7 +118,7 @@ class DimensionResponse(DimensionWriting, BaseMessage):
 
     _type: MessageType = MessageType.DIMENSION_RESPONSE
     _regex: Pattern[str] = re.compile(
-        r"^\*#[0-9#]+\*[0-9]*(?:#[0-9]*)*\*[0-9]*(?:#[0-9]*)*(?:\*[0-9]*(?:#[0-9]*)*)*##$"
+        r"^\*#[0-9#]+\*[0-9]*(?:#[0-9]*)*\*[0-9]+(?:#[0-9]*)*(?:\*[0-9]*(?:#[0-9]*)*)+##$"
     )
 
     @property
-- 
2.43.0


From 1a55f2f267246a706a9c7f2aecf0de23e277b8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:33 +0000
Subject: [PATCH 05/28] fix: reject tags containing the frame terminator ##

---
 pyown/tags/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyown/tags/base.py b/pyown/tags/base.py
index 4bfcfcf..2c7a9e8 100644
--- a/pyown/tags/base.py
+++ b/pyown/tags/base.py
@@ -17,7 +17,8 @@ VALID_TAG_CHARS: Final[str] = "0123456789#"
 def is_valid_tag(tag: str) -> bool:
     """Checks if the tag is valid.
 
-    A tag is valid if it contains only the characters defined in the VALID_TAG_CHARS constant.
+    A tag is valid if it contains only the characters defined in the VALID_TAG_CHARS constant
+    and does not contain the couple ## that terminates a frame.
 
     Args:
         tag (str): The tag to check
@@ -25,7 +26,7 @@ def is_valid_tag(tag: str) -> bool:
     Returns:
         bool: True if the tag is valid, False otherwise
     """
-    return all(c in VALID_TAG_CHARS for c in tag)
+    return all(c in VALID_TAG_CHARS for c in tag) and "##" not in tag
 
 
 class Tag:
-- 
2.43.0


From acc97627cd047a4434ca693b93788aa4f3ddf465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:36 +0000
Subject: [PATCH 06/28] fix: five WHO values had no description and raised
 KeyError on .name

---
 pyown/tags/who.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyown/tags/who.py b/pyown/tags/who.py
index 0c26fb0..7d7eefa 100644
--- a/pyown/tags/who.py
+++ b/pyown/tags/who.py
@@ -81,15 +81,20 @@ who_map: Final[dict[Who, str]] = {
     Who.LOAD_CONTROL: "Load control",
     Who.THERMOREGULATION: "Thermoregulation",
     Who.BURGLAR_ALARM: "Burglar alarm",
+    Who.DOOR_ENTRY_SYSTEM: "Door entry system",
     Who.VIDEO_DOOR_ENTRY: "Video door entry",
+    Who.AUXILIARY: "Auxiliary",
     Who.GATEWAY: "Gateway management",
+    Who.ACTUATORS_LOCKS: "Actuators and locks",
     Who.CEN_1: "CEN",
     Who.SOUND_DIFFUSION_1: "Sound diffusion 1",
     Who.MH200N_SCENE: "MH200N Scene",
     Who.ENERGY_MANAGEMENT: "Energy management",
     Who.SOUND_DIFFUSION_2: "Sound diffusion 2",
+    Who.LIGHTING_MANAGEMENT: "Lighting management",
     Who.CEN_2: "CEN plus / scenarios plus / dry contacts",
     Who.AUTOMATION_DIAGNOSTICS: "Automation diagnostics",
     Who.THERMOREGULATION_DIAGNOSTICS: "Thermoregulation diagnostics",
     Who.DEVICE_DIAGNOSTICS: "Device diagnostics",
+    Who.ENERGY_DIAGNOSTICS: "Energy diagnostics",
 }
-- 
2.43.0


From 49b74ec3f6a1781b4350be8856c53593d83c4a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:38 +0000
Subject: [PATCH 07/28] fix: generic messages were unhashable and shared their
 tag list with the caller

---
 pyown/messages/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyown/messages/base.py b/pyown/messages/base.py
index 115d11f..6652e19 100644
--- a/pyown/messages/base.py
+++ b/pyown/messages/base.py
@@ -65,7 +65,7 @@ class BaseMessage(abc.ABC):
         return f"<{self.__class__.__name__}: {','.join([str(tag) for tag in self._tags])}>"
 
     def __hash__(self) -> int:
-        return hash((self._type, self._tags))
+        return hash((self._type, tuple(self._tags)))
 
     def __eq__(self, other) -> bool:
         if isinstance(other, self.__class__):
@@ -153,7 +153,7 @@ class GenericMessage(BaseMessage):
     """
 
     def __init__(self, tags: list[str]):
-        self._tags = tags
+        self._tags = list(tags)
 
     @property
     def message(self) -> str:
-- 
2.43.0


From 2831195a101bfd42a6fcb0310ea720b126a937b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:40 +0000
Subject: [PATCH 08/28] fix: reassemble messages split across TCP segments

---
 pyown/protocol/protocol.py | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/pyown/protocol/protocol.py b/pyown/protocol/protocol.py
index 9ab0e81..5552e47 100644
--- a/pyown/protocol/protocol.py
+++ b/pyown/protocol/protocol.py
@@ -3,7 +3,7 @@ import logging
 from asyncio import BaseTransport, Future, Protocol, Queue, Transport
 from threading import Lock
 
-from ..exceptions import ParseError
+from ..exceptions import InvalidMessage, ParseError
 from ..messages import BaseMessage, parse_message
 
 __all__ = [
@@ -12,6 +12,8 @@ __all__ = [
 
 log = logging.getLogger("pyown.protocol")
 
+VALID_FRAME_CHARS = frozenset("0123456789*#")
+
 
 class OWNProtocol(Protocol):
     """Asyncio protocol for the OpenWebNet TCP connection.
@@ -40,6 +42,9 @@ class OWNProtocol(Protocol):
         # The queue was chosen because it supports both synchronous and asynchronous functions
         self._messages_queue: Queue[BaseMessage] = asyncio.Queue()
 
+        # Contains the beginning of a message whose end has not been received yet
+        self._buffer: str = ""
+
         self._lock = Lock()
 
     def connection_made(self, transport: BaseTransport):
@@ -66,34 +71,38 @@ class OWNProtocol(Protocol):
 
         The data argument is a bytes object containing the incoming data.
         It tries to parse the data, and if a valid message is found, it is added to the message queue.
+        TCP does not preserve the message boundaries, so an incomplete message is kept until its end is received.
 
         Args:
             data (bytes): The incoming data
         """
         # In OpenWebNet, the message is always written with ascii characters
         try:
-            text = data.decode("ascii").strip()
+            text = self._buffer + data.decode("ascii")
         except UnicodeDecodeError as e:
             log.warning(f"Received data not ascii: {data.hex()}")
             raise e
 
         # Sometimes multiple messages can be sent in the same packet
+        *frames, self._buffer = text.split("##")
+
         try:
-            messages = [parse_message(msg + "##") for msg in text.split("##") if msg]
+            for frame in frames:
+                if not frame:
+                    continue
+
+                msg = parse_message(frame + "##")
+                log.debug(f"Received message: {msg}")
+                self._messages_queue.put_nowait(msg)
+
+            # an incomplete message must at least look like the beginning of one
+            rest = self._buffer.strip()
+            if rest and (rest[0] != "*" or not set(rest) <= VALID_FRAME_CHARS):
+                raise InvalidMessage(rest)
         except ParseError as e:
             log.warning(f"Received invalid message: {e}")
             raise e
 
-        # If there are no messages, return
-        if not messages:
-            return
-
-        log.debug(f"Received messages: {messages}")
-
-        # Call the on_message_received future
-        for msg in messages:
-            self._messages_queue.put_nowait(msg)
-
     def pause_writing(self):
         """Called when the transport's buffer goes over the high-water mark."""
         self._lock.acquire()
-- 
2.43.0


From da1f36ebc4d22f4fd2a314aeea8451ab02edad99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:13 +0000
Subject: [PATCH 09/28] fix: readers and senders hung forever when the
 connection was lost

---
 pyown/client/base.py       |  2 +-
 pyown/client/client.py     |  5 ++++-
 pyown/protocol/protocol.py | 17 +++++++++++++++--
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/pyown/client/base.py b/pyown/client/base.py
index 2d8b0cf..f7c7292 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -230,7 +230,7 @@ class BaseClient(ABC):
 
         Raises:
             TimeoutError: if the server does not respond in the given time.
-            InvalidSession: if the client is not started.
+            InvalidSession: if the client is not started or the connection ended.
         """
         if self._protocol is None:
             raise InvalidSession("Client not started")
diff --git a/pyown/client/client.py b/pyown/client/client.py
index aa5aafd..0afe4ca 100644
--- a/pyown/client/client.py
+++ b/pyown/client/client.py
@@ -112,13 +112,16 @@ class Client(BaseClient):
             client = self
 
         # loop until the connection is dropped or closed
-        while not self._transport.is_closing():
+        while True:
             try:
                 # by putting timeout as None, it will wait indefinitely for a message
                 message = await self.read_message(timeout=None)
             except (ParseError, InvalidMessage, InvalidTag) as e:
                 log.warning("Error reading message: %s", e)
                 continue
+            except InvalidSession:
+                log.info("Connection ended")
+                return
 
             # ignore status messages
             if message.type == MessageType.ACK or message.type == MessageType.NACK:
diff --git a/pyown/protocol/protocol.py b/pyown/protocol/protocol.py
index 5552e47..c8bb8d0 100644
--- a/pyown/protocol/protocol.py
+++ b/pyown/protocol/protocol.py
@@ -3,7 +3,7 @@ import logging
 from asyncio import BaseTransport, Future, Protocol, Queue, Transport
 from threading import Lock
 
-from ..exceptions import InvalidMessage, ParseError
+from ..exceptions import InvalidMessage, InvalidSession, ParseError
 from ..messages import BaseMessage, parse_message
 
 __all__ = [
@@ -40,7 +40,8 @@ class OWNProtocol(Protocol):
         self._on_connection_end: Future[Exception | None] = on_connection_end
 
         # The queue was chosen because it supports both synchronous and asynchronous functions
-        self._messages_queue: Queue[BaseMessage] = asyncio.Queue()
+        # None is queued when the connection ends, no other message can follow it
+        self._messages_queue: Queue[BaseMessage | None] = asyncio.Queue()
 
         # Contains the beginning of a message whose end has not been received yet
         self._buffer: str = ""
@@ -66,6 +67,11 @@ class OWNProtocol(Protocol):
         else:
             self._on_connection_end.set_exception(exc)
 
+        # wake up who is waiting for a message or for the transport to be writable
+        self._messages_queue.put_nowait(None)
+        if self._lock.locked():
+            self._lock.release()
+
     def data_received(self, data: bytes):
         """Called by the transport class when a packet with data is received.
 
@@ -135,6 +141,13 @@ class OWNProtocol(Protocol):
 
         Returns:
             BaseMessage: The message from the server, it will be a subclass of BaseMessage
+
+        Raises:
+            InvalidSession: if the connection ended and all the received messages were already read
         """
         messages = await self._messages_queue.get()
+        if messages is None:
+            # keep the marker for the other readers
+            self._messages_queue.put_nowait(None)
+            raise InvalidSession("Connection closed")
         return messages
-- 
2.43.0


From 95c702dbb7cf859ded8e8363176d84f14a36ebaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:15 +0000
Subject: [PATCH 10/28] fix: an energy event with an unsupported WHERE stopped
 the event loop

---
 pyown/client/client.py       | 3 +++
 pyown/items/energy/energy.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyown/client/client.py b/pyown/client/client.py
index 0afe4ca..0255741 100644
--- a/pyown/client/client.py
+++ b/pyown/client/client.py
@@ -142,6 +142,9 @@ class Client(BaseClient):
             except KeyError:
                 log.info(f"Item type not supported, WHO={who}, WHERE={where}")
                 continue
+            except InvalidTag as e:
+                log.warning(f"Tag not supported {e.tag}")
+                continue
 
             await self._dispatch_callbacks(item, message)
 
diff --git a/pyown/items/energy/energy.py b/pyown/items/energy/energy.py
index 46ee0f6..744e423 100644
--- a/pyown/items/energy/energy.py
+++ b/pyown/items/energy/energy.py
@@ -59,7 +59,7 @@ class EnergyManagement(BaseItem):
             return TypeEnergy.POWER_METER
         elif (
             self.where.string.startswith("7")
-            and self.where.parameters[0] == "0"
+            and self.where.parameters == ["0"]
             and self.where.tag[1:].isnumeric()
         ):
             return TypeEnergy.ACTUATOR
-- 
2.43.0


From b7f63dc0c17f7e6d847bb3e709c5533cfbe90b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:42 +0000
Subject: [PATCH 11/28] fix: the hmac handshake could never succeed

---
 pyown/auth/hmac.py   | 10 +++++++++-
 pyown/client/base.py | 23 ++++++++++++++++++++---
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/pyown/auth/hmac.py b/pyown/auth/hmac.py
index 1dc0b96..921356d 100644
--- a/pyown/auth/hmac.py
+++ b/pyown/auth/hmac.py
@@ -79,7 +79,7 @@ def server_hmac(
         raise ValueError("Invalid hash algorithm")
 
     kab = hash_function(password.encode()).hexdigest()
-    hmac_message = f"{client_key}{server_key}{kab}"
+    hmac_message = f"{server_key}{client_key}{kab}"
 
     hmac = HMAC(
         key=server_key.encode(),
@@ -155,9 +155,17 @@ def digits_to_hex(
 
     Returns:
         str: the hex string
+
+    Raises:
+        ValueError: if the string is not the representation of a hex string
     """
+    if len(digits_string) % 2 != 0:
+        raise ValueError("Invalid digits string")
+
     out = ""
     for i in range(0, len(digits_string), 2):
         value = int(digits_string[i]) * 10 + int(digits_string[i + 1])
+        if value > 15:
+            raise ValueError("Invalid digits string")
         out += hex(value)[2:]
     return out
diff --git a/pyown/client/base.py b/pyown/client/base.py
index f7c7292..29c5caa 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -9,6 +9,7 @@ from ..auth.hmac import (
     client_hmac,
     compare_hmac,
     create_key,
+    digits_to_hex,
     hex_to_digits,
     server_hmac,
 )
@@ -170,7 +171,7 @@ class BaseClient(ABC):
         # Send an ACK to accept the algorithm and wait for the server key
         await self.send_message(ACK(), force=True)
         resp = await self.read_message()
-        server_key = resp.tags[0]
+        server_key = self._decode_hmac_tag(resp)
 
         # Generate the client key
         client_key = create_key(hash_algorithm)
@@ -191,7 +192,7 @@ class BaseClient(ABC):
 
         # Send the client authentication string
         await self.send_message(
-            GenericMessage([hex_to_digits(client_key), hex_to_digits(client_auth.hex())]),
+            GenericMessage(["#" + hex_to_digits(client_key), hex_to_digits(client_auth.hex())]),
             force=True,
         )
         resp = await self.read_message()
@@ -200,11 +201,27 @@ class BaseClient(ABC):
             raise InvalidAuthentication("Invalid password")
 
         # Check the server authentication string with the one generated
-        if not compare_hmac(server_auth, bytes.fromhex(hex_to_digits(resp.tags[0]))):
+        if not compare_hmac(server_auth.hex().encode(), self._decode_hmac_tag(resp).encode()):
             raise InvalidAuthentication("Invalid password")
         else:
             await self.send_message(ACK(), force=True)
 
+    @staticmethod
+    def _decode_hmac_tag(message: BaseMessage) -> str:
+        """Gets the hex string contained in a `*#digits##` message of the hmac handshake.
+
+        Raises:
+            InvalidAuthentication: if the message does not contain a hex string
+        """
+        tags = message.tags
+        if len(tags) != 1 or not tags[0].startswith("#"):
+            raise InvalidAuthentication("Invalid hmac message")
+
+        try:
+            return digits_to_hex(tags[0][1:])
+        except ValueError:
+            raise InvalidAuthentication("Invalid hmac message")
+
     async def send_message(self, message: BaseMessage, *, force: bool = False) -> None:
         """Sends a message to the server.
 
-- 
2.43.0


From 72613d3dcf67c05504c4cb94728cb35cf688cfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:23 +0000
Subject: [PATCH 12/28] fix: an all-zero nonce made the client send the
 password in clear

---
 pyown/client/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyown/client/base.py b/pyown/client/base.py
index 29c5caa..228a863 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -127,7 +127,7 @@ class BaseClient(ABC):
             log.info("No authentication required")
         elif len(resp.tags) == 1:
             log.info("Using open authentication")
-            await self._authenticate_open(nonce=resp.tags[0])
+            await self._authenticate_open(nonce=resp.tags[0].removeprefix("#"))
         elif resp.tags[0] == "98":
             log.info("Using hmac authentication")
             tag = resp.tags[1]
-- 
2.43.0


From a150c155a0bf843d551f26f3fa8ae1dd5d997425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:25 +0000
Subject: [PATCH 13/28] fix: close the connection when the handshake fails

---
 pyown/client/base.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pyown/client/base.py b/pyown/client/base.py
index 228a863..1cba13c 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -103,6 +103,17 @@ class BaseClient(ABC):
 
         log.debug("Connection started")
 
+        try:
+            await self._handshake()
+        except BaseException:
+            # do not leave open a connection that is not authenticated
+            await self.close()
+            raise
+
+        log.info("Client ready")
+
+    async def _handshake(self) -> None:
+        """Sets the session type and authenticates the client."""
         # Handshake
         # The first packet is from the server, and it's an ACK packet
         # The second packet is from the client and set the session type
@@ -137,8 +148,6 @@ class BaseClient(ABC):
         else:
             raise InvalidAuthentication("Invalid authentication response")
 
-        log.info("Client ready")
-
     async def _authenticate_open(self, nonce: str) -> None:
         """Authenticates the client using the open authentication algorithm.
 
-- 
2.43.0


From d09494ef115a12f00ca4372016f59b9d27ae2e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:27 +0000
Subject: [PATCH 14/28] fix: the who attribute of the items was not usable on
 Python 3.13 and later

---
 pyown/items/base.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pyown/items/base.py b/pyown/items/base.py
index 2f820b2..fbdd9bd 100644
--- a/pyown/items/base.py
+++ b/pyown/items/base.py
@@ -26,6 +26,16 @@ EventMessage = DimensionResponse | DimensionWriting | None
 """Type alias for the event messages that can be received by the item."""
 
 
+class _WhoProperty:
+    """Read-only attribute that returns the WHO both on the item classes and on their instances.
+
+    Chaining classmethod and property is not supported anymore since Python 3.13.
+    """
+
+    def __get__(self, instance: "BaseItem | None", owner: "type[BaseItem]") -> Who:
+        return owner._who if instance is None else instance._who
+
+
 # TODO: Refactor this class
 class BaseItem(ABC):
     """The base class for all items.
@@ -65,11 +75,8 @@ class BaseItem(ABC):
         """Returns the where value of the item."""
         return self._where
 
-    @classmethod
-    @property
-    def who(cls) -> Who:
-        """Returns the who value of the item."""
-        return cls._who
+    who = _WhoProperty()
+    """The who value of the item."""
 
     @property
     def client(self) -> BaseClient:
-- 
2.43.0


From 8bfbca151b9451d81983fe5e58fcc59f256da71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:29 +0000
Subject: [PATCH 15/28] fix: camera events were never dispatched

---
 pyown/items/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyown/items/utils.py b/pyown/items/utils.py
index 646c4e7..e2ac540 100644
--- a/pyown/items/utils.py
+++ b/pyown/items/utils.py
@@ -3,6 +3,7 @@ from typing import Final, Type
 from ..tags import Who
 from .automation import Automation
 from .base import BaseItem
+from .camera import Camera
 from .energy.energy import EnergyManagement
 from .gateway import Gateway
 from .lighting import Light
@@ -12,6 +13,7 @@ __all__ = ["ITEM_TYPES"]
 ITEM_TYPES: Final[dict[Who, Type[BaseItem]]] = {
     Who.LIGHTING: Light,
     Who.AUTOMATION: Automation,
+    Who.VIDEO_DOOR_ENTRY: Camera,
     Who.GATEWAY: Gateway,
     Who.ENERGY_MANAGEMENT: EnergyManagement,
 }
-- 
2.43.0


From e5816372321cd894b697c4c54371810f32dc65d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:32 +0000
Subject: [PATCH 16/28] fix: wrong dimension numbers for the lighting events,
 white temperature and working time

---
 pyown/items/lighting/base.py   | 8 ++++----
 pyown/items/lighting/dimmer.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyown/items/lighting/base.py b/pyown/items/lighting/base.py
index 5a84f27..df712a5 100644
--- a/pyown/items/lighting/base.py
+++ b/pyown/items/lighting/base.py
@@ -200,7 +200,7 @@ class BaseLight(BaseItem, ABC):
             The time in hours the light has been on.
                 The value is in the range [1-100000].
         """
-        async for message in self.send_dimension_request("3"):
+        async for message in self.send_dimension_request("8"):
             yield message.where, int(message.values[0].tag)
 
     @classmethod
@@ -231,7 +231,7 @@ class BaseLight(BaseItem, ABC):
         tasks: list[Task] = []
 
         if isinstance(message, DimensionResponse):
-            if message.dimension.tag == "1":
+            if message.dimension.tag == "2":
                 tasks += cls._create_tasks(
                     cls._event_callbacks.get(LightEvents.LIGHT_TEMPORIZATION, []),
                     item,
@@ -239,7 +239,7 @@ class BaseLight(BaseItem, ABC):
                     int(message.values[1].tag),
                     int(message.values[2].tag),
                 )
-            elif message.dimension.tag == "8":
+            elif message.dimension.tag == "1":
                 tasks += cls._create_tasks(
                     cls._event_callbacks.get(LightEvents.LUMINOSITY_CHANGE, []),
                     item,
@@ -254,7 +254,7 @@ class BaseLight(BaseItem, ABC):
                     int(message.values[1].tag),
                     int(message.values[2].tag),
                 )
-            elif message.dimension.tag == "13":
+            elif message.dimension.tag == "14":
                 tasks += cls._create_tasks(
                     cls._event_callbacks.get(LightEvents.WHITE_TEMP_CHANGE, []),
                     item,
diff --git a/pyown/items/lighting/dimmer.py b/pyown/items/lighting/dimmer.py
index 1c698f1..6b9a0c1 100644
--- a/pyown/items/lighting/dimmer.py
+++ b/pyown/items/lighting/dimmer.py
@@ -163,7 +163,7 @@ class Dimmer(BaseLight):
         if temperature < 1 or temperature > 65534:
             raise ValueError("Invalid temperature value")
 
-        await self.send_dimension_writing("13", Value(temperature))
+        await self.send_dimension_writing("14", Value(temperature))
 
     async def request_current_brightness_speed(
         self,
-- 
2.43.0


From d570467bbfe8ddadab48e185dd389cb276252024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:34 +0000
Subject: [PATCH 17/28] fix: a light turned on at a level was reported as off
 to the status callbacks

---
 pyown/items/lighting/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyown/items/lighting/base.py b/pyown/items/lighting/base.py
index df712a5..413b1c2 100644
--- a/pyown/items/lighting/base.py
+++ b/pyown/items/lighting/base.py
@@ -264,7 +264,7 @@ class BaseLight(BaseItem, ABC):
             tasks += cls._create_tasks(
                 cls._event_callbacks.get(LightEvents.STATUS_CHANGE, []),
                 item,
-                message.what == WhatLight.ON,
+                message.what.tag != WhatLight.OFF,
             )
         else:
             raise InvalidMessage(str(message))
-- 
2.43.0


From 974f23398d9d37064c2086a1ba4569fffd242ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:36 +0000
Subject: [PATCH 18/28] fix: dimmer commands with a speed or a percentage
 always failed

---
 pyown/items/lighting/base.py   | 4 ++++
 pyown/items/lighting/dimmer.py | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/pyown/items/lighting/base.py b/pyown/items/lighting/base.py
index 413b1c2..68ae799 100644
--- a/pyown/items/lighting/base.py
+++ b/pyown/items/lighting/base.py
@@ -113,6 +113,10 @@ class WhatLight(What, StrEnum):
 
     COMMAND_TRANSLATION = "1000"
 
+    def with_parameter(self, parameter: str | int) -> What:
+        """Returns the tag with the specified parameter."""
+        return What(f"{self}#{parameter}")
+
 
 class BaseLight(BaseItem, ABC):
     """Base class for all light items."""
diff --git a/pyown/items/lighting/dimmer.py b/pyown/items/lighting/dimmer.py
index 6b9a0c1..5321d4a 100644
--- a/pyown/items/lighting/dimmer.py
+++ b/pyown/items/lighting/dimmer.py
@@ -87,9 +87,13 @@ class Dimmer(BaseLight):
         """
         if value is not None and (value < 0 or value > 100):
             raise ValueError("Invalid value")
+        if speed is not None and (speed < 0 or speed > 255):
+            raise ValueError("Invalid speed value")
 
         what = WhatLight.UP_1_PERCENT
 
+        if speed is not None and value is None:
+            value = 1  # the speed is the second parameter
         if value is not None:
             what = what.with_parameter(value)
         if speed is not None:
@@ -106,9 +110,13 @@ class Dimmer(BaseLight):
         """
         if value is not None and (value < 0 or value > 100):
             raise ValueError("Invalid value")
+        if speed is not None and (speed < 0 or speed > 255):
+            raise ValueError("Invalid speed value")
 
         what = WhatLight.DOWN_1_PERCENT
 
+        if speed is not None and value is None:
+            value = 1  # the speed is the second parameter
         if value is not None:
             what = what.with_parameter(value)
         if speed is not None:
-- 
2.43.0


From 954fc45fb3af9c70c171085710f7439242ae72e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:18 +0000
Subject: [PATCH 19/28] fix: day and month were swapped in the daily totalizers
 request

---
 pyown/items/energy/energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyown/items/energy/energy.py b/pyown/items/energy/energy.py
index 744e423..ee99ce3 100644
--- a/pyown/items/energy/energy.py
+++ b/pyown/items/energy/energy.py
@@ -81,7 +81,7 @@ class EnergyManagement(BaseItem):
             month = datetime.now().month
 
         await self.send_normal_message(
-            WhatEnergy.SEND_DAILY_REPORT.with_parameter(day).with_parameter(month)
+            WhatEnergy.SEND_DAILY_REPORT.with_parameter(month).with_parameter(day)
         )
 
     async def start_sending_monthly_average_hourly(self, month: int | None):
-- 
2.43.0


From 1925c1846bc549dd7e35fe627ee5eb47c4e99d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:20 +0000
Subject: [PATCH 20/28] fix: the actuator info is made of six values

---
 pyown/items/energy/energy.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyown/items/energy/energy.py b/pyown/items/energy/energy.py
index ee99ce3..23d0c94 100644
--- a/pyown/items/energy/energy.py
+++ b/pyown/items/energy/energy.py
@@ -302,12 +302,12 @@ class EnergyManagement(BaseItem):
             message = await self._single_dim_req(DimensionEnergy.ACTUATORS_INFO)
 
         return ActuatorStatus(
-            disabled=bool(int(message.values[0].string[0])),
-            forcing=bool(int(message.values[0].string[1])),
-            threshold=bool(int(message.values[0].string[2])),
-            protection=bool(int(message.values[0].string[3])),
-            phase=bool(int(message.values[0].string[4])),
-            advanced=not bool(int(message.values[0].string[5]) - 1),
+            disabled=bool(int(message.values[0].string)),
+            forcing=bool(int(message.values[1].string)),
+            threshold=bool(int(message.values[2].string)),
+            protection=bool(int(message.values[3].string)),
+            phase=bool(int(message.values[4].string)),
+            advanced=not bool(int(message.values[5].string) - 1),
         )
 
     async def get_totalizers(
-- 
2.43.0


From d1708bccb01a92d595e7607615de0b4117db3a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:22 +0000
Subject: [PATCH 21/28] fix: the Stop&Go status mask is a string of 13 binary
 digits

---
 pyown/items/energy/energy.py  | 28 +++++++++++++++-------------
 pyown/items/energy/stop_go.py |  1 +
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/pyown/items/energy/energy.py b/pyown/items/energy/energy.py
index 23d0c94..5e47b9a 100644
--- a/pyown/items/energy/energy.py
+++ b/pyown/items/energy/energy.py
@@ -581,20 +581,22 @@ class EnergyManagement(BaseItem):
             val = float(message.values[1].string)
             args = (item, month, day, val)
         elif dim.tag == DimensionEnergy.STATUS_STOP_GO_GENERAL:
+            # the most significant bit of the mask is sent first
+            mask = message.values[0].string[::-1]
             status = StopGoStatus(
-                open=bool(int(message.values[0].string[0])),
-                failure=bool(int(message.values[0].string[1])),
-                block=bool(int(message.values[0].string[2])),
-                open_cc=bool(int(message.values[0].string[3])),
-                open_ground_fault=bool(int(message.values[0].string[4])),
-                open_vmax=bool(int(message.values[0].string[5])),
-                self_test_off=bool(int(message.values[0].string[6])),
-                auto_reset_off=bool(int(message.values[0].string[7])),
-                check_off=bool(int(message.values[0].string[8])),
-                waiting_closing=bool(int(message.values[0].string[9])),
-                first_24h_open=bool(int(message.values[0].string[10])),
-                power_fail_down=bool(int(message.values[0].string[11])),
-                power_fail_up=bool(int(message.values[0].string[12])),
+                open=bool(int(mask[0])),
+                failure=bool(int(mask[1])),
+                block=bool(int(mask[2])),
+                open_cc=bool(int(mask[3])),
+                open_ground_fault=bool(int(mask[4])),
+                open_vmax=bool(int(mask[5])),
+                self_test_off=bool(int(mask[6])),
+                auto_reset_off=bool(int(mask[7])),
+                check_off=bool(int(mask[8])),
+                waiting_closing=bool(int(mask[9])),
+                first_24h_open=bool(int(mask[10])),
+                power_fail_down=bool(int(mask[11])),
+                power_fail_up=bool(int(mask[12])),
             )
             args = (item, status)
         elif dim.tag == DimensionEnergy.ACTUATORS_INFO:
diff --git a/pyown/items/energy/stop_go.py b/pyown/items/energy/stop_go.py
index aadc55d..db538b4 100644
--- a/pyown/items/energy/stop_go.py
+++ b/pyown/items/energy/stop_go.py
@@ -77,6 +77,7 @@ class StopGo(EnergyManagement):
             match dim:
                 case DimensionEnergy.STATUS_STOP_GO_GENERAL:
                     # in this case we have a value containing a 13-bit bitmask with each bit representing one attribute
+                    val = int(msg.values[0].string, 2)
                     status.open = bool(val & 0x01)  # bit 1
                     status.failure = bool(val & 0x02)  # bit 2
                     status.block = bool(val & 0x04)  # bit 3
-- 
2.43.0


From bff302d3150f9f53b6fcdd4b01da87c1ec5fecb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:24 +0000
Subject: [PATCH 22/28] fix: energy events with a parameterised dimension never
 reached their callbacks

---
 pyown/items/energy/energy.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pyown/items/energy/energy.py b/pyown/items/energy/energy.py
index 5e47b9a..eb5d02b 100644
--- a/pyown/items/energy/energy.py
+++ b/pyown/items/energy/energy.py
@@ -553,7 +553,8 @@ class EnergyManagement(BaseItem):
             raise InvalidMessage("The item is not an EnergyManagement instance.")
 
         # TODO: Refactor this
-        dim = DimensionEnergy(message.dimension.string)
+        dim = DimensionEnergy(message.dimension.tag)
+        params = message.dimension.parameters
 
         tasks = []
         callbacks = cls._event_callbacks.get(dim, [])
@@ -561,22 +562,23 @@ class EnergyManagement(BaseItem):
         # noinspection PyUnusedLocal
         args: tuple[Any, ...]
         if dim.tag == DimensionEnergy.DAILY_TOTALIZERS_HOURLY_16BIT:
-            month = int(dim.parameters[0])
+            month = int(params[0])
+            day = int(params[1])
             hour = int(message.values[0].string)
             val = float(message.values[1].string)
-            args = (item, month, hour, val)
+            args = (item, day, month, hour, val)
         elif dim.tag == DimensionEnergy.MONTHLY_AVERAGE_HOURLY_16BIT:
-            month = int(dim.parameters[0])
+            month = int(params[0])
             hour = int(message.values[0].string)
             val = float(message.values[1].string)
             args = (item, month, hour, val)
         elif dim.tag == DimensionEnergy.MONTHLY_TOTALIZERS_CURRENT_YEAR_32BIT:
-            month = int(dim.parameters[0])
+            month = int(params[0])
             day = int(message.values[0].string)
             val = float(message.values[1].string)
             args = (item, month, day, val)
         elif dim.tag == DimensionEnergy.MONTHLY_TOTALIZERS_LAST_YEAR_32BIT:
-            month = int(dim.parameters[0])
+            month = int(params[0])
             day = int(message.values[0].string)
             val = float(message.values[1].string)
             args = (item, month, day, val)
@@ -609,8 +611,8 @@ class EnergyManagement(BaseItem):
             energy = float(message.values[0].string)
             args = (item, energy)
         elif dim.tag == DimensionEnergy.ENERGY_UNIT_PER_MONTH:
-            month = int(dim.parameters[1])
-            year = int(dim.parameters[0])
+            month = int(params[1])
+            year = int(params[0])
             energy = float(message.values[0].string)
             args = (item, month, year, energy)
         elif dim.tag == DimensionEnergy.PARTIAL_TOTALIZER_CURRENT_MONTH:
@@ -620,8 +622,9 @@ class EnergyManagement(BaseItem):
             energy = float(message.values[0].string)
             args = (item, energy)
         elif dim.tag == DimensionEnergy.TOTALIZERS:
-            args = await item.get_totalizers(int(dim.parameters[0]), message=message)
-            args = (item, *args)
+            tot_n = int(params[0])
+            args = await item.get_totalizers(tot_n, message=message)
+            args = (item, tot_n, *args)
         elif dim.tag == DimensionEnergy.DIFFERENTIAL_CURRENT_LEVEL:
             level = int(message.values[0].string)
             args = (item, level)
-- 
2.43.0


From fedc08021fb29807f084dd4835437c9795e55ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:26 +0000
Subject: [PATCH 23/28] fix: wrong time zone sent to the gateway

---
 pyown/items/gateway/gateway.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyown/items/gateway/gateway.py b/pyown/items/gateway/gateway.py
index aef68ef..2cfa3f7 100644
--- a/pyown/items/gateway/gateway.py
+++ b/pyown/items/gateway/gateway.py
@@ -127,9 +127,9 @@ class Gateway(BaseItem):
             raise ValueError("The timezone must be set in the datetime object.")
 
         sign = "0" if tz >= datetime.timedelta(0) else "1"
-        hours = abs(tz.seconds) // 3600
+        hours = abs(tz) // datetime.timedelta(hours=1)
 
-        t = Value(f"{sign}{hours:03d}")
+        t = Value(f"{sign}{hours:02d}")
         return t
 
     async def get_time(self, *, message: EventMessage = None) -> datetime.time:
-- 
2.43.0


From e47562434255cc92c9fad395dfb69bf24cbc1019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:28 +0000
Subject: [PATCH 24/28] fix: the day of the week was missing when setting the
 date and time of the gateway

---
 pyown/items/gateway/gateway.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyown/items/gateway/gateway.py b/pyown/items/gateway/gateway.py
index 2cfa3f7..df52f4c 100644
--- a/pyown/items/gateway/gateway.py
+++ b/pyown/items/gateway/gateway.py
@@ -396,11 +396,13 @@ class Gateway(BaseItem):
         m = Value(f"{bus_time.minute:02d}")
         s = Value(f"{bus_time.second:02d}")
 
+        # day of the week, 00 is Sunday
+        w = Value(f"{bus_time.isoweekday() % 7:02d}")
         d = Value(f"{bus_time.day:02d}")
         mo = Value(f"{bus_time.month:02d}")
         y = Value(f"{bus_time.year}")
 
-        await self.send_dimension_writing(WhatGateway.DATE_TIME, h, m, s, t, d, mo, y)
+        await self.send_dimension_writing(WhatGateway.DATE_TIME, h, m, s, t, w, d, mo, y)
 
     async def get_kernel_version(self, *, message: EventMessage = None) -> str:
         """Requests the linux kernel version of the gateway.
-- 
2.43.0


From e38c2a27ad3d2931d20b9107076e9b3db9093c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:31 +0000
Subject: [PATCH 25/28] fix: gateway callbacks received the characters of the
 text values as separate arguments

---
 pyown/items/gateway/gateway.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pyown/items/gateway/gateway.py b/pyown/items/gateway/gateway.py
index df52f4c..58af2af 100644
--- a/pyown/items/gateway/gateway.py
+++ b/pyown/items/gateway/gateway.py
@@ -3,7 +3,7 @@ import ipaddress
 import logging
 from asyncio import Task
 from enum import StrEnum
-from typing import Any, Sequence
+from typing import Any
 
 from ...client import BaseClient
 from ...exceptions import InvalidMessage
@@ -508,10 +508,7 @@ class Gateway(BaseItem):
                 case _:
                     return []
 
-            if isinstance(args, Sequence):
-                tasks += cls._create_tasks(callbacks, item, *args)
-            else:
-                tasks += cls._create_tasks(callbacks, item, args)
+            tasks += cls._create_tasks(callbacks, item, args)
         else:
             raise InvalidMessage("The message is not a DimensionResponse message.")
 
-- 
2.43.0


From e53d5ecd685ebda9f7431655fa1703074995c3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:53 +0000
Subject: [PATCH 26/28] fix: the password was disclosed by the exception raised
 when it is not numeric

---
 pyown/auth/open.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyown/auth/open.py b/pyown/auth/open.py
index d26dae5..8b4292c 100644
--- a/pyown/auth/open.py
+++ b/pyown/auth/open.py
@@ -18,7 +18,11 @@ def own_calc_pass(password: str | int, nonce: str | int) -> str:  # noqa: C901
     num2 = 0
 
     if isinstance(password, str):
-        password = int(password)
+        try:
+            password = int(password)
+        except ValueError:
+            # the original exception contains the password
+            raise ValueError("The password must be composed of only digits") from None
 
     if isinstance(nonce, int):
         nonce = str(nonce)
-- 
2.43.0


From 6eb012a264ba41492a653c2b765396d0a317a9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:53 +0000
Subject: [PATCH 27/28] fix: a malformed nonce made the client send the
 password in clear

---
 pyown/client/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyown/client/base.py b/pyown/client/base.py
index 1cba13c..9331d02 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -138,7 +138,11 @@ class BaseClient(ABC):
             log.info("No authentication required")
         elif len(resp.tags) == 1:
             log.info("Using open authentication")
-            await self._authenticate_open(nonce=resp.tags[0].removeprefix("#"))
+            nonce = resp.tags[0].removeprefix("#")
+            if not nonce.isdigit():
+                # the password would not be encoded by a nonce like 0#0
+                raise InvalidAuthentication("Invalid nonce")
+            await self._authenticate_open(nonce=nonce)
         elif resp.tags[0] == "98":
             log.info("Using hmac authentication")
             tag = resp.tags[1]
-- 
2.43.0


From fdc241f62f54bdee4408985b5f0ceb700638eaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:16 +0000
Subject: [PATCH 28/28] fix: addresses on a local bus were refused or
 classified as single devices

---
 pyown/tags/where.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyown/tags/where.py b/pyown/tags/where.py
index 376eb34..aae73a0 100644
--- a/pyown/tags/where.py
+++ b/pyown/tags/where.py
@@ -39,11 +39,18 @@ class Where(TagWithParameters):
             WhereType: The type of the WHERE tag.
         """
         # TODO: Refactor this method and write tests for it.
+        # an address on a local bus ends with #4#<interface>
+        address, bus, interface = self.string.rpartition("#4#")
+        if not bus or not interface.isnumeric():
+            address = self.string
+
         if self.string == "0":
             return WhereType.GENERAL
-        elif self.string in ("1", "2", "3", "4", "5", "6", "7", "8", "9"):
+        elif address == "0":
+            return WhereType.LOCAL_BUS
+        elif address in ("1", "2", "3", "4", "5", "6", "7", "8", "9"):
             return WhereType.AMBIENT
-        elif self.string in ["00", "100"]:
+        elif address in ["00", "100"]:
             return WhereType.AMBIENT
         elif self.string.startswith(("00", "10")):
             return WhereType.LIGHT_POINT
@@ -51,7 +58,7 @@ class Where(TagWithParameters):
             return WhereType.LIGHT_POINT
         elif self.string.startswith(("01", "02", "03", "04", "05", "06", "07", "08", "09")):
             return WhereType.LIGHT_POINT
-        elif self.tag == "" and len(self.parameters) == 1:
+        elif address.startswith("#") and address.count("#") == 1:
             return WhereType.GROUP
         elif self.tag == "" and len(self.parameters) == 2:
             return WhereType.LOCAL_BUS
-- 
2.43.0

