From eb761bae119b8b83e8289a2a0dd99385d8b8ba52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:01 +0000
Subject: [PATCH 01/30] fix: parse messages with an unknown WHO as generic
 messages

parse_message leaked ValueError for any frame whose WHO is not in the enum,
although it documents a GenericMessage for them.
---
 pyown/messages/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyown/messages/base.py b/pyown/messages/base.py
index 571f329..951b4c4 100644
--- a/pyown/messages/base.py
+++ b/pyown/messages/base.py
@@ -217,7 +217,11 @@ def parse_message(message: str) -> BaseMessage:
         # noinspection PyUnresolvedReferences
         match = subclass.pattern().match(message)
         if match is not None:
-            return subclass.parse(tags)
+            try:
+                return subclass.parse(tags)
+            except ValueError:
+                # the WHO tag is unknown, so it can only be represented as a generic message
+                break
 
     # Default case
     return GenericMessage.parse(tags)
-- 
2.43.0


From bbad73fd7c0bf11d016f3215149975babd6522c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:43 +0000
Subject: [PATCH 02/30] fix: do not print an empty value for dimension messages
 without values

---
 pyown/messages/dimension.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyown/messages/dimension.py b/pyown/messages/dimension.py
index d25727d..6174b59 100644
--- a/pyown/messages/dimension.py
+++ b/pyown/messages/dimension.py
@@ -90,7 +90,7 @@ class DimensionWriting(BaseMessage):
     @property
     def message(self) -> str:
         """The string representation of the message as sent on the bus."""
-        return f"*#{self.who}*{self.where}*#{self.dimension}*{'*'.join([str(value) for value in self.values])}##"
+        return f"*#{self.who}*{self.where}*#{'*'.join([str(tag) for tag in self._tags[2:]])}##"
 
     @classmethod
     def parse(cls, tags: list[str]) -> Self:
@@ -122,4 +122,4 @@ class DimensionResponse(DimensionWriting, BaseMessage):
     @property
     def message(self) -> str:
         """The string representation of the message as sent on the bus."""
-        return f"*#{self.who}*{self.where}*{self.dimension}*{'*'.join([str(value) for value in self.values])}##"
+        return f"*#{self.who}*{self.where}*{'*'.join([str(tag) for tag in self._tags[2:]])}##"
-- 
2.43.0


From e18d1579fdec2fcf790949ead58a2eb089809826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:45 +0000
Subject: [PATCH 03/30] fix: classify dimension messages whose dimension has
 parameters

A request such as *#18*52*52#21#10## was parsed as a response and a write such as
*#18*51*#1200#1*5## as a response that printed back differently.
---
 pyown/messages/dimension.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyown/messages/dimension.py b/pyown/messages/dimension.py
index 6174b59..3b0b633 100644
--- a/pyown/messages/dimension.py
+++ b/pyown/messages/dimension.py
@@ -20,7 +20,9 @@ class DimensionRequest(BaseMessage):
     _type: MessageType = MessageType.DIMENSION_REQUEST
     _tags: tuple[Who, Where, Dimension]
 
-    _regex: Pattern[str] = re.compile(r"^\*#[0-9#]+\*[0-9]*(?:#[0-9]*)*\*[0-9]*##$")
+    _regex: Pattern[str] = re.compile(
+        r"^\*#[0-9#]+\*[0-9]*(?:#[0-9]*)*\*(?:[0-9]+(?:#[0-9]*)*)?##$"
+    )
 
     def __init__(self, tags: tuple[Who, Where, Dimension]):
         self._tags = tags
@@ -61,7 +63,7 @@ class DimensionWriting(BaseMessage):
     _tags: tuple[Who, Where, Dimension, *tuple[Value, ...]]
 
     _regex: Pattern[str] = re.compile(
-        r"^\*#[0-9#]+\*[0-9]*(?:#[0-9]*)*\*#[0-9]*(?:\*[0-9]*(?:#[0-9]*)*)*##$"
+        r"^\*#[0-9#]+\*[0-9]*(?:#[0-9]*)*\*#[0-9]*(?:#[0-9]*)*(?:\*[0-9]*(?:#[0-9]*)*)*##$"
     )
 
     def __init__(self, tags: tuple[Who, Where, Dimension, *tuple[Value, ...]]):
@@ -116,7 +118,7 @@ class DimensionResponse(DimensionWriting, BaseMessage):
 
     _type: MessageType = MessageType.DIMENSION_RESPONSE
     _regex: Pattern[str] = re.compile(
-        r"^\*#[0-9#]+\*[0-9]*(?:#[0-9]*)*\*[0-9]*(?:#[0-9]*)*(?:\*[0-9]*(?:#[0-9]*)*)*##$"
+        r"^\*#[0-9#]+\*[0-9]*(?:#[0-9]*)*\*(?:[0-9]+(?:#[0-9]*)*)?(?:\*[0-9]*(?:#[0-9]*)*)+##$"
     )
 
     @property
-- 
2.43.0


From 45d668f99bac3fa780027a6828ffe3118117742d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:47 +0000
Subject: [PATCH 04/30] fix: reject wrong tags in ACK.parse and NACK.parse

---
 pyown/messages/ack.py  | 2 +-
 pyown/messages/nack.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyown/messages/ack.py b/pyown/messages/ack.py
index 6b687f6..e073da5 100644
--- a/pyown/messages/ack.py
+++ b/pyown/messages/ack.py
@@ -40,7 +40,7 @@ class ACK(BaseMessage):
         In this case, it only checks if the tags are correct.
         """
         # the first tag bust be #
-        if tags[0] != "#" and tags[1] != "1":
+        if tags[0] != "#" or tags[1] != "1":
             raise InvalidMessage(message="Invalid ACK message")
 
         return cls()
diff --git a/pyown/messages/nack.py b/pyown/messages/nack.py
index 959c082..c2261bc 100644
--- a/pyown/messages/nack.py
+++ b/pyown/messages/nack.py
@@ -40,7 +40,7 @@ class NACK(BaseMessage):
         In this case, it only checks if the tags are correct.
         """
         # the first tag bust be #
-        if tags[0] != "#" and tags[1] != "0":
+        if tags[0] != "#" or tags[1] != "0":
             raise InvalidMessage(tags)
 
         return cls()
-- 
2.43.0


From e461f93de6ac2eb79c3c6f7e9cd3ca1e518cc27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:49 +0000
Subject: [PATCH 05/30] fix: make generic messages hashable

---
 pyown/messages/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyown/messages/base.py b/pyown/messages/base.py
index 951b4c4..86cfb3b 100644
--- a/pyown/messages/base.py
+++ b/pyown/messages/base.py
@@ -65,7 +65,7 @@ class BaseMessage(abc.ABC):
         return f"<{self.__class__.__name__}: {','.join([str(tag) for tag in self._tags])}>"
 
     def __hash__(self) -> int:
-        return hash((self._type, self._tags))
+        return hash((self._type, tuple(self._tags)))
 
     def __eq__(self, other) -> bool:
         if isinstance(other, self.__class__):
-- 
2.43.0


From e4cd5b4e77dc39b249725dba31bb3f86928656d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:52 +0000
Subject: [PATCH 06/30] fix: describe every WHO

Who.name raised KeyError for five of the WHO tags.
---
 pyown/tags/who.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyown/tags/who.py b/pyown/tags/who.py
index 0c26fb0..7d7eefa 100644
--- a/pyown/tags/who.py
+++ b/pyown/tags/who.py
@@ -81,15 +81,20 @@ who_map: Final[dict[Who, str]] = {
     Who.LOAD_CONTROL: "Load control",
     Who.THERMOREGULATION: "Thermoregulation",
     Who.BURGLAR_ALARM: "Burglar alarm",
+    Who.DOOR_ENTRY_SYSTEM: "Door entry system",
     Who.VIDEO_DOOR_ENTRY: "Video door entry",
+    Who.AUXILIARY: "Auxiliary",
     Who.GATEWAY: "Gateway management",
+    Who.ACTUATORS_LOCKS: "Actuators and locks",
     Who.CEN_1: "CEN",
     Who.SOUND_DIFFUSION_1: "Sound diffusion 1",
     Who.MH200N_SCENE: "MH200N Scene",
     Who.ENERGY_MANAGEMENT: "Energy management",
     Who.SOUND_DIFFUSION_2: "Sound diffusion 2",
+    Who.LIGHTING_MANAGEMENT: "Lighting management",
     Who.CEN_2: "CEN plus / scenarios plus / dry contacts",
     Who.AUTOMATION_DIAGNOSTICS: "Automation diagnostics",
     Who.THERMOREGULATION_DIAGNOSTICS: "Thermoregulation diagnostics",
     Who.DEVICE_DIAGNOSTICS: "Device diagnostics",
+    Who.ENERGY_DIAGNOSTICS: "Energy diagnostics",
 }
-- 
2.43.0


From 5f0ea09af2f2bcec431d4f9f6c8b4f4fbff59d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:02 +0000
Subject: [PATCH 07/30] fix: allow parameters on the enumerated WHAT tags

WhatLight.ON.with_parameter(10) tried to build an enum member that does not exist
and raised ValueError, so Dimmer.turn_on(speed) and up_percent(value) always failed.
---
 pyown/tags/what.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyown/tags/what.py b/pyown/tags/what.py
index 8107a65..9fe0c91 100644
--- a/pyown/tags/what.py
+++ b/pyown/tags/what.py
@@ -12,4 +12,7 @@ class What(TagWithParameters):
     shutters UP, shutters DOWN, etc...)
     """
 
-    pass
+    def with_parameter(self, parameter: str | int) -> "What":
+        """Returns the tag with the specified parameter."""
+        # the enums of the items are closed, so the result is always a plain What
+        return What(f"{self}#{parameter}")
-- 
2.43.0


From e7948143fbd301ef068bb0c61cba9f6cc5e0ad00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:04 +0000
Subject: [PATCH 08/30] fix: reassemble messages split over several TCP
 segments

data_received treated every read as complete: a frame cut in two was delivered as a
different shorter message, and one malformed frame dropped the valid ones around it.
---
 pyown/protocol/protocol.py | 45 ++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/pyown/protocol/protocol.py b/pyown/protocol/protocol.py
index 9ab0e81..fc3aba9 100644
--- a/pyown/protocol/protocol.py
+++ b/pyown/protocol/protocol.py
@@ -3,7 +3,7 @@ import logging
 from asyncio import BaseTransport, Future, Protocol, Queue, Transport
 from threading import Lock
 
-from ..exceptions import ParseError
+from ..exceptions import InvalidMessage, ParseError
 from ..messages import BaseMessage, parse_message
 
 __all__ = [
@@ -42,6 +42,9 @@ class OWNProtocol(Protocol):
 
         self._lock = Lock()
 
+        # Contains the beginning of a message not completely received yet
+        self._buffer: str = ""
+
     def connection_made(self, transport: BaseTransport):
         """Called by the transport class when the socket is connected to the server."""
         log.info("Connection made")
@@ -72,27 +75,37 @@ class OWNProtocol(Protocol):
         """
         # In OpenWebNet, the message is always written with ascii characters
         try:
-            text = data.decode("ascii").strip()
+            text = data.decode("ascii")
         except UnicodeDecodeError as e:
             log.warning(f"Received data not ascii: {data.hex()}")
             raise e
 
-        # Sometimes multiple messages can be sent in the same packet
-        try:
-            messages = [parse_message(msg + "##") for msg in text.split("##") if msg]
-        except ParseError as e:
-            log.warning(f"Received invalid message: {e}")
-            raise e
-
-        # If there are no messages, return
-        if not messages:
-            return
+        # Sometimes multiple messages can be sent in the same packet,
+        # and a message can be split over multiple packets
+        *frames, self._buffer = (self._buffer + text).split("##")
+
+        error: ParseError | None = None
+        for frame in frames:
+            if not frame.strip():
+                continue
+            try:
+                msg = parse_message(frame + "##")
+            except ParseError as e:
+                log.warning(f"Received invalid message: {e}")
+                error = e
+                continue
+
+            log.debug(f"Received message: {msg}")
+            self._messages_queue.put_nowait(msg)
 
-        log.debug(f"Received messages: {messages}")
+        # what is left can only be the beginning of a message
+        rest = self._buffer.strip()
+        if rest and not rest.startswith("*"):
+            log.warning(f"Received invalid data: {rest}")
+            error = InvalidMessage(rest)
 
-        # Call the on_message_received future
-        for msg in messages:
-            self._messages_queue.put_nowait(msg)
+        if error is not None:
+            raise error
 
     def pause_writing(self):
         """Called when the transport's buffer goes over the high-water mark."""
-- 
2.43.0


From 7b1145d185dd3a47f03723d297016c6d7657bc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:38 +0000
Subject: [PATCH 09/30] fix: compute the server confirmation over Ra, Rb, Kab
 in that order

---
 pyown/auth/hmac.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyown/auth/hmac.py b/pyown/auth/hmac.py
index 1dc0b96..be273d8 100644
--- a/pyown/auth/hmac.py
+++ b/pyown/auth/hmac.py
@@ -79,7 +79,7 @@ def server_hmac(
         raise ValueError("Invalid hash algorithm")
 
     kab = hash_function(password.encode()).hexdigest()
-    hmac_message = f"{client_key}{server_key}{kab}"
+    hmac_message = f"{server_key}{client_key}{kab}"
 
     hmac = HMAC(
         key=server_key.encode(),
-- 
2.43.0


From b3ae6014d813f7d38f4ea549389af2f36420ba31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:40 +0000
Subject: [PATCH 10/30] fix: encode and decode the HMAC handshake messages as
 documented

The server key was used with its # prefix and undecoded, the reply lacked the #
and checking the confirmation always raised ValueError, so no HMAC handshake could
ever succeed.
---
 pyown/client/base.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyown/client/base.py b/pyown/client/base.py
index 2d8b0cf..b5d322e 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -9,6 +9,7 @@ from ..auth.hmac import (
     client_hmac,
     compare_hmac,
     create_key,
+    digits_to_hex,
     hex_to_digits,
     server_hmac,
 )
@@ -170,7 +171,9 @@ class BaseClient(ABC):
         # Send an ACK to accept the algorithm and wait for the server key
         await self.send_message(ACK(), force=True)
         resp = await self.read_message()
-        server_key = resp.tags[0]
+        if len(resp.tags) != 1:
+            raise InvalidAuthentication("Expected the server key")
+        server_key = digits_to_hex(resp.tags[0].removeprefix("#"))
 
         # Generate the client key
         client_key = create_key(hash_algorithm)
@@ -191,7 +194,7 @@ class BaseClient(ABC):
 
         # Send the client authentication string
         await self.send_message(
-            GenericMessage([hex_to_digits(client_key), hex_to_digits(client_auth.hex())]),
+            GenericMessage(["#" + hex_to_digits(client_key), hex_to_digits(client_auth.hex())]),
             force=True,
         )
         resp = await self.read_message()
@@ -200,7 +203,10 @@ class BaseClient(ABC):
             raise InvalidAuthentication("Invalid password")
 
         # Check the server authentication string with the one generated
-        if not compare_hmac(server_auth, bytes.fromhex(hex_to_digits(resp.tags[0]))):
+        if not compare_hmac(
+            hex_to_digits(server_auth.hex()).encode(),
+            resp.tags[0].removeprefix("#").encode(),
+        ):
             raise InvalidAuthentication("Invalid password")
         else:
             await self.send_message(ACK(), force=True)
-- 
2.43.0


From f0a4ca1d69bb9d9c1cb0bfff17cfa0fa4301261b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:42 +0000
Subject: [PATCH 11/30] fix: pass the nonce without its # prefix to the OPEN
 algorithm

The prefix counted as a first non-zero digit, giving a wrong answer to a nonce made
of zeros only.
---
 pyown/client/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyown/client/base.py b/pyown/client/base.py
index b5d322e..46852d6 100644
--- a/pyown/client/base.py
+++ b/pyown/client/base.py
@@ -127,7 +127,7 @@ class BaseClient(ABC):
             log.info("No authentication required")
         elif len(resp.tags) == 1:
             log.info("Using open authentication")
-            await self._authenticate_open(nonce=resp.tags[0])
+            await self._authenticate_open(nonce=resp.tags[0].removeprefix("#"))
         elif resp.tags[0] == "98":
             log.info("Using hmac authentication")
             tag = resp.tags[1]
-- 
2.43.0


From 61d7f562a4ee0ab980cfd1f701b2bc69e1b28c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:44 +0000
Subject: [PATCH 12/30] fix: encode the timezone as a sign and two digits

Negative offsets were encoded as their distance from a day, and the hours used three
digits, so a clock that was set could not be read back.
---
 pyown/items/gateway/gateway.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyown/items/gateway/gateway.py b/pyown/items/gateway/gateway.py
index aef68ef..2cfa3f7 100644
--- a/pyown/items/gateway/gateway.py
+++ b/pyown/items/gateway/gateway.py
@@ -127,9 +127,9 @@ class Gateway(BaseItem):
             raise ValueError("The timezone must be set in the datetime object.")
 
         sign = "0" if tz >= datetime.timedelta(0) else "1"
-        hours = abs(tz.seconds) // 3600
+        hours = abs(tz) // datetime.timedelta(hours=1)
 
-        t = Value(f"{sign}{hours:03d}")
+        t = Value(f"{sign}{hours:02d}")
         return t
 
     async def get_time(self, *, message: EventMessage = None) -> datetime.time:
-- 
2.43.0


From 895b1145f3cb6c3f2b7960198be7ebce51cb777a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:47 +0000
Subject: [PATCH 13/30] fix: send the day of the week when setting the date and
 time

---
 pyown/items/gateway/gateway.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyown/items/gateway/gateway.py b/pyown/items/gateway/gateway.py
index 2cfa3f7..43963e2 100644
--- a/pyown/items/gateway/gateway.py
+++ b/pyown/items/gateway/gateway.py
@@ -399,8 +399,10 @@ class Gateway(BaseItem):
         d = Value(f"{bus_time.day:02d}")
         mo = Value(f"{bus_time.month:02d}")
         y = Value(f"{bus_time.year}")
+        # calculate the day of the week, 00 is Sunday
+        w = Value(f"{bus_time.isoweekday() % 7:02d}")
 
-        await self.send_dimension_writing(WhatGateway.DATE_TIME, h, m, s, t, d, mo, y)
+        await self.send_dimension_writing(WhatGateway.DATE_TIME, h, m, s, t, w, d, mo, y)
 
     async def get_kernel_version(self, *, message: EventMessage = None) -> str:
         """Requests the linux kernel version of the gateway.
-- 
2.43.0


From 82def392d57249768ccbe4781f9d38aa1dd38809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:50 +0000
Subject: [PATCH 14/30] fix: format the MAC address in hexadecimal

The gateway sends the six bytes in decimal.
---
 pyown/items/gateway/gateway.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyown/items/gateway/gateway.py b/pyown/items/gateway/gateway.py
index 43963e2..5553cc6 100644
--- a/pyown/items/gateway/gateway.py
+++ b/pyown/items/gateway/gateway.py
@@ -276,8 +276,8 @@ class Gateway(BaseItem):
 
         oct1, oct2, oct3, oct4, oct5, oct6 = resp.values
 
-        mac = f"{oct1.string}:{oct2.string}:{oct3.string}:{oct4.string}:{oct5.string}:{oct6.string}"
-        return mac
+        octets = (oct1, oct2, oct3, oct4, oct5, oct6)
+        return ":".join([f"{int(octet.string):02X}" for octet in octets])
 
     async def get_netinfo(self) -> ipaddress.IPv4Network:
         """Combines the net mask and the IP address to get the network info.
-- 
2.43.0


From 6632f6cbfe55c921b266b23a6486c45d62e041d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:52 +0000
Subject: [PATCH 15/30] fix: pass decoded strings to the gateway callbacks as
 one argument

Strings are sequences, so a callback received one argument per character.
---
 pyown/items/gateway/gateway.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pyown/items/gateway/gateway.py b/pyown/items/gateway/gateway.py
index 5553cc6..81cc8f7 100644
--- a/pyown/items/gateway/gateway.py
+++ b/pyown/items/gateway/gateway.py
@@ -3,7 +3,7 @@ import ipaddress
 import logging
 from asyncio import Task
 from enum import StrEnum
-from typing import Any, Sequence
+from typing import Any
 
 from ...client import BaseClient
 from ...exceptions import InvalidMessage
@@ -508,10 +508,7 @@ class Gateway(BaseItem):
                 case _:
                     return []
 
-            if isinstance(args, Sequence):
-                tasks += cls._create_tasks(callbacks, item, *args)
-            else:
-                tasks += cls._create_tasks(callbacks, item, args)
+            tasks += cls._create_tasks(callbacks, item, args)
         else:
             raise InvalidMessage("The message is not a DimensionResponse message.")
 
-- 
2.43.0


From ba2a70ee26c20a7af717149fa4c6e5be24cefc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:38 +0000
Subject: [PATCH 16/30] fix: dispatch light events by their documented
 dimensions

Dimension 1 is the dimmer level and speed, 2 the temporization and 14 the white
temperature; events were sent to the wrong callbacks or failed to decode.
---
 pyown/items/lighting/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyown/items/lighting/base.py b/pyown/items/lighting/base.py
index 5a84f27..c4fc224 100644
--- a/pyown/items/lighting/base.py
+++ b/pyown/items/lighting/base.py
@@ -231,7 +231,7 @@ class BaseLight(BaseItem, ABC):
         tasks: list[Task] = []
 
         if isinstance(message, DimensionResponse):
-            if message.dimension.tag == "1":
+            if message.dimension.tag == "2":
                 tasks += cls._create_tasks(
                     cls._event_callbacks.get(LightEvents.LIGHT_TEMPORIZATION, []),
                     item,
@@ -239,7 +239,7 @@ class BaseLight(BaseItem, ABC):
                     int(message.values[1].tag),
                     int(message.values[2].tag),
                 )
-            elif message.dimension.tag == "8":
+            elif message.dimension.tag == "1":
                 tasks += cls._create_tasks(
                     cls._event_callbacks.get(LightEvents.LUMINOSITY_CHANGE, []),
                     item,
@@ -254,7 +254,7 @@ class BaseLight(BaseItem, ABC):
                     int(message.values[1].tag),
                     int(message.values[2].tag),
                 )
-            elif message.dimension.tag == "13":
+            elif message.dimension.tag == "14":
                 tasks += cls._create_tasks(
                     cls._event_callbacks.get(LightEvents.WHITE_TEMP_CHANGE, []),
                     item,
-- 
2.43.0


From 4598cd5f85ec3da89ce3e3b7af00d9b5c9391474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:41 +0000
Subject: [PATCH 17/30] fix: use the documented dimensions for working time and
 white temperature

---
 pyown/items/lighting/base.py   | 2 +-
 pyown/items/lighting/dimmer.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyown/items/lighting/base.py b/pyown/items/lighting/base.py
index c4fc224..df712a5 100644
--- a/pyown/items/lighting/base.py
+++ b/pyown/items/lighting/base.py
@@ -200,7 +200,7 @@ class BaseLight(BaseItem, ABC):
             The time in hours the light has been on.
                 The value is in the range [1-100000].
         """
-        async for message in self.send_dimension_request("3"):
+        async for message in self.send_dimension_request("8"):
             yield message.where, int(message.values[0].tag)
 
     @classmethod
diff --git a/pyown/items/lighting/dimmer.py b/pyown/items/lighting/dimmer.py
index 1c698f1..6b9a0c1 100644
--- a/pyown/items/lighting/dimmer.py
+++ b/pyown/items/lighting/dimmer.py
@@ -163,7 +163,7 @@ class Dimmer(BaseLight):
         if temperature < 1 or temperature > 65534:
             raise ValueError("Invalid temperature value")
 
-        await self.send_dimension_writing("13", Value(temperature))
+        await self.send_dimension_writing("14", Value(temperature))
 
     async def request_current_brightness_speed(
         self,
-- 
2.43.0


From cec4aa4d07947a1f72fd6f090fcdb90ca271fe6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:42 +0000
Subject: [PATCH 18/30] fix: validate the speed of up/down and send it as the
 second parameter

Without a value the speed was sent in place of the percentage.
---
 pyown/items/lighting/dimmer.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyown/items/lighting/dimmer.py b/pyown/items/lighting/dimmer.py
index 6b9a0c1..6cf05a2 100644
--- a/pyown/items/lighting/dimmer.py
+++ b/pyown/items/lighting/dimmer.py
@@ -87,9 +87,14 @@ class Dimmer(BaseLight):
         """
         if value is not None and (value < 0 or value > 100):
             raise ValueError("Invalid value")
+        if speed is not None and (speed < 0 or speed > 255):
+            raise ValueError("Invalid speed value")
 
         what = WhatLight.UP_1_PERCENT
 
+        if value is None and speed is not None:
+            # the speed is the second parameter
+            value = 1
         if value is not None:
             what = what.with_parameter(value)
         if speed is not None:
@@ -106,9 +111,14 @@ class Dimmer(BaseLight):
         """
         if value is not None and (value < 0 or value > 100):
             raise ValueError("Invalid value")
+        if speed is not None and (speed < 0 or speed > 255):
+            raise ValueError("Invalid speed value")
 
         what = WhatLight.DOWN_1_PERCENT
 
+        if value is None and speed is not None:
+            # the speed is the second parameter
+            value = 1
         if value is not None:
             what = what.with_parameter(value)
         if speed is not None:
-- 
2.43.0


From dff713e0d9018442c59106dce3f271b9982e7bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:44 +0000
Subject: [PATCH 19/30] fix: send the month before the day when asking for the
 daily totalizers

---
 pyown/items/energy/energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyown/items/energy/energy.py b/pyown/items/energy/energy.py
index 46ee0f6..9322123 100644
--- a/pyown/items/energy/energy.py
+++ b/pyown/items/energy/energy.py
@@ -81,7 +81,7 @@ class EnergyManagement(BaseItem):
             month = datetime.now().month
 
         await self.send_normal_message(
-            WhatEnergy.SEND_DAILY_REPORT.with_parameter(day).with_parameter(month)
+            WhatEnergy.SEND_DAILY_REPORT.with_parameter(month).with_parameter(day)
         )
 
     async def start_sending_monthly_average_hourly(self, month: int | None):
-- 
2.43.0


From 72d5aebb49f4e4034df047f29409dc804bf8a868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:47 +0000
Subject: [PATCH 20/30] fix: read the actuator flags from their six values

---
 pyown/items/energy/energy.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyown/items/energy/energy.py b/pyown/items/energy/energy.py
index 9322123..e33e6d4 100644
--- a/pyown/items/energy/energy.py
+++ b/pyown/items/energy/energy.py
@@ -302,12 +302,12 @@ class EnergyManagement(BaseItem):
             message = await self._single_dim_req(DimensionEnergy.ACTUATORS_INFO)
 
         return ActuatorStatus(
-            disabled=bool(int(message.values[0].string[0])),
-            forcing=bool(int(message.values[0].string[1])),
-            threshold=bool(int(message.values[0].string[2])),
-            protection=bool(int(message.values[0].string[3])),
-            phase=bool(int(message.values[0].string[4])),
-            advanced=not bool(int(message.values[0].string[5]) - 1),
+            disabled=bool(int(message.values[0].string)),
+            forcing=bool(int(message.values[1].string)),
+            threshold=bool(int(message.values[2].string)),
+            protection=bool(int(message.values[3].string)),
+            phase=bool(int(message.values[4].string)),
+            advanced=not bool(int(message.values[5].string) - 1),
         )
 
     async def get_totalizers(
-- 
2.43.0


From 682d57d48d6ec61b84a72664f8ed0a3aae515ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:48 +0000
Subject: [PATCH 21/30] fix: refuse actuator addresses without the #0 parameter
 as invalid tags

They raised IndexError.
---
 pyown/items/energy/energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyown/items/energy/energy.py b/pyown/items/energy/energy.py
index e33e6d4..23d0c94 100644
--- a/pyown/items/energy/energy.py
+++ b/pyown/items/energy/energy.py
@@ -59,7 +59,7 @@ class EnergyManagement(BaseItem):
             return TypeEnergy.POWER_METER
         elif (
             self.where.string.startswith("7")
-            and self.where.parameters[0] == "0"
+            and self.where.parameters == ["0"]
             and self.where.tag[1:].isnumeric()
         ):
             return TypeEnergy.ACTUATOR
-- 
2.43.0


From b033b0e88cc7bfbeb7e8925cbf4e2f72802d71fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:51 +0000
Subject: [PATCH 22/30] fix: decode the Stop&Go mask as binary digits, the last
 one being bit 1

---
 pyown/items/energy/energy.py  | 26 +++++++++++++-------------
 pyown/items/energy/stop_go.py |  1 +
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/pyown/items/energy/energy.py b/pyown/items/energy/energy.py
index 23d0c94..c9e2948 100644
--- a/pyown/items/energy/energy.py
+++ b/pyown/items/energy/energy.py
@@ -582,19 +582,19 @@ class EnergyManagement(BaseItem):
             args = (item, month, day, val)
         elif dim.tag == DimensionEnergy.STATUS_STOP_GO_GENERAL:
             status = StopGoStatus(
-                open=bool(int(message.values[0].string[0])),
-                failure=bool(int(message.values[0].string[1])),
-                block=bool(int(message.values[0].string[2])),
-                open_cc=bool(int(message.values[0].string[3])),
-                open_ground_fault=bool(int(message.values[0].string[4])),
-                open_vmax=bool(int(message.values[0].string[5])),
-                self_test_off=bool(int(message.values[0].string[6])),
-                auto_reset_off=bool(int(message.values[0].string[7])),
-                check_off=bool(int(message.values[0].string[8])),
-                waiting_closing=bool(int(message.values[0].string[9])),
-                first_24h_open=bool(int(message.values[0].string[10])),
-                power_fail_down=bool(int(message.values[0].string[11])),
-                power_fail_up=bool(int(message.values[0].string[12])),
+                open=bool(int(message.values[0].string[-1])),
+                failure=bool(int(message.values[0].string[-2])),
+                block=bool(int(message.values[0].string[-3])),
+                open_cc=bool(int(message.values[0].string[-4])),
+                open_ground_fault=bool(int(message.values[0].string[-5])),
+                open_vmax=bool(int(message.values[0].string[-6])),
+                self_test_off=bool(int(message.values[0].string[-7])),
+                auto_reset_off=bool(int(message.values[0].string[-8])),
+                check_off=bool(int(message.values[0].string[-9])),
+                waiting_closing=bool(int(message.values[0].string[-10])),
+                first_24h_open=bool(int(message.values[0].string[-11])),
+                power_fail_down=bool(int(message.values[0].string[-12])),
+                power_fail_up=bool(int(message.values[0].string[-13])),
             )
             args = (item, status)
         elif dim.tag == DimensionEnergy.ACTUATORS_INFO:
diff --git a/pyown/items/energy/stop_go.py b/pyown/items/energy/stop_go.py
index aadc55d..db538b4 100644
--- a/pyown/items/energy/stop_go.py
+++ b/pyown/items/energy/stop_go.py
@@ -77,6 +77,7 @@ class StopGo(EnergyManagement):
             match dim:
                 case DimensionEnergy.STATUS_STOP_GO_GENERAL:
                     # in this case we have a value containing a 13-bit bitmask with each bit representing one attribute
+                    val = int(msg.values[0].string, 2)
                     status.open = bool(val & 0x01)  # bit 1
                     status.failure = bool(val & 0x02)  # bit 2
                     status.block = bool(val & 0x04)  # bit 3
-- 
2.43.0


From 45543a27b8c6d8ff8b661e0ce86e343231167a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:52 +0000
Subject: [PATCH 23/30] fix: dispatch energy events whose dimension has
 parameters

The enum lookup failed on 511#M#D and the like; the daily and totalizer callbacks
also lacked the documented day and totalizer number.
---
 pyown/items/energy/energy.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pyown/items/energy/energy.py b/pyown/items/energy/energy.py
index c9e2948..1229211 100644
--- a/pyown/items/energy/energy.py
+++ b/pyown/items/energy/energy.py
@@ -553,7 +553,8 @@ class EnergyManagement(BaseItem):
             raise InvalidMessage("The item is not an EnergyManagement instance.")
 
         # TODO: Refactor this
-        dim = DimensionEnergy(message.dimension.string)
+        dim = DimensionEnergy(message.dimension.tag)
+        parameters = message.dimension.parameters
 
         tasks = []
         callbacks = cls._event_callbacks.get(dim, [])
@@ -561,22 +562,23 @@ class EnergyManagement(BaseItem):
         # noinspection PyUnusedLocal
         args: tuple[Any, ...]
         if dim.tag == DimensionEnergy.DAILY_TOTALIZERS_HOURLY_16BIT:
-            month = int(dim.parameters[0])
+            month = int(parameters[0])
+            day = int(parameters[1])
             hour = int(message.values[0].string)
             val = float(message.values[1].string)
-            args = (item, month, hour, val)
+            args = (item, day, month, hour, val)
         elif dim.tag == DimensionEnergy.MONTHLY_AVERAGE_HOURLY_16BIT:
-            month = int(dim.parameters[0])
+            month = int(parameters[0])
             hour = int(message.values[0].string)
             val = float(message.values[1].string)
             args = (item, month, hour, val)
         elif dim.tag == DimensionEnergy.MONTHLY_TOTALIZERS_CURRENT_YEAR_32BIT:
-            month = int(dim.parameters[0])
+            month = int(parameters[0])
             day = int(message.values[0].string)
             val = float(message.values[1].string)
             args = (item, month, day, val)
         elif dim.tag == DimensionEnergy.MONTHLY_TOTALIZERS_LAST_YEAR_32BIT:
-            month = int(dim.parameters[0])
+            month = int(parameters[0])
             day = int(message.values[0].string)
             val = float(message.values[1].string)
             args = (item, month, day, val)
@@ -607,8 +609,8 @@ class EnergyManagement(BaseItem):
             energy = float(message.values[0].string)
             args = (item, energy)
         elif dim.tag == DimensionEnergy.ENERGY_UNIT_PER_MONTH:
-            month = int(dim.parameters[1])
-            year = int(dim.parameters[0])
+            month = int(parameters[1])
+            year = int(parameters[0])
             energy = float(message.values[0].string)
             args = (item, month, year, energy)
         elif dim.tag == DimensionEnergy.PARTIAL_TOTALIZER_CURRENT_MONTH:
@@ -618,8 +620,9 @@ class EnergyManagement(BaseItem):
             energy = float(message.values[0].string)
             args = (item, energy)
         elif dim.tag == DimensionEnergy.TOTALIZERS:
-            args = await item.get_totalizers(int(dim.parameters[0]), message=message)
-            args = (item, *args)
+            tot_n = int(parameters[0])
+            args = await item.get_totalizers(tot_n, message=message)
+            args = (item, tot_n, *args)
         elif dim.tag == DimensionEnergy.DIFFERENTIAL_CURRENT_LEVEL:
             level = int(message.values[0].string)
             args = (item, level)
-- 
2.43.0


From aeb55c7e437be98f677fef01c5f4bc7bc668ce0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:55 +0000
Subject: [PATCH 24/30] fix: create camera items, so that their events are
 dispatched

---
 pyown/items/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyown/items/utils.py b/pyown/items/utils.py
index 646c4e7..e2ac540 100644
--- a/pyown/items/utils.py
+++ b/pyown/items/utils.py
@@ -3,6 +3,7 @@ from typing import Final, Type
 from ..tags import Who
 from .automation import Automation
 from .base import BaseItem
+from .camera import Camera
 from .energy.energy import EnergyManagement
 from .gateway import Gateway
 from .lighting import Light
@@ -12,6 +13,7 @@ __all__ = ["ITEM_TYPES"]
 ITEM_TYPES: Final[dict[Who, Type[BaseItem]]] = {
     Who.LIGHTING: Light,
     Who.AUTOMATION: Automation,
+    Who.VIDEO_DOOR_ENTRY: Camera,
     Who.GATEWAY: Gateway,
     Who.ENERGY_MANAGEMENT: EnergyManagement,
 }
-- 
2.43.0


From 1d2d7817721a48c7990c0e42a85fcee5161a1701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:57 +0000
Subject: [PATCH 25/30] fix: keep the event loop running when an item refuses
 an address

---
 pyown/client/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyown/client/client.py b/pyown/client/client.py
index aa5aafd..0520532 100644
--- a/pyown/client/client.py
+++ b/pyown/client/client.py
@@ -139,6 +139,9 @@ class Client(BaseClient):
             except KeyError:
                 log.info(f"Item type not supported, WHO={who}, WHERE={where}")
                 continue
+            except InvalidTag as e:
+                log.warning(f"Tag not supported {e.tag}")
+                continue
 
             await self._dispatch_callbacks(item, message)
 
-- 
2.43.0


From 61c57dd1434bcba1b128ee4542f4dc5693aa679d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:59 +0000
Subject: [PATCH 26/30] fix: end the event loop normally when the client is
 closed

The loop condition dereferenced the transport that close() had reset to None.
---
 pyown/client/client.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyown/client/client.py b/pyown/client/client.py
index 0520532..408cee0 100644
--- a/pyown/client/client.py
+++ b/pyown/client/client.py
@@ -105,14 +105,16 @@ class Client(BaseClient):
         if self.is_cmd_session():
             raise InvalidSession("Cannot run loop on a command session")
 
-        if self._transport is None:
+        # close() resets the attribute while the loop is running
+        transport = self._transport
+        if transport is None:
             raise InvalidSession("Client is not connected")
 
         if client is None:
             client = self
 
         # loop until the connection is dropped or closed
-        while not self._transport.is_closing():
+        while not transport.is_closing():
             try:
                 # by putting timeout as None, it will wait indefinitely for a message
                 message = await self.read_message(timeout=None)
-- 
2.43.0


From 5b186aa9c4457c42dbe34d9297af5543da2f0dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:01 +0000
Subject: [PATCH 27/30] fix: keep the plain text when a tag is made from an
 enumerated tag

---
 pyown/tags/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyown/tags/base.py b/pyown/tags/base.py
index 4bfcfcf..798fe68 100644
--- a/pyown/tags/base.py
+++ b/pyown/tags/base.py
@@ -37,7 +37,7 @@ class Tag:
 
     # noinspection PyUnusedLocal
     def __init__(self, string: str | int = "", *args, **kwargs):
-        if isinstance(string, int):
+        if isinstance(string, (int, Tag)):
             self._string = str(string)
         else:
             self._string = string
-- 
2.43.0


From da2afb80db976b5829cb4e2a56fe138baee7b351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:33 +0000
Subject: [PATCH 28/30] fix: keep the connection when a malformed frame arrives

An exception raised by data_received makes asyncio close the transport, so one
malformed frame ended the session and left the event loop waiting for ever.
---
 pyown/protocol/protocol.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pyown/protocol/protocol.py b/pyown/protocol/protocol.py
index fc3aba9..d2445e2 100644
--- a/pyown/protocol/protocol.py
+++ b/pyown/protocol/protocol.py
@@ -84,15 +84,14 @@ class OWNProtocol(Protocol):
         # and a message can be split over multiple packets
         *frames, self._buffer = (self._buffer + text).split("##")
 
-        error: ParseError | None = None
         for frame in frames:
             if not frame.strip():
                 continue
             try:
                 msg = parse_message(frame + "##")
             except ParseError as e:
+                # an exception would make the transport close the connection
                 log.warning(f"Received invalid message: {e}")
-                error = e
                 continue
 
             log.debug(f"Received message: {msg}")
@@ -102,10 +101,7 @@ class OWNProtocol(Protocol):
         rest = self._buffer.strip()
         if rest and not rest.startswith("*"):
             log.warning(f"Received invalid data: {rest}")
-            error = InvalidMessage(rest)
-
-        if error is not None:
-            raise error
+            raise InvalidMessage(rest)
 
     def pause_writing(self):
         """Called when the transport's buffer goes over the high-water mark."""
-- 
2.43.0


From 664edc3491819dfdd8e093ae59144f0829659e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:11 +0000
Subject: [PATCH 29/30] fix: check the syntax of a frame in linear time

The pattern that every received frame is matched against had nested
repetitions, so a refused frame of 30 characters took minutes.
---
 pyown/messages/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyown/messages/base.py b/pyown/messages/base.py
index 86cfb3b..d3c8377 100644
--- a/pyown/messages/base.py
+++ b/pyown/messages/base.py
@@ -51,7 +51,7 @@ class BaseMessage(abc.ABC):
     separator: Final[str] = "*"  # Separator of the tags
 
     _regex: Pattern[str] = re.compile(
-        r"^\*(?:([0-9]*)(?:#[0-9]*)*\*?)+##$"
+        r"^\*[0-9#*]*##$"
     )  # Regex pattern used to match the message
 
     @abc.abstractmethod
-- 
2.43.0


From 7814e9fb4dc6d9dc7bfc20d87adf2bb96a5db615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:07 +0000
Subject: [PATCH 30/30] fix: end the event loop when the connection is lost

---
 pyown/client/client.py     |  2 ++
 pyown/protocol/protocol.py | 17 ++++++++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/pyown/client/client.py b/pyown/client/client.py
index 408cee0..afb499c 100644
--- a/pyown/client/client.py
+++ b/pyown/client/client.py
@@ -121,6 +121,8 @@ class Client(BaseClient):
             except (ParseError, InvalidMessage, InvalidTag) as e:
                 log.warning("Error reading message: %s", e)
                 continue
+            except ConnectionError:
+                break
 
             # ignore status messages
             if message.type == MessageType.ACK or message.type == MessageType.NACK:
diff --git a/pyown/protocol/protocol.py b/pyown/protocol/protocol.py
index d2445e2..b9f6f53 100644
--- a/pyown/protocol/protocol.py
+++ b/pyown/protocol/protocol.py
@@ -38,7 +38,8 @@ class OWNProtocol(Protocol):
         self._on_connection_end: Future[Exception | None] = on_connection_end
 
         # The queue was chosen because it supports both synchronous and asynchronous functions
-        self._messages_queue: Queue[BaseMessage] = asyncio.Queue()
+        # None marks the end of the connection
+        self._messages_queue: Queue[BaseMessage | None] = asyncio.Queue()
 
         self._lock = Lock()
 
@@ -64,6 +65,9 @@ class OWNProtocol(Protocol):
         else:
             self._on_connection_end.set_exception(exc)
 
+        # wake up whoever is waiting for a message
+        self._messages_queue.put_nowait(None)
+
     def data_received(self, data: bytes):
         """Called by the transport class when a packet with data is received.
 
@@ -135,6 +139,13 @@ class OWNProtocol(Protocol):
 
         Returns:
             BaseMessage: The message from the server, it will be a subclass of BaseMessage
+
+        Raises:
+            ConnectionError: if the connection was lost or closed
         """
-        messages = await self._messages_queue.get()
-        return messages
+        message = await self._messages_queue.get()
+        if message is None:
+            # no message will arrive anymore, also for the next reader
+            self._messages_queue.put_nowait(None)
+            raise ConnectionError("Connection lost")
+        return message
-- 
2.43.0

