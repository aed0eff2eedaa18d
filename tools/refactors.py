"""Behaviour-preserving rewrites (developer data; no check reads it).  Each variant: name -> [(file, old, new)]."""
from bugs import MB, MD, MN, TB, TW, CB, CC, PR, IB, LB, LD, LL, AU, CA, GW, EN, EE, SG
H, O = "pyown/auth/hmac.py", "pyown/auth/open.py"
V = {}

V["tags1"] = [
    (TB, "    return all(c in VALID_TAG_CHARS for c in tag)\n", "    for c in tag:\n        if c not in VALID_TAG_CHARS:\n            return False\n    return True\n"),
    (TB, '        val = self.string.split("#")[0]\n        return val\n', '        value, _, _ = self.string.partition("#")\n        return value\n'),
    (TB, '        return self.string.split("#")[1:]\n', '        _, *params = self.string.split("#")\n        return params\n'),
    (TB, "        if isinstance(string, (int, Tag)):\n            self._string = str(string)\n        else:\n            self._string = string\n",
     "        self._string = string if isinstance(string, str) and not isinstance(string, Tag) else str(string)\n"),
    (TW, '''        elif self.string in ("1", "2", "3", "4", "5", "6", "7", "8", "9"):
            return WhereType.AMBIENT
        elif self.string in ["00", "100"]:
            return WhereType.AMBIENT
        elif self.string.startswith(("00", "10")):
            return WhereType.LIGHT_POINT
        elif self.string.startswith(("1", "2", "3", "4", "5", "6", "7", "8", "9")):
            return WhereType.LIGHT_POINT
        elif self.string.startswith(("01", "02", "03", "04", "05", "06", "07", "08", "09")):
            return WhereType.LIGHT_POINT
''', '''        text = self.string
        if text in {"00", "100"} or (len(text) == 1 and text in "123456789"):
            return WhereType.AMBIENT
        if text[:1] in tuple("123456789") or (text[:1] == "0" and text[1:2].isdigit()):
            return WhereType.LIGHT_POINT
'''),
    (TW, '''        elif self.tag == "" and len(self.parameters) == 1:
            return WhereType.GROUP
        elif self.tag == "" and len(self.parameters) == 2:
            return WhereType.LOCAL_BUS
        else:
            raise''', '''        if self.tag == "":
            count = len(self.parameters)
            if count == 1:
                return WhereType.GROUP
            if count == 2:
                return WhereType.LOCAL_BUS
        raise'''),
]
V["tags2"] = [
    (TB, "    return all(c in VALID_TAG_CHARS for c in tag)\n", "    return set(tag) <= set(VALID_TAG_CHARS)\n"),
    (TB, '        val = self.string.split("#")[0]\n        return val\n', '        position = self.string.find("#")\n        return self.string if position < 0 else self.string[:position]\n'),
    (TB, '        return self.string.split("#")[1:]\n', '        pieces = self.string.split("#")\n        del pieces[0]\n        return pieces\n'),
    (TB, '''        if isinstance(other, Tag):
            return self.string == other.string
        elif isinstance(other, str):
            return self.string == other
        elif isinstance(other, int):
            return self.string == str(other)
        else:
            return NotImplemented
''', '''        if isinstance(other, Tag):
            text = other.string
        elif isinstance(other, (str, int)):
            text = str(other)
        else:
            return NotImplemented
        return text == self.string
'''),
    (TW, '        if self.string == "0":\n            return WhereType.GENERAL\n', '        kinds = {"0": WhereType.GENERAL, "00": WhereType.AMBIENT, "100": WhereType.AMBIENT}\n        if self.string in kinds:\n            return kinds[self.string]\n'),
]
V["tags3"] = [
    (TB, "    return all(c in VALID_TAG_CHARS for c in tag)\n", "    return not any(c not in VALID_TAG_CHARS for c in tag)\n"),
    (TB, "from typing import Final, Self\n", "import re\nfrom typing import Final, Self\n"),
    (TB, '        return self.string.split("#")[1:]\n', '        return re.split("#", self.string)[1:]\n'),
    (TB, "        # Check if the string contains only valid characters\n        if not is_valid_tag(self._string):\n            raise InvalidTag(self._string)\n",
     "        self._validate()\n\n    def _validate(self) -> None:\n        if is_valid_tag(self._string):\n            return\n        raise InvalidTag(self._string)\n"),
]
V["msg1"] = [
    (MB, '''    if message.count(BaseMessage.suffix) != 1:
        raise InvalidMessage(message=message)

    message = message.strip()

    tags = (
        message.removeprefix(BaseMessage.prefix)
        .removesuffix(BaseMessage.suffix)
        .split(BaseMessage.separator)
    )

    # First, check if the message is valid
    if GenericMessage.pattern().match(message) is None:
        raise InvalidMessage(message)
''', '''    message = message.strip()
    if len(message.split(BaseMessage.suffix)) != 2:
        raise InvalidMessage(message=message)

    # First, check if the message is valid
    if not GenericMessage.pattern().fullmatch(message):
        raise InvalidMessage(message)

    tags = message[1:-2].split(BaseMessage.separator)
'''),
    (MB, '''        if subclass is GenericMessage:
            continue

        # noinspection PyUnresolvedReferences
        match = subclass.pattern().match(message)
        if match is not None:
            try:''', '''        # noinspection PyUnresolvedReferences
        if subclass is not GenericMessage and subclass.pattern().match(message):
            try:'''),
    (MB, '''        for tag in tags:
            if not is_valid_tag(tag):
                raise InvalidTag(tag)

        return cls(tags=tags)
''', '''        i = 0
        while i < len(tags):
            if not is_valid_tag(tags[i]):
                raise InvalidTag(tags[i])
            i += 1
        return cls(tags)
'''),
    (MB, '''        if isinstance(other, self.__class__):
            return self._type == other._type and self._tags == other._tags
        return False
''', '''        if not isinstance(other, self.__class__):
            return False
        return (self._type, self._tags) == (other._type, other._tags)
'''),
    (MD, "        values: list[Value] = [Value(t) for t in tags[3:]]\n", "        who, where, dim, *rest = tags\n        values: list[Value] = list(map(Value, rest))\n"),
    (MD, '''                Who(tags[0].removeprefix("#")),
                Where(tags[1]),
                Dimension(tags[2].removeprefix("#")),
                *values,
''', '''                Who(who.removeprefix("#")),
                Where(where),
                Dimension(dim.removeprefix("#")),
                *values,
'''),
    (MN, "return cls(tags=(Who(tags[0]), What(tags[1]), Where(tags[2])))", "who, what, where = tags\n        return cls((Who(who), What(what), Where(where)))"),
    (MN, 'return f"*{self.who}*{self.what}*{self.where}##"', 'return "*" + "*".join(str(t) for t in self._tags) + self.suffix'),
]
V["msg2"] = [
    (MB, '''    tags = (
        message.removeprefix(BaseMessage.prefix)
        .removesuffix(BaseMessage.suffix)
        .split(BaseMessage.separator)
    )
''', '''    tags = _split_tags(message)
'''),
    (MB, "def parse_message(message: str) -> BaseMessage:\n", '''def _split_tags(message: str) -> list[str]:
    """Returns the tags of a frame."""
    body = message.removeprefix(BaseMessage.prefix).removesuffix(BaseMessage.suffix)
    return body.split(BaseMessage.separator)


def _find_class(message: str):
    """Returns the class of a frame."""
    return next(
        (
            c
            for c in BaseMessage.__subclasses__()
            if c is not GenericMessage and c.pattern().match(message) is not None
        ),
        None,
    )


def parse_message(message: str) -> BaseMessage:
'''),
    (MB, '''    for subclass in BaseMessage.__subclasses__():
        if subclass is GenericMessage:
            continue

        # noinspection PyUnresolvedReferences
        match = subclass.pattern().match(message)
        if match is not None:
            try:
                return subclass.parse(tags)
            except ValueError:
                # the WHO tag is unknown, so it can only be represented as a generic message
                break
''', '''    subclass = _find_class(message)
    if subclass is not None:
        try:
            return subclass.parse(tags)
        except ValueError:
            pass
'''),
    (MB, '''        return f"*{'*'.join(self._tags)}##"''', '''        text = self.prefix
        for i, tag in enumerate(self._tags):
            if i:
                text += self.separator
            text += tag
        return text + self.suffix'''),
    (MD, """return f"*#{self.who}*{self.where}*{'*'.join([str(tag) for tag in self._tags[2:]])}##\"""",
     """fields = [str(self.dimension), *map(str, self.values)]
        return f"*#{self.who}*{self.where}*" + "*".join(fields) + "##\""""),
    ("pyown/messages/ack.py", 'if tags[0] != "#" or tags[1] != "1":', 'if tuple(tags) != cls._tags:'),
    ("pyown/messages/nack.py", 'if tags[0] != "#" or tags[1] != "0":', 'if tags[:2] != ["#", "0"]:'),
]
V["auth1"] = [
    (H, '''    out = ""
    for c in hex_string:
        value = int(c, 16)
        out += str(value // 10) + str(value % 10)
    return out
''', '''    return "".join(f"{int(c, 16):02d}" for c in hex_string)
'''),
    (H, '''    out = ""
    for i in range(0, len(digits_string), 2):
        value = int(digits_string[i]) * 10 + int(digits_string[i + 1])
        out += hex(value)[2:]
    return out
''', '''    return "".join(
        f"{int(digits_string[i]) * 10 + int(digits_string[i + 1]):x}"
        for i in range(0, len(digits_string), 2)
    )
'''),
    (O, '''    for c in nonce:
        if c != "0":
            if start:
                num2 = password
            start = False
''', '''    for c in nonce:
        if start and c != "0":
            num2 = password
            start = False
'''),
    (O, '''        if c not in "09":
            num1 |= num2
''', '''        if c != "0" and c != "9":
            num1 = num1 | num2
'''),
]
V["auth2"] = [
    (H, '''    out = ""
    for c in hex_string:
        value = int(c, 16)
        out += str(value // 10) + str(value % 10)
    return out
''', '''    out = []
    for c in hex_string:
        tens, units = divmod(int(c, 16), 10)
        out.append(f"{tens}{units}")
    return "".join(out)
'''),
    (H, '''    out = ""
    for i in range(0, len(digits_string), 2):
        value = int(digits_string[i]) * 10 + int(digits_string[i + 1])
        out += hex(value)[2:]
    return out
''', '''    out = ""
    i = 0
    while i < len(digits_string):
        out += hex(int(digits_string[i : i + 2]))[2:]
        i += 2
    return out
'''),
    (H, '''    if hash_algorithm == AuthAlgorithm.SHA1:
        hash_function = sha1
    elif hash_algorithm == AuthAlgorithm.SHA256:
        hash_function = sha256
    else:
        raise ValueError("Invalid hash algorithm")

    kab = hash_function(password.encode()).hexdigest()
    hmac_message = f"{server_key}{client_key}{client_identity}{server_identity}{kab}"
''', '''    hash_function = _hash_function(hash_algorithm)
    kab = hash_function(password.encode()).hexdigest()
    hmac_message = "".join((server_key, client_key, client_identity, server_identity, kab))
'''),
    (H, "def client_hmac(\n", '''def _hash_function(hash_algorithm):
    functions = {AuthAlgorithm.SHA1: sha1, AuthAlgorithm.SHA256: sha256}
    if hash_algorithm not in functions:
        raise ValueError("Invalid hash algorithm")
    return functions[hash_algorithm]


def client_hmac(
'''),
    (O, '''    for c in nonce:
        if c != "0":''', '''    i = 0
    while i < len(nonce):
        c = nonce[i]
        i += 1
        if c != "0":'''),
]
V["auth3"] = [
    (O, '''        if c == "1":
            num1 = (num2 & 0xFFFFFF80) >> 7
            num2 = num2 << 25
        elif c == "2":
            num1 = (num2 & 0xFFFFFFF0) >> 4
            num2 = num2 << 28
        elif c == "3":
            num1 = (num2 & 0xFFFFFFF8) >> 3
            num2 = num2 << 29
        elif c == "4":
            num1 = num2 << 1
            num2 = num2 >> 31
        elif c == "5":
            num1 = num2 << 5
            num2 = num2 >> 27
        elif c == "6":
            num1 = num2 << 12
            num2 = num2 >> 20
''', '''        if c in RIGHT:
            num1 = num2 >> RIGHT[c]
            num2 = num2 << (32 - RIGHT[c])
        elif c in LEFT:
            num1 = num2 << LEFT[c]
            num2 = num2 >> (32 - LEFT[c])
'''),
    (O, '__all__ = ["own_calc_pass"]\n', '__all__ = ["own_calc_pass"]\n\nRIGHT = {"1": 7, "2": 4, "3": 3}\nLEFT = {"4": 1, "5": 5, "6": 12}\n'),
    (O, '''    start = True
    num1 = 0
    num2 = 0
''', '''    num1 = num2 = 0
    start = True
'''),
    (H, "    return compare_digest(hmac1, hmac2)\n", "    same = compare_digest(hmac2, hmac1)\n    return same\n"),
]
V["client1"] = [
    (CB, '''        return (
            self._session_type == SessionType.CommandSession
            or self._session_type == SessionType.OldCommandSession
        )
''', '''        return self._session_type in (SessionType.CommandSession, SessionType.OldCommandSession)
'''),
    (CB, '''        if resp.type == MessageType.ACK:
            log.info("No authentication required")
        elif len(resp.tags) == 1:
            log.info("Using open authentication")
            await self._authenticate_open(nonce=resp.tags[0].removeprefix("#"))
        elif resp.tags[0] == "98":
            log.info("Using hmac authentication")
            tag = resp.tags[1]
            await self._authenticate_hmac(
                hash_algorithm=tag,
            )
        else:
            raise InvalidAuthentication("Invalid authentication response")

        log.info("Client ready")
''', '''        await self._authenticate(resp)
        log.info("Client ready")

    async def _authenticate(self, resp: BaseMessage) -> None:
        if resp.type == MessageType.ACK:
            log.info("No authentication required")
            return

        tags = resp.tags
        if len(tags) == 1:
            log.info("Using open authentication")
            await self._authenticate_open(nonce=tags[0].removeprefix("#"))
            return

        if tags[0] != "98":
            raise InvalidAuthentication("Invalid authentication response")

        log.info("Using hmac authentication")
        await self._authenticate_hmac(tags[1])
'''),
    (CB, '''        if self._transport is not None:
            self._transport.close()
''', '''        transport = self._transport
        if transport is not None:
            transport.close()
'''),
    (CC, '''        if (who, where) in self._items:
            return self._items[(who, where)]
        else:
            factory = ITEM_TYPES.get(who)
            if factory is not None:
                item = self._items[(who, where)] = factory(client, where)
                return item
            else:
                raise KeyError(f"Item factory not found: {who}, {where}")
''', '''        key = (who, where)
        item = self._items.get(key)
        if item is None:
            if who not in ITEM_TYPES:
                raise KeyError(f"Item factory not found: {who}, {where}")
            item = ITEM_TYPES[who](client, where)
            self._items[key] = item
        return item
'''),
    (CC, '''            if message.type == MessageType.ACK or message.type == MessageType.NACK:
                continue
            elif message.type == MessageType.GENERIC:
                log.warning("Received an unknown message: %s", message)
                continue

            who, where = message.who, message.where
''', '''            kind = message.type
            if kind in (MessageType.ACK, MessageType.NACK):
                continue
            if kind == MessageType.GENERIC:
                log.warning("Received an unknown message: %s", message)
                continue

            who = message.who
            where = message.where
'''),
]
V["client2"] = [
    (CC, '''        for item_obj in BaseItem.__subclasses__():
            if message.who == item_obj.who:
                try:
                    tasks = await item_obj.call_callbacks(item, message)
                except InvalidMessage as e:
                    log.warning(f"Message not supported {e.message}")
                except InvalidTag as e:
                    log.warning(f"Tag not supported {e.tag}")
                except Exception as e:
                    log.error(
                        f"There was an error in the callback: {e}",
                        exc_info=e,
                        stack_info=True,
                    )
                else:
                    self._loop.create_task(self._check_task_result(tasks))
                    break
        else:
            log.warning(f"Item not found for message {message}")
''', '''        classes = [c for c in BaseItem.__subclasses__() if c.who == message.who]
        if not classes:
            log.warning(f"Item not found for message {message}")
            return
        for item_obj in classes:
            if await self._call(item_obj, item, message):
                break

    async def _call(self, item_obj, item: BaseItem, message: BaseMessage) -> bool:
        """Calls the callbacks of one item class."""
        try:
            tasks = await item_obj.call_callbacks(item, message)
        except InvalidMessage as e:
            log.warning(f"Message not supported {e.message}")
        except InvalidTag as e:
            log.warning(f"Tag not supported {e.tag}")
        except Exception as e:
            log.error(
                f"There was an error in the callback: {e}",
                exc_info=e,
                stack_info=True,
            )
        else:
            self._loop.create_task(self._check_task_result(tasks))
            return True
        return False
'''),
    (CC, '''        while not transport.is_closing():
            try:''', '''        while True:
            if transport.is_closing():
                break
            try:'''),
    (CB, '''        if isinstance(hash_algorithm, str):
            try:
                hash_algorithm = AuthAlgorithm.from_string(hash_algorithm)
            except ValueError:
                # Close the connection
                await self.send_message(NACK(), force=True)
                raise InvalidAuthentication("Invalid hash algorithm")
''', '''        hash_algorithm = await self._select_algorithm(hash_algorithm)
'''),
    (CB, "    async def send_message(self, message: BaseMessage, *, force: bool = False) -> None:\n", '''    async def _select_algorithm(self, hash_algorithm: AuthAlgorithm | str) -> AuthAlgorithm:
        """Returns the algorithm the gateway asked for."""
        if not isinstance(hash_algorithm, str):
            return hash_algorithm
        try:
            return AuthAlgorithm.from_string(hash_algorithm)
        except ValueError:
            await self.send_message(NACK(), force=True)
        raise InvalidAuthentication("Invalid hash algorithm")

    async def send_message(self, message: BaseMessage, *, force: bool = False) -> None:
'''),
    (CB, '''        async with asyncio.timeout(timeout):
            message = await self._protocol.receive_messages()

        return message
''', '''        protocol = self._protocol
        async with asyncio.timeout(timeout):
            return await protocol.receive_messages()
'''),
]
V["proto1"] = [
    (PR, '''        *frames, self._buffer = (self._buffer + text).split("##")

        for frame in frames:
            if not frame.strip():
                continue
            try:
                msg = parse_message(frame + "##")
            except ParseError as e:
                # an exception would make the transport close the connection
                log.warning(f"Received invalid message: {e}")
                continue

            log.debug(f"Received message: {msg}")
            self._messages_queue.put_nowait(msg)
''', '''        self._buffer += text
        while "##" in self._buffer:
            frame, _, self._buffer = self._buffer.partition("##")
            if frame.strip():
                self._deliver(frame + "##")
'''),
    (PR, "    def pause_writing(self):\n", '''    def _deliver(self, frame: str) -> None:
        """Queues the message of a frame."""
        try:
            msg = parse_message(frame)
        except ParseError as e:
            log.warning(f"Received invalid message: {e}")
        else:
            log.debug(f"Received message: {msg}")
            self._messages_queue.put_nowait(msg)

    def pause_writing(self):
'''),
    (PR, '''        message = await self._messages_queue.get()
        if message is None:
''', '''        if (message := await self._messages_queue.get()) is None:
'''),
    (PR, '''        while self._lock.locked():
            await asyncio.sleep(delay)

        self._transport.write(data)
''', '''        while True:
            if not self._lock.locked():
                break
            await asyncio.sleep(delay)

        self._transport.write(data)
'''),
]
V["proto2"] = [
    (PR, "from threading import Lock\n", ""),
    (PR, "    _lock: Lock\n", "    _paused: bool\n"),
    (PR, "        self._lock = Lock()\n", "        self._paused = False\n"),
    (PR, "        self._lock.acquire()\n", "        self._paused = True\n"),
    (PR, "        self._lock.release()\n", "        self._paused = False\n"),
    (PR, "while self._lock.locked():", "while self._paused:"),
    (PR, '        self._buffer: str = ""\n', '        self._rest: str = ""\n'),
    (PR, '''        *frames, self._buffer = (self._buffer + text).split("##")
''', '''        frames = (self._rest + text).split("##")
        self._rest = frames.pop()
'''),
    (PR, "        rest = self._buffer.strip()\n", "        rest = self._rest.strip()\n"),
]
V["items1"] = [
    (IB, '''        msg = self.create_normal_message(what)
        await self._send_message(msg)

        resp = await self._read_message()
        self._check_ack(resp)
''', '''        await self._command(self.create_normal_message(what))

    async def _command(self, msg: BaseMessage) -> None:
        """Sends a message and checks the answer."""
        await self._send_message(msg)
        self._check_ack(await self._read_message())
'''),
    (IB, '''        msg = self.create_dimension_writing_message(dimension, *args)
        await self._send_message(msg)

        resp = await self._read_message()
        self._check_ack(resp)
''', '''        await self._command(self.create_dimension_writing_message(dimension, *args))
'''),
    (IB, '''        messages = [msg async for msg in self.send_dimension_request(what)]
''', '''        messages = []
        async for msg in self.send_dimension_request(what):
            messages.append(msg)
'''),
    (IB, '''        if len(messages) == 0:
            raise ResponseError("The server did not respond with data.")
''', '''        if not messages:
            raise ResponseError("The server did not respond with data.")
'''),
    (IB, "return [asyncio.create_task(func(*args)) for func in funcs]", "tasks = []\n        for func in funcs:\n            tasks.append(asyncio.create_task(func(*args)))\n        return tasks"),
    (LD, '''        if hue < 0 or hue > 359:
            raise ValueError("Invalid hue value")

        if saturation < 0 or saturation > 100:
            raise ValueError("Invalid saturation value")

        if value < 0 or value > 100:
            raise ValueError("Invalid value")
''', '''        for number, limit in ((hue, 359), (saturation, 100), (value, 100)):
            if not 0 <= number <= limit:
                raise ValueError("Invalid value")
'''),
    (LD, '''        if temperature < 1 or temperature > 65534:
            raise''', '''        if not 0 < temperature < 65535:
            raise'''),
    (LB, "if hour >= 24 or minute >= 60 or second >= 60:", "if not (hour < 24 and minute < 60 and second < 60):"),
    (CA, "if x not in range(1, 5) or y not in range(1, 5):", "if (x, y) not in dial_map:"),
    (AU, '''        tasks: list[Task] = []

        if isinstance(message, NormalMessage):
            tasks += cls._create_tasks(
                cls._event_callbacks.get(AutomationEvents.ALL, []),
                item,
                WhatAutomation(str(message.what)),
            )
        else:
            raise InvalidMessage(str(message))

        return tasks
''', '''        if not isinstance(message, NormalMessage):
            raise InvalidMessage(str(message))

        what = WhatAutomation(str(message.what))
        return cls._create_tasks(cls._event_callbacks.get(AutomationEvents.ALL, []), item, what)
'''),
]
V["items2"] = [
    (LB, '''            hour = int(message.values[0].tag)
            minute = int(message.values[1].tag)
            second = int(message.values[2].tag)
            yield message.where, hour, minute, second
''', '''            hour, minute, second = [int(v.tag) for v in message.values[:3]]
            yield message.where, hour, minute, second
'''),
    (LB, '''            if message.dimension.tag == "2":
                tasks += cls._create_tasks(
                    cls._event_callbacks.get(LightEvents.LIGHT_TEMPORIZATION, []),
                    item,
                    int(message.values[0].tag),
                    int(message.values[1].tag),
                    int(message.values[2].tag),
                )
            elif message.dimension.tag == "1":
                tasks += cls._create_tasks(
                    cls._event_callbacks.get(LightEvents.LUMINOSITY_CHANGE, []),
                    item,
                    int(message.values[0].tag),
                    int(message.values[1].tag),
                )
            elif message.dimension.tag == "12":
                tasks += cls._create_tasks(
                    cls._event_callbacks.get(LightEvents.HSV_CHANGE, []),
                    item,
                    int(message.values[0].tag),
                    int(message.values[1].tag),
                    int(message.values[2].tag),
                )
            elif message.dimension.tag == "14":
                tasks += cls._create_tasks(
                    cls._event_callbacks.get(LightEvents.WHITE_TEMP_CHANGE, []),
                    item,
                    int(message.values[0].tag),
                )
''', '''            kinds = {
                "2": (LightEvents.LIGHT_TEMPORIZATION, 3),
                "1": (LightEvents.LUMINOSITY_CHANGE, 2),
                "12": (LightEvents.HSV_CHANGE, 3),
                "14": (LightEvents.WHITE_TEMP_CHANGE, 1),
            }
            kind = kinds.get(message.dimension.tag)
            if kind is not None:
                event, count = kind
                args = [int(message.values[i].tag) for i in range(count)]
                tasks += cls._create_tasks(cls._event_callbacks.get(event, []), item, *args)
'''),
    (LL, '''            if message.what == WhatLight.ON:
                yield message.where, True
            elif message.what == WhatLight.OFF:
                yield message.where, False
''', '''            if message.what not in (WhatLight.ON, WhatLight.OFF):
                continue
            yield message.where, message.what == WhatLight.ON
'''),
    (EN, '''        if self.where.string.startswith("1") and self.where.string[1:].isnumeric():
            return TypeEnergy.STOP_GO
        elif self.where.string.startswith("5") and self.where.string[1:].isnumeric():
            return TypeEnergy.POWER_METER
''', '''        kind, number = self.where.string[:1], self.where.string[1:]
        if kind in ("1", "5") and number.isdigit():
            return TypeEnergy.STOP_GO if kind == "1" else TypeEnergy.POWER_METER
'''),
    (EN, '''        d = message.values[1].string
        m = message.values[2].string
        y = message.values[3].string
        h = message.values[4].string
        mi = message.values[5].string

        return datetime(int(y), int(m), int(d), int(h), int(mi)), energy
''', '''        d, m, y, h, mi = (int(v.string) for v in message.values[1:6])

        return datetime(y, m, d, h, mi), energy
'''),
    (EN, '''        if time is None:
            await self.send_normal_message(WhatEnergy.FORCE_ACTUATOR_ON)
        else:
            await self.send_normal_message(WhatEnergy.FORCE_ACTUATOR_ON.with_parameter(time))
''', '''        what = WhatEnergy.FORCE_ACTUATOR_ON
        if time is not None:
            what = what.with_parameter(time)
        await self.send_normal_message(what)
'''),
    (GW, '''        h_v, m_v, s_v, t_v = resp.values

        h = int(h_v.string)
        m = int(m_v.string)
        s = int(s_v.string)

        # parse the time with the timezone
        bus_time = datetime.time(h, m, s, tzinfo=self._parse_own_timezone(t_v))

        return bus_time
''', '''        *fields, zone = resp.values
        hour, minute, second = map(int, [f.string for f in fields])
        return datetime.time(hour, minute, second, tzinfo=self._parse_own_timezone(zone))
'''),
    (GW, '''        # calculate the day of the week, 00 is Sunday
        if bus_date.weekday() == 6:
            w = Value("00")
        else:
            w = Value(f"{bus_date.weekday() + 1:02d}")
''', '''        w = Value(f"{bus_date.isoweekday() % 7:02d}")
'''),
]
V["items3"] = [
    (SG, '''                    status.open = bool(val & 0x01)  # bit 1
                    status.failure = bool(val & 0x02)  # bit 2
                    status.block = bool(val & 0x04)  # bit 3
                    status.open_cc = bool(val & 0x08)  # bit 4
                    status.open_ground_fault = bool(val & 0x10)  # bit 5
                    status.open_vmax = bool(val & 0x20)  # bit 6
                    status.self_test_off = bool(val & 0x40)  # bit 7
                    status.auto_reset_off = bool(val & 0x80)  # bit 8
                    status.check_off = bool(val & 0x100)  # bit 9
                    status.waiting_closing = bool(val & 0x200)  # bit 10
                    status.first_24h_open = bool(val & 0x400)  # bit 11
                    status.power_fail_down = bool(val & 0x800)  # bit 12
                    status.power_fail_up = bool(val & 0x1000)  # bit 13
''', '''                    for bit, name in enumerate(
                        (
                            "open",
                            "failure",
                            "block",
                            "open_cc",
                            "open_ground_fault",
                            "open_vmax",
                            "self_test_off",
                            "auto_reset_off",
                            "check_off",
                            "waiting_closing",
                            "first_24h_open",
                            "power_fail_down",
                            "power_fail_up",
                        )
                    ):
                        setattr(status, name, bool((val >> bit) & 1))
'''),
    (GW, '''            match what:
                case WhatGateway.TIME:
                    args = await item.get_time(message=message)
                case WhatGateway.DATE:
                    args = await item.get_date(message=message)
                case WhatGateway.IP_ADDRESS:
                    args = await item.get_ip(message=message)
                case WhatGateway.NET_MASK:
                    args = await item.get_netmask(message=message)
                case WhatGateway.MAC_ADDRESS:
                    args = await item.get_macaddress(message=message)
                case WhatGateway.DEVICE_TYPE:
                    args = await item.get_model(message=message)
                case WhatGateway.FIRMWARE_VERSION:
                    args = await item.get_firmware(message=message)
                case WhatGateway.UPTIME:
                    args = await item.get_uptime(message=message)
                case WhatGateway.DATE_TIME:
                    args = await item.get_datetime(message=message)
                case WhatGateway.KERNEL_VERSION:
                    args = await item.get_kernel_version(message=message)
                case WhatGateway.DISTRIBUTION_VERSION:
                    args = await item.get_distribution_version(message=message)
                case _:
                    return []
''', '''            getters = {
                WhatGateway.TIME: item.get_time,
                WhatGateway.DATE: item.get_date,
                WhatGateway.IP_ADDRESS: item.get_ip,
                WhatGateway.NET_MASK: item.get_netmask,
                WhatGateway.MAC_ADDRESS: item.get_macaddress,
                WhatGateway.DEVICE_TYPE: item.get_model,
                WhatGateway.FIRMWARE_VERSION: item.get_firmware,
                WhatGateway.UPTIME: item.get_uptime,
                WhatGateway.DATE_TIME: item.get_datetime,
                WhatGateway.KERNEL_VERSION: item.get_kernel_version,
                WhatGateway.DISTRIBUTION_VERSION: item.get_distribution_version,
            }
            args = await getters[what](message=message)
'''),
    (GW, '''        oct1, oct2, oct3, oct4, oct5, oct6 = resp.values

        octets = (oct1, oct2, oct3, oct4, oct5, oct6)
        return ":".join([f"{int(octet.string):02X}" for octet in octets])
''', '''        oct1, oct2, oct3, oct4, oct5, oct6 = (int(v.string) for v in resp.values)

        return f"{oct1:02X}:{oct2:02X}:{oct3:02X}:{oct4:02X}:{oct5:02X}:{oct6:02X}"
'''),
    (GW, '''        d = int(resp.values[0].string)
        h = int(resp.values[1].string)
        m = int(resp.values[2].string)
        s = int(resp.values[3].string)

        uptime = datetime.timedelta(days=d, hours=h, minutes=m, seconds=s)
        return uptime
''', '''        d, h, m, s = [int(value.string) for value in resp.values[:4]]

        return datetime.timedelta(d, s, minutes=m, hours=h)
'''),
    (EN, '''            status = StopGoStatus(
                open=bool(int(message.values[0].string[-1])),
                failure=bool(int(message.values[0].string[-2])),
                block=bool(int(message.values[0].string[-3])),
                open_cc=bool(int(message.values[0].string[-4])),
                open_ground_fault=bool(int(message.values[0].string[-5])),
                open_vmax=bool(int(message.values[0].string[-6])),
                self_test_off=bool(int(message.values[0].string[-7])),
                auto_reset_off=bool(int(message.values[0].string[-8])),
                check_off=bool(int(message.values[0].string[-9])),
                waiting_closing=bool(int(message.values[0].string[-10])),
                first_24h_open=bool(int(message.values[0].string[-11])),
                power_fail_down=bool(int(message.values[0].string[-12])),
                power_fail_up=bool(int(message.values[0].string[-13])),
            )
''', '''            bits = message.values[0].string
            flags = [bool(int(bits[-i])) for i in range(1, 14)]
            status = StopGoStatus(*flags)
'''),
    (LD, '''        what = WhatLight.UP_1_PERCENT

        if value is None and speed is not None:
            # the speed is the second parameter
            value = 1
        if value is not None:
            what = what.with_parameter(value)
        if speed is not None:
            what = what.with_parameter(speed)

        await self.send_normal_message(what)
''', '''        await self._step(WhatLight.UP_1_PERCENT, value, speed)

    async def _step(self, what, value: int | None, speed: int | None):
        """Sends a step command with its optional parameters."""
        parameters = [] if value is None and speed is None else [1 if value is None else value]
        if speed is not None:
            parameters.append(speed)
        for parameter in parameters:
            what = what.with_parameter(parameter)
        await self.send_normal_message(what)
'''),
    (IB, '''            resp = await self._read_message()
            self._check_nack(resp)

            # when the server responds with an ACK message, it means that the server has finished sending the responses
            if resp.type == MessageType.ACK:
                break

            if not isinstance(resp, NormalMessage):
                raise ResponseError(f"Received {resp} instead of a normal message")

            yield resp
''', '''            resp = await self._read_message()
            if resp.type == MessageType.ACK:
                return
            self._check_nack(resp)
            if isinstance(resp, NormalMessage):
                yield resp
            else:
                raise ResponseError(f"Received {resp} instead of a normal message")
'''),
]

# ---- second set: other ways of writing the same things
V["tags4"] = [
    (TB, "    return all(c in VALID_TAG_CHARS for c in tag)\n", "    return all(map(VALID_TAG_CHARS.__contains__, tag))\n"),
    (TB, "        if isinstance(string, (int, Tag)):\n            self._string = str(string)\n        else:\n            self._string = string\n",
     "        text = str(string) if isinstance(string, (int, Tag)) else string\n        self._string = text\n"),
    (TB, '        val = self.string.removeprefix("#")\n        return val\n', '        if self.string.startswith("#"):\n            return self.string[1:]\n        return self.string\n'),
    (TB, '        val = self.string.split("#")[0]\n        return val\n', '        return self._split()[0]\n\n    def _split(self) -> list[str]:\n        return self.string.split("#")\n'),
    (TB, '        return self.string.split("#")[1:]\n', '        return self._split()[1:]\n'),
    (TB, '        return self.__class__(f"{self}#{parameter}")\n', '        cls = type(self)\n        return cls("#".join((self.string, str(parameter))))\n'),
    (TB, "        return hash(self.string)\n", "        text = self.string\n        return hash(text)\n"),
    (TW, '''        # TODO: Refactor this method and write tests for it.
        if self.string == "0":
            return WhereType.GENERAL
        elif''', '''        return self._classify(self.string)

    def _classify(self, text: str) -> WhereType:
        if text == "0":
            return WhereType.GENERAL
        elif'''),
    (TW, '        elif self.string.startswith(("00", "10")):\n            return WhereType.LIGHT_POINT\n        elif self.string.startswith(("1", "2", "3", "4", "5", "6", "7", "8", "9")):\n            return WhereType.LIGHT_POINT\n        elif self.string.startswith(("01", "02", "03", "04", "05", "06", "07", "08", "09")):\n            return WhereType.LIGHT_POINT\n',
     '        elif text[:1].isdigit() and len(text) > 1 and (text[0] != "0" or text[1] != "#"):\n            return WhereType.LIGHT_POINT\n'),
]
V["tags5"] = [
    (TB, 'VALID_TAG_CHARS: Final[str] = "0123456789#"\n"""This', 'VALID_TAG_CHARS: Final[str] = "0123456789#"\n_VALID = frozenset(VALID_TAG_CHARS)\n"""This'),
    (TB, "    return all(c in VALID_TAG_CHARS for c in tag)\n", "    return _VALID.issuperset(tag)\n"),
    (TB, '        val = self.string.split("#")[0]\n        return val\n', '        value, *_ = self.string.split("#", 1)\n        return value\n'),
    (TB, '        return self.string.split("#")[1:]\n', '        parameters = []\n        for i, piece in enumerate(self.string.split("#")):\n            if i > 0:\n                parameters.append(piece)\n        return parameters\n'),
    (TB, '''        if isinstance(other, Tag):
            return self.string == other.string
        elif isinstance(other, str):
            return self.string == other
        elif isinstance(other, int):
            return self.string == str(other)
        else:
            return NotImplemented
''', '''        match other:
            case Tag():
                return self.string == other.string
            case str():
                return self.string == other
            case int():
                return self.string == str(other)
        return NotImplemented
'''),
    (TW, '''        elif self.string in ("1", "2", "3", "4", "5", "6", "7", "8", "9"):
            return WhereType.AMBIENT
        elif self.string in ["00", "100"]:
            return WhereType.AMBIENT
''', '''        elif self.string in _AMBIENTS:
            return WhereType.AMBIENT
'''),
    (TW, '__all__ = ["Where", "WhereType"]\n', '__all__ = ["Where", "WhereType"]\n\n_AMBIENTS = {*"123456789", "00", "100"}\n'),
]
V["msg3"] = [
    (MB, '''    if message.count(BaseMessage.suffix) != 1:
        raise InvalidMessage(message=message)

    message = message.strip()
''', '''    head, suffix, tail = message.partition(BaseMessage.suffix)
    if not suffix or BaseMessage.suffix in tail or "###" in message:
        # a third # would make the position of the suffix ambiguous
        if message.count(BaseMessage.suffix) != 1:
            raise InvalidMessage(message=message)

    message = message.strip()
'''),
    (MB, '''        match = subclass.pattern().match(message)
        if match is not None:
            try:
                return subclass.parse(tags)
            except ValueError:
                # the WHO tag is unknown, so it can only be represented as a generic message
                break

    # Default case
    return GenericMessage.parse(tags)''', '''        if not subclass.pattern().match(message):
            continue
        try:
            known = subclass.parse(tags)
        except ValueError:
            # the WHO tag is unknown, so it can only be represented as a generic message
            break
        else:
            return known

    # Default case
    return GenericMessage.parse(tags)'''),
    (MB, '''        for tag in tags:
            if not is_valid_tag(tag):
                raise InvalidTag(tag)

        return cls(tags=tags)
''', '''        wrong = [tag for tag in tags if not is_valid_tag(tag)]
        if wrong:
            raise InvalidTag(wrong[0])

        return cls(tags=tags)
'''),
    (MB, '        return not self.__eq__(other)\n', '        return not self == other\n'),
    (MB, "        return hash((self._type, tuple(self._tags)))\n", "        key = (self._type, *self._tags)\n        return hash(key)\n"),
    (MB, """        return f"*{'*'.join(self._tags)}##\"""", """        return "{}{}{}".format(self.prefix, self.separator.join(self._tags), self.suffix)"""),
    (MB, '        return self.message.encode("ascii")\n', '        text = self.message\n        return bytes(text, "ascii")\n' if False else '        text = str(self)\n        return text.encode("ascii")\n'),
    (MB, "        return copy.deepcopy(self._tags)\n", "        return type(self._tags)(copy.deepcopy(tag) for tag in self._tags)\n"),
]
V["auth4"] = [
    (H, '''    for i in range(0, len(digits_string), 2):
        value = int(digits_string[i]) * 10 + int(digits_string[i + 1])
        out += hex(value)[2:]
''', '''    for tens, units in zip(digits_string[0::2], digits_string[1::2], strict=True):
        out += f"{int(tens + units):x}"
'''),
    (H, '''        value = int(c, 16)
        out += str(value // 10) + str(value % 10)
''', '''        out += str(int(c, 16)).rjust(2, "0")
'''),
    (H, '''    hmac_message = f"{server_key}{client_key}{client_identity}{server_identity}{kab}"
''', '''    hmac_message = server_key + client_key + client_identity + server_identity + kab
'''),
    (O, '''        if c == "1":
            num1 = (num2 & 0xFFFFFF80) >> 7
            num2 = num2 << 25
        elif c == "2":
            num1 = (num2 & 0xFFFFFFF0) >> 4
            num2 = num2 << 28
        elif c == "3":
            num1 = (num2 & 0xFFFFFFF8) >> 3
            num2 = num2 << 29
        elif c == "4":
''', '''        if c in "123":
            shift = {"1": 7, "2": 4, "3": 3}[c]
            num1 = num2 // (1 << shift)
            num2 = num2 * (1 << (32 - shift))
        elif c == "4":
'''),
]
V["auth5"] = [
    (O, '''        if c == "1":
            num1 = (num2 & 0xFFFFFF80) >> 7
            num2 = num2 << 25
        elif c == "2":
            num1 = (num2 & 0xFFFFFFF0) >> 4
            num2 = num2 << 28
        elif c == "3":
            num1 = (num2 & 0xFFFFFFF8) >> 3
            num2 = num2 << 29
        elif c == "4":
            num1 = num2 << 1
            num2 = num2 >> 31
        elif c == "5":
            num1 = num2 << 5
            num2 = num2 >> 27
        elif c == "6":
            num1 = num2 << 12
            num2 = num2 >> 20
''', '''        if "1" <= c <= "6":
            num1, num2 = _rotate(num2, int(c))
'''),
    (O, "def own_calc_pass", '''_SHIFTS = (25, 28, 29, 1, 5, 12)


def _rotate(number: int, kind: int) -> tuple[int, int]:
    """Returns the two halves of a rotation to the left."""
    shift = _SHIFTS[kind - 1]
    if kind <= 3:
        return number >> (32 - shift), number << shift
    return number << shift, number >> (32 - shift)


def own_calc_pass'''),
    (H, '''    out = ""
    for c in hex_string:
        value = int(c, 16)
        out += str(value // 10) + str(value % 10)
    return out
''', '''    digits = {c: f"{i:02}" for i, c in enumerate("0123456789abcdef")}
    return "".join(digits[c] for c in hex_string.lower())
'''),
]
V["client3"] = [
    (CB, '''        try:
            self._transport, self._protocol = await self._loop.create_connection(
                lambda: OWNProtocol(
                    on_connection_start=self._on_connection_start,
                    on_connection_end=self._on_connection_end,
                ),
                self._host,
                self._port,
            )
        except OSError:
            raise TimeoutError("Could not connect to the server")
''', '''        await self._connect()
'''),
    (CB, "    async def send_message(self, message: BaseMessage, *, force: bool = False) -> None:\n", '''    def _create_protocol(self) -> OWNProtocol:
        return OWNProtocol(
            on_connection_start=self._on_connection_start,
            on_connection_end=self._on_connection_end,
        )

    async def _connect(self) -> None:
        """Opens the connection."""
        try:
            connection = await self._loop.create_connection(
                self._create_protocol, self._host, self._port
            )
        except OSError as e:
            raise TimeoutError("Could not connect to the server") from e
        self._transport, self._protocol = connection

    async def send_message(self, message: BaseMessage, *, force: bool = False) -> None:
'''),
    (CB, '''        if not self.is_cmd_session() and not force:
            raise InvalidSession("Cannot send messages in an event session")
        if self._protocol is None:
            raise InvalidSession("Client not started")

        await self._protocol.send_message(message)
''', '''        allowed = force or self.is_cmd_session()
        if not allowed:
            raise InvalidSession("Cannot send messages in an event session")
        protocol = self._protocol
        if protocol is None:
            raise InvalidSession("Client not started")

        return await protocol.send_message(message)
'''),
    (CB, '''        async with asyncio.timeout(timeout):
            message = await self._protocol.receive_messages()

        return message
''', '''        return await asyncio.wait_for(self._protocol.receive_messages(), timeout)
'''),
    (CB, '''        self._protocol = None
        self._transport = None
''', '''        self._transport = self._protocol = None
'''),
    (CC, '''        if (who, where) in self._items:
            return self._items[(who, where)]
        else:
            factory = ITEM_TYPES.get(who)
            if factory is not None:
                item = self._items[(who, where)] = factory(client, where)
                return item
            else:
                raise KeyError(f"Item factory not found: {who}, {where}")
''', '''        try:
            return self._items[who, where]
        except KeyError:
            pass

        if (factory := ITEM_TYPES.get(who)) is None:
            raise KeyError(f"Item factory not found: {who}, {where}")
        return self._items.setdefault((who, where), factory(client, where))
'''),
    (CC, '''            who, where = message.who, message.where

            if who is None or where is None:
                log.warning("Received a message without who or where: %s", message)
                continue

            try:
                # get the item if already declared, otherwise instantiate it
                item = self.get_item(who, where, client=client)
            except KeyError:
                log.info(f"Item type not supported, WHO={who}, WHERE={where}")
                continue
            except InvalidTag as e:
                log.warning(f"Tag not supported {e.tag}")
                continue

            await self._dispatch_callbacks(item, message)
''', '''            await self._handle(message, client)

    async def _handle(self, message: BaseMessage, client: BaseClient) -> None:
        """Gives a message to its item."""
        who, where = message.who, message.where

        if who is None or where is None:
            log.warning("Received a message without who or where: %s", message)
            return

        try:
            # get the item if already declared, otherwise instantiate it
            item = self.get_item(who, where, client=client)
        except KeyError:
            log.info(f"Item type not supported, WHO={who}, WHERE={where}")
        except InvalidTag as e:
            log.warning(f"Tag not supported {e.tag}")
        else:
            await self._dispatch_callbacks(item, message)
'''),
]
V["client4"] = [
    (CC, '''        for item_obj in BaseItem.__subclasses__():
            if message.who == item_obj.who:
                try:''', '''        for item_obj in filter(lambda i: i.who == message.who, BaseItem.__subclasses__()):
            if True:
                try:'''),
    (CC, '''            if message.type == MessageType.ACK or message.type == MessageType.NACK:
                continue
            elif message.type == MessageType.GENERIC:
                log.warning("Received an unknown message: %s", message)
                continue
''', '''            match message.type:
                case MessageType.ACK | MessageType.NACK:
                    continue
                case MessageType.GENERIC:
                    log.warning("Received an unknown message: %s", message)
                    continue
'''),
    (CC, '''        results = await asyncio.gather(*tasks, return_exceptions=True)
        for r in results:
            if isinstance(r, Exception):
                log.error''', '''        for r in await asyncio.gather(*tasks, return_exceptions=True):
            if isinstance(r, Exception):
                log.error'''),
    (CB, '''        if resp.type == MessageType.ACK:
            log.info("No authentication required")
        elif len(resp.tags) == 1:
            log.info("Using open authentication")
            await self._authenticate_open(nonce=resp.tags[0].removeprefix("#"))
        elif resp.tags[0] == "98":
            log.info("Using hmac authentication")
            tag = resp.tags[1]
            await self._authenticate_hmac(
                hash_algorithm=tag,
            )
        else:
            raise InvalidAuthentication("Invalid authentication response")
''', '''        if resp.type != MessageType.ACK:
            first, *others = resp.tags
            if not others:
                log.info("Using open authentication")
                await self._authenticate_open(first.removeprefix("#"))
            elif first == "98":
                log.info("Using hmac authentication")
                await self._authenticate_hmac(hash_algorithm=others[0])
            else:
                raise InvalidAuthentication("Invalid authentication response")
        else:
            log.info("No authentication required")
'''),
]
V["proto3"] = [
    (PR, '''        *frames, self._buffer = (self._buffer + text).split("##")

        for frame in frames:
            if not frame.strip():
                continue
            try:
                msg = parse_message(frame + "##")
''', '''        data_left = self._buffer + text
        while (end := data_left.find("##")) != -1:
            frame, data_left = data_left[:end], data_left[end + 2 :]
            self._buffer = data_left
            if not frame.strip():
                continue
            try:
                msg = parse_message(f"{frame}##")
'''),
    (PR, '''        # what is left can only be the beginning of a message
        rest = self._buffer.strip()
''', '''        self._buffer = data_left
        # what is left can only be the beginning of a message
        rest = data_left.strip()
'''),
    (PR, '''        if exc is None:
            self._on_connection_end.set_result(None)
        else:
            self._on_connection_end.set_exception(exc)
''', '''        end = self._on_connection_end
        if exc is not None:
            end.set_exception(exc)
        else:
            end.set_result(exc)
'''),
    (PR, '''        data = msg.bytes

        # block multiple messages from being sent at the same time
        while self._lock.locked():
            await asyncio.sleep(delay)

        self._transport.write(data)
''', '''        data = msg.bytes
        await self._wait_until_writable(delay)
        self._transport.write(data)
'''),
    (PR, "    async def receive_messages(self) -> BaseMessage:\n", '''    async def _wait_until_writable(self, delay: float) -> None:
        """Blocks multiple messages from being sent at the same time."""
        while self._lock.locked():
            await asyncio.sleep(delay)

    async def receive_messages(self) -> BaseMessage:
'''),
]
V["proto4"] = [
    (PR, "from threading import Lock\n", ""),
    (PR, "    _lock: Lock\n", ""),
    (PR, "        self._lock = Lock()\n", "        self._writable = asyncio.Event()\n        self._writable.set()\n"),
    (PR, "        self._lock.acquire()\n", "        self._writable.clear()\n"),
    (PR, "        self._lock.release()\n", "        self._writable.set()\n"),
    (PR, "        while self._lock.locked():\n            await asyncio.sleep(delay)\n", "        while not self._writable.is_set():\n            await asyncio.sleep(delay)\n"),
    (PR, '''        message = await self._messages_queue.get()
        if message is None:
            # no message will arrive anymore, also for the next reader
            self._messages_queue.put_nowait(None)
            raise ConnectionError("Connection lost")
        return message
''', '''        queue = self._messages_queue
        message = await queue.get()
        if message is not None:
            return message
        # no message will arrive anymore, also for the next reader
        queue.put_nowait(None)
        raise ConnectionError("Connection lost")
'''),
]
V["items4"] = [
    (IB, "        if isinstance(what, str):\n            what = What(what)\n\n        return NormalMessage((self._who, what, self._where))\n", "        command = What(what) if isinstance(what, str) else what\n        return NormalMessage((self._who, command, self._where))\n"),
    (IB, '''        messages = [msg async for msg in self.send_dimension_request(what)]

        if len(messages) == 0:
            raise ResponseError("The server did not respond with data.")

        resp = messages[0]
        if not isinstance(resp, DimensionResponse):
            raise InvalidMessage("The message is not a DimensionResponse message.")
        else:
            return resp
''', '''        first = None
        async for msg in self.send_dimension_request(what):
            if first is None:
                first = msg

        if first is None:
            raise ResponseError("The server did not respond with data.")
        return first
'''),
    (IB, '''            if not isinstance(resp, DimensionResponse):
                raise ResponseError(f"Received {resp} instead of a dimension response message")

            yield resp
''', '''            if isinstance(resp, DimensionResponse):
                yield resp
                continue
            raise ResponseError(f"Received {resp} instead of a dimension response message")
'''),
    (IB, '''        if resp.type != MessageType.ACK:
            raise ResponseError(f"Received {resp} instead of ACK")
''', '''        if resp.type == MessageType.ACK:
            return
        raise ResponseError(f"Received {resp} instead of ACK")
'''),
    (GW, '''        if message is not None:
            resp = message
        else:
            resp = await self._single_dim_req(WhatGateway.NET_MASK)

        oct1, oct2, oct3, oct4 = resp.values

        return f"{int(oct1.string)}.{int(oct2.string)}.{int(oct3.string)}.{int(oct4.string)}"
''', '''        return await self._dotted(WhatGateway.NET_MASK, message)

    async def _dotted(self, what: WhatGateway, message: EventMessage) -> str:
        """Returns the four octets of a response."""
        if message is None:
            message = await self._single_dim_req(what)
        oct1, oct2, oct3, oct4 = message.values
        return ".".join(str(int(o.string)) for o in (oct1, oct2, oct3, oct4))
'''),
    (GW, '''        if message is not None:
            resp = message
        else:
            resp = await self._single_dim_req(WhatGateway.IP_ADDRESS)

        oct1, oct2, oct3, oct4 = resp.values

        ip = ipaddress.IPv4Address(
            f"{int(oct1.string)}.{int(oct2.string)}.{int(oct3.string)}.{int(oct4.string)}"
        )
        return ip
''', '''        return ipaddress.IPv4Address(await self._dotted(WhatGateway.IP_ADDRESS, message))
'''),
    (GW, '''        w, d, m, a = resp.values
        # w is the day of the week, but we don't need it

        day = int(d.string)
        month = int(m.string)
        year = int(a.string)

        bus_date = datetime.date(year, month, day)

        return bus_date
''', '''        # the first value is the day of the week, but we don't need it
        _, day, month, year = [int(v.string) if i else None for i, v in enumerate(resp.values)]
        return datetime.date(day=day, month=month, year=year)
'''),
    (GW, '''        if what not in cls._event_callbacks:
            cls._event_callbacks[what] = []

        cls._event_callbacks[what].append(callback)
''', '''        cls._event_callbacks.setdefault(what, []).append(callback)
'''),
    (EN, '''        if month is None:
            month = datetime.now().month
        if year is None:
            year = datetime.now().year % 100

        message = await self._single_dim_req(
            DimensionEnergy.ENERGY_UNIT_PER_MONTH.with_parameter(year).with_parameter(month)
        )

        return float(message.values[0].string)
''', '''        now = datetime.now()
        month = now.month if month is None else month
        year = now.year % 100 if year is None else year

        dimension = DimensionEnergy.ENERGY_UNIT_PER_MONTH
        for parameter in (year, month):
            dimension = dimension.with_parameter(parameter)
        value, *_ = (await self._single_dim_req(dimension)).values
        return float(value.string)
'''),
    (EN, '''        return ActuatorStatus(
            disabled=bool(int(message.values[0].string)),
            forcing=bool(int(message.values[1].string)),
            threshold=bool(int(message.values[2].string)),
            protection=bool(int(message.values[3].string)),
            phase=bool(int(message.values[4].string)),
            advanced=not bool(int(message.values[5].string) - 1),
        )
''', '''        disabled, forcing, threshold, protection, phase, mode = [
            int(value.string) for value in message.values[:6]
        ]
        return ActuatorStatus(
            disabled=disabled != 0,
            forcing=forcing != 0,
            threshold=threshold != 0,
            protection=protection != 0,
            phase=phase != 0,
            advanced=mode == 1,
        )
'''),
    (LB, '''        async for message in self.send_dimension_request("8"):
            yield message.where, int(message.values[0].tag)
''', '''        responses = self.send_dimension_request("8")
        async for message in responses:
            hours = int(message.values[0].tag)
            yield message.where, hours
'''),
]
