CI, CR, CF, CS, U = "client/__init__.py", "client/receiver.py", "client/fetch.py", "client/signal.py", "utils.py"
# ---- C01
B("C01", CI, "        for receiver in self._receivers:\n          try: receiver.on_message(message)\n          except Exception as e: logging.debug(f\"Failed to process message: {e}\")\n", "        try:\n          for receiver in self._receivers: receiver.on_message(message)\n        except Exception as e: logging.debug(f\"Failed to process message: {e}\")\n", "try around the loop")
B("C01", CI, "          except Exception as e: logging.debug(f\"Failed to process message: {e}\")", "          except ValueError as e: logging.debug(f\"Failed to process message: {e}\")")
B("C01", CI, "message.topic not in self._in_topics: continue", "message.topic not in self._out_topics: continue")
B("C01", CI, "        if isinstance(message, TopicMessage) and message.topic not in self._in_topics: continue\n", "")
B("C01", CI, "        if isinstance(message, TopicMessage) and message.topic not in self._in_topics: continue\n", "        if isinstance(message, TopicMessage) and message.topic not in self._in_topics: break\n", "break")
B("C01", CI, "for receiver in self._receivers:\n", "for receiver in self._receivers[:1]:\n")
B("C01", CI, "self._receive_task = self._receive_task or asyncio.create_task(self._task_receive())", "if len(self._receivers) == 1: self._receive_task = asyncio.create_task(self._task_receive())")
B("C01", CI, "if self._receive_task is asyncio.current_task(): self._receive_task = None", "self._receive_task = None")
B("C01", CI, "      receive_task, self._receive_task = self._receive_task, None # a receiver enabled from now on needs a new task\n      receive_task.cancel()\n", "      receive_task = self._receive_task\n      receive_task.cancel()\n", "keep task")
B("C01", CI, "    self._receivers.remove(receiver)\n    if len", "    if len")
B("C01", CI, "          except Exception as e: logging.debug(f\"Failed to process message: {e}\")", "          except Exception as e:\n            logging.debug(f\"Failed to process message: {e}\")\n            break")
B("C01", CR, "    if self._receiving_count > 1: return\n", "    if self._receiving_count > 2: return\n")
B("C01", CR, "    self._receiving_count = max(0, self._receiving_count - 1)\n    if self._receiving_count > 0: return\n", "    if self._receiving_count > 0: self._receiving_count -= 1\n    if self._receiving_count > 1: return\n")
B("C01", CR, "    except BaseException:\n      self._receiving_count = 0\n", "    except Exception:\n      self._receiving_count = 0\n")
B("C01", CR, "      self._receiving_count = 0\n      await self._client.disable_receiver(self)\n      raise", "      await self._client.disable_receiver(self)\n      raise")
B("C01", CR, "await self._client.unregister_in_topics(self._topics)", "await self._client.unregister_in_topics(self._topics - {0})")
B("C01", CR, "    if self._subscribe and len(self._topics) > 0: await self._client.unregister_in_topics(self._topics)", "    if len(self._topics) > 0: await self._client.unregister_in_topics(self._topics)")
B("C01", CR, "    await self._client.disable_receiver(self)\n    await asyncio.sleep(0)\n    await self._on_stop_recv()", "    await self._client.disable_receiver(self)\n    await asyncio.sleep(0)")
B("C01", CR, "  async def __aexit__(self, *_): await self.stop_recv()", "  async def __aexit__(self, exc_type, *_):\n    if exc_type is None: await self.stop_recv()")
K("C01", CI, "    self._receive_task = self._receive_task or asyncio.create_task(self._task_receive())\n", "    if self._receive_task is None: self._receive_task = asyncio.create_task(self._task_receive())\n")
K("C01", CI, "        for receiver in self._receivers:\n          try: receiver.on_message(message)\n          except Exception as e: logging.debug(f\"Failed to process message: {e}\")\n", "        self._dispatch(message)\n", "dispatch helper")
EDITS[-1][2].append((CI, "  async def _task_receive(self):", "  def _dispatch(self, message):\n    for receiver in list(self._receivers):\n      try: receiver.on_message(message)\n      except Exception as e: logging.debug(f\"Failed to process message: {e}\")\n\n  async def _task_receive(self):"))
K("C01", CI, "        if isinstance(message, TopicMessage) and message.topic not in self._in_topics: continue\n        for receiver in self._receivers:\n          try: receiver.on_message(message)\n          except Exception as e: logging.debug(f\"Failed to process message: {e}\")\n", "        if not isinstance(message, TopicMessage) or message.topic in self._in_topics:\n          for receiver in self._receivers:\n            try: receiver.on_message(message)\n            except Exception: logging.debug(\"failed\")\n", "positive filter")
K("C01", CI, "      receive_task, self._receive_task = self._receive_task, None # a receiver enabled from now on needs a new task\n", "      receive_task = self._receive_task\n      self._receive_task = None\n")
K("C01", CI, "    if len(self._receivers) == 0 and self._receive_task is not None:\n", "    if not self._receivers and self._receive_task:\n")
K("C01", CR, "    self._receiving_count += 1\n    if self._receiving_count > 1: return\n", "    self._receiving_count = self._receiving_count + 1\n    if self._receiving_count != 1: return\n")
K("C01", CR, "    self._receiving_count = max(0, self._receiving_count - 1)\n    if self._receiving_count > 0: return\n    await self._client.disable_receiver(self)\n    await asyncio.sleep(0)\n    await self._on_stop_recv()", "    if self._receiving_count > 0: self._receiving_count -= 1\n    if self._receiving_count == 0:\n      await self._client.disable_receiver(self)\n      await asyncio.sleep(0)\n      await self._on_stop_recv()")
K("C01", CR, "    if self._subscribe and len(self._topics) > 0: await self._client.register_in_topics(self._topics)", "    if not self._subscribe or not self._topics: return\n    await self._client.register_in_topics(set(self._topics))")
K("C01", CR, "      await asyncio.sleep(0)\n      await self._on_start_recv()\n    except BaseException:\n      self._receiving_count = 0\n      await self._client.disable_receiver(self)\n      raise", "      await asyncio.sleep(0)\n      await self._on_start_recv()\n    except (Exception, asyncio.CancelledError, BaseException):\n      await self._client.disable_receiver(self)\n      self._receiving_count = 0\n      raise")
# ---- C02
B("C02", CI, "    if len(actually_added) > 0: await self._link.send(OutTopicsChangedMessage(ids_to_priced_ids(actually_added), set()))", "    if len(actually_added) > 0: await self._link.send(OutTopicsChangedMessage(ids_to_priced_ids(topics), set()))")
B("C02", CI, "    if len(actually_removed) > 0: await self._link.send(OutTopicsChangedMessage(set(), set(actually_removed)))", "    if len(actually_removed) > 1: await self._link.send(OutTopicsChangedMessage(set(), set(actually_removed)))")
B("C02", CI, "    if len(actually_removed) > 0: await self._link.send(InTopicsChangedMessage(set(), set(actually_removed)))", "    if len(actually_removed) > 0: await self._link.send(InTopicsChangedMessage(set(actually_removed), set()))")
B("C02", CI, "actually_removed = self._in_topics.remove_many(topics, force=force)", "actually_removed = self._in_topics.remove_many(topics)")
B("C02", CI, "actually_removed = self._in_topics.remove_many(topics, force=force)", "actually_removed = self._out_topics.remove_many(topics, force=force)")
B("C02", CI, "    self._address = address\n", "    if address is not None: self._address = address\n")
B("C02", CI, "    if len(add) > 0 or len(remove) > 0:\n", "    if len(add) > 0:\n")
B("C02", CI, "    remove = old_addresses - new_addresses\n", "    remove = old_addresses\n")
B("C02", CI, "set() if address is None else set([ address ])", "set([ address ]) if address else set()")
B("C02", "net/helpers.py", "cost: int = 0", "cost: int = 1")
K("C02", CI, "    actually_added = self._out_topics.add_many(topics)\n    if len(actually_added) > 0: await self._link.send(OutTopicsChangedMessage(ids_to_priced_ids(actually_added), set()))", "    added = self._out_topics.add_many(topics)\n    if not added: return\n    await self._link.send(OutTopicsChangedMessage(add=ids_to_priced_ids(added), remove=set()))")
K("C02", CI, "    if len(actually_removed) > 0: await self._link.send(InTopicsChangedMessage(set(), set(actually_removed)))", "    await self._announce_in(set(), actually_removed)\n\n  async def _announce_in(self, add, remove):\n    if add or remove: await self._link.send(InTopicsChangedMessage(set(add), set(remove)))")
K("C02", CI, "    new_addresses = set() if address is None else set([ address ])\n    old_addresses = set() if self._address is None else set([ self._address ])\n    add = new_addresses - old_addresses\n    remove = old_addresses - new_addresses\n    if len(add) > 0 or len(remove) > 0:\n      await self._link.send(AddressesChangedMessage(ids_to_priced_ids(add), remove))\n", "    if address != self._address:\n      add = { address } if address is not None else set()\n      remove = { self._address } if self._address is not None else set()\n      await self._link.send(AddressesChangedMessage(ids_to_priced_ids(add), remove))\n", "early diff")
K("C02", CI, "    new_addresses = set() if address is None else set([ address ])\n    old_addresses = set() if self._address is None else set([ self._address ])\n", "    new_addresses = set(a for a in (address,) if a is not None)\n    old_addresses = set(a for a in (self._address,) if a is not None)\n")
# ---- C04
B("C04", CF, "            if not fr.response_sent: await fr.respond(None)\n", "            if not fr.response_sent: await fr.respond_error(None)\n")
B("C04", CF, "            if not fr.response_sent: await fr.respond(None)\n", "")
B("C04", CF, "            if not fr.response_sent: await fr.respond_error(new_fetch_body_general_error(str(e)))\n", "            await fr.respond_error(new_fetch_body_general_error(str(e)))\n")
B("C04", CF, "          except BaseException as e:\n            if not", "          except Exception as e:\n            if not")
B("C04", CF, "          except asyncio.CancelledError: raise\n", "")
B("C04", CF, "body=content, error=True", "body=content")
B("C04", CF, "    await self._client.send_to(self._return_endpoint, RawData(FetchResponseMessage(body=content, error=True).model_dump()))\n    self.response_sent = True", "    await self._client.send_to(self._return_endpoint, RawData(FetchResponseMessage(body=content, error=True).model_dump()))")
B("C04", CF, "(fr_message.return_address, fr_message.return_port)", "(fr_message.return_port, fr_message.return_address)")
B("C04", CF, "    if a_message.port != self._port or not", "    if a_message.port == self._port and not")
B("C04", CF, "        self._recv_queue.put_nowait((fr_message.descriptor, FetchRequest(self._client, (fr_message.return_address, fr_message.return_port), fr_message.body)))\n    except ValidationError: pass", "        self._recv_queue.put_nowait((fr_message.descriptor, FetchRequest(self._client, (fr_message.return_address, fr_message.return_port), fr_message.body)))\n    except KeyError: pass")
B("C04", CF, "    async with self:\n      while True:\n        descriptor, fr", "    await self.start_recv()\n    if True:\n      while True:\n        descriptor, fr")
B("C04", CS, "          except BaseException as e: logging.debug(e, descriptor)", "          except Exception as e: logging.debug(e, descriptor)")
B("C04", CS, "          except asyncio.CancelledError: raise\n", "")
B("C04", CS, "      if s_message.descriptor in self._descriptor_mapping:\n        self._recv", "      if s_message.descriptor not in self._descriptor_mapping:\n        self._recv")
B("C04", CS, "  def remove_route(self, descriptor: str): self._descriptor_mapping.pop(descriptor, None)", "  def remove_route(self, descriptor: str): self._descriptor_mapping.get(descriptor, None)")
B("C04", CS, "        if descriptor in self._descriptor_mapping:\n          try: await self._descriptor_mapping[descriptor](data)", "        if True:\n          try: await self._descriptor_mapping[descriptor](descriptor)")
B("C04", CF, "      def decorator", "      def decorator") if False else None
B("C04", CF, "      self._descriptor_mapping[descriptor] = func\n      return func", "      self._descriptor_mapping[func.__name__] = func\n      return func")
K("C04", CF, "        if descriptor in self._descriptor_mapping:\n          try:\n            await self._descriptor_mapping[descriptor](fr)\n", "        handler = self._descriptor_mapping.get(descriptor)\n        if handler is not None:\n          try:\n            await handler(fr)\n")
K("C04", CF, "        if descriptor in self._descriptor_mapping:\n          try:\n            await self._descriptor_mapping[descriptor](fr)\n            if not fr.response_sent: await fr.respond(None)\n          except asyncio.CancelledError: raise\n          except ValidationError as e:\n            if not fr.response_sent: await fr.respond_error(new_fetch_body_bad_request(str(e)))\n          except BaseException as e:\n            if not fr.response_sent: await fr.respond_error(new_fetch_body_general_error(str(e)))\n            logging.debug(e, descriptor)", "        if descriptor not in self._descriptor_mapping: continue\n        await self._handle(descriptor, fr)\n\n  async def _handle(self, descriptor, fr):\n    try:\n      await self._descriptor_mapping[descriptor](fr)\n      if not fr.response_sent: await fr.respond(None)\n    except asyncio.CancelledError: raise\n    except BaseException as e:\n      if fr.response_sent: return\n      if isinstance(e, ValidationError): await fr.respond_error(new_fetch_body_bad_request(str(e)))\n      else: await fr.respond_error(new_fetch_body_general_error(str(e)))", "handle helper")
K("C04", CF, "  async def respond(self, body: Any):\n    await self._client.send_to(self._return_endpoint, RawData(FetchResponseMessage(body=body).model_dump()))\n    self.response_sent = True\n\n  async def respond_error(self, content: Any):\n    await self._client.send_to(self._return_endpoint, RawData(FetchResponseMessage(body=content, error=True).model_dump()))\n    self.response_sent = True", "  async def respond(self, body: Any): await self._send(body, False)\n  async def respond_error(self, content: Any): await self._send(content, True)\n  async def _send(self, body, error):\n    response = FetchResponseMessage(body=body, error=error)\n    await self._client.send_to(self._return_endpoint, RawData(response.model_dump()))\n    self.response_sent = True", "send helper")
K("C04", CF, "    if not isinstance(message, AddressedMessage): return\n    a_message: AddressedMessage = message\n    if a_message.port != self._port or not isinstance(a_message.data, RawData): return\n    try:\n      fr_message = FetchRequestMessage.model_validate(a_message.data.data)\n", "    if not (isinstance(message, AddressedMessage) and message.port == self._port): return\n    data = message.data\n    if not isinstance(data, RawData): return\n    try:\n      fr_message = FetchRequestMessage.model_validate(data.data)\n")
K("C04", CS, "    try:\n      s_message = SignalMessage.model_validate(a_message.data.data)\n      if s_message.descriptor in self._descriptor_mapping:\n        self._recv_queue.put_nowait((s_message.descriptor, s_message.body))\n    except ValidationError: pass", "    try: s_message = SignalMessage.model_validate(a_message.data.data)\n    except ValidationError: return\n    if s_message.descriptor not in self._descriptor_mapping: return\n    self._recv_queue.put_nowait((s_message.descriptor, s_message.body))")
K("C04", CS, "        req_message: tuple[str, Any] = await self.get()\n        descriptor, data = req_message\n", "        descriptor, data = await self.get()\n")
# ---- C05
B("C05", CI, "    if self.address is None: raise Exception(\"No local address\")\n", "")
B("C05", CI, "    return_port = self.get_free_port()\n", "    return_port = NetworkPorts.DYNAMIC_START\n")
B("C05", CI, "        return_port=return_port,", "        return_port=self.get_free_port(),")
B("C05", CI, "      response_data: FetchResponseMessage = await receiver.get()\n    if response_data.error:", "      response_data: FetchResponseMessage = await receiver.get()\n    if response_data.error and response_data.body:")
B("C05", CI, "      raise FetchError(response_data.body)\n", "      raise FetchError(response_data)\n")
B("C05", CI, "    async with FetchReponseReceiver(self, return_port) as receiver:\n", "    receiver = FetchReponseReceiver(self, return_port)\n    await receiver.start_recv()\n    if True:\n")
B("C05", CI, "endpoint_or_address_to_endpoint(endpoint, NetworkPorts.FETCH)", "endpoint_or_address_to_endpoint(endpoint, NetworkPorts.SIGNAL)")
B("C05", CI, "NetworkPorts.DYNAMIC_START, 0xff", "NetworkPorts.FETCH, 0xff")
B("C05", CF, "    if not a_message.port == self._return_port or not", "    if not")
B("C05", CF, "    if not a_message.port == self._return_port or not", "    if not a_message.port >= self._return_port or not")
B("C05", CF, "    try: self._recv_queue.put_nowait(FetchResponseMessage.model_validate(a_message.data.data))\n    except ValidationError: pass", "    self._recv_queue.put_nowait(FetchResponseMessage.model_validate(a_message.data.data))")
B("C05", U, "    if self._current >= self._end: self._current = self._start\n    return res", "    if self._current > self._end: self._current = self._start\n    return res")
B("C05", U, "    res = self._current\n    self._current += 1\n", "    res = self._current\n    self._current += 2\n")
B("C05", CI, "await self.resolve_address_name(address) if isinstance(address, str) else address", "address")
B("C05", "net/__init__.py", "(ep, default_port) if isinstance(ep, (str, int)) else ep", "(ep, default_port) if isinstance(ep, int) else ep")
B("C05", CS, "NetworkPorts.SIGNAL), RawData(SignalMessage(descriptor=descriptor, body=body)", "NetworkPorts.SIGNAL), RawData(SignalMessage(descriptor=descriptor, body=None)")
B("C05", CI, "      endpoint[1],\n", "      NetworkPorts.FETCH,\n")
K("C05", CI, "    if self.address is None: raise Exception(\"No local address\")\n    return_port = self.get_free_port()\n    async with FetchReponseReceiver(self, return_port) as receiver:\n", "    if self._address is None: raise Exception(\"No local address\")\n    receiver = FetchReponseReceiver(self, return_port := self.get_free_port())\n    async with receiver:\n")
K("C05", CI, "    if response_data.error:\n      raise FetchError(response_data.body)\n    return response_data.body", "    if not response_data.error: return response_data.body\n    raise FetchError(response_data.body)")
K("C05", CI, "    async with FetchReponseReceiver(self, return_port) as receiver:\n      await self.send_to(endpoint_or_address_to_endpoint(endpoint, NetworkPorts.FETCH), RawData(FetchRequestMessage(\n        return_address=self.address,\n        return_port=return_port,\n        descriptor=descriptor,\n        body=body).model_dump()))\n      response_data: FetchResponseMessage = await receiver.get()\n", "    receiver = FetchReponseReceiver(self, return_port)\n    request = FetchRequestMessage(return_address=self.address, return_port=return_port, descriptor=descriptor, body=body)\n    await receiver.start_recv()\n    try:\n      await self.send_to(endpoint_or_address_to_endpoint(endpoint, NetworkPorts.FETCH), RawData(request.model_dump()))\n      response_data: FetchResponseMessage = await receiver.get()\n    finally: await receiver.stop_recv()\n")
K("C05", U, "    res = self._current\n    self._current += 1\n    if self._current >= self._end: self._current = self._start\n    return res", "    res, nxt = self._current, self._current + 1\n    self._current = nxt if nxt < self._end else self._start\n    return res")
K("C05", "net/__init__.py", "  return (ep, default_port) if isinstance(ep, (str, int)) else ep", "  if isinstance(ep, tuple): return ep\n  return (ep, default_port)")
K("C05", CI, "    await self._link.send(AddressedMessage(\n      await self._get_address(endpoint[0]),\n      endpoint[1],\n      data\n    ))", "    address, port = endpoint\n    if isinstance(address, str): address = await self.resolve_address_name(address)\n    await self._link.send(AddressedMessage(address=address, port=port, data=data))")
K("C05", CF, "    if not a_message.port == self._return_port or not isinstance(a_message.data, RawData): return\n    try: self._recv_queue.put_nowait(FetchResponseMessage.model_validate(a_message.data.data))\n    except ValidationError: pass", "    if a_message.port == self._return_port and isinstance(a_message.data, RawData):\n      try: response = FetchResponseMessage.model_validate(a_message.data.data)\n      except ValidationError: return\n      self._recv_queue.put_nowait(response)")
