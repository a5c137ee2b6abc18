# second round: written from the statements alone
NET = "net/__init__.py"
# N01
B("N01", "net/serialization.py", "def copy(self): return RawData(memoryview(self.serialize()))", "def copy(self): return RawData(self.data)")
B("N01", "net/serialization.py", "    if self._data is None: self._data = msgpack.unpackb(self._raw)\n    return self._data", "    return msgpack.unpackb(self._raw) if self._data is None else self._data", "changes to the value are lost")
B("N01", "net/messages.py", "      'add': list([ pid.__dict__ for pid in self.add ]),\n      'remove': list(self.remove),\n    }\n  @classmethod\n  def from_dict(cls, data: dict[str, Any]) -> Self:\n    return cls(\n      add=set([ PricedId(**pid) for pid in data['add'] ]),\n      remove=set(data['remove']),\n    )\n\n\n@dataclass(frozen=True)\nclass OutTopicsChangedRecvMessage", "      'add': list([ pid.__dict__ for pid in self.add if pid.id not in self.remove ]),\n      'remove': list(self.remove),\n    }\n  @classmethod\n  def from_dict(cls, data: dict[str, Any]) -> Self:\n    return cls(\n      add=set([ PricedId(**pid) for pid in data['add'] ]),\n      remove=set(data['remove']),\n    )\n\n\n@dataclass(frozen=True)\nclass OutTopicsChangedRecvMessage", "both lost")
K("N01", "net/serialization.py", "def update(self):\n    self.deserialize()\n    self._raw = None", "def update(self):\n    if self._data is None: self._data = msgpack.unpackb(self._raw)\n    self._raw = None")
# N02
B("N02", NET, "      if isinstance(message, TopicControlMessage):\n        self.stream_controls[message.topic] = message.to_data()\n", "      if isinstance(message, TopicControlMessage):\n        if self.stream_controls.get(message.topic) == message.to_data(): return\n        self.stream_controls[message.topic] = message.to_data()\n", "equal controls dropped")
B("N02", NET, "[ self.stream_controls[topic].to_message(topic) for topic in message.add if topic in self.stream_controls ]", "[ self.stream_controls[topic].to_message(topic) for topic in final_add if topic in self.stream_controls ]")
B("N02", NET, "        self.stream_controls[message.topic] = message.to_data()\n", "        if message.paused: self.stream_controls[message.topic] = message.to_data()\n        else: self.stream_controls.pop(message.topic, None)\n", "resume forgotten")
B("N02", NET, "if link != origin and message.topic in link.in_topics])", "if link != origin and message.topic in link.in_topics and message.topic in origin.out_topics])")
B("N02", NET, "      await self.send_to(control_message, [origin])\n", "      await self.send_to(control_message, [link for link in self.link_manager.links if link is not origin])\n")
K("N02", NET, "    await self.send_to(message, [ link for link in self.link_manager.links if link != origin and message.topic in link.in_topics])", "    receivers = []\n    for link in self.link_manager.links:\n      if link is origin: continue\n      if message.topic in link.in_topics: receivers.append(link)\n    await self.send_to(message, receivers)")
# N03
B("N03", NET, "set(PricedId(pa.id, pa.cost + self._cost) for pa in ac_message.add),", "set(PricedId(pa.id, max(pa.cost, self._cost)) for pa in ac_message.add),")
B("N03", NET, "if conn.addresses.get(message.address, -1) == address_cost ), None)", "if conn != origin and conn.addresses.get(message.address, -1) == address_cost ), None)")
B("N03", NET, "      await self.send_to(AddressesChangedMessage(addresses_added, addresses_removed), [ conn for conn in self.link_manager.links if conn != origin ])", "      await self.send_to(AddressesChangedMessage(addresses_added, addresses_removed), [ conn for conn in self.link_manager.links if conn != origin and not (addresses_added and any(pa.id in conn.addresses for pa in addresses_added)) ])")
B("N03", NET, "    if len(switch_addresses) > 0: await link.send(AddressesChangedMessage(switch_addresses, set()))\n", "    if len(switch_addresses) > 0 and len(switch_out_topics) > 0: await link.send(AddressesChangedMessage(switch_addresses, set()))\n")
B("N03", NET, "      for address in ac_message.remove: self.addresses.pop(address, None)\n      for pa in message.add: self.addresses[pa.id] = pa.cost\n", "      for pa in message.add: self.addresses[pa.id] = pa.cost\n      for address in ac_message.remove: self.addresses.pop(address, None)\n", "order")
B("N03", NET, "    if len(addresses_added) > 0 or len(addresses_removed) > 0:\n      await self.send_to(Addr", "    if len(addresses_added) > 0:\n      await self.send_to(Addr")
K("N03", NET, "found_conn = next(( conn for conn in self.link_manager.links if conn.addresses.get(message.address, -1) == address_cost ), None)", "found_conn = min((conn for conn in self.link_manager.links if message.address in conn.addresses), key=lambda conn: conn.addresses[message.address], default=None)")
# N04
B("N04", NET, "    self.link_manager.remove_link(link)\n\n    # release", "    self.link_manager.remove_link(link)\n    if len(link.out_topics) == 0 and len(link.addresses) == 0: return\n\n    # release")
B("N04", NET, "    if len(removed_addresses) > 0 or len(updated_addresses) > 0:\n      await", "    if len(removed_addresses) > 0:\n      await")
B("N04", NET, "      link.close()\n      await self.remove_link(link)", "      await self.remove_link(link)")
B("N04", NET, "for topic in link.recv_topics - removed_topics if topic in self.in_topics)", "for topic in link.recv_topics & removed_topics if topic in self.in_topics)")
B("N04", NET, "    removed_in_topics = self.in_topics.remove_many(link.in_topics)\n", "    removed_in_topics = self.in_topics.remove_many(link.in_topics - link.recv_topics)\n")
B("N04", NET, "      logging.error(f\"Error receiving from link: {e}\")\n      raise e\n    finally:\n      link.close()\n      await self.remove_link(link)", "      logging.error(f\"Error receiving from link: {e}\")\n      raise e\n    link.close()\n    await self.remove_link(link)")
# N05
B("N05", NET, "    for link in list(links): # the links may change while sending\n      try: await link.send(message)\n      except ConnectionClosedError: pass # only concerns that link, its own receiver removes it\n", "    try:\n      for link in list(links): await link.send(message)\n    except ConnectionClosedError: pass\n")
B("N05", NET, "for link in list(links): # the", "for link in links: # the")
B("N05", NET, "    for conn, message in change_map.items(): await self.send_to(message, [conn])", "    for conn, message in change_map.items(): await conn.send(message)")
K("N05", NET, "    for link in list(links): # the links may change while sending\n      try: await link.send(message)\n      except ConnectionClosedError: pass", "    for link in tuple(links):\n      if link.closed: continue\n      try: await link.send(message)\n      except ConnectionClosedError: continue")
# N06
B("N06", NET, "    self._closed = True\n    if self._receiver is not None:\n      try: self._receiver.cancel(ConnectionClosedError())\n      except asyncio.InvalidStateError: pass\n    for handler in self.on_closed: handler()\n", "    if self._receiver is not None:\n      try: self._receiver.cancel(ConnectionClosedError())\n      except asyncio.InvalidStateError: pass\n    for handler in self.on_closed: handler()\n    self._closed = True\n")
B("N06", NET, "  link_b.on_closed.append(link_a.close)\n", "")
B("N06", NET, "    for handler in self.on_closed: handler()\n", "    for handler in self.on_closed:\n      if handler(): break\n")
B("N06", NET, "self._receiver.cancel(ConnectionClosedError())", "self._receiver.cancel()")
B("N06", NET, "    if self._closed: raise ConnectionClosedError()\n    assert", "    if self._closed: return\n    assert")
B("N06", NET, "    self.on_closed.append(link.close)\n    link.on_closed.append(self.close)\n", "    self.on_closed.append(link.close)\n")
# N07
B("N07", NET, "      message = TopicControlMessage(topic_id_map.get(message.topic, message.topic), message.paused)", "      message = TopicControlMessage(topic_id_map.get(message.topic, message.topic), bool(topic_id_map) and message.paused)")
B("N07", NET, "      message = InTopicsChangedMessage(self._remap_id_set(message.add, topic_id_map), self._remap_id_set(message.remove, topic_id_map))", "      message = InTopicsChangedMessage(self._remap_id_set(message.add, topic_id_map), message.remove)")
B("N07", NET, "self._rev_topic_id_map = {v:k for k, v in topic_id_map.items() }", "self._rev_topic_id_map = {v:k for k, v in topic_id_map.items() if v != k and v not in topic_id_map }")
B("N07", NET, "return set(topic_id_map.get(t, t) for t in ids)", "return set(topic_id_map[t] for t in ids if t in topic_id_map)")
B("N07", NET, "set(PricedId(topic_id_map.get(t.id, t.id), t.cost) for t in ids)", "set(PricedId(topic_id_map.get(t.id, t.id), t.cost + 1) for t in ids)")
# N08
H = "net/helpers.py"
B("N08", H, "      if id.cost < val:\n", "      if id.cost <= val:\n")
B("N08", H, "          min_cost = min(inner.keys())\n", "          min_cost = next(iter(inner.keys()))\n")
B("N08", H, "      if val == 0: continue\n", "      if val == 0: val = 1\n")
B("N08", H, "topic_map[topic.id] = min(current, topic.cost)", "topic_map[topic.id] = topic.cost")
K("N08", H, "      val = self._computed_map.get(id.id, float(\"inf\"))\n      if id.cost < val:\n", "      if id.id not in self._computed_map or id.cost < self._computed_map[id.id]:\n")
# N09
B("N09", NET, "    await self.request_in_topics_change(final_add, final_remove)\n", "    await self.request_in_topics_change(message.add, final_remove)\n")
B("N09", NET, "    await self.request_in_topics_change(final_add, final_remove)\n", "    await self.request_in_topics_change(final_add, message.remove)\n")
B("N09", NET, "          for topic in remove_sub: change_map[conn].remove.add(topic)\n", "          for topic in remove_sub: change_map[conn].remove.add(topic)\n          break\n")
B("N09", NET, "topic_provider.out_topics.get(pt.id, float('inf')) > pt.cost:", "topic_provider.out_topics.get(pt.id, float('inf')) < pt.cost:")
B("N09", NET, "      if pt.id in self.in_topics:\n        topic_provider", "      if pt.id not in self.in_topics:\n        topic_provider")
B("N09", NET, "      self.recv_topics = self.recv_topics.union(itc_message.add).difference(itc_message.remove)\n", "      self.recv_topics = self.recv_topics.union(itc_message.add)\n")
B("N09", NET, "key=lambda link: link.out_topics.get(topic, float('inf'))", "key=lambda link: link.out_topics.get(topic, 0)")
# K
CN = "connection.py"
B("K01", CN, "client_data.get(\"version\", None) == _get_version_specifier() and client_auth == server_auth", "str(client_data.get(\"version\", None)).startswith(_get_version_specifier()) and client_auth == server_auth")
B("K01", CN, "client_auth == server_auth\n", "(server_auth is None or client_auth == server_auth)\n")
B("K01", CN, "client_auth == server_auth\n", "client_auth in (server_auth, extra_data.get(\"password\"))\n")
B("K01", CN, "if server_data.get(\"accepted\", False) != True:", "if server_data.get(\"accepted\") == False:")
B("K01", CN, "      if server_data.get(\"accepted\", False) != True: raise ConnectionError(\"Server rejected connection\")\n    except BaseException as e:", "      if server_data.get(\"accepted\", False) != True: raise ConnectionError(\"Server rejected connection\")\n    except Exception as e:")
B("K01", CN, "server_data = { **extra_data, \"accepted\": accepted,", "server_data = { **client_data, **extra_data, \"accepted\": accepted,")
B("K01", CN, "server_data = { **extra_data, \"accepted\": accepted, \"version\": _get_version_specifier() }", "server_data = { \"accepted\": accepted, \"version\": _get_version_specifier(), **extra_data }")
B("K02", CN, "      await asyncio.shield(self._send(data))\n", "      await self._send(data)\n")
B("K02", CN, "    async with self._recv_lock:\n      return", "    async with self._send_lock:\n      return")
B("K02", CN, "struct.unpack(\"<L\", await self._reader.readexactly(4))", "struct.unpack(\"<l\", await self._reader.readexactly(4))")
B("K02", CN, "    return await self._reader.readexactly(data_len)\n", "    return await self._reader.read(data_len)\n")
B("K02", CN, "    while not isinstance(data, bytes): data = await self.socket.recv()", "    while not data: data = await self.socket.recv()", "text frames")
B("K02", CN, "    try: return deserialize_message(await self._connection.recv())\n    except asyncio.CancelledError: raise\n    except BaseException as e:", "    try: return deserialize_message(await self._connection.recv())\n    except asyncio.CancelledError: raise\n    except OSError as e:")
K("K02", CN, "    except (EOFError, ConnectionError, BrokenPipeError, asyncio.IncompleteReadError) as e:", "    except (EOFError, ConnectionError) as e:")
K("K02", CN, "    self._writer.write(RawStreamConnection.SYNC_WORD)\n    self._writer.write(struct.pack(\"<L\", len(data)))\n    self._writer.write(data)\n", "    header = RawStreamConnection.SYNC_WORD + len(data).to_bytes(4, \"little\")\n    self._writer.write(header)\n    self._writer.write(data)\n")
K("K02", CN, "    except asyncio.CancelledError: raise\n    except BaseException as e: raise ConnectionClosedError(origin=e)\n\n  async def _recv", "    except Exception as e: raise ConnectionClosedError(origin=e)\n\n  async def _recv")
B("K03", CN, "          if link.closed: self._async_connected.set(False) # in case it closed already\n", "")
B("K03", CN, "except (ConnectionClosedError, OSError, websockets.WebSocketException): pass\n", "except (ConnectionClosedError, ConnectionError, websockets.WebSocketException): pass\n")
B("K03", CN, "        await asyncio.sleep(self.delay)\n        logging.info", "        if not self.connected: await asyncio.sleep(0)\n        logging.info")
B("K03", CN, "          await self._async_connected.wait(False)\n", "          await self._async_connected.wait(True)\n")
B("K03", CN, "          self._async_connected.set(True)\n          link.on_closed", "          link.on_closed")
K("K03", CN, "    finally: await self.shutdown()\n\n  async def wait_connected", "    finally:\n      logging.debug(\"reconnector ends\")\n      await self.shutdown()\n\n  async def wait_connected")
B("K04", CN, "if len(v) == 1 })", "})")
B("K04", CN, "    case \"unix\": return UnixConnectionData(path=purl.path, cost=cost or DEFAULT_COSTS.UNIX", "    case \"unix\": return UnixConnectionData(path=purl.path, cost=cost or DEFAULT_COSTS.NODE")
B("K04", CN, "return TCPSocketServer(data.hostname, data.port, cost=data.cost,", "return TCPSocketServer(data.hostname, data.port, cost=DEFAULT_COSTS.TCP,")
B("K04", CN, "  if purl.password is not None: handshake_data[\"password\"] = purl.password\n", "  if purl.password is not None: handshake_data[\"auth\"] = purl.password\n")
B("K04", CN, "get_node_socket_path(purl.hostname or None)", "get_node_socket_path(purl.username or None)")
B("K04", CN, "    return f\"{scheme}://{self.hostname}:{self.port}\"", "    return f\"{scheme}://{self.hostname}\"")
B("K04", CN, "  return RawConnectionLink(connection, data.cost)", "  return RawConnectionLink(connection, 1)")
B("K05", CN, "      await self.switch.add_link(link)\n      self.on_connected()\n      link.on_closed.append(self.on_disconnected)\n    except", "      link.on_closed.append(self.on_disconnected)\n      await self.switch.add_link(link)\n      self.on_connected()\n    except")
B("K05", CN, "      link.on_closed.append(close_event.set)\n      await close_event.wait()\n", "      link.on_closed.append(close_event.set)\n")
B("K05", CN, "      link.on_closed.append(self.on_disconnected)\n      link.on_closed.append(close_event.set)\n", "      link.on_closed.append(close_event.set)\n")
B("K05", CN, "    self._connection_count -= 1\n    self._connection_count_trigger.trigger()", "    if self._connection_count > 1: self._connection_count -= 1\n    self._connection_count_trigger.trigger()")
B("K05", CN, "    self.on_closed.append(connection.close)\n", "")
B("K05", CN, "    finally:\n      self._running_event.clear()\n      await self.shutdown()\n", "    finally: await self.shutdown()\n")
B("K05", CN, "    finally:\n      self._running_event.clear()\n      await self.shutdown()\n", "    finally: self._running_event.clear()\n")
K("K05", CN, "      self.on_connected()\n      link.on_closed.append(self.on_disconnected)\n    except", "      link.on_closed.append(self.on_disconnected)\n      self.on_connected()\n    except")
CI="client/__init__.py"; CF="client/fetch.py"; CS="client/signal.py"; CR="client/receiver.py"; CB="client/broadcast.py"; CD="client/discovery.py"; CT="client/topic.py"; DS="services/discovery.py"; UT="utils.py"
B("C01", CI, "        for receiver in self._receivers:\n          try: receiver.on_message(message)", "        for receiver in self._receivers[:16]:\n          try: receiver.on_message(message)")
B("C01", CI, "        if isinstance(message, TopicMessage) and message.topic not in self._in_topics: continue", "        if isinstance(message, TopicDataMessage) and message.topic not in self._in_topics: continue")
B("C01", CI, "          try: receiver.on_message(message)\n          except Exception as e: logging.debug(f\"Failed to process message: {e}\")", "          try: receiver.on_message(message)\n          except Exception as e:\n            logging.debug(f\"Failed to process message: {e}\")\n            self._receivers.remove(receiver)")
B("C01", CR, "      self._receiving_count = 0\n      await self._client.disable_receiver(self)\n      raise", "      self._receiving_count = 0\n      raise")
B("C01", CR, "    if self._receiving_count > 0: return\n    await self._client.disable_receiver(self)\n    await asyncio.sleep(0)\n    await self._on_stop_recv()", "    if self._receiving_count > 0: return\n    await self._on_stop_recv()\n    if not self.empty(): return\n    await self._client.disable_receiver(self)")
B("C01", CR, "self._topics: set[int] = set(topics)", "self._topics: set[int] = topics", "iterator consumed")
B("C01", CR, "    if self._subscribe and len(self._topics) > 0: await self._client.unregister_in_topics(self._topics)", "    if self._subscribe and len(self._topics) > 0: await self._client.unregister_in_topics(self._topics, force=True)")
B("C01", CR, "    if self._receiving_count > 1: return\n", "    if self._receiving_count > 2: return\n")
B("C01", CI, "      if self._receive_task is asyncio.current_task(): self._receive_task = None", "      self._receive_task = None")
B("C02", CI, "    if len(actually_removed) > 0: await self._link.send(InTopicsChangedMessage(set(), set(actually_removed)))", "    if len(actually_removed) > 0: await self._link.send(InTopicsChangedMessage(set(), set(topics)))")
B("C02", CI, "    if len(actually_added) > 0: await self._link.send(OutTopicsChangedMessage(ids_to_priced_ids(actually_added), set()))", "    if len(actually_added) > 1: await self._link.send(OutTopicsChangedMessage(ids_to_priced_ids(actually_added), set()))")
B("C02", CI, "    actually_removed = self._in_topics.remove_many(topics, force=force)\n", "    actually_removed = self._in_topics.remove_many(topics, force=True)\n")
B("C02", CI, "    actually_removed = self._out_topics.remove_many(topics, force=force)\n", "    actually_removed = self._in_topics.remove_many(topics, force=force)\n")
B("C02", CI, "    self._address = address\n\n  def out", "    if address is not None: self._address = address\n\n  def out")
B("C02", CI, "    if len(add) > 0 or len(remove) > 0:\n", "    if len(add) > 0:\n")
B("C02", UT, "      if val == 0: final.add(id)\n", "      if val <= 1: final.add(id)\n")
B("C02", UT, "        if val == 0: continue\n        elif val == 1:", "        if val == 0: final.add(id)\n        elif val == 1:")
K("C02", CI, "    new_addresses = set() if address is None else set([ address ])\n    old_addresses = set() if self._address is None else set([ self._address ])\n    add = new_addresses - old_addresses\n    remove = old_addresses - new_addresses\n    if len(add) > 0 or len(remove) > 0:\n      await self._link.send(AddressesChangedMessage(ids_to_priced_ids(add), remove))\n", "    if address != self._address:\n      add = set() if address is None else { address }\n      remove = set() if self._address is None else { self._address }\n      await self._link.send(AddressesChangedMessage(ids_to_priced_ids(add), remove))\n")
B("C04", CF, "            await self._descriptor_mapping[descriptor](fr)\n            if not fr.response_sent: await fr.respond(None)", "            res = await self._descriptor_mapping[descriptor](fr)\n            if not fr.response_sent and res is None: await fr.respond(None)")
B("C04", CF, "            if not fr.response_sent: await fr.respond_error(new_fetch_body_general_error(str(e)))", "            await fr.respond_error(new_fetch_body_general_error(str(e)))")
B("C04", CF, "          except BaseException as e:\n            if not fr", "          except Exception as e:\n            if not fr")
B("C04", CF, "    if a_message.port != self._port or not isinstance(a_message.data, RawData): return\n    try:\n      fr_message", "    if a_message.port < self._port or not isinstance(a_message.data, RawData): return\n    try:\n      fr_message")
B("C04", CF, "(fr_message.return_address, fr_message.return_port), fr_message.body)", "(message.address, fr_message.return_port), fr_message.body)")
B("C04", CF, "RawData(FetchResponseMessage(body=content, error=True).model_dump())", "RawData(FetchResponseMessage(body=content, error=bool(content)).model_dump())") 
B("C04", CF, "body=body).model_dump()))\n    self.response_sent = True\n\n", "body=body).model_dump()))\n    self.response_sent = body is not None\n\n")
B("C04", CS, "          except BaseException as e: logging.debug(e, descriptor)", "          except (Exception, GeneratorExit) as e: logging.debug(e, descriptor)", "FetchError")
B("C04", CS, "        descriptor, data = req_message\n", "        descriptor, data = req_message\n        if not data: continue\n")
B("C05", CF, "    if not a_message.port == self._return_port or", "    if not a_message.port >= self._return_port or")
B("C05", CI, "    if response_data.error:\n", "    if response_data.error and response_data.body:\n")
B("C05", CI, "    async with FetchReponseReceiver(self, return_port) as receiver:\n      await self.send_to(", "    receiver = FetchReponseReceiver(self, return_port)\n    if True:\n      await receiver.start_recv()\n      await self.send_to(")
B("C05", CI, "IdGenerator(NetworkPorts.DYNAMIC_START, 0xffffffffffffffff)", "IdGenerator(0, 0xffffffffffffffff)")
B("C05", CI, "return_port=return_port,\n", "return_port=self.get_free_port(),\n")
B("C05", CI, "      endpoint[1],\n", "      endpoint[1] or NetworkPorts.FETCH,\n")
B("C06", DS, "    res = set(self._topics_counter + i for i in range(count))\n    self._topics_counter += len(res)\n", "    res = set(self._topics_counter + i for i in range(count))\n    self._topics_counter += count\n", "negative")
B("C06", DS, "    res = set(self._address_counter + i for i in range(count))\n", "    res = set(self._address_counter + i for i in range(max(count, 1)))\n")
B("C06", DS, "        request_id=request.request_id,\n        addresses=addresses\n", "        request_id=request.request_id,\n        addresses=self.generate_addresses(request.count)\n")
B("C06", CD, "          if ra_message.request_id == self._request_id:", "          if ra_message.request_id >= self._request_id:")
B("C06", CD, "  if len(addresses) != count: raise", "  if len(addresses) < count: raise")
B("C06", CD, "  addresses = set(data.addresses)\n  if len(addresses) != count: raise", "  addresses = set(data.addresses)\n  if len(data.addresses) != count: raise") 
B("C06", CI, "    if apply: await self.register_out_topics(res.topics)", "    if apply: await self.register_out_topics(res.topics[:-1])")
B("C06", CI, "    new_address = next(iter(addresses))\n", "    new_address = min(addresses) + 1\n")
B("C10", DS, "      self._address_map[request.address_name] = request.address\n", "      self._address_map.setdefault(request.address_name, request.address)\n")
B("C10", DS, "      self._address_map.pop(request.address_name, None)\n", "      self._address_map = { k: v for k, v in self._address_map.items() if not k.startswith(request.address_name) }\n")
B("C10", CI, "    if res.address is not None: self._address_resolver_cache[name] = res.address\n", "    self._address_resolver_cache.setdefault(name, res.address)\n")
B("C10", CD, "    client.set_address_name(name, address)\n    yield\n", "    client.set_address_name(name, client.address)\n    yield\n")
B("C10", CD, "  if address is None: address = client.address\n", "  address = client.address or address\n")
B("C10", CD, "    await send_signal(client, NetworkAddresses.ID_DISCOVERY, DiscoveryConstants.SD_UNREGISTER", "    if client.address == address: await send_signal(client, NetworkAddresses.ID_DISCOVERY, DiscoveryConstants.SD_UNREGISTER")
B("C10", CD, "      if data.address_name == name: found_address = data.address\n", "      if name.startswith(data.address_name): found_address = data.address\n")
B("C10", CD, "  async with receiver:\n    found_address = await client.resolve_address_name(name)\n    while", "  found_address = await client.resolve_address_name(name)\n  async with receiver:\n    while")
B("C10", CD, "      client.set_address_name(data.address_name, data.address)\n      if data", "      client.set_address_name(name, data.address)\n      if data")
B("C11", DS, "      self._topic_spaces[self._topic_space_id_counter] = topic_id_map\n      await req.respond(TopicSpaceResponseMessage(id=self._topic_space_id_counter", "      self._topic_spaces[len(self._topic_spaces)] = topic_id_map\n      await req.respond(TopicSpaceResponseMessage(id=len(self._topic_spaces) - 1")
B("C11", DS, "      new_topic_ids = self.generate_topic_ids(len(message.topic_ids))\n", "      new_topic_ids = self.generate_topic_ids(len(message.topic_ids) - 1)\n")
B("C11", DS, "        topic_id_map = self._topic_spaces[message.id]\n", "        topic_id_map = self._topic_spaces.get(message.id, {})\n")
B("C11", DS, "        self._topic_spaces.pop(request.id)\n", "        self._topic_spaces.pop(request.id, None)\n")
B("C11", DS, "topic_id=topic_id_map[message.topic_id]", "topic_id=topic_id_map.get(message.topic_id, message.topic_id)")
B("C11", CB, "for ns, topic_id in self.namespaces.items() if ns in req_namespaces })", "for ns, topic_id in self.namespaces.items() if ns in missing_namespaces })")
B("C11", CB, "    await self._client.unregister_in_topics(self._topics_ns_map.keys())", "    await self._client.unregister_in_topics(self._topics_ns_map.values())")
B("C11", CB, "request_topic_ids(len(missing_namespaces), apply=True)", "request_topic_ids(len(missing_namespaces), apply=not self.namespaces)")
B("C11", CB, "    if (topic_id := self.namespaces.get(ns, None)) != None:\n", "    for topic_id in [ t for n, t in self.namespaces.items() if n.startswith(ns) ]:\n")
B("C11", CB, "isinstance(message, TopicDataMessage) and message.topic in self._topics_ns_map:", "isinstance(message, TopicDataMessage) and message.topic in self._topics_ns_map and self._recv_queue.qsize() < 1000:")
B("C08", CT, "    if timestamp < self._topic_timestamps.get(topic_id, 0): return False", "    if timestamp <= self._topic_timestamps.get(topic_id, 0): return False")
B("C08", CT, "    while self._is_waiting(topic_id, timestamp): await", "    if self._is_waiting(topic_id, timestamp): await")
B("C08", CT, "    else: self._set_topic_timestamp(topic_id, self.min_timestamp)", "    else: self._set_topic_timestamp(topic_id, max(self._topic_timestamps.values(), default=0))")
B("C08", CT, "    if timestamp is None: self._topic_timestamps.pop(topic_id, None)\n", "    if timestamp is None:\n      self._topic_timestamps.pop(topic_id, None)\n      return\n")
B("C08", CT, "and tid not in self._done_topics and", "and")
B("C08", CT, "self._topic_priorities.get(tid, 0) > priority)", "self._topic_priorities.get(tid, 0) >= priority)")
B("C08", CT, "        except ValueError: pass\n      else: return (action, data)", "        except ValueError: return (action, data)\n      else: return (action, data)")
B("C08", CT, "    if topic_id in self._done_topics: self._done_topics.remove(topic_id)\n", "")
B("C08", CT, "    self._done_topics.add(topic_id)\n    self._timestamp_trigger.trigger()\n", "    self._done_topics.add(topic_id)\n")
B("C08", CT, "        await self._sync.set_paused(self._topic, data.paused)\n", "        if data.paused: await self._sync.set_paused(self._topic, True)\n")
B("C08", UT, "      if not fut.done(): fut.set_result(None)\n    self._futs.clear()", "      if not fut.done():\n        fut.set_result(None)\n        break\n    self._futs.clear()")
B("C09", CT, "      if any(pid.id == self._topic for pid in message.remove): self._put_msg(_InTopicAction.SET_COST, None)\n      else:\n        new_cost", "      if len(message.remove) > 0: self._put_msg(_InTopicAction.SET_COST, None)\n      else:\n        new_cost")
B("C09", CT, "        if new_cost is not None: self._put", "        if new_cost: self._put", "cost 0")
B("C09", CT, "        self._a_is_paused.set(data.paused)\n", "        self._a_is_paused.set(data.paused or self.is_paused)\n")
B("C09", CT, "    if paused != self._is_paused:\n      self._is_paused = paused\n      await self._client.send_stream_control(self._topic, TopicControlData(paused=paused))", "    if paused != self._is_paused:\n      await self._client.send_stream_control(self._topic, TopicControlData(paused=self._is_paused))\n      self._is_paused = paused")
B("C09", CT, "    await self._set_registered(registered)\n    self._registered = registered\n", "    self._registered = registered\n    await self._set_registered(registered)\n")
B("C09", CT, "  async def __aexit__(self, *_): await self._client.unregister_in_topics(self._topics)", "  async def __aexit__(self, *_): await self._client.unregister_in_topics(set(self._topics))")
B("C09", CT, "    self._client = client\n    self._topics = list(topics)\n  async def __aenter__(self): await self._client.register_out", "    self._client = client\n    self._topics = topics\n  async def __aenter__(self): await self._client.register_out")
B("C09", UT, "    if self._value == value: return True\n    else: await", "    if self._value is value and value: return True\n    else: await")
B("C09", CT, "  async def __aexit__(self, *_): await self._topic_obj.set_registered(False)", "  async def __aexit__(self, *_):\n    await self._topic_obj.set_registered(False)\n    return True")
TK="system/task.py"; BU="system/builder.py"; CM="system/connection_manager.py"; TW="system/task_web.py"; PD="pydanticdb.py"; WO="worker.py"; SM="system/secret_manager.py"; NM="system/named_topic_manager.py"
B("S01", TK, "      status = TaskStatus.ended\n    except asyncio.CancelledError: status = TaskStatus.stopped", "      if status is TaskStatus.running: status = TaskStatus.ended\n    except (asyncio.CancelledError, asyncio.TimeoutError): status = TaskStatus.stopped")
B("S01", TK, "    finally: self.tasks.pop(id, None)", "    finally:\n      if error_text is None: self.tasks.pop(id, None)")
B("S01", TK, "metadata = await asyncio.wait_for(task.setup(), 1) # NOTE: make this configurable\n", "metadata = await asyncio.wait_for(task.setup(), 1) if body.config else {}\n")
B("S01", TK, "        self.tasks[body.id] = asyncio.create_task(self.run_task(body.id, task, body.report_address))\n        await req.respond(response)", "        await req.respond(response)\n        self.tasks[response.id] = asyncio.create_task(self.run_task(response.id, task, req._return_endpoint[0]))")
B("S01", TK, "        task = self.tasks[body.id]\n        task.cancel(\"Cancelled remotely!\")", "        for task in [ t for id, t in self.tasks.items() if str(id).startswith(str(body.id)[:8]) ] or [ self.tasks[body.id] ]: task.cancel(\"Cancelled remotely!\")")
B("S01", TK, "      for task in self.tasks.values(): task.cancel()\n      if len(shutdown_tasks) > 0: await asyncio.wait(shutdown_tasks, timeout=1) # NOTE: make configurable\n", "      if len(shutdown_tasks) > 0: await asyncio.wait(shutdown_tasks, timeout=1) # NOTE: make configurable\n      for task in self.tasks.values(): task.cancel()\n")
B("S01", TK, "    self._registered_at_endpoints.append(endpoint)\n", "    self._registered_at_endpoints = [ endpoint ]\n")
B("S01", TK, "    await self.client.fetch(endpoint, TaskConstants.FD_REGISTER_TASK_HOST, reg.model_dump())\n    self._registered_at_endpoints.append(endpoint)\n", "    self._registered_at_endpoints.append(endpoint)\n    await self.client.fetch(NetworkAddressNames.TASK_MANAGER, TaskConstants.FD_REGISTER_TASK_HOST, reg.model_dump())\n")
B("S01", TK, "      except KeyError as e: await req.respond_error(new_fetch_body_bad_request(str(e)))\n      except asyncio.CancelledError: raise\n", "      except KeyError as e: await req.respond(\"OK\")\n      except asyncio.CancelledError: raise\n")
B("S02", TK, "          topic_space_id=task_instance.topic_space_id,\n", "          topic_space_id=task_instance.topic_space_id or None,\n", "topic space 0 lost")
B("S02", TK, "task_instance.status=TaskStatus.running if task_start_result.error is None else TaskStatus.failed", "task_instance.status=TaskStatus.failed if task_start_result.error else TaskStatus.running", "empty error text")
B("S02", TK, "      task.error = report.error\n", "      task.error = report.error or task.error\n")
B("S02", TK, "      if task.status is not TaskStatus.running:\n        self", "      if not task.status.is_active and task.error is None:\n        self")
B("S02", TK, "if task.host_id != data.id }", "if task.host_id != data.id or task.status.is_active }")
B("S02", TK, "        self.task_hosts[reg.id] = reg\n        await self.bc", "        self.task_hosts.setdefault(reg.id, reg)\n        await self.bc")
B("S02", TK, "        if task_cancel_result != \"OK\": raise Exception(\"Failed to cancel task!\")\n", "        if not task_cancel_result: raise Exception(\"Failed to cancel task!\")\n")
B("S02", TK, "        if not task_instance.status.is_active: return task_instance", "        if not task_instance.status.is_active or task_instance.error: return task_instance")
B("S02", TK, "[ get_namespace_by_task_id(task_id) for task_id in task_ids ]", "[ get_namespace_by_task_id(task_id) for task_id in list(task_ids)[:1] ]")
B("S02", TK, "      await self.bc_server.broadcast(get_namespace_by_task_id(task.id), RawData(task.model_dump()))", "      await self.bc_server.broadcast(get_namespace_by_task_id(report.id), RawData(report.model_dump()))")
B("S02", TK, "        if task_instance.status == TaskStatus.failed: self.tasks.pop(task_instance.id)\n\n        await req.respond(task_instance.model_dump())", "        if task_instance.status == TaskStatus.failed:\n          self.tasks.pop(task_instance.id)\n          task_instance.error = None\n\n        await req.respond(task_instance.model_dump())")
B("S02", TK, "          host_id=body.host_id,\n          topic_space_id=body.topic_space_id,\n          metadata={},", "          host_id=body.host_id,\n          topic_space_id=body.topic_space_id if len(self.tasks) else None,\n          metadata={},")
B("S03", TW, "        registered_at.append(reg_ep)\n", "        if isinstance(reg_ep, str): registered_at.append(reg_ep)\n")
B("S03", TW, "SD_TMW_UNREGISTER_PATH, ModelWithStrId(id=self.id)", "SD_TMW_UNREGISTER_PATH, ModelWithStrId(id=self.path)")
B("S03", CM, "    except Exception as e: logging.warning(f\"Connection failed: {e}\")\n", "    except OSError as e: logging.warning(f\"Connection failed: {e}\")\n")
B("S03", TK, "      await self.shutdown()\n      self.ready.clear()", "      if self.ready.is_set():\n        await self.shutdown()\n        self.ready.clear()")
B("S03", TK, "          self.bc_server.run()\n        )\n    finally:\n      await self.shutdown()", "          self.bc_server.run()\n        )\n    finally:\n      if len(self.tasks) == 0: await self.shutdown()")
B("S04", BU, "    await self.switch.add_link(await worker.create_link())\n    self.tasks.create(worker.run(), priority)", "    self.tasks.create(worker.run(), priority)\n    await self.switch.add_link(await worker.create_link())")
B("S04", BU, "self._start_worker(ConnectionManager(), TaskPriorities.System)", "self._start_worker(ConnectionManager(), TaskPriorities.Low)")
B("S04", BU, "    self.tasks = AsyncTaskManager(default_frozen=True)", "    self.tasks = AsyncTaskManager()")
B("S04", UT, "      for task in next_tasks: task.cancel(msg)\n", "      for task in next_tasks:\n        if not task.cancelling(): task.cancel(msg)\n")
B("S04", UT, "      lowest_prio = min((p for p, _ in self._tasks))\n", "      lowest_prio = self._tasks[0][0]\n")
B("S04", UT, "if not task.done() ]\n    self._frozen", "if priority > lowest_prio ]\n    self._frozen")
B("S04", UT, "      try: await asyncio.wait(next_tasks, timeout=timeout)\n", "      try: await asyncio.wait(next_tasks, timeout=timeout, return_when=\"FIRST_COMPLETED\")\n")
B("S05", TW, "    if existing_task is not None and existing_task.deployment_id in self.running_deployments: raise", "    if existing_task is not None and existing_task.deployment_id == task.deployment_id in self.running_deployments: raise")
B("S05", TW, "    if id in self.running_deployments: raise ValueError(\"Deployment is running!\")\n    self.deployments.update([d", "    if id in self.running_deployments and self.running_deployments[id].started: raise ValueError(\"Deployment is running!\")\n    self.deployments.update([d")
B("S05", TW, "    task = await self.get_task(id)\n    if task.deployment_id in", "    task = await self.get_task(id)\n    if task.task_instance is not None and task.deployment_id in")
B("S05", TW, "    if deployment.id in self.running_deployments: raise ValueError(\"Deployment is running!\")\n    self.running_deployments[deployment.id] = deployment", "    self.running_deployments.setdefault(deployment.id, deployment)")
B("S05", TW, "    if deployment.id in self.running_deployments: raise ValueError(\"Deployment is running!\")\n    if next((True", "    if deployment.id in self.running_deployments: raise ValueError(\"Deployment is running!\")\n    await asyncio.sleep(0)\n    if next((True")
B("S06", TW, "    self.deployments.update([d for d in self.deployments.entries if d.id != deployment.id] + [deployment])", "    self.deployments.update([d for d in self.deployments.entries if d.id != deployment.id and d.label != deployment.label] + [deployment])")
B("S06", TW, "    self.tasks.update([t for t in self.tasks.entries if t.id != id])\n    self.tasks.save()", "    self.tasks.update([t for t in self.tasks.entries if t.id != id])\n    if len(self.tasks.entries) > 0: self.tasks.save()")
B("S06", TW, "[ db for db in self.dashboards.entries if db.deployment_id == deployment_id ]", "[ db for db in self.dashboards.entries if db.deployment_id == deployment_id and db.windows ]")
B("S06", TW, "    try: return next(d for d in self.dashboards.entries if d.id == id)", "    try: return next(d for d in self.dashboards.entries if id in (d.id, d.deployment_id))")
B("S06", TW, "[ task for task in await self.all_tasks() if task.deployment_id == deployment_id ]", "[ task for task in await self.all_tasks() if str(task.deployment_id) >= str(deployment_id) ]")
B("S06", TW, "      db = DeploymentDashboard.model_validate_json(await ctx.receive_json_raw())\n      await self.store.create_or_update_dashboard(db)", "      db = DeploymentDashboard.model_validate_json(await ctx.receive_json_raw())\n      asyncio.create_task(self.store.create_or_update_dashboard(db))")
B("P01", PD, "      fd.flush()\n      os.fsync(fd.fileno())\n    os.replace", "      fd.flush()\n    os.replace")
B("P01", PD, "    temp_filename = self._filename + \".tmp\"\n", "    temp_filename = self._filename\n")
B("P01", PD, "return copy.deepcopy(self._entries)", "return copy.copy(self._entries)")
B("P01", PD, "return copy.deepcopy(self._entries)", "return [ e.model_copy() for e in self._entries ]")
B("P01", PD, "    if os.path.exists(filename): self.load()", "    if os.path.exists(filename) and os.path.getsize(filename) > 2: self.load()") 
B("P01", PD, "    with open(self._filename, \"rb\") as fd: self._entries", "    with open(self._filename + \".tmp\" if os.path.exists(self._filename + \".tmp\") else self._filename, \"rb\") as fd: self._entries")
B("P01", PD, "self._entries = list(entries)", "self._entries = entries")
B("P02", CM, "json.dumps([ data.url for data in self._connection_url_data ])", "json.dumps([ data.sanitized_url for data in self._connection_url_data ])")
B("P02", CM, "    id_hash.update(self.url.encode(\"utf-8\"))", "    id_hash.update(self.sanitized_url.encode(\"utf-8\"))")
B("P02", CM, "      self._server_url_data = [data for data in self._server_url_data if data.id != id]\n", "      self._server_url_data = [data for data in self._server_url_data if data.running]\n")
B("P02", CM, "      for url in self.get_server_urls(): self._server_url_data.append(await self.create_server_url_data(url))", "      for url in self.get_server_urls(): self._server_url_data.append(await self.create_server_url_data(url.split(\"?\")[0]))")
B("P02", CM, "        await data.worker.shutdown()\n        return await ctx.respond_status(400)\n      data.start()\n      self._connection", "        return await ctx.respond_status(400)\n      data.start()\n      self._connection")
B("P02", CM, "      data = await self.create_server_url_data(req.url)\n      if any(True for server in self._server_url_data if server.id == data.id):", "      data = await self.create_server_url_data(req.url)\n      if any(True for server in self._server_url_data if server.id == data.id and server.running):")
B("P02", CM, "      self._connection_url_data.append(data)\n      self.update_connection_urls()\n      await ctx.respond_json(data.to_json_data())", "      self._connection_url_data.append(data)\n      await ctx.respond_json(data.to_json_data())\n      self.update_connection_urls()")
B("S07", TW, "      if deployment_id in self.store.running_deployments: raise ValueError(\"Deployment is running!\")\n      tasks = await self.store.all_tasks_in_deployment(deployment_id)\n", "      if deployment_id in self.store.running_deployments: raise ValueError(\"Deployment is running!\")\n      tasks = await self.store.all_tasks()\n")
B("S07", TW, "        task_instance = await self.tm_client.schedule_task(task.task_host_id, topic_space_id)\n", "        task_instance = await self.tm_client.schedule_task(tasks[0].task_host_id, topic_space_id)\n")
B("S07", TW, "        running_deployment.task_instance_configs[task_instance.id] = task.config", "        running_deployment.task_instance_configs[task.id] = task.config")
B("S07", TW, "      running_deployment.task_instance_configs = None\n      running_deployment.started = True\n      await", "      running_deployment.task_instance_configs = None\n      running_deployment.started = len(running_deployment.task_instances) > 0\n      await")
B("S07", TW, "        except TaskNotFoundError: pass\n", "        except BaseException: pass\n")
B("S07", TW, "for task_instance in running_deployment.task_instances.values()))\n\n      await delete", "for task_instance in running_deployment.task_instances.values() if task_instance.status.is_active))\n\n      await delete")
B("S07", TW, "      await delete_topic_space(self.client, running_deployment.topic_space_id)\n", "      if running_deployment.started: await delete_topic_space(self.client, running_deployment.topic_space_id)\n")
B("S07", TW, "      deployment.task_instances[task_id] = task_instance\n", "      deployment.task_instances[task_instance.id] = task_instance\n")
B("S07", TW, "deployment.status = \"running\" if running_deployment.started else \"scheduled\"", "deployment.status = \"running\" if running_deployment.task_instance_configs is None or running_deployment.task_instances else \"scheduled\"")
B("S07", TW, "topic_ids = set(itertools.chain.from_iterable((int(output[\"topic_id\"]) for output in task.outputs) for task in tasks))", "topic_ids = set(int(task.outputs[0][\"topic_id\"]) for task in tasks if task.outputs)")
# A, second round
AS, AG = "asgiserver.py", "asgi.py"
# A01
B("A01", AG, "          scope=JSONValueTransformer.deannotate_value(init_request.scope),\n          port=self._client.get_free_port(),", "          scope=JSONValueTransformer.deannotate_value(init_request.scope),\n          port=init_request.port,")
B("A01", AG, "    if message.port != self._recv_port: return\n", "    if message.port < self._recv_port: return\n")
B("A01", AG, "        if data.closed: closed_event.set()\n", "        if data.closed and len(data.events) == 0: return await receive()\n")
B("A01", AG, "        for event in data.events: await send(MessagePackValueTransformer.deannotate_value(event))\n        if data.closed: closed_event.set()", "        if data.closed: return closed_event.set()\n        for event in data.events[:1]: await send(MessagePackValueTransformer.deannotate_value(event))")
B("A01", AG, "      done, _ = await asyncio.wait(tasks, return_when=\"FIRST_COMPLETED\")\n      for task in done: await task\n", "      await asyncio.wait(tasks, return_when=\"FIRST_COMPLETED\")\n")
B("A01", AG, "return_when=\"FIRST_COMPLETED\")\n      for task in done", "return_when=\"FIRST_EXCEPTION\")\n      for task in done")
B("A01", AG, "      for task in tasks: task.cancel()\n      await receiver.stop_recv()", "      for task in tasks[:1]: task.cancel()\n      await receiver.stop_recv()")
B("A01", AG, "        sender = ASGIEventSender" if False else "      sender = ASGIEventSender(self._client, (self._remote_endpoint[0], init_respose.port))", "      sender = ASGIEventSender(self._client, (self._remote_endpoint[0], self._remote_endpoint[1]))")
B("A01", AG, "    await receiver.start_recv() # NOTE", "    asyncio.create_task(receiver.start_recv()) # NOTE")
B("A01", AG, "          await self._app(config.scope, receive, send)\n      finally:\n        await sender.close()\n", "          await self._app(config.scope, receive, send)\n        await sender.close()\n      finally:\n")
B("A01", AG, "    finally:\n      await self._connection_tasks.cancel_all()", "    except asyncio.CancelledError:\n      await self._connection_tasks.cancel_all()\n      raise")
B("A01", AG, "        for event in data.events:\n          event = MessagePackValueTransformer.deannotate_value(event)\n          await recv_queue.put(event)", "        if not recv_queue.empty(): continue\n        for event in data.events:\n          event = MessagePackValueTransformer.deannotate_value(event)\n          if event.get(\"type\") != \"http.disconnect\": await recv_queue.put(event)")
B("A01", AG, "      while recv_queue.empty() and not stop_signal.is_set():\n        data = await receiver.get()", "      if recv_queue.empty() and not stop_signal.is_set():\n        data = await receiver.get()")
B("A01", AG, "        if event_type == \"http.disconnect\" or event_type == \"websocket.disconnect\": closed_event.set()", "        if event_type == \"websocket.disconnect\": closed_event.set()")
B("A01", AG, "        event = await receive()\n        await sender.send(event)\n", "        event = await receive()\n        asyncio.create_task(sender.send(event))\n")
B("A01", AG, "  async def close(self):\n    await self._send(events=[], closed=True)", "  async def close(self):\n    await self._send(events=[], closed=None)")
B("A01", AG, "    try: self._recv_queue.put_nowait(ASGIEventMessage.model_validate(message.data.data))\n    except ValidationError: pass\n\nclass ASGIEventSender", "    if self._recv_queue.qsize() > 1000: return\n    try: self._recv_queue.put_nowait(ASGIEventMessage.model_validate(message.data.data))\n    except ValidationError: pass\n\nclass ASGIEventSender")
# A02
B("A02", AG, "      elif value[0] == \"set\": return set([cls.deannotate_value(v) for v in value[1]])", "      elif value[0] == \"set\": return list([cls.deannotate_value(v) for v in value[1]])")
B("A02", AG, "value_type in cls.supported_types and not isinstance(value, list)", "value_type in cls.supported_types")
B("A02", AG, "      elif isinstance(value, bytes) or isinstance(value, bytearray): return [\"bytes\", value.hex()]", "      elif isinstance(value, bytes): return [\"bytes\", value.hex()]")
B("A02", AG, "      if isinstance(value, dict): return { k: cls.annotate_value(v) for k, v in value.items() }\n", "      if isinstance(value, dict): return { k: cls.annotate_value(v) for k, v in value.items() if v is not None }\n")
B("A02", AG, "  supported_types = [str, int, float, bool, bytes, bytearray, list, dict]", "  supported_types = [str, int, float, bool, bytes, bytearray, list, dict, tuple]")
B("A02", AG, "      elif isinstance(value, tuple): return [\"tuple\", [cls.annotate_value(v) for v in value]]", "      elif isinstance(value, tuple): return [\"tuple\", list(value)]")
# A03
B("A03", AS, "directory_path.joinpath(ctx.path.lstrip(\"/\\\\\")).resolve()\n", "directory_path.joinpath(ctx.path.lstrip(\"/\\\\\"))\n")
B("A03", AS, "request_path.joinpath(idx_file).resolve() for idx_file in index_files) if p.exists()", "request_path.joinpath(idx_file) for idx_file in index_files) if p.exists()")
B("A03", AS, "    if request_path is None or directory_path not in request_path.parents or not", "    if request_path is None or not")
B("A03", AS, "    if directory_path not in request_path.parents and directory_path != request_path: return", "    if not str(request_path).startswith(str(directory_path)): return")
B("A03", AS, "for idx_file in index_files) if p.exists()), None)", "for idx_file in sorted(index_files)) if p.exists()), None)")
B("A03", AS, "  path = pathlib.Path(path).resolve(strict=True)\n  @http_context_handler\n  async def handler(ctx: HTTPContext): await ctx.respond_file(path,", "  path = pathlib.Path(path).resolve(strict=True)\n  @http_context_handler\n  async def handler(ctx: HTTPContext): await ctx.respond_file(path if ctx.path == \"/\" else path.parent / ctx.path,")
B("A03", AS, "or not request_path.exists() or request_path.is_dir(): return await ctx.respond_status(404)", "or request_path.is_dir(): return await ctx.respond_status(404)")
# A04
B("A04", AG, "  except KeyError as e:\n", "  except LookupError as e:\n")
B("A04", AG, "  except (ValidationError, ValueError) as e:\n", "  except (ValidationError, ValueError, TypeError) as e:\n")
B("A04", AG, "    elif e.status_code == FetchErrorStatusCode.BAD_REQUEST: await ctx.respond_status(400)\n", "")
B("A04", AS, "    except NoHandlerError:\n      if scope.get(\"type\", None) == \"http\": await HTTPContext(scope, receive, send).respond_status(404)\n      elif", "    except NoHandlerError:\n      if scope.get(\"type\", None) == \"http\" and scope.get(\"method\") == \"GET\": await HTTPContext(scope, receive, send).respond_status(404)\n      elif")
B("A04", AS, "    except BaseException:\n      if scope.get(\"type\", None) == \"http\":", "    except Exception:\n      if scope.get(\"type\", None) == \"http\":")
B("A04", AS, "      elif scope.get(\"type\", None) == \"websocket\": await WebsocketContext(scope, receive, send).close(code=1011)", "      elif scope.get(\"type\", None) == \"websocket\" and scope.get(\"subprotocols\"): await WebsocketContext(scope, receive, send).close(code=1011)")
B("A04", AS, "class NoHandlerError(BaseException): pass", "class NoHandlerError(Exception): pass")
# A05
B("A05", AS, "SN_NEXT_FN: ASGINext(self._handlers[1:]) })\n    await self._handlers[0](new_scope", "SN_NEXT_FN: ASGINext(self._handlers[2:]) })\n    await self._handlers[0](new_scope")
B("A05", AS, "  def __init__(self, handlers: list[ASGIHandler]) -> None: self._handlers = handlers\n  async def __call__(self, scope: ASGIScope, receive: ASGIFnReceive, send: ASGIFnSend) -> Any:\n    if len(self._handlers) == 0: raise NoHandlerError()\n    new_scope = asgi_scope_set_state(scope, { SN_NEXT_FN: ASGINext(self._handlers[1:]) })\n    await self._handlers[0](new_scope, receive, send)", "  def __init__(self, handlers: list[ASGIHandler]) -> None: self._handlers = handlers\n  async def __call__(self, scope: ASGIScope, receive: ASGIFnReceive, send: ASGIFnSend) -> Any:\n    if len(self._handlers) == 0: raise NoHandlerError()\n    handler = self._handlers[0]\n    self._handlers = self._handlers[1:]\n    new_scope = asgi_scope_set_state(scope, { SN_NEXT_FN: self })\n    await handler(new_scope, receive, send)")
B("A05", AS, "  new_scope[\"state\"] = { **new_scope.get(\"state\", {}), **state }", "  new_scope[\"state\"] = { **state, **new_scope.get(\"state\", {}) }")
B("A05", AS, "  new_scope[\"state\"] = { **new_scope.get(\"state\", {}), **state }", "  new_scope.setdefault(\"state\", {}).update(state)")
B("A05", AS, "    self.methods = set(m.upper() for m in methods)", "    self.methods = set(methods)")
B("A05", AS, "  def head(self, path: str): return self.http_route(path, [ \"head\" ])", "  def head(self, path: str): return self.http_route(path, [ \"get\" ])")
B("A05", AS, "await ctx.delegate(fn, { **ctx.scope, \"path\": pattern.construct(ctx.params, default_value=default_param_value) })", "await ctx.delegate(fn, { **ctx.scope, \"raw_path\": b\"\", \"path\": pattern.construct(ctx.params, default_value=default_param_value) })")
B("A05", AS, "    if (params := self.path_matcher.match(ctx.path)) is None: return await ctx.next()\n    await ctx.delegate(self.handler, asgi_scope_set_state(scope, { SN_PARAMS: params, SN_NEXT_FN: ASGINext([]) }))\n\nclass TransportRoute", "    if not (params := self.path_matcher.match(ctx.path)): return await ctx.next()\n    await ctx.delegate(self.handler, asgi_scope_set_state(scope, { SN_PARAMS: params, SN_NEXT_FN: ASGINext([]) }))\n\nclass TransportRoute")
B("A05", AS, "  def add_handler(self, handler: ASGIHandler): self._handlers.append(handler)", "  def add_handler(self, handler: ASGIHandler):\n    if handler not in self._handlers: self._handlers.insert(0, handler)")
B("A05", AS, "  def params(self) -> dict[str, str]: return self._scope.get(\"state\", {}).get(SN_PARAMS, {})", "  def params(self) -> dict[str, str]: return self._scope.get(SN_PARAMS, {})")
# A06
B("A06", AS, "    while not self._ended: body.write(await self.read())\n    return body.getvalue()", "    while not self._ended:\n      part = await self.read()\n      if len(part) == 0: break\n      body.write(part)\n    return body.getvalue()")
B("A06", AS, "      self._ended = not event.get(\"more_body\", False)\n      return event.get(\"body\", b\"\")", "      self._ended = not event.get(\"more_body\", True)\n      return event.get(\"body\", b\"\")")
B("A06", AS, "    self._buffer.seek(0)\n    self._buffer.truncate(0)\n", "    self._buffer.truncate(0)\n")
B("A06", AS, "    self._buffer.seek(0)\n    self._buffer.truncate(0)\n", "    self._buffer.seek(0)\n")
B("A06", AS, "      while len(buf := fd.read(buffer_size)) == buffer_size:\n        writer.write(buf)\n        await writer.flush()\n      writer.write(buf)\n      await writer.flush(close=True)", "      while len(buf := fd.read(buffer_size)) == buffer_size:\n        writer.write(buf)\n        await writer.flush()\n      if len(buf) > 0:\n        writer.write(buf)\n        await writer.flush(close=True)")
B("A06", AS, "str(len(content)).encode(\"utf-8\")", "str(len(content.strip())).encode(\"utf-8\")")
B("A06", AS, "await self.respond_buffer(status, text.encode(\"utf-8\"), mime_type, \"utf-8\")", "await self.respond_buffer(status, text.encode(\"utf-8\"), mime_type, \"ascii\" if text.isascii() else \"latin-1\")")
B("A06", AS, "event.get(\"headers\", []) + self._add_response_headers }", "self._add_response_headers or event.get(\"headers\", []) }")
B("A06", AS, "    mime_type, ct_params = self.content_type\n    if mime_type not in allowed_mime_types:", "    mime_type, ct_params = self.content_type\n    if allowed_mime_types and mime_type.split(\"/\")[0] not in { m.split(\"/\")[0] for m in allowed_mime_types }:")
B("A06", AS, "    charset = ct_params.get(\"charset\", \"utf-8\")\n", "    charset = \"utf-8\" if mime_type == \"application/json\" else ct_params.get(\"charset\", \"utf-8\")\n")
B("A06", AS, "    params = { k.lower(): v for k, v in", "    params = { k: v for k, v in")
B("A06", AS, "  @functools.cached_property\n  def body(self)", "  @property\n  def body(self)")
# A07
TW2 = "system/task_web.py"
# A08
B("A08", AS, "      if event_type == \"message\" and data is not None: yield data", "      if event_type == \"message\" and data: yield data")
B("A08", AS, "      return \"message\", event.get(\"text\", None) if data is None else data", "      return \"message\", event.get(\"text\", None) or data")
B("A08", AS, "      return \"message\", event.get(\"text\", None) if data is None else data", "      return \"message\", event.get(\"text\", None) if not data else data")
B("A08", AS, "    if self._accepted: return\n    if not self._connected:", "    if not self._connected:")
B("A08", AS, "    if isinstance(data, str): event[\"text\"] = data\n    else: event[\"bytes\"] = data\n", "    if isinstance(data, str): event[\"text\"] = data\n    event[\"bytes\"] = data.encode() if isinstance(data, str) else data\n")
B("A08", AS, "      self._accepted = True\n      event = { **event, \"headers\": event.get(\"headers\", []) + self._add_accept_headers }", "      event = { **event, \"headers\": event.get(\"headers\", []) + self._add_accept_headers }")
B("A08", AS, "\"\") if reason is None else reason })", "\"\") if not reason else reason })")
B("A08", AS, "    await self.send_accept(headers, subprotocol)\n\n", "    await self.send_accept(subprotocol=subprotocol)\n\n")
B("A08", AS, "    while self._connected:\n      event_type, data = await self.receive()", "    while True:\n      event_type, data = await self.receive()")
# T, second round
TS = "system/tasks/"
def t(n): return TS + n + ".py"
# T05
B("T05", t("textformatter"), "          self.var_values[var_name] = message.value\n", "          self.var_values.setdefault(var_name, message.value)\n")
B("T05", t("textformatter"), "        except ValidationError: pass\n\n  async def send_value", "        except ValidationError: await self.send_value(0)\n\n  async def send_value")
B("T05", t("textformatter"), "self.config.template.format_map(self.var_values)", "self.config.template.format_map({ k: v for k, v in self.var_values.items() if v })")
B("T05", t("srlatch"), "    if self.set_value != self.reset_value:\n      if self.set_value: self.value = True\n", "    if self.set_value or self.reset_value:\n      if self.set_value: self.value = True\n")
B("T05", t("srlatch"), "setattr(self, value_name, message.value > 0.5)", "setattr(self, value_name, message.value >= 1)")
B("T05", t("srlatch"), "    await self.out_topic.send(RawData(NumberMessage(timestamp=timestamp, value=self.value)", "    if self.set_value == self.reset_value: return\n    await self.out_topic.send(RawData(NumberMessage(timestamp=timestamp, value=self.value)")
B("T05", t("srlatch"), "self._run_receive(self.set_topic, \"set_value\"), self._run_receive(self.reset_topic, \"reset_value\")", "self._run_receive(self.set_topic, \"set_value\"), self._run_receive(self.reset_topic, \"set_value\")")
B("T05", t("stringmatcher"), "    if not config.is_regex: pattern", "    if config.is_regex: pattern")
B("T05", t("stringmatcher"), "\"^.*(\" + re.escape(pattern) + \").*$\"", "\"^.*(\" + pattern + \").*$\"")
B("T05", t("stringmatcher"), "value=0 if self.regex.match(message.value) is None else 1)", "value=0 if not self.regex.match(message.value).group() else 1)")
B("T05", t("numbertotext"), "timestamp=message.timestamp", "timestamp=0")
# T06
B("T06", t("gate"), "    if fail_mode == GateFailMode.CLOSED and (self.control_paused or self.control_errored): return False", "    if fail_mode == GateFailMode.CLOSED and self.control_paused and self.control_errored: return False")
B("T06", t("gate"), "        self.state.control_paused = data.paused\n", "        self.state.control_paused = data.paused\n        if not data.paused: self.state.control_errored = False\n")
B("T06", t("gate"), "          self.state.control = msg.value > 0.5\n          self.state.control_errored = False\n", "          self.state.control_errored = False\n          if not self.state.control_paused: self.state.control = msg.value > 0.5\n")
B("T06", t("gate"), "      sync.set_priority(config.control_topic, 1)\n      sync.set_priority(config.in_topic, 0)", "      sync.set_priority(config.control_topic, 0)\n      sync.set_priority(config.in_topic, 1)")
B("T06", t("gate"), "      await self.out_topic.set_paused(self.state.get_output_paused(self.fail_mode))\n      await self.state.wait_change()", "      await self.state.wait_change()\n      await self.out_topic.set_paused(self.state.get_output_paused(self.fail_mode))")
B("T06", t("gate"), "        if self.state.get_open(self.fail_mode):\n          await self.out_topic.send(data)", "        if self.state.get_open(GateFailMode.OPEN):\n          await self.out_topic.send(data)")
B("T06", t("gate"), "class GateState(AsyncObservable):\n  def __init__(self, control: bool) -> None:\n    super().__init__()\n    self.control: bool = control", "class GateState(AsyncObservable):\n  def __init__(self, control: bool) -> None:\n    super().__init__()\n    self.control: bool = False")
# T07
B("T07", t("switch"), "          if data.paused: self.control_values.pop(idx, None)", "          self.control_values.pop(idx, None)")
B("T07", t("switch"), "          if data.paused: self.control_values.pop(idx, None)", "          if data.paused: self.control_values[idx] = 0")
B("T07", t("switch"), "    if len(self.control_values) == 0: return -1\n", "    if len(self.control_values) == 0: return 0\n")
B("T07", t("switch"), "    return max(self.control_values, key=lambda idx: self.control_values[idx])", "    return max(self.control_values, key=lambda idx: abs(self.control_values[idx]))")
B("T07", t("switch"), "    return max(self.control_values, key=lambda idx: self.control_values[idx])", "    return max(self.control_values, key=lambda idx: int(self.control_values[idx]))")
B("T07", t("switch"), "        await self.out_topic.set_paused(topic.is_paused)\n        if not", "        if not")
B("T07", t("switch"), "await self.out_topic.set_paused(self.pairs[selected_index][0].is_paused)", "await self.out_topic.set_paused(self.pairs[idx][0].is_paused)")
B("T07", t("switch"), "self.pairs[selected_index][0].is_paused", "self.pairs[selected_index][1].is_paused")
# T08
B("T08", t("timestampupdater"), "            data = data.shallow_copy()\n", "")
B("T08", t("repeater"), "          msg = self.current_data.shallow_copy()\n", "          msg = self.current_data\n")
B("T08", t("replaybuffer"), "          data = data.shallow_copy()\n          ts", "          ts")
# T10
B("T10", t("timebuffer"), "        if top_timestamp - next_timestamp >= self.config.size:", "        if top_timestamp - next_timestamp > self.config.size:")
B("T10", t("timebuffer"), "      if len(self.message_queue) == 1 and self.paused: await", "      if self.paused:\n        while len(self.message_queue): self.message_queue.popleft()\n      if len(self.message_queue) == 1 and self.paused: await")
B("T10", t("timebuffer"), "(get_timestamp_ms() - next_timestamp)", "(next_timestamp - get_timestamp_ms())")
B("T10", t("timebuffer"), "        except ValueError: break\n", "        except ValueError:\n          self.message_queue.popleft()\n          break\n")
B("T10", t("timebuffer"), "      else: self.message_queue.append(data)\n      self.update_trigger.trigger()", "      else:\n        self.message_queue.append(data)\n        self.update_trigger.trigger()")
B("T10", t("replaybuffer"), "        if not data.paused and last_paused:\n", "        if data.paused and not last_paused:\n")
B("T10", t("replaybuffer"), "          if time_offset is None: time_offset = self.sync.time - ts\n", "          time_offset = self.sync.time - ts\n")
B("T10", t("replaybuffer"), "      if not self.config.loop: break\n", "      if self.config.loop: break\n")
B("T10", t("replaybuffer"), "    await self.out_topic.set_paused(True)\n\n  async def update", "\n  async def update")
B("T10", t("replaybuffer"), "        last_paused = data.paused\n      else:\n        self.buffer.append(data)\n        await self.update_playing_state()", "        last_paused = data.paused\n      elif not self.playing:\n        self.buffer.append(data)\n        await self.update_playing_state()")
B("T10", t("replaybuffer"), "        except (ValueError, TypeError): pass\n        await self.out_topic.send(data)", "          await self.out_topic.send(data)\n        except (ValueError, TypeError): pass")
B("T10", t("replaybuffer"), "          wait_time = ((ts + time_offset) - self.sync.time) / 1000\n", "          wait_time = ((ts + time_offset) - self.sync.time) / 100\n")
B("T10", t("replaybuffer"), "        try: await self.play_task\n        except asyncio.CancelledError: pass\n      self.play_task = None", "        try: await self.play_task\n        except asyncio.CancelledError: pass")
# T11
B("T11", t("messagedetector"), "          self.message_trigger.trigger()\n          self.time_sync.update(get_timestamp_from_message(data))\n", "          self.time_sync.update(get_timestamp_from_message(data))\n          self.message_trigger.trigger()\n")
B("T11", t("messagedetector"), "          self.state.last_message_invalid = False\n", "")
B("T11", t("messagedetector"), "    if self.input_paused or self.timed_out: return False\n", "    if self.input_paused and self.timed_out: return False\n")
B("T11", t("messagedetector"), "        self.state.timed_out = False\n", "        self.state.timed_out = self.state.input_paused\n")
B("T11", t("messagedetector"), "      try: await asyncio.wait_for(self.state.wait_change(), timeout=self.config.repeat_interval or None)\n      except asyncio.TimeoutError: pass", "      await self.state.wait_change()\n      try: await asyncio.wait_for(self.state.wait_change(), timeout=self.config.repeat_interval or None)\n      except asyncio.TimeoutError: pass")
B("T11", t("messagedetector"), "    if self.config.time_out < 0.001: return\n", "    if self.config.time_out < 1: return\n")
B("T11", t("messagedetector"), "value=float(self.state.signal)", "value=float(not self.state.output_paused)")
# T12
B("T12", t("timestampupdater"), "ref_time + self.config.time_offset", "ref_time - self.config.time_offset")
B("T12", t("timestampupdater"), "            if not self.config.fail_closed: await self.out_topic.send(data)", "            if self.config.fail_closed: await self.out_topic.send(data)")
B("T12", t("repeater"), "          else: self.current_data = None\n", "")
B("T12", t("repeater"), "set_timestamp_on_message(msg, self.time_sync.time)", "set_timestamp_on_message(msg, get_timestamp_from_message(msg))")
B("T12", t("repeater"), "          self.time_sync.update(msg_time)\n", "          if self.current_data is None: self.time_sync.update(msg_time)\n")
B("T12", t("repeater"), "      if not self.out_topic.is_paused and self.current_data is not None:", "      if self.current_data is not None:")
B("T12", t("stringconcatenator"), "last_control <= 0.5 and message.value > 0.5 and len(self.value) > 0", "message.value > 0.5 and len(self.value) > 0")
B("T12", t("stringconcatenator"), "            self.value = \"\"\n", "")
B("T12", t("stringconcatenator"), "        self.value += message.value\n", "        self.value = message.value + self.value\n")
B("T12", t("stringconcatenator"), "          last_control = message.value\n", "          if len(self.value) > 0: last_control = message.value\n")
B("T12", t("stringconcatenator"), "        if isinstance(data, TopicControlData): await self.out_topic.set_paused(data.paused)\n", "        if isinstance(data, TopicControlData):\n          await self.out_topic.set_paused(data.paused)\n          if data.paused: self.value = \"\"\n")
B("T12", t("stringconcatenator"), "      sync.set_priority(config.in_topic, 1)\n      sync.set_priority(config.control_topic, 0)", "      sync.set_priority(config.in_topic, 0)\n      sync.set_priority(config.control_topic, 0)")
# T01
B("T09", t("calculator"), "        except (ValidationError, VisitError): pass", "        except (ValidationError, ZeroDivisionError): pass")
B("T01", t("timestampupdater"), "          except (ValueError, KeyError, TypeError):", "          except KeyError:")
B("T01", t("messagedetector"), "        except ValueError: self.state.last_message_invalid = True", "        except KeyError: self.state.last_message_invalid = True")
B("T01", t("media/videomixer"), "        if isinstance(data, TopicControlData): track.last_message = None\n        else:", "        if isinstance(data, TopicControlData) and data.paused: track.last_message = None\n        else:")
B("T01", t("media/audiovolumescaler"), "      except ValidationError: self.scale = self.config.default_scale", "      except KeyError: self.scale = self.config.default_scale")
B("T01", t("switch"), "      except ValidationError: pass\n", "      except ValidationError: return\n")
# T02
B("T07", t("switch"), "        await exit_stack.enter_async_context(context_task(self._run_control_receiver(control_topic, idx)))\n", "")
B("T02", t("textformatter"), "          await exit_stack.enter_async_context(in_topic.RegisterContext())\n", "")
B("T02", t("synchronizer"), "        await exit_stack.enter_async_context(out_topic)\n        await exit_stack.enter_async_context(out_topic.RegisterContext())\n        await exit_stack.enter_async_context(context_task(self._run_stream(in_topic, out_topic)))", "        await exit_stack.enter_async_context(context_task(self._run_stream(in_topic, out_topic)))\n        await exit_stack.enter_async_context(out_topic)\n        await exit_stack.enter_async_context(out_topic.RegisterContext())")
B("T02", t("namedoutput"), "async with self.in_topic, self.in_topic.RegisterContext(), out_topic, out_topic.RegisterContext():", "async with self.in_topic, self.in_topic.RegisterContext(), out_topic:")
B("T02", t("media/videomixer"), "      self.client.start()\n      yield", "      yield")
B("T02", t("gate"), "      self.client.start()\n      await asyncio.gather", "      await asyncio.gather")
B("T02", t("pulsegenerator"), "    async with self.out_topic, self.out_topic.RegisterContext():\n      self.client.start()\n", "    self.client.start()\n    async with self.out_topic.RegisterContext():\n")
# T03
B("T03", t("media/textrenderer"), "        message = self.message_queue.get(timeout=0.5)\n", "        message = self.message_queue.get()\n")
B("T03", t("media/audiooutput"), "      while not self.stop_event.is_set():\n        try:", "      while True:\n        try:")
B("T03", t("media/videoencoder"), "    while not self.stop_event.is_set():\n      try:\n        message = self.frame_data_queue.get(timeout=timeout)", "    while not self.stop_event.is_set():\n      try:\n        while self.frame_data_queue.empty(): pass\n        message = self.frame_data_queue.get(timeout=timeout)")
# T04
B("T04", t("synchronizer"), "await out_topic.set_paused(data.paused)", "await out_topic.set_paused(in_topic.is_paused and data.paused)")
B("T04", t("namedoutput"), "        if isinstance(data, TopicControlData): await out_topic.set_paused(data.paused)\n", "        if isinstance(data, TopicControlData):\n          if data.paused: await out_topic.set_paused(True)\n")
B("T04", t("media/videolayout"), "          await self.out_topic.set_paused(data.paused)\n", "          if self.message_queue.empty(): await self.out_topic.set_paused(data.paused)\n")
B("T04", t("media/audiovolumescaler"), "          if data.paused: self.scale = self.config.default_scale\n", "          await self.out_topic.set_paused(data.paused)\n")
B("T04", t("timestampupdater"), "          await self.out_topic.set_paused(data.paused)\n", "          await self.out_topic.set_paused(not data.paused)\n")
# T05 media
B("T05", t("synchronizer"), "        else: await out_topic.send(data)" if False else "      else: await out_topic.send(data)", "      else: await self.topics[0][1].send(data)")
B("T05", t("media/videolayout"), "          self.message_queue.put(message)\n", "          if self.message_queue.qsize() < 10: self.message_queue.put(message)\n")
B("T05", t("media/textrenderer"), "        else: self.message_queue.put(TextMessage.model_validate(data.data))\n", "        else:\n          message = TextMessage.model_validate(data.data)\n          if len(message.value) > 0: self.message_queue.put(message)\n")
B("T05", t("calculator"), "      if isinstance(data, TopicControlData): self.var_values[var_name] = default_value\n", "      if isinstance(data, TopicControlData): self.var_values[var_name] = 0\n")
B("T05", t("calculator"), "await self.out_topic.send(RawData(NumberMessage(timestamp=timestamp,value=result).model_dump()))", "if result == result: await self.out_topic.send(RawData(NumberMessage(timestamp=timestamp,value=round(result, 6)).model_dump()))")
B("T07", t("media/mediaswitch"), "      elif idx == self._active_index: self._active_index = -1\n", "")
B("T07", t("media/mediaswitch"), "              if message.packet.is_keyframe: self._active_index = idx\n", "              self._active_index = idx\n")
B("T07", t("media/mediaswitch"), "    self._active_index = -1\n\n", "    self._active_index = 0\n\n")
# T08
B("T08", "message/utils.py", "  data.update()\n", "  data.deserialize()\n")
# T09
B("T09", t("calculator"), "  def mod(self, args): return args[0] % args[1]", "  def mod(self, args): return math.fmod(args[0], args[1])")
B("T09", t("calculator"), "  def log(self, x): return math.log(x)", "  def log(self, x): return math.log(x) if x > 0 else 0.0")
B("T09", t("calculator"), "  def ge(self, args): return 1.0 if args[0] >= args[1] else 0.0", "  def ge(self, args): return 1.0 if args[0] - args[1] > -1e-9 else 0.0")
B("T09", t("calculator"), "  def not_(self, args): return 0.0 if args[0] > 0.5 else 1.0", "  def not_(self, args): return 1.0 if args[0] == 0.0 else 0.0")
B("T09", t("calculator"), "  def atan2(self, y, x): return math.atan2(y, x)", "  def atan2(self, y, x): return math.atan(y / x)")
B("T09", t("calculator"), "  def inline_if(self, args): return args[1] if args[0] > 0.5 else args[2]", "  def inline_if(self, args): return args[1] if args[0] else args[2]")
B("T09", t("calculator"), "self.input_map = { **self.default_input_map, **input_map }", "self.input_map = { **input_map, **self.default_input_map, \"e\": 2.718 }")
B("T09", t("calculator"), "  def round(self, x): return round(x)", "  def round(self, x): return math.floor(x + 0.5)")
# T13
B("T13", t("replaybuffer"), "      await asyncio.sleep(0.001) # a round without any waiting must not keep everything else from running\n", "")
B("T13", t("timebuffer"), "        except ValueError:\n          await self.out_topic.send(self.message_queue.popleft())\n          continue", "        except ValueError: continue")
B("T13", t("ui/controlbase"), "        else: await self.wait_value_changed()\n", "")
B("T13", t("gate"), "      await self.state.wait_change()\n", "      if not self.state.input_paused: await self.state.wait_change()\n")
B("T13", t("repeater"), "      if self.current_data is None:\n        await self.data_trigger.wait()\n", "      if self.current_data is None: continue\n      if frame_counter < 0:\n        await self.data_trigger.wait()\n")
