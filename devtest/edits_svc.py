SD, CDI, CBR, SC = "services/discovery.py", "client/discovery.py", "client/broadcast.py", "services/constants.py"
# ---- C06
B("C06", SD, "    self._topics_counter += len(res)\n", "    self._topics_counter += max(0, count - 1)\n")
B("C06", SD, "    self._address_counter += len(res)\n", "    self._address_counter += count\n")
B("C06", SD, "    res = set(self._address_counter + i for i in range(count))", "    res = set(self._topics_counter + i for i in range(count))")
B("C06", SD, "      topics = self.generate_topic_ids(request.count)\n", "      topics = self.generate_topic_ids(request.count)\n      topics = set(sorted(topics)[:64])\n")
B("C06", SD, "        request_id=request.request_id,\n", "        request_id=self._address_counter,\n")
B("C06", SD, "        self._topic_spaces.pop(request.id)\n", "        self._topics_counter -= len(self._topic_spaces.pop(request.id))\n", "reuse")
B("C06", CDI, "          if ra_message.request_id == self._request_id:\n            self._recv_queue.put_nowait(ra_message)\n", "          self._recv_queue.put_nowait(ra_message)\n")
B("C06", CDI, "  if len(addresses) != count: raise Exception(\"The response returned an invalid number of addresses\")\n", "  if len(addresses) < 1: raise Exception(\"The response returned an invalid number of addresses\")\n")
B("C06", CDI, "    request_id = secrets.randbelow(1 << 64)\n", "    request_id = count\n")
B("C06", CDI, "    async with ResolveAddressesReceiver(client, request_id) as receiver:\n      await send_signal(\n        client,\n        NetworkAddresses.ID_DISCOVERY,\n        DiscoveryConstants.FD_SD_REQUEST_ADDRESSES,\n        GenerateAddressesRequestMessage(request_id=request_id, count=count).model_dump()\n      )\n      data", "    await send_signal(client, NetworkAddresses.ID_DISCOVERY, DiscoveryConstants.FD_SD_REQUEST_ADDRESSES, GenerateAddressesRequestMessage(request_id=request_id, count=count).model_dump())\n    async with ResolveAddressesReceiver(client, request_id) as receiver:\n      data", "listen later")
K("C06", SD, "    res = set(self._topics_counter + i for i in range(count))\n    self._topics_counter += len(res)\n    return res\n", "    first = self._topics_counter\n    self._topics_counter = first + max(0, count)\n    return { first + i for i in range(count) }\n")
K("C06", SD, "    res = set(self._address_counter + i for i in range(count))\n    self._address_counter += len(res)\n    return res", "    res = set()\n    for _ in range(count):\n      res.add(self._address_counter)\n      self._address_counter += 1\n    return res")
K("C06", SD, "      topics = self.generate_topic_ids(request.count)\n      await req.respond(GenerateTopicsResponseBody(topics=topics).model_dump())", "      await req.respond(self._topics_response(request.count))", "helper")
EDITS[-1][2].append((SD, "  def generate_topic_ids", "  def _topics_response(self, count):\n    return GenerateTopicsResponseBody(topics=list(self.generate_topic_ids(count))).model_dump()\n\n  def generate_topic_ids"))
K("C06", CDI, "  addresses = set(data.addresses)\n  if len(addresses) != count: raise Exception(\"The response returned an invalid number of addresses\")\n  return addresses\n", "  if len(set(data.addresses)) == count: return set(data.addresses)\n  raise Exception(\"The response returned an invalid number of addresses\")\n")
K("C06", CDI, "          if ra_message.request_id == self._request_id:\n            self._recv_queue.put_nowait(ra_message)\n", "          if ra_message.request_id != self._request_id: return\n          self._recv_queue.put_nowait(ra_message)\n")
B("C06", SD, "      self._address_map.pop(request.address_name, None)\n", "      self._address_map.pop(request.address_name, None)\n      if not self._address_map: self._address_counter = NetworkAddresses.COUNTER_INIT\n", "reset when idle")
B("C06", SD, "    self._bc_server = BroadcastingServer(client)\n", "    self._bc_server = BroadcastingServer(client)\n    self._address_counter = 0\n", "start at 0")
K("C06", SD, "    finally:\n      self._address_counter = NetworkAddresses.COUNTER_INIT\n      self._topics_counter = NetworkTopics.COUNTER_INIT\n      self._address_map = {}\n      await self.shutdown()", "    finally:\n      self._reset()\n      await self.shutdown()\n\n  def _reset(self):\n    self._address_counter = NetworkAddresses.COUNTER_INIT\n    self._topics_counter = NetworkTopics.COUNTER_INIT\n    self._address_map = {}\n", "reset helper")
# ---- C10
B("C10", SD, "      self._address_map[request.address_name] = request.address\n", "      self._address_map.setdefault(request.address_name, request.address)\n") 
B("C10", SD, "      self._address_map[request.address_name] = request.address\n      await self._bc_server", "      await self._bc_server", "register after")
EDITS[-1][2].append((SD, "      ).model_dump()))\n\n    @server.route(DiscoveryConstants.FD_RESOLVE_ADDRESS)", "      ).model_dump()))\n      self._address_map[request.address_name] = request.address\n\n    @server.route(DiscoveryConstants.FD_RESOLVE_ADDRESS)"))
B("C10", SD, "ResolveAddressResonseBody(address=self._address_map.get(request.address_name, None))", "ResolveAddressResonseBody(address=self._address_map.get(request.address_name, NetworkAddresses.ID_DISCOVERY))")
B("C10", SD, "      self._address_map.pop(request.address_name, None)\n", "      self._address_map = {}\n")
B("C10", SD, "      self._address_map.pop(request.address_name, None)\n", "      if request.address_name not in self._address_map: self._address_map.pop(request.address_name, None)\n")
B("C10", CI, "    if res.address is not None: self._address_resolver_cache[name] = res.address\n", "    self._address_resolver_cache[name] = res.address\n")
B("C10", CI, "    if address is None: self._address_resolver_cache.pop(name, None)\n", "    if not address: self._address_resolver_cache.pop(name, None)\n")
B("C10", CI, "    if address is None: self._address_resolver_cache.pop(name, None)\n", "    if address is None: pass\n")
B("C10", CDI, "  if address is None: address = client.address\n  if address is None: raise ValueError(\"Missing address!\")\n", "  if address is None: address = client.address\n")
B("C10", CDI, "    client.set_address_name(name, address)\n    yield\n  finally:\n    await send_signal", "    client.set_address_name(name, address)\n    yield\n  except asyncio.CancelledError: raise\n  else:\n    await send_signal", "else")
B("C10", CDI, "    client.set_address_name(name, None)\n", "    pass\n")
B("C10", CDI, "  finally:\n    await send_signal(client, NetworkAddresses.ID_DISCOVERY, DiscoveryConstants.SD_UNREGISTER_ADDRESS_NAME, Un", "  except Exception: pass\n  finally:\n    await send_signal(client, NetworkAddresses.ID_DISCOVERY, DiscoveryConstants.SD_UNREGISTER_ADDRESS_NAME, Un", "swallow")
B("C10", CDI, "  async with receiver:\n    found_address = await client.resolve_address_name(name)\n", "  found_address = await client.resolve_address_name(name)\n  async with receiver:\n")
B("C10", CDI, "      if data.address_name == name: found_address = data.address\n", "      found_address = data.address\n")
B("C10", CDI, "    while found_address is None:\n", "    if found_address is None:\n")
B("C10", SC, "SECRET_MANAGER = \"secret_manager\"", "SECRET_MANAGER = \"task_manager\"")
B("C10", "system/task_web.py", "  def __init__(self, address_name: str = NetworkAddressNames.TASK_MANAGER_WEB,", "  def __init__(self, address_name: str = NetworkAddressNames.TASK_MANAGER,")
K("C10", SD, "      self._address_map[request.address_name] = request.address\n", "      name, address = request.address_name, request.address\n      self._address_map.update({ name: address })\n")
K("C10", SD, "        address=self._address_map.get(request.address_name, None)\n      ).model", "        address=request.address\n      ).model")
K("C10", SD, "ResolveAddressResonseBody(address=self._address_map.get(request.address_name, None))", "ResolveAddressResonseBody(address=self._address_map[request.address_name] if request.address_name in self._address_map else None)")
K("C10", SD, "      self._address_map.pop(request.address_name, None)\n", "      if request.address_name in self._address_map: del self._address_map[request.address_name]\n")
K("C10", CI, "    if name in self._address_resolver_cache: return self._address_resolver_cache[name]\n", "    cached = self._address_resolver_cache.get(name)\n    if cached is not None: return cached\n")
K("C10", CI, "    if res.address is not None: self._address_resolver_cache[name] = res.address\n", "    if res.address is not None: self.set_address_name(name, res.address)\n")
K("C10", CDI, "  if address is None: address = client.address\n  if address is None: raise ValueError(\"Missing address!\")\n", "  address = client.address if address is None else address\n  if address is None: raise ValueError(\"Missing address!\")\n")
K("C10", CDI, "    while found_address is None:\n      data = await receiver.get()\n      client.set_address_name(data.address_name, data.address)\n      if data.address_name == name: found_address = data.address\n", "    while found_address is None:\n      data = await receiver.get()\n      client.set_address_name(data.address_name, data.address)\n      if data.address_name != name: continue\n      found_address = data.address\n")
K("C10", CDI, "  try:\n    await client.fetch(NetworkAddresses.ID_DISCOVERY, DiscoveryConstants.FD_REGISTER_ADDRESS_NAME, RegisterAddressNameRequestBody(address_name=name, address=address).model_dump())\n    client.set_address_name(name, address)\n    yield\n  finally:\n", "  registration = RegisterAddressNameRequestBody(address_name=name, address=address)\n  try:\n    await client.fetch(NetworkAddresses.ID_DISCOVERY, DiscoveryConstants.FD_REGISTER_ADDRESS_NAME, registration.model_dump())\n    client.set_address_name(name, address)\n    yield\n  finally:\n")
# ---- C11
B("C11", SD, "      self._topic_space_id_counter += 1\n", "      self._topic_space_id_counter = len(self._topic_spaces)\n")
B("C11", SD, "{ k: v for k, v in zip(message.topic_ids, new_topic_ids) }", "{ k: v for k, v in zip(sorted(message.topic_ids), message.topic_ids) }")
B("C11", SD, "{ k: v for k, v in zip(message.topic_ids, new_topic_ids) }", "{ v: k for k, v in zip(message.topic_ids, new_topic_ids) }")
B("C11", SD, "self.generate_topic_ids(len(message.topic_ids))", "self.generate_topic_ids(len(message.topic_ids) - 1)")
B("C11", SD, "TopicSpaceResponseMessage(id=self._topic_space_id_counter, topic", "TopicSpaceResponseMessage(id=self._topic_space_id_counter - 1, topic")
B("C11", SD, "        self._topic_spaces.pop(request.id)\n        await", "        self._topic_spaces.clear()\n        await")
B("C11", SD, "        self._topic_spaces.pop(request.id)\n        await", "        self._topic_spaces.get(request.id)\n        await")
B("C11", SD, "        topic_id_map = self._topic_spaces[message.topic_space_id]\n", "        topic_id_map = self._topic_spaces[self._topic_space_id_counter]\n")
B("C11", SD, "TopicSpaceTranslationResponseMessage(topic_id=topic_id_map[message.topic_id])", "TopicSpaceTranslationResponseMessage(topic_id=topic_id_map.get(message.topic_id, message.topic_id))")
B("C11", SD, "        await req.respond(TopicSpaceTranslationResponseMessage(topic_id=topic_id_map[message.topic_id]).model_dump())\n      except KeyError as e:\n        await req.respond_error(new_fetch_body_not_found(str(e)))", "        await req.respond(TopicSpaceTranslationResponseMessage(topic_id=topic_id_map[message.topic_id]).model_dump())\n      except ValueError as e:\n        await req.respond_error(new_fetch_body_not_found(str(e)))")
B("C11", CDI, "  return (data.id, { k: v for k, v in data.topic_id_map })", "  return (data.id, { k: v for k, v in zip(topic_ids, [v for _, v in data.topic_id_map]) })") 
B("C11", CDI, "TopicSpaceTranslationRequestMessage(topic_space_id=topic_space_id, topic_id=topic_id)", "TopicSpaceTranslationRequestMessage(topic_space_id=topic_id, topic_id=topic_space_id)")
B("C11", CBR, "    if (topic_id := self.namespaces.get(ns, None)) != None:\n", "    if (topic_id := self.namespaces.get(ns, None)):\n")
B("C11", CBR, "[ ns for ns in req_namespaces if ns not in self.namespaces ]", "[ ns for ns in req_namespaces ]")
B("C11", CBR, "apply=True", "apply=False")
B("C11", CBR, "for ns, topic_id in self.namespaces.items() if ns in req_namespaces }", "for ns, topic_id in self.namespaces.items() if ns in missing_namespaces }")
B("C11", CBR, "for ns, topic_id in self.namespaces.items() if ns in req_namespaces }", "for ns, topic_id in zip(req_namespaces, new_topic_ids) }")
B("C11", CBR, "for ns, topic_id in zip(missing_namespaces, new_topic_ids): self.namespaces[ns] = topic_id", "for ns, topic_id in zip(req_namespaces, new_topic_ids): self.namespaces[ns] = topic_id")
B("C11", CBR, "      await self.client.unregister_out_topics(self.namespaces.values(), force=True)\n      self.namespaces = {}", "      self.namespaces = {}\n      await self.client.unregister_out_topics(self.namespaces.values(), force=True)")
B("C11", CBR, "    finally:\n      await self.client", "    except Exception:\n      await self.client")
B("C11", CBR, "{ v:k for k, v in ns_topic_map.items() }", "{ k:v for k, v in ns_topic_map.items() }")
B("C11", CBR, "    if isinstance(message, TopicDataMessage) and message.topic in self._topics_ns_map:", "    if isinstance(message, TopicDataMessage):")
B("C11", CBR, "    await self._client.unregister_in_topics(self._topics_ns_map.keys())", "    self._topics_ns_map = {}\n    await self._client.unregister_in_topics(self._topics_ns_map.keys())")
K("C11", SD, "{ k: v for k, v in zip(message.topic_ids, new_topic_ids) }", "dict(zip(message.topic_ids, new_topic_ids))")
K("C11", SD, "      self._topic_space_id_counter += 1\n      topic_id_map = { k: v for k, v in zip(message.topic_ids, new_topic_ids) }\n      self._topic_spaces[self._topic_space_id_counter] = topic_id_map\n      await req.respond(TopicSpaceResponseMessage(id=self._topic_space_id_counter, ", "      topic_id_map = { k: v for k, v in zip(message.topic_ids, new_topic_ids) }\n      space_id = self._topic_space_id_counter + 1\n      self._topic_space_id_counter = space_id\n      self._topic_spaces[space_id] = topic_id_map\n      await req.respond(TopicSpaceResponseMessage(id=space_id, ")
K("C11", SD, "        self._topic_spaces.pop(request.id)\n        await", "        del self._topic_spaces[request.id]\n        await")
K("C11", SD, "      try:\n        message = TopicSpaceRequestMessage.model_validate(req.body)\n        topic_id_map = self._topic_spaces[message.id]\n        await req.respond(TopicSpaceResponseMessage(id=message.id, topic_id_map=list(topic_id_map.items())).model_dump())\n      except KeyError as e:\n        await req.respond_error(new_fetch_body_not_found(str(e)))", "      message = TopicSpaceRequestMessage.model_validate(req.body)\n      topic_id_map = self._topic_spaces.get(message.id)\n      if topic_id_map is None: await req.respond_error(new_fetch_body_not_found(str(message.id)))\n      else: await req.respond(TopicSpaceResponseMessage(id=message.id, topic_id_map=list(topic_id_map.items())).model_dump())")
K("C11", CDI, "  return (data.id, { k: v for k, v in data.topic_id_map })", "  return data.id, dict(data.topic_id_map)")
K("C11", CBR, "    if (topic_id := self.namespaces.get(ns, None)) != None:\n      await self.client.send_stream_data(topic_id, data)", "    if ns in self.namespaces: await self.client.send_stream_data(self.namespaces[ns], data)")
K("C11", CBR, "        await req.respond({ ns: topic_id for ns, topic_id in self.namespaces.items() if ns in req_namespaces })", "        await req.respond({ ns: self.namespaces[ns] for ns in req_namespaces })")
K("C11", CBR, "        for ns, topic_id in zip(missing_namespaces, new_topic_ids): self.namespaces[ns] = topic_id", "        self.namespaces.update(zip(missing_namespaces, new_topic_ids))")
K("C11", CBR, "    if isinstance(message, TopicDataMessage) and message.topic in self._topics_ns_map:\n      self._recv_queue.put_nowait(self.transform_data(self._topics_ns_map[message.topic], message.data))", "    if not isinstance(message, TopicDataMessage): return\n    namespace = self._topics_ns_map.get(message.topic)\n    if namespace is None: return\n    self._recv_queue.put_nowait(self.transform_data(namespace, message.data))")
K("C11", CBR, "    finally:\n      await self.client.unregister_out_topics(self.namespaces.values(), force=True)\n      self.namespaces = {}", "    finally:\n      topics = list(self.namespaces.values())\n      await self.client.unregister_out_topics(topics, force=True)\n      self.namespaces = {}")
