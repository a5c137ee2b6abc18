N = "net/__init__.py"; H = "net/helpers.py"; S = "net/serialization.py"; M = "net/messages.py"; U = "utils.py"
# ---- N01
B("N01", S, "  messages.AddressesChangedMessage,\n", "")
B("N01", S, "TYPE_ID_MESSAGE_MAP = { idx: t for idx, t in enumerate(MESSAGES) }", "TYPE_ID_MESSAGE_MAP = { idx: t for idx, t in enumerate(MESSAGES, 1) }")
B("N01", S, "    self._raw = None\n", "    pass\n")
B("N01", S, "    self.deserialize()\n    self._raw = None", "    self._raw = None")
K("N01", S, "def serialize_message(message: messages.Message) -> bytes: return msgpack.packb({ **message.as_dict(), \"_id\": MESSAGE_TYPE_ID_MAP[type(message)] })",
"""def _type_id(message): return MESSAGE_TYPE_ID_MAP[type(message)]
def serialize_message(message: messages.Message) -> bytes:
  fields = dict(message.as_dict())
  fields["_id"] = _type_id(message)
  return msgpack.packb(fields)""")
K("N01", S, "  return TYPE_ID_MESSAGE_MAP[data.pop(\"_id\")].from_dict(data)", "  type_id = data.pop(\"_id\")\n  message_type = TYPE_ID_MESSAGE_MAP[type_id]\n  return message_type.from_dict(data)")
K("N01", S, "    if self._data is None: self._data = msgpack.unpackb(self._raw)\n    return self._data", "    if self._data is not None: return self._data\n    self._data = msgpack.unpackb(self._raw)\n    return self._data")
# ---- N03
B("N03", N, "if conn.addresses.get(message.address, -1) == address_cost ), None)", "if message.address in conn.addresses ), None)")
B("N03", N, "    added_addresses = self.addresses.add_many(link.get_priced_addresses())\n    if len(added_addresses) > 0: await self.broadcast(AddressesChangedMessage(added_addresses, set()))\n", "    self.addresses.add_many(link.get_priced_addresses())\n")
B("N03", N, "set(PricedId(pa.id, pa.cost + self._cost) for pa in ac_message.add)", "set(PricedId(pa.id, pa.cost) for pa in ac_message.add)")
B("N03", N, "for address in ac_message.remove: self.addresses.pop(address, None)", "for address in ac_message.remove: self.out_topics.pop(address, None)")
B("N03", N, "    if len(switch_addresses) > 0: await link.send(AddressesChangedMessage(switch_addresses, set()))\n", "")
B("N03", N, "await self.send_to(AddressesChangedMessage(addresses_added, addresses_removed), [ conn for conn in self.link_manager.links if conn != origin ])", "await self.send_to(AddressesChangedMessage(message.add, addresses_removed), [ conn for conn in self.link_manager.links if conn != origin ])")
B("N03", N, "    if len(addresses_added) > 0 or len(addresses_removed) > 0:", "    if len(addresses_added) > 0:")
B("N03", N, "set(PricedId(a, self.addresses[a]) for a in ac_message.remove if a in self.addresses))", "set(PricedId(a, self.addresses[a]) for a in ac_message.remove if a in self.out_topics))")
B("N03", N, "    if message.address not in self.addresses: return\n    address_cost", "    if message.address not in self.addresses or message.address == 0: return\n    address_cost")
K("N03 N05", N, "    found_conn = next(( conn for conn in self.link_manager.links if conn.addresses.get(message.address, -1) == address_cost ), None)\n    if found_conn is not None: await self.send_to(message, [found_conn])",
"""    for conn in self.link_manager.links:
      if conn.addresses.get(message.address, -1) == address_cost:
        await self.send_to(message, [conn])
        return""")
K("N03 N09", N, "      for address in ac_message.remove: self.addresses.pop(address, None)\n      for pa in message.add: self.addresses[pa.id] = pa.cost",
"      for address in ac_message.remove:\n        if address in self.addresses: del self.addresses[address]\n      self.addresses.update({ pa.id: pa.cost for pa in message.add })")
K("N03 N02 N05 N09", N, "    if len(addresses_added) > 0 or len(addresses_removed) > 0:\n      await self.send_to(AddressesChangedMessage(addresses_added, addresses_removed), [ conn for conn in self.link_manager.links if conn != origin ])",
"    if not addresses_added and not addresses_removed: return\n    await self._send_others(AddressesChangedMessage(addresses_added, addresses_removed), origin)\n\n  async def _send_others(self, message, origin):\n    others = []\n    for conn in self.link_manager.links:\n      if conn != origin: others.append(conn)\n    await self.send_to(message, others)")
# ---- N06
B("N06", N, "  async def send(self, message: Message):\n    if self._closed: raise ConnectionClosedError()", "  async def send(self, message: Message):\n    if self._closed and isinstance(message, DataMessage): raise ConnectionClosedError()")
B("N06", N, "  async def recv(self) -> Message:\n    if self._closed: raise ConnectionClosedError()\n", "  async def recv(self) -> Message:\n")
B("N06", N, "    if self._closed: return\n    self._closed = True\n    if self._receiver", "    self._closed = True\n    if self._receiver")
B("N06", N, "    for handler in self.on_closed: handler()\n    self.on_closed.clear()", "    if self._receiver is not None:\n      for handler in self.on_closed: handler()\n    self.on_closed.clear()")
B("N06", N, "  link_b.on_closed.append(link_a.close)\n", "")
B("N06", N, "    link.on_closed.append(self.close)\n", "")
B("N06", N, "      try: self._receiver.cancel(ConnectionClosedError())", "      try: self._receiver.cancel()")
K("N06", N, "    if self._closed: return\n    self._closed = True\n    if self._receiver is not None:\n      try: self._receiver.cancel(ConnectionClosedError())\n      except asyncio.InvalidStateError: pass\n    for handler in self.on_closed: handler()\n    self.on_closed.clear()",
"""    if not self._closed:
      self._closed = True
      self._wake_receiver()
      handlers = list(self.on_closed)
      self.on_closed.clear()
      for handler in handlers: handler()

  def _wake_receiver(self):
    if self._receiver is None: return
    try: self._receiver.cancel(ConnectionClosedError())
    except asyncio.InvalidStateError: pass""")
K("N06", N, "  async def recv(self) -> Message:\n    if self._closed: raise ConnectionClosedError()\n", "  def _check_open(self):\n    if self.closed: raise ConnectionClosedError()\n\n  async def recv(self) -> Message:\n    self._check_open()\n")
# ---- N07
B("N07", N, "self._rev_topic_id_map = {v:k for k, v in topic_id_map.items() }", "self._rev_topic_id_map = {k:v for k, v in topic_id_map.items() }")
B("N07", N, "InTopicsChangedMessage(self._remap_id_set(message.add, topic_id_map), self._remap_id_set(message.remove, topic_id_map))", "InTopicsChangedMessage(self._remap_id_set(message.add, topic_id_map), message.remove)")
B("N07", N, "    elif isinstance(message, TopicControlMessage):\n      message = TopicControlMessage(topic_id_map.get(message.topic, message.topic), message.paused)\n    elif isinstance(message, InT", "    elif isinstance(message, InT")
B("N07", N, "set(PricedId(topic_id_map.get(t.id, t.id), t.cost) for t in ids)", "set(PricedId(topic_id_map.get(t.id, t.id), t.cost) for t in ids if t.id in topic_id_map)")
K("N07", N, "  def _remap_id_set(self, ids: set[int], topic_id_map: dict[int, int]): return set(topic_id_map.get(t, t) for t in ids)",
"  def _remap_id_set(self, ids: set[int], topic_id_map: dict[int, int]):\n    out = set()\n    for t in ids:\n      if t in topic_id_map: out.add(topic_id_map[t])\n      else: out.add(t)\n    return out")
K("N07", N, "      message = TopicDataMessage(topic_id_map.get(message.topic, message.topic), message.data)\n    elif", "      topic = topic_id_map.get(message.topic, message.topic)\n      return TopicDataMessage(topic, message.data)\n    elif")
# ---- N08
B("N08", U, "      if val == 0: final.add(id)\n", "      if val <= 1: final.add(id)\n")
B("N08", U, "      self._map[id] = val + 1\n", "      self._map[id] = 1\n")
B("N08", U, "          self._map.pop(id, None)\n          final.add(id)\n", "          self._map[id] = 0\n          final.add(id)\n")
B("N08", H, "          min_cost = min(inner.keys())", "          min_cost = max(inner.keys())")
B("N08", H, "      if id.cost < val:", "      if id.cost <= val:")
B("N08", H, "          self._computed_map.pop(id.id, None)\n", "")
B("N08", H, "      inner[id.cost] = inner.get(id.cost, 0) + 1\n", "      inner[id.cost] = 1\n")
B("N08", H, "        inner[id.cost] = val - 1", "        inner.pop(id.cost)")
B("N08", H, "    topic_map[topic.id] = min(current, topic.cost)", "    topic_map[topic.id] = topic.cost")
K("N08 N03", U, "        val = self._map.get(id, 0)\n        if val == 0: continue\n        elif val == 1:\n          self._map.pop(id, None)\n          final.add(id)\n        else: self._map[id] = val - 1",
"        if id not in self._map: continue\n        val = self._map[id]\n        if val > 1:\n          self._map[id] -= 1\n          continue\n        del self._map[id]\n        final.add(id)")
K("N08", U, "      val = self._map.get(id, 0)\n      if val == 0: final.add(id)\n      self._map[id] = val + 1", "      if id in self._map: self._map[id] += 1\n      else:\n        self._map[id] = 1\n        final.add(id)")
K("N08", H, "      inner = self._map.get(id.id, None)\n      if inner is None: inner = self._map[id.id] = {}\n      inner[id.cost] = inner.get(id.cost, 0) + 1", "      inner = self._map.setdefault(id.id, {})\n      inner[id.cost] = inner.get(id.cost, 0) + 1")
K("N08", H, "      inner = self._map.get(id.id, None)\n      if inner is None: continue\n      val = inner.get(id.cost, 0)\n      if val == 0: continue", "      if id.id not in self._map: continue\n      inner = self._map[id.id]\n      val = inner.get(id.cost, 0)\n      if not val: continue")
K("N08", H, "        inner.pop(id.cost, None)\n        if len(inner) == 0:\n          self._map.pop(id.id, None)\n          self._computed_map.pop(id.id, None)\n          final_removed.add(id.id)\n        else:\n          min_cost = min(inner.keys())\n          self._computed_map[id.id] = min_cost\n          final_updated.add(PricedId(id.id, min_cost))",
"        del inner[id.cost]\n        if inner:\n          best = min(inner)\n          self._computed_map[id.id] = best\n          final_updated.add(PricedId(id.id, best))\n        else:\n          del self._map[id.id]\n          del self._computed_map[id.id]\n          final_removed.add(id.id)")
# ---- N09
B("N09", N, "await self.request_in_topics_change(final_add, final_remove)", "await self.request_in_topics_change(message.add, final_remove)")
B("N09", N, "best_link = min(self", "best_link = max(self")
B("N09", N, "if topic_provider is None or topic_provider.out_topics.get(pt.id, float('inf')) > pt.cost:", "if topic_provider is None:")
B("N09", N, "    if len(remove_topics_set) > 0:\n      for conn", "    if len(remove_topics_set) > 0 and len(add_topics) == 0:\n      for conn")
B("N09", N, "self.recv_topics = self.recv_topics.union(itc_message.add).difference(itc_message.remove)", "self.recv_topics = self.recv_topics.union(itc_message.add)")
B("N09", N, "await self.request_in_topics_change(resub_topics, resub_topics)", "await self.request_in_topics_change(resub_topics, set())")
B("N09", N, "          for topic in remove_sub: change_map[conn].remove.add(topic)", "          for topic in remove_sub: change_map[conn].remove.add(topic)\n          break")
K("N09", N, "      for conn in self.link_manager.links:\n        remove_sub = conn.recv_topics.intersection(remove_topics_set)\n        if len(remove_sub) > 0:\n          if conn not in change_map: change_map[conn] = InTopicsChangedMessage(set(), set())\n          for topic in remove_sub: change_map[conn].remove.add(topic)",
"      for conn in self.link_manager.links:\n        remove_sub = conn.recv_topics & remove_topics_set\n        if not remove_sub: continue\n        change = change_map.setdefault(conn, InTopicsChangedMessage(set(), set()))\n        change.remove.update(remove_sub)")
K("N09", N, "      best_link = min(self.link_manager.links, key=lambda link: link.out_topics.get(topic, float('inf')), default=None)\n      if best_link is None or topic not in best_link.out_topics: continue",
"      providers = [ link for link in self.link_manager.links if topic in link.out_topics ]\n      if len(providers) == 0: continue\n      best_link = min(providers, key=lambda link: link.out_topics[topic])")
K("N09", N, "      if pt.id in self.in_topics:\n        topic_provider = next((conn for conn in self.link_manager.links if pt.id in conn.recv_topics), None)\n        if topic_provider is None or topic_provider.out_topics.get(pt.id, float('inf')) > pt.cost:\n          resub_topics.add(pt.id)",
"      if pt.id not in self.in_topics: continue\n      provider = self._provider_in_use(pt.id)\n      if provider is not None and provider.out_topics.get(pt.id, float('inf')) <= pt.cost: continue\n      resub_topics.add(pt.id)")
EDITS[-1][2].append((N, "  async def on_addresses_changed", "  def _provider_in_use(self, topic):\n    return next((conn for conn in self.link_manager.links if topic in conn.recv_topics), None)\n\n  async def on_addresses_changed"))
