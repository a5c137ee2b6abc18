N = "streamtasks/net/__init__.py"; U = "streamtasks/utils.py"; H = "streamtasks/net/helpers.py"; SR = "streamtasks/net/serialization.py"
PRE = '''
import asyncio, sys
from streamtasks.net import *
from streamtasks.net import Link, Switch, TopicRemappingLink, create_queue_connection, ConnectionClosedError
from streamtasks.net.messages import *
from streamtasks.net.serialization import *
from streamtasks.net.helpers import PricedIdTracker
from streamtasks.utils import IdTracker
async def drain(link, t=0.3):
  out = []
  while True:
    try: out.append(await asyncio.wait_for(link.recv(), t))
    except (asyncio.TimeoutError, ConnectionClosedError): return out
'''
S("n01-shared-copy", "N01", [(SR, "  def copy(self): return RawData(memoryview(self.serialize()))", "  def copy(self):\n    if self._raw is not None: return RawData(self._raw) # already encoded, no need to do it again\n    return RawData(self._data)")],
  "a payload that was built from a value and never encoded, copied, and the copy changed in place", "the copy of a payload shares its value with the original", PRE + '''
a = RawData({"timestamp": 1, "value": [1, 2]})
b = a.copy()
b.data["value"].append(3); b.update()
assert a.data == {"timestamp": 1, "value": [1, 2]}, a.data
assert RawData(a.serialize()).data == {"timestamp": 1, "value": [1, 2]}
assert RawData(b.serialize()).data["value"] == [1, 2, 3]
''')
S("n02-control-second-subscriber", "N02", [(N, "for topic in message.add if topic in self.stream_controls ]", "for topic in final_add if topic in self.stream_controls ]")],
  "a topic whose control state was set before, and a second link subscribing to it while a first one already is", "only the first subscriber of a topic learns its control state", PRE + '''
async def main():
  sw = Switch()
  p, s1, s2 = [await sw.add_local_connection() for _ in range(3)]
  await p.send(OutTopicsChangedMessage({PricedId(1, 1)}, set()))
  await asyncio.sleep(.05)
  await p.send(TopicControlMessage(1, True))
  await asyncio.sleep(.05)
  await s1.send(InTopicsChangedMessage({1}, set()))
  got1 = [m for m in await drain(s1) if isinstance(m, TopicControlMessage)]
  await s2.send(InTopicsChangedMessage({1}, set()))
  got2 = [m for m in await drain(s2) if isinstance(m, TopicControlMessage)]
  assert len(got1) == 1 and len(got2) == 1, (got1, got2)
  sw.stop_receiving()
asyncio.run(main())
''')
S("n08-price-never-rises", "N08", [(H, "          min_cost = min(inner.keys())\n", "          min_cost = min(*inner.keys(), self._computed_map[id.id])\n")],
  "an id offered at two prices, the cheaper of which is withdrawn", "the best price of an id never rises again", PRE + '''
t = PricedIdTracker()
t.add_many([PricedId(1, 2)]); t.add_many([PricedId(1, 5)])
removed, updated = t.remove_many([PricedId(1, 2)])
assert removed == set() and updated == {PricedId(1, 5)} and t.get(1) == 5, (removed, updated, t.get(1))
''')
S("n03-unannounced-withdrawal", "N03", [(N, "    if len(addresses_added) > 0 or len(addresses_removed) > 0:\n      await self.send_to(AddressesChangedMessage(", "    if len(addresses_added) > 0 or len(addresses_removed) > 1:\n      await self.send_to(AddressesChangedMessage(")],
  "a link that withdraws a single address while staying attached", "the withdrawal of one address is not announced to the other links", PRE + '''
async def main():
  sw = Switch()
  p, o = [await sw.add_local_connection() for _ in range(2)]
  await p.send(AddressesChangedMessage({PricedId(7, 1)}, set()))
  await drain(o)
  assert 7 in o.addresses
  await p.send(AddressesChangedMessage(set(), {7}))
  await drain(o)
  assert 7 not in o.addresses, o.addresses
  sw.stop_receiving()
asyncio.run(main())
''')
S("n07-control-back", "N07", [(N, "      message = TopicControlMessage(topic_id_map.get(message.topic, message.topic), message.paused)", "      message = TopicControlMessage(self._topic_id_map.get(message.topic, message.topic), message.paused)")],
  "a control message received (not sent) through a remapped link", "control messages arriving over a remapped link keep the external topic id", PRE + '''
async def main():
  a, b = create_queue_connection()
  r = TopicRemappingLink(a, {1: 100})
  await b.send(TopicControlMessage(100, True))
  m = await r.recv()
  assert m.topic == 1 and m.paused, m.topic
  await r.send(TopicControlMessage(1, False))
  m = await b.recv()
  assert m.topic == 100 and not m.paused, m.topic
asyncio.run(main())
''')
S("n06-recv-after-close", "N06", [(N, "  async def recv(self) -> Message:\n    if self._closed: raise ConnectionClosedError()\n    message = None\n    while message is None:\n", "  async def recv(self) -> Message:\n    message = None\n    while message is None:\n      if self._closed and self._receiver is not None: raise ConnectionClosedError()\n")],
  "a message still queued when the link is closed, and a receive after that", "a closed link still delivers", PRE + '''
async def main():
  a, b = create_queue_connection()
  await b.send(TopicDataMessage(1, RawData(1)))
  a.close()
  try: m = await asyncio.wait_for(a.recv(), 1)
  except ConnectionClosedError: return
  sys.exit(f"received {m} on a closed link")
asyncio.run(main())
''')
S("n09-keep-after-drop", "N09", [(N, "          if conn not in change_map: change_map[conn] = InTopicsChangedMessage(set(), set())\n          for topic in remove_sub", "          if conn not in change_map: change_map[conn] = InTopicsChangedMessage(set(), set())\n          remove_sub -= self.stream_controls.keys()\n          for topic in remove_sub")],
  "a topic with a remembered control state whose last subscriber leaves", "such a topic stays requested from its provider for ever", PRE + '''
async def main():
  sw = Switch()
  p, s = [await sw.add_local_connection() for _ in range(2)]
  await p.send(OutTopicsChangedMessage({PricedId(1, 1)}, set()))
  await p.send(TopicControlMessage(1, False))
  await asyncio.sleep(.05)
  await s.send(InTopicsChangedMessage({1}, set())); await drain(p)
  assert 1 in p.in_topics
  await s.send(InTopicsChangedMessage(set(), {1})); await drain(p)
  assert 1 not in p.in_topics
  sw.stop_receiving()
asyncio.run(main())
''')
S("n04-risen-price", "N04", [(N, "    if len(removed_addresses) > 0 or len(updated_addresses) > 0:\n", "    if len(removed_addresses) > 0:\n")],
  "an address that two links lead to, the cheaper of which goes away", "the other links keep the price of the link that is gone", PRE + '''
async def main():
  sw = Switch()
  a, b, o = [await sw.add_local_connection() for _ in range(3)]
  await a.send(AddressesChangedMessage({PricedId(7, 1)}, set())); await b.send(AddressesChangedMessage({PricedId(7, 6)}, set()))
  await drain(o)
  before = o.addresses[7]
  a.close(); await drain(o)
  assert o.addresses[7] == before + 5, (before, o.addresses)
  sw.stop_receiving()
asyncio.run(main())
''')
S("n04-topics-both", "N04", [(N, "    if len(removed_topics) > 0 or len(updated_topics) > 0:\n", "    if len(removed_topics) > 0 and len(updated_topics) >= 0:\n")],
  "a topic that two links provide, the cheaper of which goes away", "the other links keep the price of the link that is gone", PRE + '''
async def main():
  sw = Switch()
  a, b, o = [await sw.add_local_connection() for _ in range(3)]
  await a.send(OutTopicsChangedMessage({PricedId(7, 1)}, set())); await b.send(OutTopicsChangedMessage({PricedId(7, 6)}, set()))
  await drain(o)
  before = o.out_topics[7]
  a.close(); await drain(o)
  assert o.out_topics[7] == before + 5, (before, o.out_topics)
  sw.stop_receiving()
asyncio.run(main())
''')
S("n05-sends-directly", "N05", [(N, "    await self.send_to(message, [ link for link in self.link_manager.links if link != origin and message.topic in link.in_topics])\n", "    for link in [ link for link in self.link_manager.links if link != origin and message.topic in link.in_topics]: await link.send(message)\n")],
  "a subscriber that closes right before a message arrives for it and another one", "the publisher is cut off", PRE + '''
async def main():
  sw = Switch()
  p, s1, s2 = [await sw.add_local_connection() for _ in range(3)]
  await p.send(OutTopicsChangedMessage({PricedId(7, 1)}, set()))
  for s in (s1, s2): await s.send(InTopicsChangedMessage({7}, set()))
  await drain(s1); await drain(s2); await drain(p)
  await p.send(TopicDataMessage(7, RawData({"timestamp": 1}))); s1.close()
  await asyncio.sleep(0.1)
  await p.send(TopicDataMessage(7, RawData({"timestamp": 2})))
  got = [m.data.data["timestamp"] for m in await drain(s2) if isinstance(m, TopicDataMessage)]
  assert got == [1, 2], got
  sw.stop_receiving()
asyncio.run(main())
''')
S("n07-withdrawal-kept", "N07", [(N, "      message = OutTopicsChangedRecvMessage(self._remap_priced_id_set(message.add, topic_id_map), self._remap_priced_id_set(message.remove, topic_id_map))\n", "      message = OutTopicsChangedRecvMessage(self._remap_priced_id_set(message.add, topic_id_map), message.remove)\n")],
  "a renamed topic that is withdrawn by the side it comes from", "this side goes on offering it", PRE + '''
async def main():
  a, b = create_queue_connection()
  l = TopicRemappingLink(a, {1: 101})
  await b.send(OutTopicsChangedMessage({PricedId(101, 1)}, set())); m = await l.recv()
  assert {p.id for p in m.add} == {1}
  await b.send(OutTopicsChangedMessage(set(), {101})); m = await l.recv()
  assert {getattr(p, "id", p) for p in m.remove} == {1}, m
  l.close()
asyncio.run(main())
''')
S("n09-old-provider-kept", "N09", [(N, "    await self.request_in_topics_change(resub_topics, resub_topics) # resub to the better providers\n", "    await self.request_in_topics_change(resub_topics, { t for t in resub_topics if t not in self.out_topics })\n")],
  "a subscribed topic for which a cheaper provider appears", "the topic stays requested from the dearer one as well", PRE + '''
async def main():
  sw = Switch()
  s, a, b = [await sw.add_local_connection() for _ in range(3)]
  await a.send(OutTopicsChangedMessage({PricedId(7, 6)}, set())); await asyncio.sleep(.05)
  await s.send(InTopicsChangedMessage({7}, set())); await drain(a)
  assert a.in_topics == {7}
  await b.send(OutTopicsChangedMessage({PricedId(7, 1)}, set())); await drain(a); await drain(b)
  assert (a.in_topics, b.in_topics) == (set(), {7}), (a.in_topics, b.in_topics)
  sw.stop_receiving()
asyncio.run(main())
''')
S("n01-empty-payload", "N01", [("streamtasks/net/serialization.py", "    if self._data is None: self._data = msgpack.unpackb(self._raw)\n", "    if not self._data: self._data = msgpack.unpackb(self.serialize())\n")],
  "a payload all fields of which are removed in place", "they are still there for the receiver", PRE + '''
from streamtasks.net.serialization import RawData
r = RawData({"a": 1})
r.serialize()
del r.data["a"]; r.update()
assert RawData(r.serialize()).data == {}, bytes(r.serialize())
''')
S("n02-resume-forgotten", "N02", [(N, "      if isinstance(message, TopicControlMessage):\n        self.stream_controls", "      if isinstance(message, TopicControlMessage) and (message.paused or message.topic not in self.stream_controls):\n        self.stream_controls")],
  "a stream that was paused and resumed before somebody subscribes", "the subscriber is told that it is paused", PRE + '''
async def main():
  sw = Switch()
  p, s1, s2 = [await sw.add_local_connection() for _ in range(3)]
  await p.send(OutTopicsChangedMessage({PricedId(7, 1)}, set())); await asyncio.sleep(.05)
  await s1.send(InTopicsChangedMessage({7}, set())); await drain(s1)
  await p.send(TopicControlMessage(7, True)); await p.send(TopicControlMessage(7, False)); await drain(s1)
  await s2.send(InTopicsChangedMessage({7}, set()))
  got = [m.paused for m in await drain(s2) if isinstance(m, TopicControlMessage)]
  assert got == [False], got
  sw.stop_receiving()
asyncio.run(main())
''')
S("n03-dearer-route-untold", "N03", [(N, "    if len(removed_addresses) > 0 or len(updated_addresses) > 0:\n", "    if len(removed_addresses) > 0 or any(pa.cost < self.addresses.get(pa.id) for pa in updated_addresses):\n")],
  "an address with two routes of which the cheaper one goes", "the others are not told the new cost", PRE + '''
async def main():
  sw = Switch()
  a, b, c = [await sw.add_local_connection() for _ in range(3)]
  await a.send(AddressesChangedMessage({PricedId(7, 1)}, set())); await asyncio.sleep(.05)
  await b.send(AddressesChangedMessage({PricedId(7, 5)}, set())); await asyncio.sleep(.05)
  await drain(c); low = c.addresses[7]
  a.close(); await asyncio.sleep(.05); await drain(c)
  assert c.addresses[7] == low + 4, c.addresses
  sw.stop_receiving()
asyncio.run(main())
''')
S("n06-inner-stays-open", "N06", [(N, "    self.on_closed.append(link.close)\n    link.on_closed.append(self.close)\n    self._link = link\n", "    if topic_id_map: self.on_closed.append(link.close)\n    link.on_closed.append(self.close)\n    self._link = link\n")],
  "a renaming link that renames nothing and is closed", "the link it wraps stays open", PRE + '''
async def main():
  a, b = create_queue_connection()
  l = TopicRemappingLink(a, {})
  l.close()
  assert a.closed and b.closed
asyncio.run(main())
''')
S("n08-same-price-once", "N08", [("streamtasks/net/helpers.py", "      inner[id.cost] = inner.get(id.cost, 0) + 1\n", "      inner[id.cost] = inner.setdefault(id.cost, 0) or 1\n")],
  "an id held twice at the same price, one of which is dropped", "the id is gone although it is still held", PRE + '''
from streamtasks.net.helpers import PricedIdTracker
t = PricedIdTracker()
t.add_many([PricedId(1, 2)]); t.add_many([PricedId(1, 2)])
t.remove_many([PricedId(1, 2)])
assert 1 in t and t.get(1) == 2
''')
