CI, CRV, CFE, CDI, CBR, SDI, CSI = ["streamtasks/" + x for x in ("client/__init__.py", "client/receiver.py", "client/fetch.py", "client/discovery.py", "client/broadcast.py", "services/discovery.py", "client/signal.py")]
PREC = '''
import asyncio
from streamtasks.client import Client
from streamtasks.client.receiver import Receiver, TopicsReceiver
from streamtasks.client.fetch import *
from streamtasks.client.signal import *
from streamtasks.client.discovery import *
from streamtasks.client.broadcast import *
from streamtasks.net import Switch, create_queue_connection
from streamtasks.net.messages import *
from streamtasks.net.serialization import RawData
from streamtasks.services.discovery import DiscoveryWorker
from streamtasks.services.constants import *
class FakeLink:
  def __init__(self): self.sent = []; self.q = asyncio.Queue(); self.answer = None
  async def send(self, m):
    self.sent.append(m)
    if self.answer: await self.answer(m)
  async def recv(self): return await self.q.get()
class All(Receiver):
  def __init__(self, c): super().__init__(c); self.got = []
  def on_message(self, m): self.got.append(m)
class Net:
  async def __aenter__(self):
    self.switch = Switch(); self.d = DiscoveryWorker(); self.tasks = []
    link = await self.d.create_link()
    await self.switch.add_link(link)
    self.tasks.append(asyncio.create_task(self.d.run()))
    await asyncio.sleep(0.05)
    return self
  async def client(self, address=True):
    a, b = create_queue_connection()
    await self.switch.add_link(a)
    c = Client(b); c.start()
    if address: await asyncio.wait_for(c.request_address(), 5)
    return c
  async def __aexit__(self, *_):
    for t in self.tasks: t.cancel()
    await asyncio.gather(*self.tasks, return_exceptions=True)
def run(main): asyncio.run(asyncio.wait_for(main(), 60))
'''
S("c01-control-unsubscribed", "C01", [(CI, "        if isinstance(message, TopicMessage) and message.topic not in self._in_topics: continue", "        if isinstance(message, TopicDataMessage) and message.topic not in self._in_topics: continue")],
  "a control message of a topic the client has unsubscribed (it was in flight)", "control messages of unsubscribed topics reach receivers", PREC + '''
async def main():
  l = FakeLink(); c = Client(l); c.start(); r = All(c)
  async with r:
    await c.register_in_topics([1])
    for m in (TopicControlMessage(1, False), TopicControlMessage(2, False), TopicDataMessage(2, RawData(1)), TopicDataMessage(1, RawData(1))): l.q.put_nowait(m)
    await asyncio.sleep(0.1)
    assert [m.topic for m in r.got] == [1, 1], r.got
run(main)
''')
S("c01-foreign-unsubscribe", "C01", [(CRV, "    if self._subscribe and len(self._topics) > 0: await self._client.unregister_in_topics(self._topics)", "    if len(self._topics) > 0: await self._client.unregister_in_topics(self._topics)")],
  "a receiver that only listens on topics somebody else subscribed, stopped while they are still in use", "the subscription of the other user is removed", PREC + '''
async def main():
  l = FakeLink(); c = Client(l); c.start()
  await c.register_in_topics([1])
  async with TopicsReceiver(c, [1], subscribe=False): pass
  assert not any(isinstance(m, InTopicsChangedMessage) and m.remove for m in l.sent), l.sent
run(main)
''')
S("c02-address-zero", "C02", [(CI, "    old_addresses = set() if self._address is None else set([ self._address ])", "    old_addresses = set([ self._address ]) if self._address else set()")],
  "a client whose address is 0 and that changes or gives up its address", "the address 0 stays announced", PREC + '''
async def main():
  l = FakeLink(); c = Client(l)
  await c.set_address(0); await c.set_address(5)
  m = l.sent[-1]
  assert {a.id for a in m.add} == {5} and set(m.remove) == {0}, m
run(main)
''')
S("c02-unregister-all", "C02", [(CI, "    if len(actually_removed) > 0: await self._link.send(OutTopicsChangedMessage(set(), set(actually_removed)))", "    if len(actually_removed) > 0: await self._link.send(OutTopicsChangedMessage(set(), set(topics)))")],
  "unregistering several topics in one call, one of which is still used elsewhere", "a topic in use is withdrawn", PREC + '''
async def main():
  l = FakeLink(); c = Client(l)
  await c.register_out_topics([1]); await c.register_out_topics([1, 2])
  await c.unregister_out_topics([1, 2])
  assert set(l.sent[-1].remove) == {2}, l.sent[-1]
run(main)
''')
S("c04-nested-fetch-error", "C04", [(CFE, "          except BaseException as e:\n            if not fr.response_sent: await fr.respond_error(new_fetch_body_general_error(str(e)))", "          except Exception as e:\n            if not fr.response_sent: await fr.respond_error(new_fetch_body_general_error(str(e)))")],
  "a handler whose own fetch to somebody else is answered with an error (which is no ordinary exception)", "the server ends and the request stays unanswered", PREC + '''
async def main():
  l = FakeLink(); c = Client(l); c.start(); await c.set_address(3)
  s = FetchServer(c)
  @s.route("a")
  async def _(req): raise FetchError(("not_found", "x"))
  @s.route("b")
  async def _(req): await req.respond(1)
  t = asyncio.create_task(s.run()); await asyncio.sleep(0.05)
  for d in ("a", "b"): l.q.put_nowait(AddressedMessage(3, NetworkPorts.FETCH, RawData(FetchRequestMessage(return_address=9, return_port=7, descriptor=d, body=None).model_dump())))
  await asyncio.sleep(0.2)
  out = [m for m in l.sent if isinstance(m, AddressedMessage)]
  assert [m.data.data["error"] for m in out] == [True, False], out
  t.cancel()
run(main)
''')
S("c04-body-default", "C04", [(CFE, "(fr_message.return_address, fr_message.return_port), fr_message.body)", "(fr_message.return_address, fr_message.return_port), fr_message.body or {})")],
  "a request whose body is empty, zero or an empty list", "the handler sees another body than was sent", PREC + '''
async def main():
  l = FakeLink(); c = Client(l); c.start(); await c.set_address(3)
  s = FetchServer(c); got = []
  @s.route("a")
  async def _(req): got.append(req.body)
  t = asyncio.create_task(s.run()); await asyncio.sleep(0.05)
  want = [0, [], None, "", 5, [1]]
  for b in want: l.q.put_nowait(AddressedMessage(3, NetworkPorts.FETCH, RawData(FetchRequestMessage(return_address=9, return_port=7, descriptor="a", body=b).model_dump())))
  await asyncio.sleep(0.2)
  assert got == want, got
  t.cancel()
run(main)
''')
S("c05-listen-late", "C05", [(CI, '''    async with FetchReponseReceiver(self, return_port) as receiver:
      await self.send_to(endpoint_or_address_to_endpoint(endpoint, NetworkPorts.FETCH), RawData(FetchRequestMessage(
        return_address=self.address,
        return_port=return_port,
        descriptor=descriptor,
        body=body).model_dump()))
      response_data''', '''    await self.send_to(endpoint_or_address_to_endpoint(endpoint, NetworkPorts.FETCH), RawData(FetchRequestMessage(
      return_address=self.address,
      return_port=return_port,
      descriptor=descriptor,
      body=body).model_dump()))
    async with FetchReponseReceiver(self, return_port) as receiver:
      response_data''')],
  "a response that arrives at once on a client that is already receiving", "the response is lost and the fetch waits for ever", PREC + '''
async def main():
  l = FakeLink(); c = Client(l); c.start(); await c.set_address(3)
  async def answer(m):
    if isinstance(m, AddressedMessage):
      l.q.put_nowait(AddressedMessage(3, m.data.data["return_port"], RawData(FetchResponseMessage(body=4).model_dump())))
      await asyncio.sleep(0.05)
  l.answer = answer
  async with All(c): assert await asyncio.wait_for(c.fetch(9, "a", None), 3) == 4
run(main)
''')
S("c05-error-body", "C05", [(CI, "    if response_data.error:\n      raise FetchError(response_data.body)", "    if response_data.error and response_data.body:\n      raise FetchError(response_data.body)")],
  "an error response without a body", "the error is returned as a successful empty response", PREC + '''
async def main():
  l = FakeLink(); c = Client(l); c.start(); await c.set_address(3)
  async def answer(m):
    if isinstance(m, AddressedMessage): l.q.put_nowait(AddressedMessage(3, m.data.data["return_port"], RawData(FetchResponseMessage(body=None, error=True).model_dump())))
  l.answer = answer
  try: await asyncio.wait_for(c.fetch(9, "a", None), 3)
  except FetchError: return
  raise SystemExit(1)
run(main)
''')
S("c06-negative", "C06", [(SDI, "    res = set(self._topics_counter + i for i in range(count))", "    res = set(self._topics_counter + i for i in range(abs(count)))")],
  "a request for a negative number of topics", "a request for a negative number gets ids", PREC + '''
async def main():
  d = DiscoveryWorker()
  assert len(d.generate_topic_ids(-2)) == 0 and len(d.generate_topic_ids(3)) == 3
run(main)
''')
S("c06-surplus", "C06", [(CDI, "  if len(addresses) != count: raise Exception", "  if len(addresses) < count: raise Exception")],
  "a discovery service that answers with more addresses than requested", "surplus addresses are taken", PREC + '''
async def main():
  l = FakeLink(); c = Client(l); c.start(); await c.set_address(3)
  async def answer(m):
    if isinstance(m, AddressedMessage): l.q.put_nowait(AddressedMessage(3, m.data.data["return_port"], RawData(FetchResponseMessage(body={"addresses": [7, 8]}).model_dump())))
  l.answer = answer
  try: await asyncio.wait_for(request_addresses(c, 1), 3)
  except Exception: return
  raise SystemExit(1)
run(main)
''')
S("c10-ask-first", "C10", [(CDI, '''  async with receiver:
    found_address = await client.resolve_address_name(name)
    while''', '''  found_address = await client.resolve_address_name(name)
  async with receiver:
    while''')],
  "a name registered between the question for it and the start of listening", "the waiting client misses the registration and waits for ever", PREC + '''
async def main():
  async with Net() as n:
    a = await n.client(); b = await n.client()
    real = a.resolve_address_name
    async def resolve(name):
      res = await real(name)
      if name == "svc": await b.fetch(NetworkAddresses.ID_DISCOVERY, DiscoveryConstants.FD_REGISTER_ADDRESS_NAME, RegisterAddressNameRequestBody(address_name="svc", address=b.address).model_dump())
      await asyncio.sleep(0.05)
      return res
    a.resolve_address_name = resolve
    assert await asyncio.wait_for(wait_for_address_name(a, "svc"), 5) == b.address
run(main)
''')
S("c10-negative-cache", "C10", [(CI, "    if res.address is not None: self._address_resolver_cache[name] = res.address", "    self._address_resolver_cache[name] = res.address")],
  "resolving a name before it is registered and again afterwards", "the name stays unresolvable for that client", PREC + '''
async def main():
  async with Net() as n:
    a = await n.client(); b = await n.client()
    assert await a.resolve_address_name("svc") is None
    async with address_name_context(b, "svc"): assert await a.resolve_address_name("svc") == b.address
run(main)
''')
S("c11-space-reuse", "C11", [(SDI, '''      self._topic_space_id_counter += 1
''', '''      self._topic_space_id_counter = len(self._topic_spaces) + 1
''')],
  "registering a topic space after an older one was deleted", "a living topic space is overwritten", PREC + '''
async def main():
  async with Net() as n:
    a = await n.client()
    x, _ = await register_topic_space(a, [1]); y, my = await register_topic_space(a, [1])
    await delete_topic_space(a, x)
    z, mz = await register_topic_space(a, [1, 2])
    assert len({x, y, z}) == 3 and await get_topic_space(a, y) == my
run(main)
''')
S("c11-all-namespaces", "C11", [(CBR, "        await req.respond({ ns: topic_id for ns, topic_id in self.namespaces.items() if ns in req_namespaces })", "        await req.respond(self.namespaces)")],
  "a receiver that asks for one namespace after another client asked for another one", "it receives the broadcasts of namespaces it did not ask for", PREC + '''
async def main():
  async with Net() as n:
    a = await n.client(); b = await n.client()
    s = BroadcastingServer(a)
    n.tasks.append(asyncio.create_task(s.run())); await asyncio.sleep(0.05)
    async with BroadcastReceiver(b, ["x"], a.address), BroadcastReceiver(b, ["y"], a.address) as r:
      await s.broadcast("x", RawData(1)); await s.broadcast("y", RawData(2))
      ns, d = await asyncio.wait_for(r.get(), 5)
      assert ns == "y" and r.empty(), ns
run(main)
''')
CTO = "streamtasks/client/topic.py"
UT = "streamtasks/utils.py"
PRET = PREC + '''
from streamtasks.client.topic import *
class M(Receiver): pass
def data(t): return RawData({"timestamp": t})
'''
S("c08-resume-now", "C08", [(CTO, "    else: self._set_topic_timestamp(topic_id, self.min_timestamp)", "    else: self._set_topic_timestamp(topic_id, max(self._topic_timestamps.values(), default=0))")],
  "a topic that resumes while another one is ahead of a third one", "the resumed topic's next messages are dropped as past although others are still at that time", PRET + '''
async def main():
  s = SequentialInTopicSynchronizer()
  await s.wait_for(1, 0); await s.wait_for(2, 0)
  a = asyncio.create_task(s.wait_for(1, 100))
  await asyncio.sleep(0)
  await s.set_paused(3, False)
  b = asyncio.create_task(s.wait_for(3, 50)); await asyncio.sleep(0)
  assert not a.done() and not b.done(), "3 was refused or passed"
  await s.wait_for(2, 50) if False else None
  c = asyncio.create_task(s.wait_for(2, 60)); await asyncio.sleep(0.05)
  assert b.done() and b.result() is True and not a.done()
  for t in (a, c): t.cancel()
run(main)
''')
S("c08-pause-no-wake", "C08", [(CTO, "    if timestamp is None: self._topic_timestamps.pop(topic_id, None)\n    else: self._topic_timestamps[topic_id] = timestamp\n    self._timestamp_trigger.trigger()", "    if timestamp is None:\n      self._topic_timestamps.pop(topic_id, None)\n      return\n    self._topic_timestamps[topic_id] = timestamp\n    self._timestamp_trigger.trigger()")],
  "the topic everybody waits for is paused while a message of another topic waits, and nothing else comes", "the waiting message stays back", PRET + '''
async def main():
  s = SequentialInTopicSynchronizer()
  await s.wait_for(1, 0); await s.wait_for(2, 0)
  a = asyncio.create_task(s.wait_for(1, 100)); await asyncio.sleep(0)
  await s.set_paused(2, True)
  assert await asyncio.wait_for(a, 2) is True
run(main)
''')
S("c08-prio-equal", "C08", [(CTO, "tid not in self._done_topics and self._topic_priorities.get(tid, 0) > priority)", "tid not in self._done_topics and self._topic_priorities.get(tid, 0) >= priority)")],
  "two topics of equal priority that both have a message at hand at the same timestamp", "both wait for each other for ever", PRET + '''
async def main():
  s = PrioritizedSequentialInTopicSynchronizer()
  s.set_priority(3, 1)
  await s.set_paused(1, False); await s.set_paused(2, False)
  a = asyncio.create_task(s.wait_for(1, 10)); b = asyncio.create_task(s.wait_for(2, 10))
  assert await asyncio.wait_for(asyncio.gather(a, b), 2) == [True, True]
run(main)
''')
S("c09-failed-registration", "C09", [(CTO, "    await self._set_registered(registered)\n    self._registered = registered", "    self._registered = registered\n    await self._set_registered(registered)")],
  "the announcement of a registration fails (closed link) and is tried again", "the topic counts as registered without having been announced", PRET + '''
async def main():
  l = FakeLink(); c = Client(l); t = c.in_topic(1)
  async def boom(m): raise OSError()
  l.answer = boom
  try: await t.set_registered(True)
  except OSError: pass
  assert not t.is_registered
run(main)
''')
S("c09-remove-and-add", "C09", [(CTO, "      if self._topic in message.add: self._put_msg(_OutTopicAction.SET_REQUESTED, True)\n      if self._topic in message.remove: self._put_msg(_OutTopicAction.SET_REQUESTED, False)", "      if len(message.add) > 0: self._put_msg(_OutTopicAction.SET_REQUESTED, self._topic in message.add)\n      if self._topic in message.remove: self._put_msg(_OutTopicAction.SET_REQUESTED, False)")],
  "a subscription message that adds only other topics while this one is requested", "an output topic that is requested counts as unrequested", PRET + '''
async def main():
  l = FakeLink(); c = Client(l); c.start(); t = c.out_topic(1)
  async with t:
    l.q.put_nowait(InTopicsChangedMessage({1}, set())); await asyncio.sleep(0.05)
    assert t.is_requested
    l.q.put_nowait(InTopicsChangedMessage({2}, set())); await asyncio.sleep(0.05)
    assert t.is_requested
run(main)
''')
SECR, STK, STW, SNT = ["streamtasks/system/" + x for x in ("secret_manager.py", "task.py", "task_web.py", "named_topic_manager.py")]
S("c07-secret-uuid", "C07", [(SECR, "    result = await self.client.fetch(self.address_name, \"get_secret\", SecretRequestModel(id=id).model_dump())", "    result = await self.client.fetch(self.address_name, \"get_secret\", { \"id\": id })")],
  "a task resolves a secret while the secret manager runs on another node", "the request cannot be encoded, the secret is never resolved", PREC + '''
from uuid import uuid4
from streamtasks.system.secret_manager import SecretManagerClient
from streamtasks.net.serialization import serialize_message
async def main():
  l = FakeLink(); c = Client(l); c.start(); await c.set_address(5); c.set_address_name(NetworkAddressNames.SECRET_MANAGER, 7)
  t = asyncio.create_task(SecretManagerClient(c).resolve_secret(uuid4()))
  await asyncio.sleep(0.2)
  m = [m for m in l.sent if isinstance(m, AddressedMessage)]
  assert m
  for x in m: serialize_message(x)
  t.cancel()
run(main)
''')
S("c07-named-topic-plain", "C07", [(SNT, "NamedTopicResolvedResponseModel(topic=self.topic_map[data.name]).model_dump()", "NamedTopicModel(name=data.name, metadata={ \"topic\": self.topic_map[data.name] }).model_dump()")],
  "a named input or output resolves its topic", "the answer has no topic in it and the task fails to start", PREC + '''
import os, tempfile
d = tempfile.mkdtemp()
os.environ["DATA_DIR"] = d; os.environ["HOME"] = d
from streamtasks.system.named_topic_manager import *
class DB:
  entries = []
  def update(self, e): self.entries = list(e)
  def save(self): pass
async def main():
  try:
    m = NamedTopicManager.__new__(NamedTopicManager)
    m.db = DB(); m.topic_map = {}
    async with Net() as n:
      m.client = await n.client()
      t = asyncio.create_task(m.run_fetch_server()); await asyncio.sleep(0.1)
      c = await n.client()
      r = await c.fetch(m.client.address, "resolve_named_topic", { "name": "a" })
      assert NamedTopicResolvedResponseModel.model_validate(r).topic == m.topic_map["a"]
      t.cancel()
  finally:
    import shutil; shutil.rmtree(d)
run(main)
''')
S("c07-host-update", "C07", [(STK, "await self.bc_server.broadcast(TaskConstants.BC_TASK_HOST_REGISTERED, RawData(reg.model_dump()))", "await self.bc_server.broadcast(TaskConstants.BC_TASK_HOST_REGISTERED, RawData(reg.model_dump(include={ \"id\", \"metadata\" })))")],
  "somebody listens for task hosts while one registers", "listeners cannot read the registration, their receiver fails", PREC + '''
from streamtasks.system.task import *
from streamtasks.system.task import TaskManager
class FakeBC:
  def __init__(self): self.out = []
  async def broadcast(self, ns, data): self.out.append((ns, data))
async def main():
  async with Net() as n:
    tm = TaskManager(); tm.client = await n.client(); tm.bc_server = FakeBC()
    t = asyncio.create_task(tm.run_fetch_api()); await asyncio.sleep(0.1)
    c = await n.client()
    await c.fetch(tm.client.address, TaskConstants.FD_REGISTER_TASK_HOST, TaskHostRegistration(id="h", address=9, metadata={}).model_dump())
    ns, data = tm.bc_server.out[0]
    assert TaskHostRegisteredReceiver(c, [ns], tm.client.address).transform_data(ns, RawData(data.serialize())).address == 9
    t.cancel()
run(main)
''')
