exec(open(os.path.join(HERE, "seeds_u.py")).read().split("\nS(")[0])
PREK = PREU + '''
from streamtasks.net.serialization import RawData
from streamtasks.message.types import *
from streamtasks.net.messages import TopicControlData
class Rig:
  """runs a task on a network, sends to and receives from its topics"""
  def __init__(self, n): self.n = n; self.t = None
  async def __aenter__(self):
    self.st = contextlib.AsyncExitStack(); self.c = await self.n.client(False); self.o = await self.n.client(); return self
  async def __aexit__(self, *_):
    if self.t is not None:
      self.t.cancel()
      try: await asyncio.wait_for(self.t, 5)
      except BaseException: pass
    await self.st.aclose()
  async def inp(self, id): return await self._open(self.o.out_topic(id))
  async def out(self, id): return await self._open(self.o.in_topic(id))
  async def _open(self, t): await self.st.enter_async_context(t); await self.st.enter_async_context(t.RegisterContext()); return t
  async def run(self, task): self.task = task; self.t = asyncio.create_task(task.run()); await asyncio.sleep(0.1)
  async def get(self, t, timeout=0.4):
    try: return await asyncio.wait_for(t.recv_data_control(), timeout)
    except asyncio.TimeoutError: return None
  async def all(self, t, timeout=0.4):
    out = []
    while (d := await self.get(t, timeout)) is not None: out.append(("paused", d.paused) if isinstance(d, TopicControlData) else d.data)
    return out
def text(ts, v): return RawData({"timestamp": ts, "value": v})
number = text
'''
S("t01-text-for-number", "T01", [(TD + "srlatch.py", "      try:\n        data = await topic.recv_data()\n        message = NumberMessage.model_validate(data.data)\n        setattr(self, value_name, message.value > 0.5)\n        await self.send(message.timestamp)\n      except ValidationError: pass\n", "      data = await topic.recv_data()\n      try: timestamp = int(data.data[\"timestamp\"])\n      except (KeyError, ValueError): continue\n      message = NumberMessage(timestamp=timestamp, value=data.data.get(\"value\", 0))\n      setattr(self, value_name, message.value > 0.5)\n      await self.send(message.timestamp)\n")],
  "a message with a timestamp whose value is no number", "the latch ends", PREK + '''
from streamtasks.system.tasks.srlatch import *
async def main():
  async with Net() as n, Rig(n) as r:
    s, re_, o = await r.inp(1), await r.inp(2), await r.out(3)
    await r.run(SRLatchTask(r.c, SRLatchConfig(out_topic=3, set_topic=1, reset_topic=2, synchronized=False)))
    await s.send(text(1, "on")); await s.send(number(2, 1.0))
    got = await r.all(o)
    assert [d["timestamp"] for d in got] == [2], got
    assert not r.t.done()
run(main)
''')
S("t01-no-mapping", "T01", [(TD + "textformatter.py", "        try:\n          message = TextMessage.model_validate(data.data)\n", "        try:\n          if \"value\" not in data.data: continue\n          message = TextMessage.model_validate(data.data)\n")],
  "a message that is a number instead of a mapping", "the text formatter ends", PREK + '''
from streamtasks.system.tasks.textformatter import *
async def main():
  async with Net() as n, Rig(n) as r:
    i, o = await r.inp(1), await r.out(3)
    await r.run(TextFormatterTask(r.c, TextFormatterConfig(out_topic=3, template="<{a}>", synchronized=False, variable_tracks=[TextFormatterVariableConfig(name="a", in_topic=1)])))
    await i.send(RawData(5)); await i.send(text(2, "x"))
    got = await r.all(o)
    assert [d["value"] for d in got] == ["<x>"], got
    assert not r.t.done()
run(main)
''')
S("t01-pause-as-data", "T01", [(TD + "srlatch.py", "        data = await topic.recv_data()\n        message = NumberMessage.model_validate(data.data)\n", "        data = await topic.recv_data_control()\n        message = NumberMessage.model_validate(data.data)\n")],
  "an input of a latch that is paused", "the latch ends", PREK + '''
from streamtasks.system.tasks.srlatch import *
async def main():
  async with Net() as n, Rig(n) as r:
    s, re_, o = await r.inp(1), await r.inp(2), await r.out(3)
    await r.run(SRLatchTask(r.c, SRLatchConfig(out_topic=3, set_topic=1, reset_topic=2, synchronized=False)))
    await s.set_paused(True); await s.set_paused(False); await s.send(number(2, 1.0))
    got = await r.all(o)
    assert [d["timestamp"] for d in got] == [2], got
    assert not r.t.done()
run(main)
''')
S("t02-output-unregistered", "T02", [(TD + "namedoutput.py", "self.in_topic.RegisterContext(), out_topic, out_topic.RegisterContext():", "self.in_topic.RegisterContext(), out_topic:")],
  "a named output and a receiver of its topic on another node", "its messages never arrive", PREK + '''
from streamtasks.system.tasks.namedoutput import *
async def main():
  async with Net() as n, Rig(n) as r:
    i = await r.inp(1)
    far = Switch(); a, b = create_queue_connection()
    await n.switch.add_link(a); await far.add_link(b)
    a, b = create_queue_connection(); await far.add_link(a)
    r.o = Client(b); r.o.start()
    o = await r.out(3)
    async def fetch(addr, name, body): return NamedTopicResolvedResponseModel(topic=3).model_dump()
    async def request_address(): pass
    r.c.request_address = request_address
    r.c.fetch = fetch
    await r.run(NamedOutputTask(r.c, NamedOutputConfig(name="x", metadata={}, in_topic=1)))
    await asyncio.sleep(0.3)
    await i.send(text(1, "x"))
    got = await r.all(o)
    assert [d["value"] for d in got] == ["x"], got
run(main)
''')
S("t02-received-before-open", "T02", [(TD + "synchronizer.py", "        await exit_stack.enter_async_context(out_topic)\n        await exit_stack.enter_async_context(out_topic.RegisterContext())\n        await exit_stack.enter_async_context(context_task(self._run_stream(in_topic, out_topic)))\n", "        await exit_stack.enter_async_context(context_task(self._run_stream(in_topic, out_topic)))\n      for _, out_topic in self.topics:\n        await exit_stack.enter_async_context(out_topic)\n        await exit_stack.enter_async_context(out_topic.RegisterContext())\n")],
  "a pair of topics of a synchronizer whose output takes a while to open, with messages arriving meanwhile", "what was received before the output was registered is sent to a topic that is not open", PREK + '''
from streamtasks.system.tasks.synchronizer import *
async def main():
  async with Net() as n, Rig(n) as r:
    t = SynchronizerTask(r.c, SynchronizerConfig(topics=[(1, 3), (2, 4)]))
    state, bad = {}, []
    for a, b in t.topics:
      state[id(b)] = set()
      def wrap(b):
        reg, send = b.set_registered, b.send
        async def set_registered(v): await asyncio.sleep(0.05); await reg(v); (state[id(b)].add if v else state[id(b)].discard)("r")
        async def send_(d): bad.append("unregistered") if "r" not in state[id(b)] else None; await send(d)
        b.set_registered, b.send = set_registered, send_
      wrap(b)
      async def recv(first=[True]):
        if first: first.clear(); return text(1, "x")
        await asyncio.Future()
      a.recv_data_control = recv
    task = asyncio.create_task(t.run())
    await asyncio.sleep(0.5); task.cancel()
    assert not bad, bad
run(main)
''')
S("t03-thread-not-awaited", "T03", [(STK, "        self.stop_event.set()\n        if fut: await fut\n", "        self.stop_event.set()\n")],
  "a task with a worker thread that is cancelled while its thread works", "the thread goes on after the topics of the task are closed", PREU + '''
from streamtasks.system.task import SyncTask
import time
log = []
class T(SyncTask):
  @contextlib.asynccontextmanager
  async def init(self):
    try: yield
    finally: log.append("closed")
  def run_sync(self):
    while not self.stop_event.is_set(): time.sleep(0.02)
    time.sleep(0.1); log.append("thread ended")
async def main():
  class C: pass
  t = T(C()); task = asyncio.create_task(t.run())
  await asyncio.sleep(0.1); task.cancel()
  try: await task
  except asyncio.CancelledError: pass
  await asyncio.sleep(0.3)
  assert log == ["thread ended", "closed"], log
run(main)
''')
S("t03-waits-forever", "T03", [(TD + "media/audiovolumemeter.py", "self.message_queue.get(timeout=0.5)", "self.message_queue.get()")],
  "a volume meter that gets no messages and is cancelled", "it never ends", PREK + '''
from streamtasks.system.tasks.media.audiovolumemeter import *
import threading, os
async def main():
  async with Net() as n:
    r = Rig(n); await r.__aenter__()
    await r.run(AudioVolumeMeterTask(r.c, AudioVolumeMeterConfig(in_topic=1, out_topic=2)))
    await asyncio.sleep(0.3); assert not r.t.done(), r.t
    r.t.cancel()
    d, _ = await asyncio.wait([r.t], timeout=3)
    if not d: print("still running", flush=True); os._exit(1)
run(main)
''')
S("t04-never-resumed", "T04", [(TD + "namedoutput.py", "if isinstance(data, TopicControlData): await out_topic.set_paused(data.paused)", "if isinstance(data, TopicControlData): await out_topic.set_paused(data.paused or out_topic.is_paused)")],
  "a pause and a resume of the input of a named output", "its output is never resumed", PREK + '''
from streamtasks.system.tasks.namedoutput import *
async def main():
  async with Net() as n, Rig(n) as r:
    i, o = await r.inp(1), await r.out(3)
    async def fetch(addr, name, body): return NamedTopicResolvedResponseModel(topic=3).model_dump()
    async def request_address(): pass
    r.c.request_address = request_address
    r.c.fetch = fetch
    await r.run(NamedOutputTask(r.c, NamedOutputConfig(name="x", metadata={}, in_topic=1)))
    await i.set_paused(True); await asyncio.sleep(0.1)
    assert await r.all(o) == [("paused", True)]
    await i.set_paused(False)
    assert await r.all(o) == [("paused", False)]
run(main)
''')
S("t04-pause-after-message", "T04", [(TD + "repeater.py", "      if isinstance(data, TopicControlData):\n        await self.out_topic.set_paused(data.paused)\n", "      if isinstance(data, TopicControlData):\n        if self.current_data is not None: await self.out_topic.set_paused(data.paused)\n")],
  "an input that is paused before its first message", "the output of the repeater stays unpaused", PREK + '''
from streamtasks.system.tasks.repeater import *
async def main():
  async with Net() as n, Rig(n) as r:
    i, o = await r.inp(1), await r.out(3)
    await r.run(RepeaterTask(r.c, RepeaterConfig(in_topic=1, out_topic=3, rate=5, fail_closed=True)))
    await i.set_paused(True)
    assert await r.all(o) == [("paused", True)]
run(main)
''')
S("t05-time-of-the-clock", "T05", [(TD + "numbertotext.py", "TextMessage(timestamp=message.timestamp, value=str(message.value))", "TextMessage(timestamp=message.timestamp or get_timestamp_ms(), value=str(message.value))"), (TD + "numbertotext.py", "class NumberToTextTask(Task):\n", "def get_timestamp_ms():\n  import time\n  return int(time.time() * 1000)\n\nclass NumberToTextTask(Task):\n")],
  "a number with the timestamp 0", "its text gets another timestamp", PREK + '''
from streamtasks.system.tasks.numbertotext import *
async def main():
  async with Net() as n, Rig(n) as r:
    i, o = await r.inp(1), await r.out(3)
    await r.run(NumberToTextTask(r.c, NumberToTextConfig(in_topic=1, out_topic=3)))
    await i.send(number(7, 1.5)); await i.send(number(0, 2.5))
    got = await r.all(o)
    assert got == [{"timestamp": 7, "value": "1.5"}, {"timestamp": 0, "value": "2.5"}], got
run(main)
''')
S("t05-latch-both", "T05", [(TD + "srlatch.py", "    if self.set_value != self.reset_value:\n      if self.set_value: self.value = True\n      if self.reset_value: self.value = False\n", "    if self.set_value: self.value = True\n    if self.reset_value: self.value = False\n")],
  "a latch that is set when its reset input goes high as well", "the latch is reset instead of keeping its value", PREK + '''
from streamtasks.system.tasks.srlatch import *
async def main():
  async with Net() as n, Rig(n) as r:
    s, re_, o = await r.inp(1), await r.inp(2), await r.out(3)
    await r.run(SRLatchTask(r.c, SRLatchConfig(out_topic=3, set_topic=1, reset_topic=2, synchronized=False)))
    await s.send(number(1, 1.0)); await asyncio.sleep(0.1); await re_.send(number(2, 1.0))
    got = await r.all(o)
    assert [d["value"] for d in got] == [1.0, 1.0], got
run(main)
''')
GRIG = '''
from streamtasks.system.tasks.gate import *
async def gate(r, **kw):
  i, c, o = await r.inp(1), await r.inp(2), await r.out(3)
  await r.run(GateTask(r.c, GateConfig(in_topic=1, control_topic=2, out_topic=3, **{"synchronized": False, "fail_mode": GateFailMode.CLOSED, "initial_control": True, **kw})))
  return i, c, o
'''
S("t06-error-kept", "T06", [(TD + "gate.py", "          self.state.control = msg.value > 0.5\n          self.state.control_errored = False\n", "          control = msg.value > 0.5\n          if control != self.state.control:\n            self.state.control = control\n            self.state.control_errored = False\n")],
  "a control that fails and then repeats the value it had before", "the gate stays closed", PREK + GRIG + '''
async def main():
  async with Net() as n, Rig(n) as r:
    i, c, o = await gate(r)
    await r.all(o)
    await c.send(number(1, 1.0)); await c.send(text(2, "x")); await c.send(number(3, 1.0)); await asyncio.sleep(0.2)
    await i.send(text(4, "x"))
    got = [d for d in await r.all(o) if isinstance(d, dict)]
    assert got == [{"timestamp": 4, "value": "x"}], got
run(main)
''')
S("t06-input-first", "T06", [(TD + "gate.py", "      sync.set_priority(config.control_topic, 1)\n      sync.set_priority(config.in_topic, 0)\n", "      sync.set_priority(config.in_topic, 1)\n      sync.set_priority(config.control_topic, 0)\n")],
  "synchronized inputs with a message and a control of the same time", "the message is judged by the control before", PREK + GRIG + '''
async def main():
  async with Net() as n, Rig(n) as r:
    i, c, o = await gate(r, synchronized=True)
    await r.all(o)
    await c.send(number(1, 1.0)); await asyncio.sleep(0.1); await i.send(text(1, "a")); await asyncio.sleep(0.1)
    await i.send(text(2, "b")); await c.send(number(2, 0.0)); await asyncio.sleep(0.1)
    await i.send(text(3, "c")); await c.send(number(3, 1.0)); await asyncio.sleep(0.1)
    got = [d["value"] for d in await r.all(o) if isinstance(d, dict)]
    assert got == ["a", "c"], got
run(main)
''')
S("t07-lowest-of-three", "T07", [(TD + "switch.py", "    if len(self.control_values) == 0: return -1\n    return max(self.control_values, key=lambda idx: self.control_values[idx])\n", "    if len(self.control_values) == 0: return -1\n    return max(self.control_values, key=lambda idx: (self.control_values[idx] > 0.5, -idx))\n")],
  "two inputs whose controls are both above 0.5, the second one higher", "the first input is passed on", PREK + '''
from streamtasks.system.tasks.switch import *
async def main():
  async with Net() as n, Rig(n) as r:
    a, ca, b, cb, o = await r.inp(1), await r.inp(2), await r.inp(4), await r.inp(5), await r.out(3)
    await r.run(SwitchTask(r.c, SwitchConfig(output=3, pairs=[{"input": 1, "control": 2}, {"input": 4, "control": 5}])))
    for t in range(1, 5):
      await ca.send(number(t, 0.6)); await cb.send(number(t, 0.9)); await asyncio.sleep(0.05)
      await a.send(text(t, "a")); await b.send(text(t, "b")); await asyncio.sleep(0.05)
    got = [d["value"] for d in await r.all(o) if isinstance(d, dict)][2:]
    assert got and set(got) == {"b"}, got
run(main)
''')
S("t07-media-no-keyframe", "T07", [(TD + "media/mediaswitch.py", "              if message.packet.is_keyframe: self._active_index = idx\n", "              if message.packet.is_keyframe or self._active_index != -1: self._active_index = idx\n")],
  "a change of the input of a media switch between two keyframes", "frames of the new input are sent that cannot be decoded", PREK + '''
from streamtasks.system.tasks.media.mediaswitch import *
from streamtasks.media.packet import MediaPacket
def packet(ts, k, d): return RawData(MediaMessage(timestamp=ts, packet=MediaPacket(data=d, pts=ts, rel_dts=0, is_keyframe=k)).model_dump())
class Q:
  is_paused = False
  def __init__(self): self.q = asyncio.Queue()
  async def recv_data_control(self): return await self.q.get()
class O:
  def __init__(self): self.got = []
  async def set_paused(self, v): pass
  async def send(self, d): self.got.append(bytes(d.data["packet"]["data"]))
async def main():
  async with Net() as n, Rig(n) as r:
    t = MediaSwitchTask(r.c, SwitchConfig(output=3, pairs=[{"input": 1, "control": 2}, {"input": 4, "control": 5}]))
    t.out_topic = o = O()
    a, b = Q(), Q()
    ts = [asyncio.create_task(t._run_input_receiver(a, 0)), asyncio.create_task(t._run_input_receiver(b, 1))]
    t.control_values = {0: 1.0}
    await a.q.put(packet(1, True, b"a1")); await asyncio.sleep(0.05)
    t.control_values = {0: 1.0, 1: 2.0}
    await b.q.put(packet(2, False, b"b2")); await asyncio.sleep(0.05); await b.q.put(packet(3, True, b"b3")); await asyncio.sleep(0.05)
    for x in ts: x.cancel()
    assert o.got == [b"a1", b"b3"], o.got
run(main)
''')
S("t08-repeats-original", "T08", [(TD + "repeater.py", "          msg = self.current_data.shallow_copy()\n", "          msg = self.current_data\n")],
  "a repeater whose receiver keeps the messages it gets", "messages already sent change their timestamp", PREK + '''
from streamtasks.system.tasks.repeater import *
async def main():
  async with Net() as n, Rig(n) as r:
    t = RepeaterTask(r.c, RepeaterConfig(in_topic=1, out_topic=3, rate=20, fail_closed=True))
    sent = []
    async def send(d): sent.append((d, d.data["timestamp"]))
    t.out_topic.send = send
    i = await r.inp(1)
    await r.run(t)
    await i.send(text(5, "x")); await asyncio.sleep(0.3)
    assert len(sent) > 2 and all(d.data["timestamp"] == ts for d, ts in sent), sent
run(main)
''')
S("t08-shared-copy", "T08", [("streamtasks/net/serialization.py", "  def shallow_copy(self): return RawData({ **self.data })\n", "  def shallow_copy(self): return RawData(self.data if len(self.data) < 2 else { **self.data })\n")],
  "a message that has nothing but a timestamp and is copied", "the original changes with the copy", PREK + '''
async def main():
  d = RawData({"timestamp": 1}); c = d.shallow_copy(); c.data["timestamp"] = 9
  assert d.data["timestamp"] == 1, d.data
  d = text(1, "x"); c = d.shallow_copy(); c.data["timestamp"] = 9
  assert d.data["timestamp"] == 1, d.data
run(main)
''')
CALC = '''
from streamtasks.system.tasks.calculator import *
def val(f, **kw): return CalculatorEvalTransformer(CalculatorEvalContext(kw)).transform(CalculatorGrammar.parse(f))
'''
S("t09-mod-sign", "T09", [(TD + "calculator.py", "def mod(self, args): return args[0] % args[1]", "def mod(self, args): return math.fmod(args[0], args[1])")],
  "the remainder of a negative value", "it has another sign", PREK + CALC + '''
assert val("a % 3", a=7.0) == 1.0 and val("a % 3", a=-7.0) == 2.0
''')
S("t09-right-to-left", "T09", [(TD + "calculator.py", "    | sum \"+\" product -> add\n    | sum \"-\" product -> sub\n", "    | product \"+\" sum -> add\n    | product \"-\" sum -> sub\n")],
  "two subtractions in a row", "they are done from right to left", PREK + CALC + '''
assert val("a - b", a=10.0, b=4.0) == 6.0 and val("a - b - c", a=10.0, b=4.0, c=3.0) == 3.0
''')
S("t09-atan2", "T09", [(TD + "calculator.py", "def atan2(self, y, x): return math.atan2(y, x)", "def atan2(self, y, x): return math.atan(y / x) if x != 0 else math.copysign(math.pi / 2, y)")],
  "atan2 of a negative second value", "the wrong half of the circle", PREK + CALC + '''
assert abs(val("atan2(a, b)", a=1.0, b=1.0) - math.pi / 4) < 1e-9 and abs(val("atan2(a, b)", a=1.0, b=-1.0) - 3 * math.pi / 4) < 1e-9
''')
S("t13-zero-interval", "T13", [(TD + "pulsegenerator.py", "        await asyncio.sleep(self.interval)\n", "        if self.interval > 0: await asyncio.sleep(self.interval)\n")],
  "a pulse generator with the interval 0", "nothing else runs on its node", PREK + '''
from streamtasks.system.tasks.pulsegenerator import *
import os, threading, time
def dog():
  time.sleep(20); print("the event loop hangs", flush=True); os._exit(1)
threading.Thread(target=dog, daemon=True).start()
async def main():
  async with Net() as n, Rig(n) as r:
    t = PulseGeneratorTask(r.c, PulseGeneratorConfig(out_topic=3, interval=0.001, message_type="ts"))
    t.interval = 0
    class O:
      async def __aenter__(self): return self
      async def __aexit__(self, *_): pass
      def RegisterContext(self): return O()
      async def send(self, d): pass
    t.out_topic = O()
    await r.run(t)
    await asyncio.sleep(0.2)
run(main)
os._exit(0)
''')
BUF = '''
from streamtasks.system.tasks.timebuffer import *
from streamtasks.system.tasks.replaybuffer import *
from streamtasks.rawdatabuffer import RawDataBuffer
'''
S("t10-drops-paused", "T10", [(TD + "timebuffer.py", "      if isinstance(data, TopicControlData): self.paused = data.paused\n      else: self.message_queue.append(data)\n", "      if isinstance(data, TopicControlData): self.paused = data.paused\n      elif not self.paused: self.message_queue.append(data)\n")],
  "a message that follows a pause without a resume", "it is lost", PREK + BUF + '''
async def main():
  async with Net() as n, Rig(n) as r:
    i, o = await r.inp(1), await r.out(3)
    t = TimeBufferTask(r.c, TimeBufferConfig(in_topic=1, out_topic=3, time_reference="message", size=100))
    await r.run(t)
    class Q:
      def __init__(self, ds): self.ds = ds
      async def recv_data_control(self):
        if self.ds: await asyncio.sleep(0.02); return self.ds.pop(0)
        await asyncio.Event().wait()
    t.in_topic = Q([TopicControlData(True), text(1, "a"), text(101, "b")])
    x = asyncio.create_task(t.run_receiver())
    got = [d for d in await r.all(o) if isinstance(d, dict)]
    x.cancel()
    assert [d["value"] for d in got] == ["a", "b"], got
run(main)
''')
S("t10-window-open", "T10", [(TD + "timebuffer.py", "if top_timestamp - next_timestamp >= self.config.size:", "if top_timestamp - next_timestamp > self.config.size:")],
  "a newest message that is exactly the size younger", "the oldest is held", PREK + BUF + '''
async def main():
  async with Net() as n, Rig(n) as r:
    i, o = await r.inp(1), await r.out(3)
    await r.run(TimeBufferTask(r.c, TimeBufferConfig(in_topic=1, out_topic=3, time_reference="message", size=100)))
    for ts in (1, 50, 101): await i.send(text(ts, str(ts)))
    got = [d for d in await r.all(o) if isinstance(d, dict)]
    assert [d["timestamp"] for d in got] == [1], got
run(main)
''')
S("t10-offset-per-message", "T10", [(TD + "replaybuffer.py", "          if time_offset is None: time_offset = self.sync.time - ts\n", "          if time_offset is None or ts < self.sync.time - 1000: time_offset = self.sync.time - ts\n")],
  "messages that were recorded more than a second ago", "they are played without their distances", PREK + BUF + '''
async def main():
  async with Net() as n, Rig(n) as r:
    i, p, o = await r.inp(1), await r.inp(2), await r.out(3)
    await r.run(ReplayBufferTask(r.c, ReplayBufferConfig(in_topic=1, play_topic=2, out_topic=3)))
    for ts in (1, 101, 201): await i.send(text(ts, str(ts)))
    await asyncio.sleep(0.1)
    await p.send(number(5000, 1.0))
    got = [d["timestamp"] for d in await r.all(o) if isinstance(d, dict)]
    assert len(got) == 3 and got[1] - got[0] == 100 and got[2] - got[1] == 100, got
run(main)
''')
S("t10-reused-keys", "T10", [("streamtasks/rawdatabuffer.py", "    self._index_map.append(str(self._key_counter))\n    self._key_counter += 1\n", "    self._index_map.append(str(len(self._index_map)))\n")],
  "a message that is put in after others were taken out", "it overwrites one that is left", PREK + BUF + '''
b = RawDataBuffer()
for x in (1, 2, 3): b.append(text(x, str(x)))
assert b.popleft().data["timestamp"] == 1
b.append(text(4, "4"))
assert [b.popleft().data["timestamp"] for _ in range(3)] == [2, 3, 4]
''')
MDET = '''
from streamtasks.system.tasks.messagedetector import *
'''
S("t11-valid-triggers", "T11", [(TD + "messagedetector.py", "          self.message_trigger.trigger()\n          self.time_sync.update(get_timestamp_from_message(data))\n", "          self.time_sync.update(get_timestamp_from_message(data))\n          self.message_trigger.trigger()\n")],
  "messages without a timestamp and a timeout", "the signal falls although messages arrive", PREK + MDET + '''
async def main():
  async with Net() as n, Rig(n) as r:
    i, o = await r.inp(1), await r.out(3)
    await r.run(MessageDetectorTask(r.c, MessageDetectorConfig(in_topic=1, signal_topic=3, time_out=0.3)))
    async def feed():
      while True: await i.send(RawData({"value": "x"})); await asyncio.sleep(0.05)
    x = asyncio.create_task(feed())
    got = [d["value"] for d in await r.all(o, 0.8) if isinstance(d, dict)]
    x.cancel()
    assert 0.0 not in got, got
run(main)
''')
S("t11-stays-invalid", "T11", [(TD + "messagedetector.py", "          self.state.last_message_invalid = False\n", "          if not self.state.timed_out: self.state.last_message_invalid = False\n")],
  "a valid message that ends a timeout after an invalid one", "the signal stays 0", PREK + MDET + '''
async def main():
  async with Net() as n, Rig(n) as r:
    i, o = await r.inp(1), await r.out(3)
    t = MessageDetectorTask(r.c, MessageDetectorConfig(in_topic=1, signal_topic=3, time_out=0.3, fail_mode="closed"))
    await r.run(t)
    await i.send(RawData({"value": "x"})); await asyncio.sleep(0.5)
    assert not t.state.signal
    await i.send(text(5, "x")); await asyncio.sleep(0.1)
    assert t.state.signal
run(main)
''')
S("t11-repeat-only", "T11", [(TD + "messagedetector.py", "      try: await asyncio.wait_for(self.state.wait_change(), timeout=self.config.repeat_interval or None)\n      except asyncio.TimeoutError: pass\n", "      if self.config.repeat_interval: await asyncio.sleep(self.config.repeat_interval)\n      else: await self.state.wait_change()\n")],
  "a repeat interval that is longer than the time between changes", "changes are not sent", PREK + MDET + '''
async def main():
  async with Net() as n, Rig(n) as r:
    i, o = await r.inp(1), await r.out(3)
    await r.run(MessageDetectorTask(r.c, MessageDetectorConfig(in_topic=1, signal_topic=3, repeat_interval=3)))
    await i.set_paused(True)
    got = [d["value"] for d in await r.all(o, 0.6) if isinstance(d, dict)]
    assert got and got[-1] == 0.0, got
run(main)
''')
S("t12-zero-offset", "T12", [(TD + "timestampupdater.py", "            data = data.shallow_copy()\n            set_timestamp_on_message(data, ref_time + self.config.time_offset)\n", "            data = data.shallow_copy()\n            if self.config.time_offset != 0: set_timestamp_on_message(data, ref_time + self.config.time_offset)\n")],
  "the clock as reference and no offset", "messages keep their timestamp", PREK + '''
from streamtasks.system.tasks.timestampupdater import *
async def main():
  async with Net() as n, Rig(n) as r:
    i, o = await r.inp(1), await r.out(3)
    await r.run(TimestampUpdaterTask(r.c, TimestampUpdaterConfig(in_topic=1, out_topic=3, time_reference="clock", time_offset=0)))
    await i.send(text(5, "x"))
    got = [d["timestamp"] for d in await r.all(o) if isinstance(d, dict)]
    assert len(got) == 1 and got[0] > 1000000, got
run(main)
''')
S("t12-keeps-repeating", "T12", [(TD + "repeater.py", "          if not self.config.fail_closed: await self.out_topic.send(data)\n          else: self.current_data = None\n", "          if not self.config.fail_closed: await self.out_topic.send(data)\n          elif self.current_data is data: self.current_data = None\n")],
  "a message without a timestamp and a repeater that fails closed", "it goes on repeating", PREK + '''
from streamtasks.system.tasks.repeater import *
async def main():
  async with Net() as n, Rig(n) as r:
    i, o = await r.inp(1), await r.out(3)
    await r.run(RepeaterTask(r.c, RepeaterConfig(in_topic=1, out_topic=3, rate=20, fail_closed=True)))
    await i.send(text(5, "x")); await asyncio.sleep(0.2)
    await i.send(RawData({"value": "x"})); await asyncio.sleep(0.2)
    assert await r.all(o, 0.01)
    await asyncio.sleep(0.3)
    assert not await r.all(o, 0.3)
run(main)
''')
S("t12-level-control", "T12", [(TD + "stringconcatenator.py", "          last_control = message.value\n", "          if message.value > 0.5: last_control = message.value\n")],
  "a control that rises a second time", "later texts are never sent", PREK + '''
from streamtasks.system.tasks.stringconcatenator import *
async def main():
  async with Net() as n, Rig(n) as r:
    i, c, o = await r.inp(1), await r.inp(2), await r.out(3)
    await r.run(StringConcatenatorTask(r.c, StringConcatenatorConfig(in_topic=1, control_topic=2, out_topic=3, synchronized=False)))
    got = []
    for k in range(2):
      await i.send(text(10 * k, f"a{k}")); await i.send(text(10 * k + 1, f"b{k}")); await asyncio.sleep(0.05)
      await c.send(number(10 * k + 2, 1.0)); await asyncio.sleep(0.05)
      await c.send(number(10 * k + 3, 0.0)); await asyncio.sleep(0.05)
    got = [d["value"] for d in await r.all(o) if isinstance(d, dict)]
    assert got == ["a0b0", "a1b1"], got
run(main)
''')
S("t12-text-with-control", "T12", [(TD + "stringconcatenator.py", "      sync.set_priority(config.in_topic, 1)\n      sync.set_priority(config.control_topic, 0)\n", "      sync.set_priority(config.in_topic, 0)\n      sync.set_priority(config.control_topic, 1)\n")],
  "a text and a control of the same time", "the text comes with the next control", PREK + '''
from streamtasks.system.tasks.stringconcatenator import *
async def main():
  async with Net() as n, Rig(n) as r:
    t = StringConcatenatorTask(r.c, StringConcatenatorConfig(in_topic=1, control_topic=2, out_topic=3, synchronized=True))
    i, c, o = await r.inp(1), await r.inp(2), await r.out(3)
    await r.run(t)
    await i.send(text(1, "a")); await c.send(number(1, 0.0)); await asyncio.sleep(0.05)
    await c.send(number(10, 1.0)); await asyncio.sleep(0.05)
    await i.send(text(10, "b")); await asyncio.sleep(0.05)
    await i.send(text(20, "c")); await c.send(number(20, 0.0)); await asyncio.sleep(0.05)
    got = [d["value"] for d in await r.all(o) if isinstance(d, dict)]
    assert got == ["ab"], got
run(main)
''')
S("t14-short-interval", "T14", [(TD + "ui/controlbase.py", "        if self.config.repeat_interval > 0: await", "        if self.config.repeat_interval >= 1: await")],
  "a control with an interval of less than a second", "its value is not sent again", PREK + '''
from streamtasks.system.tasks.ui.sliderui import *
async def main():
  async with Net() as n, Rig(n) as r:
    o = await r.out(3)
    t = SliderUITask(r.c, SliderUIConfig(out_topic=3, repeat_interval=0.1))
    await asyncio.wait_for(r.c.request_address(), 5); await r.run(t); await asyncio.sleep(0.5)
    got = await r.all(o, 0.05)
    assert len(got) >= 3, got
run(main)
''')
S("t14-cut-before-joined", "T14", [(TD + "ui/textdisplay.py", "        if self.config.max_length != -1: new_text = new_text[-self.config.max_length:]\n", ""), (TD + "ui/textdisplay.py", "new_text = self.value.value + self.config.seperator + message.value\n        else: new_text = message.value\n", "new_text = self.value.value + self.config.seperator + message.value\n        else: new_text = message.value\n        if self.config.max_length > 0: new_text = (self.value.value if self.config.append else \"\")[-self.config.max_length:] + new_text[len(self.value.value) if self.config.append else -self.config.max_length:]\n")],
  "texts that are joined beyond the maximum length", "more than the maximum is shown", PREK + '''
from streamtasks.system.tasks.ui.textdisplay import *
async def main():
  async with Net() as n, Rig(n) as r:
    i = await r.inp(101)
    t = TextDisplayTask(r.c, TextDisplayConfig(in_topic=101, max_length=5, seperator="", append=True))
    await asyncio.wait_for(r.c.request_address(), 5); await r.run(t)
    for k, v in enumerate(("abc", "def")): await i.send(text(k, v)); await asyncio.sleep(0.05)
    assert t.value.value == "bcdef", t.value
run(main)
''')
S("t14-bad-value-resets", "T14", [(TD + "ui/valuedisplaybar.py", "except ValidationError: pass", "except ValidationError: self.value = type(self.value)(value=self.config.min_value)")],
  "a message without a value after one with a value", "the bar falls back", PREK + '''
from streamtasks.system.tasks.ui.valuedisplaybar import *
async def main():
  async with Net() as n, Rig(n) as r:
    i = await r.inp(101)
    t = ValueDisplayBarTask(r.c, ValueDisplayBarConfig(in_topic=101))
    await asyncio.wait_for(r.c.request_address(), 5); await r.run(t)
    await i.send(number(1, 0.75)); await i.send(RawData({"timestamp": 2})); await asyncio.sleep(0.1)
    assert t.value.value == 0.75, t.value
run(main)
''')
