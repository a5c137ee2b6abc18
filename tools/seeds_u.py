exec(open(os.path.join(HERE, "seeds_s.py")).read().split("\nS(")[0])
TD = "streamtasks/system/tasks/"
PREU = PRES + '''
import contextlib
class Mod:
  def __init__(self, **k): self.__dict__.update(k)
'''
S("u02-inputs-unbound", "U02", [(TD + "textformatter.py", "    tasks: list[asyncio.Task] = []\n    try:\n      async with contextlib.AsyncExitStack() as exit_stack:\n", "    try:\n      async with contextlib.AsyncExitStack() as exit_stack:\n"), (TD + "textformatter.py", "        for in_topic, var_name, default_value in self.in_topics:\n", "        tasks: list[asyncio.Task] = []\n        for in_topic, var_name, default_value in self.in_topics:\n")],
  "a text formatter whose output topic cannot be opened", "the clean-up fails with an UnboundLocalError that hides why the task failed", PREU + '''
from streamtasks.system.tasks.textformatter import *
async def main():
  async with Net() as n:
    c = await n.client()
    t = TextFormatterTask(c, TextFormatterConfig(out_topic=1, template="{a}", variable_tracks=[]))
    class Top:
      async def __aenter__(self): raise ConnectionError("link is gone")
      async def __aexit__(self, *_): pass
    t.out_topic = Top()
    try: await t.run(); assert False
    except ConnectionError: pass
run(main)
''')
S("u02-executor", "U02", [(STK, "    fut: None | asyncio.Future = None\n    async with self.init():", "    async with self.init():"), (STK, "        if fut: await fut\n", "        await fut\n")],
  "the work of a synchronous task cannot be started (its executor is shut down)", "the task fails with an UnboundLocalError, the real error is lost", PREU + '''
from streamtasks.system.task import SyncTask
class T(SyncTask):
  @contextlib.asynccontextmanager
  async def init(self): yield
  def run_sync(self): pass
async def main():
  async with Net() as n:
    h = await host(n); c = await n.client(); r = Reports(c); await asyncio.sleep(0.05)
    h.make = lambda: T(h.client)
    def no(*a): raise RuntimeError("executor is shut down")
    asyncio.get_running_loop().run_in_executor = no
    await c.fetch(h.client.address, TaskConstants.FD_TASK_START, TaskStartRequest(id=uuid4(), report_address=c.address, config=None).model_dump())
    await asyncio.sleep(0.2)
    assert [x.error for x in r.got] == ["executor is shut down"], r.got
run(main)
''')
S("u03-task-takes-any", "U03", [(TD + "textformatter.py", "          await self.send_value(message.timestamp)\n        except ValidationError: pass", "          await self.send_value(message.timestamp)\n        except BaseException: pass")],
  "a text formatter that is cancelled while it sends a value", "its input loop absorbs the cancellation and goes on", PREU + '''
from streamtasks.system.tasks.textformatter import *
from streamtasks.net.messages import TopicDataMessage
async def main():
  async with Net() as n:
    c = await n.client()
    t = TextFormatterTask(c, TextFormatterConfig(out_topic=1, template="{a}", variable_tracks=[]))
    class In:
      async def recv_data_control(self): await asyncio.sleep(0.01); return RawData(TextMessage(timestamp=1, value="x").model_dump())
    entered = asyncio.Event()
    async def send(ts): entered.set(); await asyncio.sleep(30)
    t.send_value = send
    task = asyncio.create_task(t.run_input(In(), "a", ""))
    await entered.wait(); task.cancel()
    await asyncio.sleep(0.2)
    assert task.done()
run(main)
''')
S("u03-sync-task-finished", "U03", [(STK, "        await asyncio.shield(fut)\n", "        try: await asyncio.shield(fut)\n        except asyncio.CancelledError: pass\n")],
  "a synchronous task that is cancelled while its thread works", "it is reported as ended instead of stopped", PREU + '''
import time
from streamtasks.system.task import SyncTask
class T(SyncTask):
  @contextlib.asynccontextmanager
  async def init(self): yield
  def run_sync(self):
    while not self.stop_event.is_set(): time.sleep(0.01)
async def main():
  async with Net() as n:
    h = await host(n); c = await n.client(); r = Reports(c); await asyncio.sleep(0.05)
    h.make = lambda: T(h.client); id = uuid4()
    await c.fetch(h.client.address, TaskConstants.FD_TASK_START, TaskStartRequest(id=id, report_address=c.address, config=None).model_dump())
    await asyncio.sleep(0.1)
    await c.fetch(h.client.address, TaskConstants.FD_TASK_CANCEL, TaskCancelRequest(id=id).model_dump())
    await asyncio.sleep(0.3)
    assert [x.status for x in r.got] == [TaskStatus.stopped], r.got
run(main)
''')
S("u04-inputs-outlive", "U04", [(TD + "textformatter.py", "    tasks: list[asyncio.Task] = []\n    try:\n      async with contextlib.AsyncExitStack() as exit_stack:", "    tasks: list[asyncio.Task] = []\n    if True:\n      async with contextlib.AsyncExitStack() as exit_stack:"), (TD + "textformatter.py", "        await asyncio.gather(*tasks)\n    finally:\n      for task in tasks: task.cancel()\n", "        await asyncio.gather(*tasks)\n")],
  "one input of a text formatter fails while others run", "the other inputs are processed for ever although the task has failed", PREU + '''
from streamtasks.system.tasks.textformatter import *
async def main():
  async with Net() as n:
    c = await n.client()
    t = TextFormatterTask(c, TextFormatterConfig(out_topic=1, template="{a}", variable_tracks=[TextFormatterVarConfig(in_topic=2, name="a"), TextFormatterVarConfig(in_topic=3, name="b")] if "TextFormatterVarConfig" in globals() else [dict(in_topic=2, name="a", default_text=""), dict(in_topic=3, name="b", default_text="")]))
    inner = []
    async def one(topic, name, d):
      inner.append(asyncio.current_task())
      if name == "b":
        await asyncio.sleep(0.05); raise RuntimeError("broken")
      await asyncio.sleep(30)
    t.run_input = one
    try: await t.run()
    except RuntimeError: pass
    await asyncio.sleep(0.1)
    assert len(inner) == 2 and all(x.done() for x in inner)
run(main)
''')
S("u04-camera-kept", "U04", [(TD + "media/videoinput.py", "    finally:\n      vc.release()\n", "    except cv2.error: vc.release()\n    else: vc.release()\n")],
  "reading an image from the camera fails", "the camera stays open", PREU + '''
import streamtasks.system.tasks.media.videoinput as vi
class Cam:
  released = 0
  def __init__(self, i): pass
  def set(self, *a): pass
  def isOpened(self): return True
  def read(self): return False, None
  def release(self): Cam.released += 1
async def main():
  vi.cv2 = Mod(VideoCapture=Cam, CAP_PROP_FPS=5, error=OSError)
  t = vi.VideoInputTask.__new__(vi.VideoInputTask)
  t.config = Mod(camera_id=0, rate=30, width=2, height=2, pixel_format="rgb24"); t.frame_duration = 33
  import threading
  t.stop_event = threading.Event()
  try: t.run_sync(); assert False
  except Exception as e: assert "read image" in str(e)
  assert Cam.released == 1
run(main)
''')
S("u04-coder-kept", "U04", [(TD + "media/audioencoder.py", "    try:\n      async with self.out_topic, self.out_topic.RegisterContext(), self.in_topic, self.in_topic.RegisterContext(), context_task(self._run_receiver()):\n        self.client.start()\n        yield\n    finally:\n      self.encoder.close()", "    async with self.out_topic, self.out_topic.RegisterContext(), self.in_topic, self.in_topic.RegisterContext(), context_task(self._run_receiver()):\n      self.client.start()\n      yield\n    self.encoder.close()")],
  "an audio encoder whose work fails or is cancelled", "the encoder is not closed", PREU + '''
import streamtasks.system.tasks.media.audioencoder as ae
class Enc:
  closed = 0
  def close(self): self.closed += 1
class Top:
  async def __aenter__(self): return self
  async def __aexit__(self, *_): pass
  def RegisterContext(self): return self
async def main():
  t = ae.AudioEncoderTask.__new__(ae.AudioEncoderTask)
  t.encoder = Enc(); t.out_topic = Top(); t.in_topic = Top(); t.client = Mod(start=lambda: None)
  async def recv(): await asyncio.sleep(30)
  t._run_receiver = recv
  try:
    async with t.init(): raise ValueError("x")
  except ValueError: pass
  assert t.encoder.closed == 1
run(main)
''')
UT = "streamtasks/utils.py"
S("u05-false-not-told", "U05", [(UT, "      self._value = value\n      self._change_trigger.trigger()\n", "      self._value = value\n      if self._value or len(self._change_trigger._futs) > 1: self._change_trigger.trigger()\n")],
  "a single waiter for a value that becomes false", "it waits for ever", PREU + '''
from streamtasks.utils import *
async def main():
  b = AsyncBool(True)
  t = asyncio.create_task(b.wait(False)); await asyncio.sleep(0.02)
  b.set(False)
  await asyncio.wait_for(t, 2)
asyncio.run(main())
''')
S("u05-delete-untold", "U05", [(UT, "    del self._data[key]\n    self._change_trigger.trigger()\n", "    if self._data.pop(key) is None: self._change_trigger.trigger()\n")],
  "an entry removed from a dictionary somebody waits on", "the waiter is not told", PREU + '''
from streamtasks.utils import *
async def main():
  o = AsyncObservableDict({ "a": 1 })
  t = asyncio.create_task(o.wait_change()); await asyncio.sleep(0.02)
  del o["a"]
  await asyncio.wait_for(t, 2)
asyncio.run(main())
''')
S("u05-removed-table", "U05", [(UT, "      event = self._waiting_ids_removed.pop(id, None)\n", "      event = self._waiting_ids_added.pop(id, None)\n")],
  "somebody who waits for an id to be removed", "the wait never ends", PREU + '''
from streamtasks.utils import *
async def main():
  t = AwaitableIdTracker()
  t.add_many([5])
  w = asyncio.create_task(t.wait_for_id_removed(5)); await asyncio.sleep(0.02)
  t.remove_many([5])
  await asyncio.wait_for(w, 2)
asyncio.run(main())
''')
