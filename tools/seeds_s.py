exec(open(os.path.join(HERE, "seeds_c.py")).read().split("\nS(")[0])
STK, STW, SNT, SECR = ["streamtasks/system/" + x for x in ("task.py", "task_web.py", "named_topic_manager.py", "secret_manager.py")]
PRES = PREC + '''
from uuid import uuid4
from streamtasks.system.task import *
from streamtasks.system.task import Task, TaskHost, TaskManager, TaskManagerClient
class BC:
  def __init__(self): self.out = []
  async def broadcast(self, ns, data): self.out.append((ns, data))
class Fn(Task):
  def __init__(self, client, fn, up=None): super().__init__(client); self.fn = fn; self.up = up
  async def setup(self): return await self.up() if self.up else {}
  async def run(self): await self.fn()
class Host(TaskHost):
  async def create_task(self, config, ts): return self.make()
async def host(n):
  h = Host(); h.client = await n.client(); h.api = asyncio.create_task(h.run_api()); await asyncio.sleep(0.05); return h
async def manager(n):
  m = TaskManager(); m.client = await n.client(); m.bc_server = BC()
  m.apis = [asyncio.create_task(m.run_fetch_api()), asyncio.create_task(m.run_signal_api())]; await asyncio.sleep(0.05)
  return m
class Reports:
  def __init__(self, c): self.got = []; self.s = SignalServer(c); self.s.route(TaskConstants.SD_TM_TASK_REPORT)(self.on); self.t = asyncio.create_task(self.s.run())
  async def on(self, d): self.got.append(TaskReport.model_validate(d))
'''
S("s01-exit-unreported", "S01", [(STK, "    except BaseException as e:\n      import traceback\n      print(traceback.format_exc())\n      status = TaskStatus.failed", "    except Exception as e:\n      import traceback\n      print(traceback.format_exc())\n      status = TaskStatus.failed")],
  "a task that ends with an exception that is no ordinary Exception (such as the system's own TaskNotFoundError)", "no report is sent and the task is kept for ever", PRES + '''
async def main():
  async with Net() as n:
    h = await host(n); c = await n.client(); r = Reports(c); await asyncio.sleep(0.05)
    async def fail(): raise TaskNotFoundError("gone")
    h.make = lambda: Fn(None, fail)
    await c.fetch(h.client.address, TaskConstants.FD_TASK_START, TaskStartRequest(id=uuid4(), report_address=c.address, config=None).model_dump())
    await asyncio.sleep(0.2)
    assert [x.status for x in r.got] == [TaskStatus.failed] and not h.tasks
run(main)
''')
S("s01-run-before-setup", "S01", [(STK, "        metadata = await asyncio.wait_for(task.setup(), 1) # NOTE: make this configurable\n", ""), (STK, "        self.tasks[body.id] = asyncio.create_task(self.run_task(body.id, task, body.report_address))\n        await req.respond(response)", "        await req.respond(response)"), (STK, "        response = TaskStartResponse(id=body.id, metadata=metadata, error=None)\n", "        self.tasks[body.id] = asyncio.create_task(self.run_task(body.id, task, body.report_address))\n        metadata = await asyncio.wait_for(task.setup(), 1) # NOTE: make this configurable\n        response = TaskStartResponse(id=body.id, metadata=metadata, error=None)\n")],
  "a task whose setup fails", "the start is answered with an error but the task runs", PRES + '''
async def main():
  async with Net() as n:
    h = await host(n); c = await n.client(); ran = []
    async def work(): ran.append(1)
    async def up():
      await asyncio.sleep(0.05); raise ValueError("no")
    h.make = lambda: Fn(None, work, up)
    a = TaskStartResponse.model_validate(await c.fetch(h.client.address, TaskConstants.FD_TASK_START, TaskStartRequest(id=uuid4(), report_address=c.address, config=None).model_dump()))
    await asyncio.sleep(0.1)
    assert a.error == "no" and not ran
run(main)
''')
S("s01-register-first", "S01", [(STK, "    await self.client.fetch(endpoint, TaskConstants.FD_REGISTER_TASK_HOST, reg.model_dump())\n    self._registered_at_endpoints.append(endpoint)", "    self._registered_at_endpoints.append(endpoint)\n    await self.client.fetch(endpoint, TaskConstants.FD_REGISTER_TASK_HOST, reg.model_dump())")],
  "a registration that is refused", "the host counts as registered where it is not", PRES + '''
async def main():
  async with Net() as n:
    h = await host(n); c = await n.client()
    s = FetchServer(c)
    @s.route(TaskConstants.FD_REGISTER_TASK_HOST)
    async def _(req): await req.respond_error(new_fetch_body_bad_request("no"))
    t = asyncio.create_task(s.run()); await asyncio.sleep(0.05)
    try: await h.register(c.address)
    except FetchError: pass
    assert h._registered_at_endpoints == []
run(main)
''')
S("s02-failed-start-kept", "S02", [(STK, "        if task_instance.status == TaskStatus.failed: self.tasks.pop(task_instance.id)\n", "        if task_instance.status == TaskStatus.failed: self.tasks.pop(task_host.id, None)\n")],
  "a task whose host answers its start with an error", "the failed task is kept by the manager", PRES + '''
async def main():
  async with Net() as n:
    m = await manager(n); h = await host(n); c = await n.client(); tc = TaskManagerClient(c, m.client.address)
    async def work(): pass
    async def up(): raise ValueError("no")
    h.make = lambda: Fn(None, work, up)
    await h.register(m.client.address)
    i = await tc.schedule_start_task(h.id, None)
    assert i.status is TaskStatus.failed and i.error == "no" and i.id not in m.tasks
run(main)
''')
S("s02-scheduled-after-unregister", "S02", [(STK, "if task.host_id != data.id }", "if task.host_id != data.id or task.status is TaskStatus.scheduled }")],
  "a host unregisters while a task scheduled on it has not been started", "the task of a host that is gone stays", PRES + '''
async def main():
  async with Net() as n:
    m = await manager(n); h = await host(n); c = await n.client(); tc = TaskManagerClient(c, m.client.address)
    await h.register(m.client.address)
    i = await tc.schedule_task(h.id)
    await h.unregister(m.client.address); await asyncio.sleep(0.1)
    assert i.id not in m.tasks
run(main)
''')
S("s02-report-keeps-error", "S02", [(STK, "      task.error = report.error\n", "      if report.error: task.error = report.error\n")],
  "a report without an error of a task that had one", "an old error is announced", PRES + '''
async def main():
  async with Net() as n:
    m = await manager(n); c = await n.client(); tc = TaskManagerClient(c, m.client.address)
    i = await tc.schedule_task("h")
    for s, e in ((TaskStatus.running, "old"), (TaskStatus.running, "")):
      await send_signal(c, m.client.address, TaskConstants.SD_TM_TASK_REPORT, TaskReport(id=i.id, status=s, error=e).model_dump())
    await asyncio.sleep(0.1)
    assert m.tasks[i.id].error == ""
run(main)
''')
SBU, SUT, SCN, SDI, SCM = ["streamtasks/" + x for x in ("system/builder.py", "utils.py", "connection.py", "services/discovery.py", "system/connection_manager.py")]
PREL = PRES + '''
from streamtasks.net import Switch
from streamtasks.utils import AsyncTaskManager
async def attached(w):
  sw = Switch(); l = await w.create_link(); await sw.add_link(l); return sw, l
'''
S("s03-reconnector-cancelled", "S03", [(SCN, "    finally: await self.shutdown()\n", "    except Exception: # never ends by itself\n      await self.shutdown()\n      raise\n")],
  "a reconnector cancelled while it waits to reconnect", "its switch goes on, the system keeps a link to it", PREL + '''
from streamtasks.connection import AutoReconnector
async def main():
  async def connect(): raise ConnectionRefusedError()
  w = AutoReconnector(connect, 30); sw, l = await attached(w)
  t = asyncio.create_task(w.run()); await asyncio.sleep(0.05); t.cancel()
  await asyncio.gather(t, return_exceptions=True); await asyncio.sleep(0.05)
  assert l.closed
run(main)
''')
S("s03-name-before-try", "S03", [(STK, "    try:\n      self.client = await self.create_client()\n      self.client.start()\n      await self.client.request_address()\n      self.bc_server", "    self.client = await self.create_client()\n    self.client.start()\n    await self.client.request_address()\n    try:\n      self.bc_server")],
  "a task manager stopped while it waits for its address (no discovery service answers)", "its switch is never stopped", PREL + '''
async def main():
  w = TaskManager(); sw, l = await attached(w)
  t = asyncio.create_task(w.run()); await asyncio.sleep(0.1); t.cancel()
  await asyncio.gather(t, return_exceptions=True); await asyncio.sleep(0.05)
  assert l.closed
run(main)
''')
S("s03-stop-restart", "S03", [(SCM, "    self.task.cancel()\n    try: await self.task\n", "    task, self.task = self.task, None\n    task.cancel()\n    try: await asyncio.wait_for(asyncio.shield(task), 0)\n    except TimeoutError: pass\n")],
  "a connection whose clean-up takes a moment", "it is reported as stopped while it still runs", PREL + '''
import tempfile, os
os.environ["DATA_DIR"] = tempfile.mkdtemp()
from streamtasks.system.connection_manager import ConnectionUrlData
from streamtasks.utils import AsyncTrigger
class W:
  ended = False
  async def run(self):
    try: await asyncio.Future()
    finally:
      await asyncio.sleep(0.05); self.ended = True
  async def wait_connected(self, _): await asyncio.Future()
async def main():
  w = W(); d = ConnectionUrlData("none:", w, AsyncTrigger()); d.start(); await asyncio.sleep(0.02)
  await d.stop()
  assert w.ended
run(main)
''')
S("s04-slow-forgotten", "S04", [(SUT, "      self._tasks = [ (priority, task) for priority, task in self._tasks if not task.done() ]\n    self._frozen", "      self._tasks = [ (priority, task) for priority, task in self._tasks if task not in next_tasks ]\n    self._frozen")],
  "a component that takes longer to end than a round waits", "what it depends on is stopped before it has ended, and stopping returns early", PREL + '''
async def main():
  m = AsyncTaskManager(default_frozen=True); log = []
  async def comp(name, delay):
    try: await asyncio.Future()
    finally:
      log.append("stopping " + name); await asyncio.sleep(delay); log.append("ended " + name)
  slow = m.create(comp("host", 0.5), 0); m.create(comp("net", 0), 3); await asyncio.sleep(0.02)
  await m.cancel_all(timeout=2)
  assert log == ["stopping host", "ended host", "stopping net", "ended net"], log
  log.clear()
  async def stubborn():
    for _ in range(2):
      try: await asyncio.Future()
      except asyncio.CancelledError: log.append("cancelled")
  t = m.create(stubborn(), 0); m.create(comp("net", 0), 3); await asyncio.sleep(0.02)
  await m.cancel_all(timeout=0.1)
  assert t.done() and log[:2] == ["cancelled", "cancelled"], log
run(main)
''')
S("s04-linked-late", "S04", [(SBU, "    await self.switch.add_link(await worker.create_link())\n    self.tasks.create(worker.run(), priority)", "    link = await worker.create_link()\n    self.tasks.create(worker.run(), priority)\n    await asyncio.sleep(0)\n    await self.switch.add_link(link)")],
  "a component that looks at the network as soon as it runs", "it runs without being attached", PREL + '''
import tempfile, os
os.environ["DATA_DIR"] = tempfile.mkdtemp()
from streamtasks.system.builder import SystemBuilder
from streamtasks.worker import Worker
async def main():
  b = SystemBuilder(); seen = []
  class W(Worker):
    async def run(self): seen.append(len(b.switch.link_manager.links))
  await b._start_worker(W(), 1); await asyncio.sleep(0.05)
  assert seen == [1], seen
run(main)
''')
S("s04-discovery-first", "S04", [(SBU, "await self._start_worker(DiscoveryWorker(), TaskPriorities.Infra)", "await self._start_worker(DiscoveryWorker(), TaskPriorities.System)"), (SBU, "TaskPriorities.Network)\n  async def start_server", "TaskPriorities.Infra)\n  async def start_server")],
  "stopping a whole system", "the discovery service stops while local components still use it, connections close together with the shared services", PREL + '''
import tempfile, os
os.environ["DATA_DIR"] = tempfile.mkdtemp()
from streamtasks.system.builder import SystemBuilder
async def main():
  b = SystemBuilder(); prios = {}
  async def start(w, priority=0): prios[type(w).__name__] = priority
  b._start_worker = start
  await b.start_discovery(); await b.start_connector("none:"); b.disovery_ready = True; await b.start_user_endpoint(1)
  assert prios["HTTPServerOverASGI"] < prios["DiscoveryWorker"] < prios["AutoReconnector"], prios
run(main)
''')
