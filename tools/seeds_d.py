exec(open(os.path.join(HERE, "seeds_s.py")).read().split("\nS(")[0])
SPD, SBUI = "streamtasks/pydanticdb.py", "streamtasks/system/builder.py"
PRED = PRES + '''
import os, tempfile, httpx, json
os.environ["DATA_DIR"] = tempfile.mkdtemp()
from uuid import uuid4
from streamtasks.system import task_web, named_topic_manager, secret_manager, connection_manager
from streamtasks.system.task_web import *
from streamtasks.system.named_topic_manager import NamedTopicManager
from streamtasks.system.secret_manager import SecretManager
class Captured(Exception): pass
def web(w, fname="run_web_server"):
  m = __import__(type(w).__module__, fromlist=["x"]); got = []
  class Fake:
    def __init__(self, client, app): got.append(app)
    async def run(self): pass
  m.ASGIAppRunner, old = Fake, m.ASGIAppRunner
  async def go():
    if not hasattr(w, "client"): w.client = None
    try: await getattr(w, fname)()
    finally: m.ASGIAppRunner = old
    return httpx.AsyncClient(transport=httpx.ASGITransport(app=got[0]), base_url="http://x")
  return go()
def backend(): return TaskWebBackend()
async def tweb(w): return await web(w, "run_asgi_server")
def dep(**k): return {"id": str(uuid4()), "label": "d", **k}
def task(d, **k): return {"id": str(uuid4()), "deployment_id": d, "task_host_id": "h", "label": "t", "config": {"a": 1}, "frontend_config": {}, "inputs": [], "outputs": [], **k}
class TM:
  def __init__(self): self.calls = []; self.insts = {}; self.gate = None
  async def schedule_task(self, host, ts):
    if self.gate: await self.gate.wait()
    i = TaskInstance(id=uuid4(), host_id=host, topic_space_id=ts, metadata={}, error=None, status=TaskStatus.scheduled); self.insts[i.id] = i; self.calls.append(("schedule", host, ts, i.id)); return i
  async def start_task(self, id, config): self.calls.append(("start", id, config)); return self.insts[id].model_copy(update={"status": TaskStatus.running})
  async def cancel_task_wait(self, id): self.calls.append(("cancel", id)); return self.insts[id]
  def task_receiver(self, ids): return Updates()
class Updates:
  async def __aenter__(self): return self
  async def __aexit__(self, *a): pass
  async def get(self): await asyncio.sleep(3600)
spaces = []
async def reg_space(client, ids): spaces.append(set(ids)); return len(spaces), {}
async def del_space(client, id): spaces.append(("deleted", id))
task_web.register_topic_space, task_web.delete_topic_space = reg_space, del_space
'''
S("s05-only-started", "S05", [(STW, "    if deployment.id in self.running_deployments: raise ValueError(\"Deployment is running!\")\n    if next(", "    if (rd := self.running_deployments.get(deployment.id, None)) is not None and rd.task_instance_configs is None: raise ValueError(\"Deployment is running!\")\n    if next(")],
  "an update of a deployment that is scheduled but not started yet", "a scheduled deployment is changed under its feet", PRED + '''
async def main():
  b = backend(); b.tm_client = TM(); w = await tweb(b); d = dep()
  assert (await w.post("/api/deployment", json=d)).status_code == 200
  assert (await w.post(f"/api/deployment/{d['id']}/schedule")).status_code == 200
  r = await w.put("/api/deployment", json={**d, "label": "new"})
  assert r.status_code >= 400 and (await w.get(f"/api/deployment/{d['id']}")).json()["label"] == "d"
run(main)
''')
S("s05-while-scheduling", "S05", [(STW, "    task = await self.get_task(id)\n    if task.deployment_id in self.running_deployments: raise", "    task = await self.get_task(id)\n    if task.task_instance is not None: raise")],
  "deleting a task while its deployment is still being scheduled", "the task of a scheduled deployment is deleted, its instance stays", PRED + '''
async def main():
  b = backend(); b.tm_client = TM(); b.tm_client.gate = asyncio.Event(); w = await tweb(b); d = dep(); t = task(d["id"])
  await w.post("/api/deployment", json=d); assert (await w.put("/api/task", json=t)).status_code == 200
  s = asyncio.create_task(w.post(f"/api/deployment/{d['id']}/schedule")); await asyncio.sleep(0.05)
  r = await w.delete(f"/api/task/{t['id']}"); b.tm_client.gate.set(); await s
  assert r.status_code >= 400 and len(b.store.tasks.entries) == 1
run(main)
''')
S("s06-moved-dashboard", "S06", [(STW, "[d for d in self.dashboards.entries if d.id != db.id] + [db]", "[d for d in self.dashboards.entries if d.deployment_id != db.deployment_id or d.id != db.id] + [db]")],
  "a dashboard that is moved to another deployment", "two dashboards with one id are stored", PRED + '''
async def main():
  b = backend(); w = await tweb(b); d1, d2 = dep(), dep(); x = {"id": str(uuid4()), "deployment_id": d1["id"], "label": "x", "windows": []}
  await w.put("/api/dashboard", json=x); await w.put("/api/dashboard", json={**x, "deployment_id": d2["id"]})
  assert len(b.store.dashboards.entries) == 1 and (await w.get(f"/api/deployment/{d1['id']}/dashboards")).json() == []
run(main)
''')
S("s06-last-unsaved", "S06", [(SNT, "      data = NamedTopicRequestModel.model_validate(req.body)\n      self.db.update(e for e in self.db.entries if e.name != data.name)\n      self.db.save()\n", "      data = NamedTopicRequestModel.model_validate(req.body)\n      entries = [e for e in self.db.entries if e.name != data.name]\n      self.db.update(entries)\n      if entries: self.db.save()\n")],
  "deleting the last named topic and a restart", "the topic is back after the restart", PRED + '''
async def main():
  async with Net() as n:
    m = NamedTopicManager(); m.client = await n.client(); c = await n.client()
    t = asyncio.create_task(m.run_fetch_server()); await asyncio.sleep(0.05)
    await c.fetch(m.client.address, "put_named_topic", {"name": "a", "metadata": {}})
    await c.fetch(m.client.address, "delete_named_topic", {"name": "a"})
    assert NamedTopicManager().db.entries == []
    t.cancel()
run(main)
''')
S("s06-slash-name", "S06", [(SNT, "      name = unquote(ctx.params[\"name\"])\n      self.db.update(", "      name = unquote(ctx.params[\"name\"]).strip()\n      self.db.update(")],
  "a named topic whose name ends with a blank", "deleting it removes another topic", PRED + '''
async def main():
  m = NamedTopicManager(); w = await web(m)
  for x in ("a", "a "): await w.put("/api/named-topic", json={"name": x, "metadata": {}})
  await w.delete("/api/named-topic/a%20")
  assert [e.name for e in m.db.entries] == ["a"]
run(main)
''')
SCM = "streamtasks/system/connection_manager.py"
PDBD = PRED + '''
from streamtasks.pydanticdb import PydanticDB
class M(BaseModel):
  name: str
  config: dict = {}
fn = os.path.join(os.environ["DATA_DIR"], "x.json")
'''
S("p01-shallow-copies", "P01", [(SPD, "return copy.deepcopy(self._entries)", "return [entry.model_copy() for entry in self._entries]")],
  "an entry with a nested value that whoever read it changes", "the stored entry is changed without being updated or saved", PDBD + '''
d = PydanticDB(M, fn); d.update([M(name="a", config={"x": 1})])
d.entries[0].config["x"] = 2
assert d.entries[0].config == {"x": 1}
''')
S("p01-start-empty", "P01", [(SPD, "    if os.path.exists(filename): self.load()\n", "    if os.path.exists(filename):\n      try: self.load()\n      except ValueError: pass\n")],
  "a stored file that no longer fits the model", "the component starts empty and its next change overwrites all entries", PDBD + '''
open(fn, "w").write('[{"name": "a"}, {"nam": "b"}]')
try: d = PydanticDB(M, fn); d.update([M(name="c")]); d.save()
except ValueError: pass
assert "\\"a\\"" in open(fn).read()
''')
S("p01-shared-list", "P01", [(SPD, "self._entries = list(entries)", "self._entries = entries if isinstance(entries, list) else list(entries)")],
  "a caller that goes on using the list it stored", "entries are stored that were never given to the database", PDBD + '''
d = PydanticDB(M, fn); l = [M(name="a")]; d.update(l); l.append(M(name="b")); d.save()
assert [e.name for e in PydanticDB(M, fn).entries] == ["a"]
''')
CMD = PRED + '''
from streamtasks.system.connection_manager import ConnectionManager
from streamtasks.net import Switch
async def cm(): return ConnectionManager()
'''
S("p02-id-of-shown", "P02", [(SCM, "id_hash.update(self.url.encode(\"utf-8\"))", "id_hash.update(self.sanitized_url.encode(\"utf-8\"))")],
  "two connections whose urls differ in what is not shown", "the second one is refused as if it existed, or the wrong one is removed", CMD + '''
async def main():
  m = await cm(); w = await web(m)
  for q in ("a", "b"): r = await w.post("/api/connection", json={"url": f"tcp://user{q}@localhost:1/"}); assert r.status_code == 200, r.status_code
  await w.delete("/api/connection/" + m._connection_url_data[0].id)
  assert m.get_connection_urls() == ["tcp://userb@localhost:1/"]
  for d in m._connection_url_data: await d.stop()
run(main)
''')
S("p02-only-running-stored", "P02", [(SCM, "json.dumps([ data.url for data in self._server_url_data ])", "json.dumps([ data.url for data in self._server_url_data if data.running ])")],
  "a server that failed (its port is taken) when another one is added", "the failed server is forgotten at the next restart", CMD + '''
async def main():
  m = await cm(); w = await web(m)
  import socket; s = socket.socket(); s.bind(("127.0.0.1", 0)); s.listen(1); port = s.getsockname()[1]
  u = f"tcp://127.0.0.1:{port}"; assert (await w.post("/api/server", json={"url": u})).status_code == 200
  await asyncio.sleep(0.3)
  v = "tcp://127.0.0.1:0"; assert (await w.post("/api/server", json={"url": v})).status_code == 200
  assert m.get_server_urls() == [u, v], m.get_server_urls()
  for d in m._server_url_data: await d.stop()
run(main)
''')
S("p02-kinds-mixed", "P02", [(SCM, "for url in self.get_server_urls(): self._server_url_data.append(await self.create_server_url_data(url))", "for url in self.get_server_urls(): self._server_url_data.append(await (self.create_server_url_data if url not in self.get_connection_urls() else self.create_connection_url_data)(url))")],
  "one url stored both as a connection and as a server, and a restart", "the server is started as a connection", CMD + '''
async def main():
  m = await cm(); u = "tcp://127.0.0.1:0"; m.db["connection"] = m.db["server"] = json.dumps([u]).encode()
  async def nothing(): pass
  m.run_web_server = nothing; await m.run_inner()
  assert type(m._server_url_data[0]).__name__ == "ServerUrlData"
run(main)
''')
S("s07-config-by-host", "S07", [(STW, "        running_deployment.task_instance_configs[task_instance.id] = task.config\n", "        running_deployment.task_instance_configs[task_instance.host_id] = task.config\n"), (STW, "running_deployment.task_instance_configs.get(task_instance.id, None)", "running_deployment.task_instance_configs.get(task_instance.host_id, None)")],
  "two tasks of one deployment on the same host", "both are started with the configuration of one of them", PRED + '''
async def main():
  b = backend(); b.tm_client = TM(); w = await tweb(b); d = dep(); await w.post("/api/deployment", json=d)
  for x in (1, 2): assert (await w.put("/api/task", json=task(d["id"], config={"a": x}))).status_code == 200
  await w.post(f"/api/deployment/{d['id']}/schedule"); await w.post(f"/api/deployment/{d['id']}/start")
  assert sorted(c[2]["a"] for c in b.tm_client.calls if c[0] == "start") == [1, 2]
run(main)
''')
S("s07-one-unknown", "S07", [(STW, "        try: await self.tm_client.cancel_task_wait(task_instance.id)\n        except TaskNotFoundError: pass\n      await asyncio.gather(*(stop_task(task_instance) for task_instance in running_deployment.task_instances.values()))\n", "        await self.tm_client.cancel_task_wait(task_instance.id)\n      try: await asyncio.gather(*(stop_task(task_instance) for task_instance in running_deployment.task_instances.values()))\n      except TaskNotFoundError: pass\n")],
  "stopping a deployment of which one task has ended already", "the other tasks are not waited for before their topic space is deleted", PRED + '''
async def main():
  b = backend(); b.tm_client = tm = TM(); w = await tweb(b); d = dep(); await w.post("/api/deployment", json=d)
  for x in (1, 2): await w.put("/api/task", json=task(d["id"]))
  await w.post(f"/api/deployment/{d['id']}/schedule"); ids = list(tm.insts); ended = []
  async def cancel(id):
    if id == ids[0]: raise TaskNotFoundError()
    await asyncio.sleep(0.1); ended.append(id)
  tm.cancel_task_wait = cancel
  async def ds(client, id): assert ended == ids[1:], ended
  task_web.delete_topic_space = ds
  assert (await w.post(f"/api/deployment/{d['id']}/stop")).status_code == 200
run(main)
''')
S("s07-inputs-only", "S07", [(STW, "(int(output[\"topic_id\"]) for output in task.outputs) for task in tasks))", "(int(output[\"topic_id\"]) for output in task.outputs) for task in tasks if len(task.inputs) > 0 or len(tasks) == 1))")],
  "a deployment with a task without inputs and another task", "the topic of its output is not in the topic space of the deployment", PRED + '''
async def main():
  b = backend(); b.tm_client = TM(); w = await tweb(b); d = dep(); await w.post("/api/deployment", json=d)
  await w.put("/api/task", json=task(d["id"], outputs=[{"topic_id": 5}])); await w.put("/api/task", json=task(d["id"], inputs=[{"key": "x", "topic_id": 5}], outputs=[{"topic_id": 6}]))
  await w.post(f"/api/deployment/{d['id']}/schedule")
  assert spaces == [{5, 6}], spaces
run(main)
''')
