exec(open(os.path.join(HERE, "seeds_d.py")).read().split("\nS(")[0])
WA, WS, STWB = "streamtasks/asgi.py", "streamtasks/asgiserver.py", "streamtasks/system/task_web.py"
PREA = PRED + '''
from streamtasks.asgi import *
from streamtasks.asgiserver import *
from streamtasks.client.fetch import *
def hc(app): return httpx.AsyncClient(transport=httpx.ASGITransport(app=app), base_url="http://x")
async def ws(app, events, path="/", **scope):
  out = []; q = list(events)
  async def receive(): return q.pop(0) if q else {"type": "websocket.disconnect"}
  async def send(e): out.append(e)
  await app({"type": "websocket", "path": path, "raw_path": path.encode(), "headers": [], "query_string": b"", **scope}, receive, send)
  return out
'''
S("a04-ws-fetch-error", "A04", [(WS, "    except BaseException:\n      if scope", "    except Exception:\n      if scope")],
  "a websocket handler in which a request to another node is answered with an error (FetchError is no Exception)", "the websocket stays open and unanswered, the error leaves the application", PREA + '''
async def main():
  app = ASGIServer(); app.add_handler(asgi_default_http_error_handler); r = ASGIRouter(); app.add_handler(r)
  @r.websocket_route("/w")
  @websocket_context_handler
  async def _(ctx): raise FetchError(("not_found", "-"))
  assert [e["type"] for e in await ws(app, [], "/w")] == ["websocket.close"]
run(main)
''')
S("a04-missing-entry", "A04", [(WA, "  except KeyError as e:\n", "  except IndexError as e:\n")],
  "stopping a deployment that is not running", "it is answered as an internal error", PREA + '''
async def main():
  b = backend(); w = await tweb(b)
  assert (await w.post(f"/api/deployment/{uuid4()}/stop")).status_code == 404
run(main)
''')
S("a04-secrets-order", "A04", [("streamtasks/system/secret_manager.py", "    app = ASGIServer()\n    app.add_handler(asgi_default_http_error_handler)\n\n    router = ASGIRouter()\n    app.add_handler(router)\n", "    app = ASGIServer()\n    router = ASGIRouter()\n    app.add_handler(router)\n    app.add_handler(asgi_default_http_error_handler)\n")],
  "an invalid body sent to the secrets", "it is answered as an internal error instead of a bad request", PREA + '''
async def main():
  w = await web(SecretManager())
  assert (await w.put("/api/secret", json={"a": 1})).status_code == 400
run(main)
''')
S("a04-delete-unanswered", "A04", [("streamtasks/system/connection_manager.py", "      self._server_url_data = [data for data in self._server_url_data if data.id != id]\n      self.update_server_urls()\n      await ctx.respond_status(200)\n", "      if len(others := [data for data in self._server_url_data if data.id != id]) > 0 or self._server_url_data:\n        self._server_url_data = others\n        self.update_server_urls()\n        if others: await ctx.respond_status(200)\n")],
  "deleting the last server", "the request is never answered", PREA + '''
from streamtasks.system.connection_manager import *
async def main():
  m = ConnectionManager(); w = await web(m)
  async def nothing(): pass
  r = await w.post("/api/server", json={"url": "tcp://127.0.0.1:0"}); assert r.status_code == 200, r.status_code
  r = await w.delete("/api/server/" + m._server_url_data[0].id); assert r.status_code == 200
run(main)
''')
S("a05-next-consumed", "A05", [(WS, "    new_scope = asgi_scope_set_state(scope, { SN_NEXT_FN: ASGINext(self._handlers[1:]) })\n    await self._handlers[0](new_scope, receive, send)", "    handler = self._handlers.pop(0)\n    await handler(asgi_scope_set_state(scope, { SN_NEXT_FN: ASGINext(self._handlers) }), receive, send)"), (WS, "await ASGINext(self._handlers)(scope, receive, send)", "await ASGINext(list(self._handlers))(scope, receive, send)")],
  "a handler that passes a request on a second time after the first try failed", "the second time the next handler is skipped", PREA + '''
async def main():
  app = ASGIServer(); n = []
  @app.handler
  @http_context_handler
  async def retry(ctx):
    try: await ctx.next()
    except ValueError: await ctx.next()
  @app.handler
  @http_context_handler
  async def flaky(ctx):
    n.append(1)
    if len(n) == 1: raise ValueError()
    await ctx.respond_status(200)
  assert (await hc(app).get("/")).status_code == 200
run(main)
''')
S("a05-query-lost", "A05", [(WS, "    await ctx.delegate(fn, { **ctx.scope, \"path\": pattern.construct(ctx.params, default_value=default_param_value) })", "    path = pattern.construct(ctx.params, default_value=default_param_value)\n    await ctx.delegate(fn, { **ctx.scope, \"path\": path, \"raw_path\": path.encode(), \"query_string\": b\"\" })")],
  "a rewritten request with a query string", "the handler behind the rewriting gets no query", PREA + '''
async def main():
  r = ASGIRouter(); app = ASGIServer(); app.add_handler(r); got = []
  @r.get("/a/{x*}")
  @path_rewrite_handler("/{x*}")
  async def _(scope, receive, send): got.append((scope["path"], scope["query_string"])); await HTTPContext(scope, receive, send).respond_status(200)
  await hc(app).get("/a/b?q=1"); assert got == [("/b", b"q=1")], got
run(main)
''')
S("a05-head-as-get", "A05", [(WS, "self.methods = set(m.upper() for m in methods)", "self.methods = set(m.upper() for m in methods)\n    if \"GET\" in self.methods: self.methods.add(\"HEAD\")")],
  "a HEAD request for a path that has a GET route before its HEAD route", "the GET handler answers it, with a body", PREA + '''
async def main():
  r = ASGIRouter(); app = ASGIServer(); app.add_handler(r)
  @r.get("/a")
  @http_context_handler
  async def _(ctx): await ctx.respond_text("x")
  @r.head("/a")
  @http_context_handler
  async def _(ctx): await ctx.respond_status(204)
  assert (await hc(app).head("/a")).status_code == 204
run(main)
''')
PRET = PREA + '''
async def pair(n, app):
  a, b = await n.client(), await n.client()
  t = asyncio.create_task(ASGIAppRunner(a, app).run()); await asyncio.sleep(0.05)
  return b, ASGIProxyApp(b, a.address), t
async def call(p, events, typ="http", path="/", timeout=3, after=None):
  out = []; q = list(events); taken = []
  async def receive():
    taken.append(1)
    if q: return q.pop(0)
    await asyncio.sleep(60)
  async def send(e): out.append(e)
  await asyncio.wait_for(p({"type": typ, "path": path, "method": "GET", "raw_path": path.encode(), "headers": [], "query_string": b""}, receive, send), timeout)
  return out, len(taken)
'''
S("a01-failed-application", "A01", [(WA, "          await self._app(config.scope, receive, send)\n      finally:\n        await sender.close()\n", "          await self._app(config.scope, receive, send)\n        await sender.close()\n      finally:\n")],
  "an application on another node that fails", "the caller waits for its events for ever", PRET + '''
async def main():
  async with Net() as n:
    async def app(scope, receive, send): raise RuntimeError("x")
    _, p, t = await pair(n, app)
    await call(p, [{"type": "http.request", "body": b"", "more_body": False}])
run(main)
''')
S("a01-websocket-left", "A01", [(WA, "        if event_type == \"http.disconnect\" or event_type == \"websocket.disconnect\": closed_event.set()\n", "        if event_type == \"http.disconnect\": closed_event.set()\n")],
  "a websocket that is disconnected by the caller while the application does not react to it", "the tunnel stays open and goes on reading from the closed websocket", PRET + '''
async def main():
  async with Net() as n:
    async def app(scope, receive, send): await asyncio.sleep(60)
    _, p, t = await pair(n, app)
    out, taken = await call(p, [{"type": "websocket.connect"}, {"type": "websocket.disconnect", "code": 1000}], "websocket")
    assert taken == 2, taken
run(main)
''')
S("a01-refused-listener", "A01", [(WA, "    tasks: list[asyncio.Task] = []\n    try:\n      init_respose_raw", "    tasks: list[asyncio.Task] = []\n    if True:\n      init_respose_raw"), (WA, "      tasks = self._start_loops(receiver, sender, receive, send)\n      done, _ = await asyncio.wait(tasks, return_when=\"FIRST_COMPLETED\")\n      for task in done: await task\n    finally:\n", "      tasks = self._start_loops(receiver, sender, receive, send)\n    try:\n      done, _ = await asyncio.wait(tasks, return_when=\"FIRST_COMPLETED\")\n      for task in done: await task\n    finally:\n")],
  "a tunnel that the serving node refuses", "the sending node keeps listening on the port of the refused tunnel", PRET + '''
async def main():
  async with Net() as n:
    a, b = await n.client(), await n.client()
    s = FetchServer(a, NetworkPorts.ASGI)
    @s.route("init")
    async def _(r): raise RuntimeError("no")
    t = asyncio.create_task(s.run()); await asyncio.sleep(0.05)
    before = len(b._receivers)
    try: await call(ASGIProxyApp(b, a.address), [])
    except FetchError: pass
    assert len(b._receivers) == before
run(main)
''')
S("a01-empty-message", "A01", [(WA, "      while recv_queue.empty() and not stop_signal.is_set():\n        data = await receiver.get()\n        for event in data.events:\n          event = MessagePackValueTransformer.deannotate_value(event)\n          await recv_queue.put(event)\n      await asyncio.sleep(0)\n      return await recv_queue.get()", "      if recv_queue.empty() and not stop_signal.is_set():\n        data = await receiver.get()\n        for event in data.events:\n          event = MessagePackValueTransformer.deannotate_value(event)\n          await recv_queue.put(event)\n      await asyncio.sleep(0)\n      return await recv_queue.get()")],
  "a message without events sent to an application", "the application never gets the events sent after it", PRET + '''
from streamtasks.asgi import ASGIEventSender, ASGIInitRequest
async def main():
  async with Net() as n:
    got = asyncio.Queue()
    async def app(scope, receive, send): await got.put(await receive())
    b, p, t = await pair(n, app)
    r = await b.fetch(p._remote_endpoint, "init", ASGIInitRequest(address=b.address, port=77, scope={}).model_dump())
    s = ASGIEventSender(b, (p._remote_endpoint[0], r["port"]))
    await s._send([]); await asyncio.sleep(0.05); await s.send({"type": "x"})
    assert (await asyncio.wait_for(got.get(), 3)) == {"type": "x"}
run(main)
''')
PREV = '''
import msgpack
from streamtasks.asgi import JSONValueTransformer, MessagePackValueTransformer
def trip(x): return [t.deannotate_value(msgpack.unpackb(msgpack.packb(t.annotate_value(x)), strict_map_key=False)) for t in (JSONValueTransformer, MessagePackValueTransformer)]
'''
S("a02-tuple-native", "A02", [(WA, "class MessagePackValueTransformer(ValueTransformer):\n  supported_types = [str, int, float, bool, bytes, bytearray, list, dict]", "class MessagePackValueTransformer(ValueTransformer):\n  supported_types = [str, int, float, bool, bytes, bytearray, list, tuple, dict]")],
  "a tuple in an event of an application", "it is taken for an encoded value on the other side, and fails or is changed", PREV + '''
for x in ((1, 2), {"a": ("list", [3])}, [("bytes", "00")]): assert trip(x) == [x, x], (x, trip(x))
''')
S("a02-set-members", "A02", [(WA, "return [\"set\", [cls.annotate_value(v) for v in value]]", "return [\"set\", list(value)]")],
  "a set of tuples or bytes", "its members do not arrive as they were sent", PREV + '''
for x in ({b"a"}, {(1, 2)}, {1, "a"}): assert trip(x) == [x, x], (x, trip(x))
''')
S("a02-bytes-text", "A02", [(WA, "elif isinstance(value, bytes) or isinstance(value, bytearray): return [\"bytes\", value.hex()]", "elif isinstance(value, bytes) or isinstance(value, bytearray): return [\"bytes\", value.decode(\"latin-1\").encode(\"utf-8\").hex()]")],
  "bytes above 127 in the scope of a request", "they arrive as other bytes", PREV + '''
for x in (b"abc", b"\\xff\\x80", [b"\\xe4"]): assert trip(x) == [x, x], (x, trip(x))
''')
S("a03-links", "A03", [(WS, "    request_path = directory_path.joinpath(ctx.path.lstrip(\"/\\\\\")).resolve()\n", "    request_path = pathlib.Path(os.path.normpath(directory_path.joinpath(ctx.path.lstrip(\"/\\\\\"))))\n")],
  "a link within the directory that leads out of it", "a file outside the directory is served", PREA + '''
async def main():
  with tempfile.TemporaryDirectory() as d:
    os.makedirs(d + "/pub"); open(d + "/secret.txt", "w").write("s"); open(d + "/pub/a.txt", "w").write("a"); os.symlink(d + "/secret.txt", d + "/pub/b.txt")
    app = ASGIServer(); app.add_handler(static_files_handler(d + "/pub", ["index.html"])); c = hc(app)
    assert (await c.get("/a.txt")).text == "a"; assert (await c.get("/b.txt")).status_code == 404
run(main)
''')
S("a03-index-order", "A03", [(WS, "  index_files = list(index_files)\n", "  index_files = sorted(set(index_files))\n")],
  "several index files whose order is not the alphabetical one", "not the first one that exists is served", PREA + '''
async def main():
  with tempfile.TemporaryDirectory() as d:
    open(d + "/main.html", "w").write("m"); open(d + "/index.html", "w").write("i")
    app = ASGIServer(); app.add_handler(static_files_handler(d, ["main.html", "index.html"])); c = hc(app)
    assert (await c.get("/")).text == "m"
run(main)
''')
S("a06-empty-part", "A06", [(WS, "    while not self._ended: body.write(await self.read())\n", "    while not self._ended and (part := await self.read()): body.write(part)\n")],
  "a body with an empty part that is not the last one", "the rest of the body is lost", PREA + '''
async def main():
  parts = [b"a", b"", b"b"]; q = [{"type": "http.request", "body": p, "more_body": i < 2} for i, p in enumerate(parts)]
  async def receive(): return q.pop(0)
  async def send(e): pass
  ctx = HTTPContext({"type": "http", "path": "/", "method": "POST", "headers": []}, receive, send)
  assert await ctx.body.read_all() == b"ab"
run(main)
''')
S("a06-length-of-text", "A06", [(WS, "async def respond_string(self, status: int, text: str, mime_type: str): await self.respond_buffer(status, text.encode(\"utf-8\"), mime_type, \"utf-8\")", "async def respond_string(self, status: int, text: str, mime_type: str):\n    writer = await self.respond(status, headers=[(b\"content-length\", str(len(text)).encode(\"utf-8\")), (b\"content-type\", f\"{mime_type}; charset=utf-8\".encode(\"utf-8\"))])\n    writer.write(text.encode(\"utf-8\"))\n    await writer.close()")],
  "a text with characters that are longer than a byte", "its length is announced too short", PREA + '''
async def main():
  out = []
  async def receive(): return {"type": "http.disconnect"}
  async def send(e): out.append(e)
  ctx = HTTPContext({"type": "http", "path": "/", "method": "GET", "headers": []}, receive, send)
  await ctx.respond_text("\u00e4\u00f6")
  n = int(dict(out[0]["headers"])[b"content-length"]); assert n == sum(len(e["body"]) for e in out[1:]), n
run(main)
''')
S("a06-empty-file", "A06", [(WS, "      while len(buf := fd.read(buffer_size)) == buffer_size:\n        writer.write(buf)\n        await writer.flush()\n      writer.write(buf)\n      await writer.flush(close=True)\n", "      remaining = st.st_size\n      while buf := fd.read(buffer_size):\n        remaining -= len(buf)\n        writer.write(buf)\n        await writer.flush(close=remaining <= 0)\n")],
  "an empty file", "the response never ends", PREA + '''
async def main():
  with tempfile.TemporaryDirectory() as d:
    open(d + "/a.txt", "w").close(); out = []
    async def receive(): return {"type": "http.disconnect"}
    async def send(e): out.append(e)
    ctx = HTTPContext({"type": "http", "path": "/", "method": "GET", "headers": []}, receive, send)
    await ctx.respond_file(d + "/a.txt", buffer_size=10)
    assert out[-1]["type"] == "http.response.body" and not out[-1].get("more_body")
run(main)
''')
S("a08-empty-message", "A08", [(WS, "      if event_type == \"message\" and data is not None: yield data\n", "      if event_type == \"message\" and data: yield data\n")],
  "a client that sends an empty message", "it is dropped", PREA + '''
async def main():
  app = ASGIServer(); got = []
  @app.handler
  @websocket_context_handler
  async def _(ctx):
    async for m in ctx.messages(): got.append(m)
  await ws(app, [{"type": "websocket.connect"}, {"type": "websocket.receive", "text": ""}, {"type": "websocket.receive", "text": "a"}])
  assert got == ["", "a"], got
run(main)
''')
S("a08-accepted-twice", "A08", [(WS, "    if self._accepted: return\n    if not self._connected:\n", "    if not self._connected:\n")],
  "a handler that accepts the websocket and then reads its messages", "it is accepted a second time", PREA + '''
async def main():
  app = ASGIServer()
  @app.handler
  @websocket_context_handler
  async def _(ctx):
    await ctx.accept()
    async for m in ctx.messages(): pass
  out = await ws(app, [{"type": "websocket.connect"}])
  assert [e["type"] for e in out] == ["websocket.accept"], out
run(main)
''')
S("a08-no-reason", "A08", [(WS, "WebsocketContext.close_reasons.get(code, \"\") if reason is None else reason", "reason or WebsocketContext.close_reasons.get(code, \"\")")],
  "a websocket closed with an empty reason", "the client is told another reason", PREA + '''
async def main():
  app = ASGIServer()
  @app.handler
  @websocket_context_handler
  async def _(ctx): await ctx.accept(); await ctx.close(1011, "")
  out = await ws(app, [{"type": "websocket.connect"}])
  assert out[-1]["reason"] == "", out
run(main)
''')
PREV_ = PREA + '''
import streamtasks.system.task_web as tw
from types import SimpleNamespace as N
seen = []
def proxy(client, ep):
  async def app(scope, receive, send): seen.append((ep, scope["path"], scope.get("query_string"))); await HTTPContext(scope, receive, send).respond_text("app")
  return app
tw.ASGIProxyApp = proxy
'''
S("a07-files-or-server", "A07", [(STWB, "    if MetadataFields.ASGISERVER in metadata:\n", "    elif_server = router.handler_count == 0\n    if elif_server and MetadataFields.ASGISERVER in metadata:\n")],
  "a task that has registered a file and an application", "its application is not reached", PREV_ + '''
async def main():
  b = backend(); w = await tweb(b)
  async def get_task(id): return N(metadata={"file:/a.txt": "a", "asgiserver": "5:101"})
  b.tm_client = N(get_task=get_task)
  id = uuid4()
  assert (await w.get(f"/task/{id}/a.txt")).text == "a"; assert (await w.get(f"/task/{id}/b?q=1")).text == "app"; assert seen == [((5, 101), "/b", b"q=1")], seen
run(main)
''')
S("a07-half-a-name", "A07", [(STWB, "        if ctx.path.startswith(reg.path):\n", "        if ctx.path.startswith(reg.path.rstrip(\"/\")):\n")],
  "a request for a path whose first part only begins like a registered one", "it reaches the application registered for the other path", PREV_ + '''
async def main():
  b = backend(); w = await tweb(b)
  b.path_registrations = [PathRegistration(id="a", path="/con/", endpoint=5), PathRegistration(id="b", path="/connections/", endpoint=6)]
  await w.get("/connections/x/y?q=1"); assert seen == [(6, "/x/y", b"q=1")], seen
run(main)
''')
S("a07-host-path", "A07", [(STWB, "    @router.transport_route(\"/task-host/{id}/{path*}\")\n    @path_rewrite_handler(\"/{path*}\")\n    @transport_context_handler\n    async def _(ctx: TransportContext):\n      id = ctx.params.get(\"id\", \"\")\n      await ctx.delegate(await self.get_task_host_asgi_handler(id))\n", "    @router.transport_route(\"/task-host/{id}/{path*}\")\n    @transport_context_handler\n    async def _(ctx: TransportContext):\n      id = ctx.params.get(\"id\", \"\")\n      await ctx.delegate(await self.get_task_host_asgi_handler(id), { **ctx.scope, \"path\": ctx.path[ctx.path.rindex(id) + len(id):] })\n")],
  "a request to a task host with its id once more in the path", "the part before it is lost", PREV_ + '''
async def main():
  b = backend(); w = await tweb(b)
  async def get_task_host(id): return N(metadata={"asgiserver": "5:101"})
  b.tm_client = N(get_task_host=get_task_host)
  await w.get("/task-host/h1/a/h1/b"); assert seen == [((5, 101), "/a/h1/b", b"")], seen
run(main)
''')
