WA, WS, WTW = "asgi.py", "asgiserver.py", "system/task_web.py"
B("A04", WA, "  except KeyError as e:\n", "  except LookupError as e:\n    if isinstance(e, KeyError): raise\n", "key errors raised on")
B("A04", WA, "except (ValidationError, ValueError) as e:", "except ValidationError as e:", "value errors 500")
B("A04", WA, "    if e.status_code == FetchErrorStatusCode.NOT_FOUND: await ctx.respond_status(404)\n    elif", "    if", "fetch not found")
B("A04", WA, "    else: await ctx.respond_status(500)\n  except Exception", "    elif e.status_code == FetchErrorStatusCode.GENERAL: await ctx.respond_status(500)\n  except Exception", "no status")
B("A04", WA, "  except Exception as e:\n", "  except BaseException as e:\n", "all")
B("A04", WA, "    if e.status_code == FetchErrorStatusCode.NOT_FOUND: await ctx.respond_status(404)\n    elif", "    if e.status_code == FetchErrorStatusCode.NOT_FOUND: await ctx.respond_status(404)\n    if", "answered twice")
B("A04", WS, "      elif scope.get(\"type\", None) == \"websocket\": await WebsocketContext(scope, receive, send).close(code=1011)\n", "", "ws left open")
B("A04", WS, "    except NoHandlerError:\n", "    except KeyError:\n", "no handler 500")
B("A04", WS, "await HTTPContext(scope, receive, send).respond_status(404)", "await HTTPContext(scope, receive, send).respond_status(400)", "400")
B("A04", WS, "  async def close(self): await self.flush(True)\n", "  async def close(self): await self.flush()\n", "never ended")
B("A04", WTW, "      await self.store.update_deployment(deployment)\n      await ctx.respond_json_string(deployment.model_dump_json())\n", "      await self.store.update_deployment(deployment)\n", "unanswered")
B("A04", "system/named_topic_manager.py", "    app.add_handler(asgi_default_http_error_handler)\n\n    router = ASGIRouter()\n    app.add_handler(router)\n", "    router = ASGIRouter()\n    app.add_handler(router)\n    app.add_handler(asgi_default_http_error_handler)\n", "after")
B("A04", "system/secret_manager.py", "    app.add_handler(asgi_default_http_error_handler)\n", "", "none")
B("A04", "system/tasks/ui/controlbase.py", "    app.add_handler(asgi_default_http_error_handler)\n", "", "none ui")
K("A04", WA, "  except Exception as e:\n    logging.debug(\"ASGI request error (unknown): \", e)\n    await ctx.respond_status(500)", "  except asyncio.CancelledError: raise\n  except Exception as e:\n    logging.debug(\"ASGI request error (unknown): \", e)\n    await ctx.respond_status(500)", "explicit")
K("A04", WA, "    if e.status_code == FetchErrorStatusCode.NOT_FOUND: await ctx.respond_status(404)\n    elif e.status_code == FetchErrorStatusCode.BAD_REQUEST: await ctx.respond_status(400)\n    else: await ctx.respond_status(500)\n", "    status = 500\n    if e.status_code == FetchErrorStatusCode.NOT_FOUND: status = 404\n    if e.status_code == FetchErrorStatusCode.BAD_REQUEST: status = 400\n    await ctx.respond_status(status)\n", "status first")
K("A04", WA, "    if e.status_code == FetchErrorStatusCode.NOT_FOUND: await ctx.respond_status(404)\n    elif e.status_code == FetchErrorStatusCode.BAD_REQUEST: await ctx.respond_status(400)\n    else: await ctx.respond_status(500)\n", "    await ctx.respond_status({ FetchErrorStatusCode.NOT_FOUND: 404, FetchErrorStatusCode.BAD_REQUEST: 400 }.get(e.status_code, 500))\n", "table")
K("A04", WA, "  try:\n    await ctx.next()\n  except (ValidationError, ValueError) as e:\n", "  try: return await ctx.next()\n  except ValidationError as e:\n    logging.debug(\"ASGI request error (bad request): %s\", e)\n    await ctx.respond_status(400)\n  except ValueError as e:\n", "two clauses")
K("A04", WS, "      if scope.get(\"type\", None) == \"http\": await HTTPContext(scope, receive, send).respond_status(500)\n      elif scope.get(\"type\", None) == \"websocket\": await WebsocketContext(scope, receive, send).close(code=1011)\n", "      await self.on_error(scope, receive, send)\n\n  async def on_error(self, scope, receive, send):\n    kind = scope[\"type\"]\n    if kind == \"http\": await HTTPContext(scope, receive, send).respond_status(500)\n    elif kind == \"websocket\": await WebsocketContext(scope, receive, send).close(code=1011)\n", "helper")
K("A04", WS, "  async def respond_json_string(self, json_string: str, status: int = 200): await self.respond_text(json_string, mime_type=\"application/json\", status=status)\n", "  async def respond_json_string(self, json_string: str, status: int = 200):\n    await self.respond_string(status, json_string, \"application/json\")\n", "direct")
K("A04", WTW, "      await self.store.update_deployment(deployment)\n      await ctx.respond_json_string(deployment.model_dump_json())\n", "      await self.store.update_deployment(deployment)\n      await self.answer(ctx, deployment)\n", "helper needs method") if False else None
K("A04", "system/named_topic_manager.py", "    app = ASGIServer()\n    app.add_handler(asgi_default_http_error_handler)\n\n    router = ASGIRouter()\n    app.add_handler(router)\n", "    router = ASGIRouter()\n    app = ASGIServer()\n    for h in (asgi_default_http_error_handler, router): app.add_handler(h)\n", "loop")
# A05
B("A05", WS, "ASGINext(self._handlers[1:])", "ASGINext(self._handlers[2:])", "skips one")
B("A05", WS, "await self._handlers[0](new_scope", "await self._handlers[-1](new_scope", "last first")
B("A05", WS, "def add_handler(self, handler: ASGIHandler): self._handlers.append(handler)", "def add_handler(self, handler: ASGIHandler): self._handlers.insert(0, handler)", "reverse")
B("A05", WS, "  new_scope[\"state\"] = { **new_scope.get(\"state\", {}), **state }\n", "  new_scope[\"state\"] = new_scope.get(\"state\", {})\n  new_scope[\"state\"].update(state)\n", "state shared")
B("A05", WS, "  new_scope: ASGIScope = { **scope }\n", "  new_scope: ASGIScope = scope\n", "scope shared")
B("A05", WS, "  new_scope[\"state\"] = { **new_scope.get(\"state\", {}), **state }\n", "  new_scope[\"state\"] = { **state }\n", "state dropped")
B("A05", WS, "  new_scope[\"state\"] = { **new_scope.get(\"state\", {}), **state }\n", "  new_scope[\"state\"] = { **state, **new_scope.get(\"state\", {}) }\n", "old state wins")
B("A05", WS, "if ctx.method not in self.methods or \\\n", "if ctx.method not in self.methods and \\\n", "and")
B("A05", WS, "set(m.upper() for m in methods)", "set(m for m in methods)", "no upper")
B("A05", WS, "def put(self, path: str): return self.http_route(path, [ \"put\" ])", "def put(self, path: str): return self.http_route(path, [ \"put\", \"post\" ])", "put post")
B("A05", WS, "def patch(self, path: str): return self.http_route(path, [ \"patch\" ])", "def patch(self, path: str): return self.http_route(path, [ \"path\" ])", "path")
B("A05", WS, "  @asgi_type_handler({ \"websocket\" })", "  @asgi_type_handler({ \"websocket\", \"http\" })", "ws http")
B("A05", WS, "  @asgi_type_handler({ \"websocket\", \"http\" })", "  @asgi_type_handler({ \"http\" })", "transport http")
B("A05", WS, "    elif scope_type == \"websocket\": await fn(WebsocketContext(scope, receive, send))\n", "", "no ws")
B("A05", WS, "    if scope.get(\"type\", None) != \"websocket\": await asgi", "    if scope.get(\"type\", None) == \"http\": await asgi", "lifespan ws")
B("A05", WS, "await app(scope or self._scope, self._wreceive, self._wsend)", "await app(self._scope, self._wreceive, self._wsend)", "delegate own")
B("A05", WS, "\"path\": pattern.construct(ctx.params, default_value=default_param_value)", "\"path\": pattern.construct({}, default_value=default_param_value)", "no params")
B("A05", WS, "{ **ctx.scope, \"path\": pattern", "{ **ctx.scope, \"query_string\": b\"\", \"path\": pattern", "query lost")
B("A05", WS, "  async def _wsend(self, event: dict): await self._send(event)\n", "  async def _wsend(self, event: dict): await self._send({ \"type\": event[\"type\"] })\n", "stripped")
B("A05", WS, "    if event_type == \"http.response.body\": self._more_response_body = event.get(\"more_body\", False)\n    return", "    if event_type == \"http.response.body\":\n      self._more_response_body = event.get(\"more_body\", False)\n      if len(event.get(\"body\", b\"\")) == 0 and self._more_response_body: return\n    return", "empty dropped")
B("A05", WS, "callable(scope[\"state\"][SN_NEXT_FN])", "isinstance(scope[\"state\"][SN_NEXT_FN], ASGIHandlerStack)", "never next")
B("A05", WS, "{ SN_PARAMS: params, SN_NEXT_FN: ASGINext([]) }))\n\nclass WebsocketRoute", "{ SN_NEXT_FN: ASGINext([]) }))\n\nclass WebsocketRoute", "no params")
B("A05", WS, "self.path_matcher.match(ctx.path)) is None:\n        return await ctx.next()", "self.path_matcher.match(ctx.fullpath)) is None:\n        return await ctx.next()", "full path")
B("A05", WS, "        return await ctx.next()\n", "        return\n", "swallowed")
B("A05", WS, "if len(self._handlers) == 0: raise NoHandlerError()", "if len(self._handlers) == 0: return", "silently")
B("A05", WS, "      if scope.get(\"type\", None) in supported_types: await fn(*args)\n", "      if scope.get(\"type\", None) in supported_types or len(supported_types) > 1: await fn(*args)\n", "lifespan to transport")
B("A05", WS, "    elif event[\"type\"] == \"websocket.disconnect\": self._connected = False\n    return event", "    elif event[\"type\"] == \"websocket.disconnect\":\n      self._connected = False\n      return event", "event lost")
K("A05", WS, "  new_scope: ASGIScope = { **scope }\n  new_scope[\"state\"] = { **new_scope.get(\"state\", {}), **state }\n  return new_scope\n", "  return { **scope, \"state\": { **scope.get(\"state\", {}), **state } }\n", "one expression")
K("A05", WS, "  new_scope: ASGIScope = { **scope }\n  new_scope[\"state\"] = { **new_scope.get(\"state\", {}), **state }\n  return new_scope\n", "  new_scope = dict(scope)\n  merged = dict(scope.get(\"state\", {}))\n  merged.update(state)\n  new_scope[\"state\"] = merged\n  return new_scope\n", "dict copies")
K("A05", WS, "  new_scope: ASGIScope = { **scope }\n  new_scope[\"state\"] = { **new_scope.get(\"state\", {}), **state }\n  return new_scope\n", "  return scope | { \"state\": (scope.get(\"state\") or {}) | state }\n", "or")
K("A05", WS, "    new_scope = asgi_scope_set_state(scope, { SN_NEXT_FN: ASGINext(self._handlers[1:]) })\n    await self._handlers[0](new_scope, receive, send)", "    handler, *others = self._handlers\n    await handler(asgi_scope_set_state(scope, { SN_NEXT_FN: ASGINext(others) }), receive, send)", "unpacked")
K("A05", WS, "  def __init__(self, handlers: list[ASGIHandler]) -> None: self._handlers = handlers\n  async def __call__(self, scope: ASGIScope, receive: ASGIFnReceive, send: ASGIFnSend) -> Any:\n    if len(self._handlers) == 0: raise NoHandlerError()\n    new_scope = asgi_scope_set_state(scope, { SN_NEXT_FN: ASGINext(self._handlers[1:]) })\n    await self._handlers[0](new_scope, receive, send)", "  def __init__(self, handlers: list[ASGIHandler], index: int = 0) -> None: self._handlers, self._index = handlers, index\n  async def __call__(self, scope: ASGIScope, receive: ASGIFnReceive, send: ASGIFnSend) -> Any:\n    if self._index >= len(self._handlers): raise NoHandlerError()\n    new_scope = asgi_scope_set_state(scope, { SN_NEXT_FN: ASGINext(self._handlers, self._index + 1) })\n    await self._handlers[self._index](new_scope, receive, send)", "index")
K("A05", WS, "    if ctx.method not in self.methods or \\\n      (params := self.path_matcher.match(ctx.path)) is None:\n        return await ctx.next()\n", "    if ctx.method not in self.methods: return await ctx.next()\n    params = self.path_matcher.match(ctx.path)\n    if params is None: return await ctx.next()\n", "two ifs")
K("A05", WS, "    if ctx.method not in self.methods or \\\n      (params := self.path_matcher.match(ctx.path)) is None:\n        return await ctx.next()\n    await ctx.delegate", "    params = self.path_matcher.match(ctx.path) if ctx.method in self.methods else None\n    if params is None: await ctx.next()\n    else: await ctx.delegate", "else")
K("A05", WS, "set(m.upper() for m in methods)", "{ str(m).upper() for m in methods }", "str")
K("A05", WS, "def put(self, path: str): return self.http_route(path, [ \"put\" ])", "def put(self, path: str):\n    def decorator(fn):\n      self.add_http_route(fn, path, (\"PUT\",))\n      return fn\n    return decorator", "put alone")
K("A05", WS, "def http_context_handler(fn: Callable[[HTTPContext], Awaitable[Any]]):\n  async def decordator(scope: ASGIScope, receive: ASGIFnReceive, send: ASGIFnSend):\n    if scope.get(\"type\", None) != \"http\": await asgi_scope_get_next_fn(scope)(scope, receive, send)\n    else: await fn(HTTPContext(scope, receive, send))\n  return decordator", "def _context_handler(fn, contexts):\n  async def handler(scope: ASGIScope, receive: ASGIFnReceive, send: ASGIFnSend):\n    context_type = contexts.get(scope.get(\"type\", None))\n    if context_type is None: return await asgi_scope_get_next_fn(scope)(scope, receive, send)\n    await fn(context_type(scope, receive, send))\n  return handler\n\ndef http_context_handler(fn: Callable[[HTTPContext], Awaitable[Any]]): return _context_handler(fn, { \"http\": HTTPContext })", "table")
K("A05", WS, "  async def delegate(self, app: ASGIHandler, scope: ASGIScope | None = None): await app(scope or self._scope, self._wreceive, self._wsend)", "  async def delegate(self, app: ASGIHandler, scope: ASGIScope | None = None):\n    if scope is None: scope = self._scope\n    return await app(scope, self._wreceive, self._wsend)", "is None")
K("A05", WS, "    await ctx.delegate(fn, { **ctx.scope, \"path\": pattern.construct(ctx.params, default_value=default_param_value) })", "    scope = ctx.scope\n    scope[\"path\"] = pattern.construct(ctx.params, default_param_value)\n    await ctx.delegate(fn, scope)", "setitem on copy")
K("A05", WS, "  if \"state\" in scope and SN_NEXT_FN in scope[\"state\"] and callable(scope[\"state\"][SN_NEXT_FN]): return scope[\"state\"][SN_NEXT_FN]\n  else: return ASGINext([])", "  fn = scope.get(\"state\", {}).get(SN_NEXT_FN, None)\n  return fn if callable(fn) else ASGINext([])", "get")
# A02
B("A02", WA, "elif value[0] == \"tuple\": return tuple([cls.deannotate_value(v) for v in value[1]])", "elif value[0] == \"tuple\": return [cls.deannotate_value(v) for v in value[1]]", "tuple as list")
B("A02", WA, "      if isinstance(value, list): return [\"list\", [cls.annotate_value(v) for v in value]]", "      if isinstance(value, list): return [cls.annotate_value(v) for v in value]", "plain list")
B("A02", WA, "value_type in cls.supported_types and not isinstance(value, list)", "value_type in cls.supported_types", "list native")
B("A02", WA, "  supported_types = [str, int, float, bool, list, dict]", "  supported_types = [str, int, float, bool, list, dict, bytes]", "json bytes")
B("A02", WA, "  supported_types = [str, int, float, bool, list, dict]", "  supported_types = [str, int, float, bool, list, dict, tuple]", "json tuple")
B("A02", WA, "  supported_types = [str, int, float, bool, list, dict]", "  supported_types = [str, int, float, list, dict]", "bool as int")
B("A02", WA, "      elif value[0] == \"float\": return float(value[1])", "      elif value[0] == \"float\": return int(value[1])", "float cut") if False else None
B("A02", WA, "{ k: cls.annotate_value(v) for k, v in value.items() }\n      elif isinstance(value, tuple): return tuple", "{ k: cls.annotate_value(v) for k, v in value.items() if v is not None }\n      elif isinstance(value, tuple): return tuple", "none dropped")
B("A02", WA, "    elif isinstance(value, dict): return { k: cls.deannotate_value(v) for k, v in value.items() }\n", "    elif isinstance(value, dict): return value\n", "nested stays")
B("A02", WA, "elif isinstance(value, set): return [\"set\", [cls.annotate_value(v) for v in value]]", "elif isinstance(value, set): return [\"set\", list(value)]", "set raw")
B("A02", WA, "else: return [\"unknown\"] # TODO: raise?", "else: raise ValueError(\"unknown type\")", "unknown raises")
B("A02", WA, "else: return [\"unknown\"] # TODO: raise?", "else: return value", "unknown raw")
B("A02", WA, "return [\"bytes\", value.hex()]", "return [\"bytes\", value.decode()]", "decode")
B("A02", WA, "if isinstance(value, list): return [\"list\", [cls", "if isinstance(value, list): return [\"list\", [] if len(value) == 0 else [value[0]] + [cls", "first raw") if False else None
K("A02", WA, "      if isinstance(value, list): return [\"list\", [cls.annotate_value(v) for v in value]]\n      elif isinstance(value, dict)", "      if isinstance(value, list):\n        res = []\n        for v in value: res.append(cls.annotate_value(v))\n        return [\"list\", res]\n      elif isinstance(value, dict)", "append loop")
K("A02", WA, "      elif value[0] == \"unknown\": return None\n", "      elif value[0] in (\"unknown\", \"other\"): return None\n", "in")
K("A02", WA, "      if value[0] == \"list\": return [cls.deannotate_value(v) for v in value[1]]\n", "      kind = value[0]\n      if kind == \"list\": return list(map(cls.deannotate_value, value[1]))\n", "map")
K("A02", WA, "    native_support = value_type in cls.supported_types and not isinstance(value, list)\n\n    if native_support:\n", "    if value_type is not list and value_type in cls.supported_types:\n", "type is")
K("A02", WA, "      elif value[0] == \"tuple\": return tuple([cls.deannotate_value(v) for v in value[1]])\n      elif value[0] == \"set\": return set([cls.deannotate_value(v) for v in value[1]])\n", "      elif value[0] in (\"tuple\", \"set\"):\n        make = tuple if value[0] == \"tuple\" else set\n        return make(cls.deannotate_value(v) for v in value[1])\n", "make")
K("A02", WA, "    if isinstance(value, list):\n      if value[0]", "    if isinstance(value, list):\n      kind, *rest = value\n      if value[0]", "unpack")
# A01
B("A01", WA, "    receiver = ASGIEventReceiver(self._client, port)\n    await receiver.start_recv() # NOTE: must be enabled before sending init message, otherwise events will be lost\n", "    receiver = ASGIEventReceiver(self._client, port)\n", "never listens") if False else None
B("A01", WA, "      init_respose = ASGIInitResponse.model_validate(init_respose_raw)\n      sender = ASGIEventSender(self._client, (self._remote_endpoint[0], init_respose.port))", "      init_respose = ASGIInitResponse.model_validate(init_respose_raw)\n      sender = ASGIEventSender(self._client, (self._remote_endpoint[0], port))", "own port")
B("A01", WA, "(self._remote_endpoint[0], init_respose.port)", "(self._remote_endpoint[1], init_respose.port)", "other address")
B("A01", WA, "        event_type = event.get(\"type\", None)\n        if event_type == \"http.disconnect\" or event_type == \"websocket.disconnect\": closed_event.set()\n", "        event_type = event.get(\"type\", None)\n        if event_type == \"http.disconnect\": closed_event.set()\n", "ws disconnect ignored")
B("A01", WA, "        event_type = event.get(\"type\", None)\n        if event_type == \"http.disconnect\" or event_type == \"websocket.disconnect\": closed_event.set()\n", "        event_type = event.get(\"type\", None)\n        if event_type == \"http.disconnect\" or event_type == \"websocket.disconnect\" or not event.get(\"more_body\", False): closed_event.set()\n", "ends with body")
B("A01", WA, "        event = await receive()\n        await sender.send(event)\n", "        event = await receive()\n        if event.get(\"type\") == \"http.disconnect\": break\n        await sender.send(event)\n", "disconnect not sent")
B("A01", WA, "        for event in data.events: await send(Mess", "        for event in reversed(data.events): await send(Mess", "reversed")
B("A01", WA, "        for event in data.events: await send(MessagePackValueTransformer.deannotate_value(event))\n        if data.closed: closed_event.set()\n", "        if data.closed: break\n        for event in data.events: await send(MessagePackValueTransformer.deannotate_value(event))\n", "closed first")  if False else None
B("A01", WA, "        if data.closed: closed_event.set()\n", "        if data.closed is False: closed_event.set()\n", "closed none")
B("A01", WA, "await send(MessagePackValueTransformer.deannotate_value(event))\n", "await send(event)\n", "raw")
B("A01", WA, "return_when=\"FIRST_COMPLETED\"", "return_when=\"FIRST_EXCEPTION\"", "exception")
B("A01", WA, "      for task in done: await task\n", "", "errors lost")
B("A01", WA, "      for task in tasks: task.cancel()\n", "      for task in tasks[1:]: task.cancel()\n", "one left")
B("A01", WA, "    finally:\n      for task in tasks: task.cancel()\n      await receiver.stop_recv()\n", "    finally:\n      for task in tasks: task.cancel()\n    await receiver.stop_recv()\n", "listening on error")
B("A01", WA, "      await receiver.stop_recv()\n", "      if len(tasks) > 0: await receiver.stop_recv()\n", "listening on refused")
B("A01", WA, "    closed_event = asyncio.Event()\n\n    async def recv_loop():\n      while not closed_event.is_set():\n        event = await receive()", "    closed_event = asyncio.Event()\n\n    async def recv_loop():\n      while not closed_event.is_set():\n        event = await receive()\n        if closed_event.is_set(): break", "event dropped") if False else None
B("A01", WA, "          port=self._client.get_free_port(),\n", "          port=self._port,\n", "shared port")
B("A01", WA, "remote_endpoint=(init_request.address, init_request.port))", "remote_endpoint=(raw_request._return_endpoint[0], init_request.port))", "return endpoint")
B("A01", WA, "scope=JSONValueTransformer.deannotate_value(init_request.scope),", "scope=init_request.scope,", "scope raw")
B("A01", WA, "        self._start_connection(config)\n        await raw_request.respond(ASGIInitResponse(port=config.port).model_dump())\n", "        await raw_request.respond(ASGIInitResponse(port=config.port).model_dump())\n        self._start_connection(config)\n", "late")
B("A01", WA, "    finally:\n      await self._connection_tasks.cancel_all()", "    except asyncio.CancelledError:\n      await self._connection_tasks.cancel_all()\n      raise", "only cancelled")
B("A01", WA, "          await recv_queue.put(event)\n", "          if recv_queue.empty(): await recv_queue.put(event)\n", "dropped")
B("A01", WA, "      while recv_queue.empty() and not stop_signal.is_set():", "      if not stop_signal.is_set():", "reads more")  if False else None
B("A01", WA, "      while recv_queue.empty() and not stop_signal.is_set():", "      if recv_queue.empty():", "blocks on empty message")
B("A01", WA, "      finally:\n        await sender.close()\n        stop_signal.set()\n", "        await sender.close()\n      finally:\n        stop_signal.set()\n", "no close on error")
B("A01", WA, "        async with receiver:\n          await self._app(config.scope, receive, send)\n", "        await receiver.start_recv()\n        await self._app(config.scope, receive, send)\n        await receiver.stop_recv()\n", "port in use")
B("A01", WA, "        async with receiver:\n          await self._app(config.scope, receive, send)\n", "        await asyncio.sleep(0.01)\n        async with receiver:\n          await self._app(config.scope, receive, send)\n", "listens late")
B("A01", WA, "    recv_queue = asyncio.Queue()\n", "    self._queue = getattr(self, \"_queue\", None) or asyncio.Queue()\n    recv_queue = self._queue\n", "shared queue")  if False else None
B("A01", WA, "    if message.port != self._recv_port: return\n    if not isinstance(message.data, RawData): return\n", "    if not isinstance(message.data, RawData): return\n", "any port")
B("A01", WA, "  async def close(self):\n    await self._send(events=[], closed=True)", "  async def close(self):\n    await self._send(events=[])", "not closed")
B("A01", WA, "    events = [MessagePackValueTransformer.annotate_value(event) for event in events]\n    await self._client.send_to", "    events = [MessagePackValueTransformer.annotate_value(event) for event in events if event.get(\"body\") != b\"\"]\n    await self._client.send_to", "empty body dropped")
B("A01", WA, "    self._connection_tasks.create(run())", "    asyncio.create_task(run())", "not stopped")
K("A01", WA, "    self._connection_tasks.create(run())", "    task = self._connection_tasks.create(run())\n    logging.debug(task)", "kept")
K("A01", WA, "      while not closed_event.is_set():\n        event = await receive()\n        await sender.send(event)\n        await asyncio.sleep(0)\n        event_type = event.get(\"type\", None)\n        if event_type == \"http.disconnect\" or event_type == \"websocket.disconnect\": closed_event.set()\n", "      while True:\n        event = await receive()\n        await sender.send(event)\n        if event[\"type\"] in (\"http.disconnect\", \"websocket.disconnect\"): return\n        await asyncio.sleep(0)\n", "while true")
K("A01", WA, "    tasks: list[asyncio.Task] = []\n    try:\n", "    tasks = []\n    try:\n", "plain")
K("A01", WA, "      tasks = self._start_loops(receiver, sender, receive, send)\n      done, _ = await asyncio.wait(tasks, return_when=\"FIRST_COMPLETED\")\n      for task in done: await task\n", "      tasks = self._start_loops(receiver, sender, receive, send)\n      done, pending = await asyncio.wait(tasks, return_when=asyncio.FIRST_COMPLETED)\n      for task in done: task.result()\n", "result")
K("A01", WA, "        async with receiver:\n          await self._app(config.scope, receive, send)\n      finally:\n        await sender.close()\n        stop_signal.set()\n", "        await receiver.start_recv()\n        try: await self._app(config.scope, receive, send)\n        finally: await receiver.stop_recv()\n      finally:\n        stop_signal.set()\n        await sender.close()\n", "explicit")
K("A01", WA, "      while recv_queue.empty() and not stop_signal.is_set():\n        data = await receiver.get()\n        for event in data.events:\n          event = MessagePackValueTransformer.deannotate_value(event)\n          await recv_queue.put(event)\n      await asyncio.sleep(0)\n      return await recv_queue.get()\n", "      if recv_queue.empty():\n        while recv_queue.empty() and not stop_signal.is_set():\n          for event in (await receiver.get()).events: recv_queue.put_nowait(event)\n      return MessagePackValueTransformer.deannotate_value(await recv_queue.get())\n", "later decode")
K("A01", WA, "      while recv_queue.empty() and not stop_signal.is_set():\n        data = await receiver.get()\n        for event in data.events:\n          event = MessagePackValueTransformer.deannotate_value(event)\n          await recv_queue.put(event)\n      await asyncio.sleep(0)\n      return await recv_queue.get()\n", "      while len(pending) == 0 and not stop_signal.is_set():\n        data = await receiver.get()\n        pending.extend(map(MessagePackValueTransformer.deannotate_value, data.events))\n      return pending.pop(0)\n", "list") if False else None
K("A01", WA, "    port = self._client.get_free_port()\n    receiver = ASGIEventReceiver(self._client, port)\n    await receiver.start_recv() # NOTE: must be enabled before sending init message, otherwise events will be lost\n\n    tasks: list[asyncio.Task] = []\n    try:\n      init_respose_raw = await self._client.fetch(self._remote_endpoint, ASGIConstants.FD_DESCRIPTOR, ASGIInitRequest(\n        address=self._client.address,\n        port=port,\n        scope=ser_scope).model_dump())\n      init_respose = ASGIInitResponse.model_validate(init_respose_raw)\n      sender = ASGIEventSender(self._client, (self._remote_endpoint[0], init_respose.port))\n      tasks = self._start_loops(receiver, sender, receive, send)\n      done, _ = await asyncio.wait(tasks, return_when=\"FIRST_COMPLETED\")\n      for task in done: await task\n    finally:\n      for task in tasks: task.cancel()\n      await receiver.stop_recv()\n",
"    port = self._client.get_free_port()\n    receiver = ASGIEventReceiver(self._client, port)\n    async with receiver:\n      sender = await self._open(port, ser_scope)\n      tasks = self._start_loops(receiver, sender, receive, send)\n      try:\n        done, _ = await asyncio.wait(tasks, return_when=\"FIRST_COMPLETED\")\n        for task in done: await task\n      finally:\n        for task in tasks: task.cancel()\n\n  async def _open(self, port, scope):\n    request = ASGIInitRequest(address=self._client.address, port=port, scope=scope)\n    answer = await self._client.fetch(self._remote_endpoint, ASGIConstants.FD_DESCRIPTOR, request.model_dump())\n    return ASGIEventSender(self._client, (self._remote_endpoint[0], ASGIInitResponse.model_validate(answer).port))\n", "helper")
K("A01", WA, "        if event_type == \"http.disconnect\" or event_type == \"websocket.disconnect\": closed_event.set()\n", "        if event_type.endswith(\".disconnect\"): closed_event.set()\n", "endswith")
B("A01", WA, "        if event_type == \"http.disconnect\" or event_type == \"websocket.disconnect\": closed_event.set()\n", "        if event_type.startswith(\"http.\"): closed_event.set()\n", "startswith")
