CN, BU, DI, TK, AG = "connection.py", "system/builder.py", "services/discovery.py", "system/task.py", "asgi.py"
TW, CM, UT = "system/task_web.py", "system/connection_manager.py", "utils.py"
# S03
B("S03", DI, "      self._address_map = {}\n      await self.shutdown()\n", "      self._address_map = {}\n    await self.shutdown()\n", "only on success")
B("S03", DI, "    finally:\n      self._address_counter", "    except OSError:\n      self._address_counter", "only on OSError")
B("S03", DI, "      await self.shutdown()\n", "      self._topic_spaces = {}\n", "no shutdown")
B("S03", "worker.py", "  async def shutdown(self): self.switch.stop_receiving()", "  async def shutdown(self):\n    if self.switch.in_topics._map: self.switch.stop_receiving()")
B("S03", "worker.py", "  async def shutdown(self): self.switch.stop_receiving()", "  async def shutdown(self): pass")
B("S03", CN, "    finally: await self.shutdown()\n", "    except Exception: await self.shutdown()\n", "reconnector not on cancel")
B("S03", CN, "      self._running_event.clear()\n      await self.shutdown()\n", "      self._running_event.clear()\n", "server")
B("S03", CN, "      self._running_event.clear()\n      await self.shutdown()\n", "      await self.shutdown()\n", "event kept")
B("S03", CN, "    try:\n      self._running_event.set()\n      await self.run_server()\n    finally:\n      self._running_event.clear()\n      await self.shutdown()\n", "    try:\n      self._running_event.set()\n      await self.run_server()\n    except OSError: self._running_event.clear()\n    finally:\n      await self.shutdown()\n", "event only cleared on failure")
B("S03", AG, "      await self.server.serve()\n    finally:\n      await self.shutdown()", "      await self.server.serve()\n      await self.shutdown()\n    finally:\n      self.server = None")
B("S03", AG, "    try:\n      client = await self.create_client()\n      client.start()\n      await client.request_address()\n      app", "    client = await self.create_client()\n    client.start()\n    await client.request_address()\n    try:\n      app", "address outside")
B("S03", TK, "      await self.shutdown()\n      self.ready.clear()", "      if len(shutdown_tasks) > 0: await self.shutdown()\n      self.ready.clear()", "host only with tasks")
B("S03", TK, "      await self.shutdown()\n      self.ready.clear()", "      await self.shutdown()", "ready kept")
B("S03", TK, "    finally:\n      await self.shutdown()\n\n  async def run_signal_api", "    except asyncio.CancelledError: raise\n    except BaseException:\n      await self.shutdown()\n      raise\n\n  async def run_signal_api", "manager not on cancel")
B("S03", TK, "  async def register_routes(self, router: ASGIRouter): pass\n", "  async def register_routes(self, router: ASGIRouter): pass\n  async def shutdown(self): self.tasks.clear()\n", "override without super")
K("S03", TK, "  async def register_routes(self, router: ASGIRouter): pass\n", "  async def register_routes(self, router: ASGIRouter): pass\n  async def shutdown(self):\n    self.tasks.clear()\n    await super().shutdown()\n", "override with super")
B("S03", TW, "      finally: await self.shutdown()\n", "      finally:\n        if len(registered_at) > 0: await self.shutdown()\n", "path handler only when registered")
B("S03", TW, "      try:\n        if len(registered_at) > 0: await asyncio.wait([ asyncio.create_task(self.unregister_path(reg_ep)) for reg_ep in registered_at ], timeout=1)\n      finally: await self.shutdown()\n", "      for reg_ep in registered_at: await self.unregister_path(reg_ep)\n      await self.shutdown()\n", "unregister may fail")
B("S03", TW, "        registered_at.append(reg_ep)\n      await self.run_inner()\n", "      await self.run_inner()\n      registered_at.append(reg_ep)\n", "remembered late")
B("S03", TW, "        registered_at.append(reg_ep)\n", "        if not isinstance(address, str): registered_at.append(reg_ep)\n", "remembered sometimes")
B("S03", TW, "      try:\n        if len(registered_at) > 0: await asyncio.wait([ asyncio.create_task(self.unregister_path(reg_ep)) for reg_ep in registered_at ], timeout=1)\n      finally: await self.shutdown()\n", "      await self.shutdown()\n      if len(registered_at) > 0: await asyncio.wait([ asyncio.create_task(self.unregister_path(reg_ep)) for reg_ep in registered_at ], timeout=1)\n", "after shutdown")
B("S03", TW, "        if len(registered_at) > 0: await asyncio.wait([ asyncio.create_task(self.unregister_path(reg_ep)) for reg_ep in registered_at ], timeout=1)\n", "        if len(registered_at) > 1: await asyncio.wait([ asyncio.create_task(self.unregister_path(reg_ep)) for reg_ep in registered_at ], timeout=1)\n", ">1")
B("S03", TW, "        if len(registered_at) > 0: await asyncio.wait([ asyncio.create_task(self.unregister_path(reg_ep)) for reg_ep in registered_at ], timeout=1)\n", "        for reg_ep in registered_at: asyncio.create_task(self.unregister_path(reg_ep))\n", "not waited") if False else None
B("S03", TW, "ModelWithStrId(id=self.id).model_dump())\n\n  @abstractmethod", "ModelWithStrId(id=self.path).model_dump())\n\n  @abstractmethod", "wrong id")
B("S03", TW, "PathRegistration(id=self.id, endpoint=self.client.address, frontend=self.frontend, path=self.path)", "PathRegistration(id=self.path, endpoint=self.client.address, frontend=self.frontend, path=self.path)", "wrong id at registration")
B("S03", CM, "itertools.chain(self._connection_url_data, self._server_url_data): await data.stop()", "self._connection_url_data: await data.stop()", "servers go on")
B("S03", CM, "itertools.chain(self._connection_url_data, self._server_url_data): await data.stop()", "itertools.chain(self._connection_url_data, self._server_url_data):\n        if data.running: break\n        await data.stop()", "stops at the first")
B("S03", CM, "    except Exception as e: logging.warning(f\"Connection failed: {e}\")\n", "", "stop raises")
B("S03", CM, "    except asyncio.CancelledError: pass\n    except Exception as e: logging.warning(f\"Connection failed: {e}\")\n", "    except asyncio.CancelledError: pass\n    except OSError as e: logging.warning(f\"Connection failed: {e}\")\n", "stop raises others")
B("S03", CM, "    finally: self.task = None\n", "    else: self.task = None\n", "not again") if False else None
B("S03", CM, "    self.task.cancel()\n    try: await self.task\n", "    self.task.cancel()\n    try: await asyncio.sleep(0)\n", "not waited")
B("S03", CM, "    if self.task is not None: return\n", "", "starts twice")
B("S03", CM, "      for url in self.get_connection_urls(): self._connection_url_data.append(await self.create_connection_url_data(url))\n      for url in self.get_server_urls(): self._server_url_data.append(await self.create_server_url_data(url))\n      for url_data in itertools.chain(self._connection_url_data, self._server_url_data): url_data.start()\n      await self.run_web_server()\n    finally:", "      for url in self.get_connection_urls(): self._connection_url_data.append(await self.create_connection_url_data(url))\n      for url in self.get_server_urls(): self._server_url_data.append(await self.create_server_url_data(url))\n      for url_data in itertools.chain(self._connection_url_data, self._server_url_data): url_data.start()\n      await self.run_web_server()\n    except asyncio.CancelledError:", "only on cancel")
K("S03", CM, "itertools.chain(self._connection_url_data, self._server_url_data): await data.stop()", "self._connection_url_data: await data.stop()\n      for data in self._server_url_data: await data.stop()", "two loops")
K("S03", CM, "      for data in itertools.chain(self._connection_url_data, self._server_url_data): await data.stop()\n", "      await self._stop_all()\n\n  async def _stop_all(self):\n    for data in self._connection_url_data + self._server_url_data: await data.stop()\n", "helper")
K("S03", CM, "      for data in itertools.chain(self._connection_url_data, self._server_url_data): await data.stop()\n", "      await asyncio.gather(*(data.stop() for data in self._connection_url_data + self._server_url_data))\n", "gather")
K("S03", CM, "      for data in itertools.chain(self._connection_url_data, self._server_url_data): await data.stop()\n", "      all_data = [*self._connection_url_data, *self._server_url_data]\n      for data in all_data: await data.stop()\n", "local")
K("S03", CM, "    if self.task is None: return None\n    self.task.cancel()\n    try: await self.task\n    except asyncio.CancelledError: pass\n    except Exception as e: logging.warning(f\"Connection failed: {e}\")\n    finally: self.task = None\n", "    task, self.task = self.task, None\n    if task is None: return None\n    task.cancel()\n    try: await task\n    except asyncio.CancelledError: pass\n    except Exception as e: logging.warning(f\"Connection failed: {e}\")\n", "swap")
K("S03", CM, "    if self.task is None: return None\n    self.task.cancel()\n    try: await self.task\n    except asyncio.CancelledError: pass\n    except Exception as e: logging.warning(f\"Connection failed: {e}\")\n    finally: self.task = None\n", "    if self.task is not None:\n      task = self.task\n      task.cancel()\n      try: await task\n      except (asyncio.CancelledError, Exception) as e: logging.warning(f\"Connection ended: {e}\")\n      finally: self.task = None\n", "nested")
K("S03", TW, "        if len(registered_at) > 0: await asyncio.wait([ asyncio.create_task(self.unregister_path(reg_ep)) for reg_ep in registered_at ], timeout=1)\n", "        unregister_tasks = [ asyncio.create_task(self.unregister_path(ep)) for ep in registered_at ]\n        if unregister_tasks: await asyncio.wait(unregister_tasks, timeout=1)\n", "local tasks")
K("S03", TW, "        if len(registered_at) > 0: await asyncio.wait([ asyncio.create_task(self.unregister_path(reg_ep)) for reg_ep in registered_at ], timeout=1)\n", "        if registered_at: await asyncio.wait({ asyncio.create_task(self.unregister_path(reg_ep)) for reg_ep in registered_at }, timeout=1)\n", "set")
K("S03", TW, "        if len(registered_at) > 0: await asyncio.wait([ asyncio.create_task(self.unregister_path(reg_ep)) for reg_ep in registered_at ], timeout=1)\n      finally: await self.shutdown()\n", "        await self._unregister_all(registered_at)\n      finally: await self.shutdown()\n\n  async def _unregister_all(self, endpoints):\n    if len(endpoints) > 0: await asyncio.wait([ asyncio.create_task(self.unregister_path(reg_ep)) for reg_ep in endpoints ], timeout=1)\n", "helper")
K("S03", TW, "        await self.client.fetch(reg_ep, TaskConstants.FD_TMW_REGISTER_PATH, PathRegistration(id=self.id, endpoint=self.client.address, frontend=self.frontend, path=self.path).model_dump())\n        registered_at.append(reg_ep)\n      await self.run_inner()\n", "        await self._register_path(reg_ep)\n        registered_at.append(reg_ep)\n      await self.run_inner()\n", "register helper") if False else None
K("S03", TW, "        await self.client.fetch(reg_ep, TaskConstants.FD_TMW_REGISTER_PATH, PathRegistration(id=self.id, endpoint=self.client.address, frontend=self.frontend, path=self.path).model_dump())\n", "        registration = PathRegistration(id=self.id, endpoint=self.client.address, frontend=self.frontend, path=self.path)\n        await self.client.fetch(reg_ep, TaskConstants.FD_TMW_REGISTER_PATH, registration.model_dump())\n")
K("S03", DI, "    finally:\n      self._address_counter = NetworkAddresses.COUNTER_INIT\n      self._topics_counter = NetworkTopics.COUNTER_INIT\n      self._address_map = {}\n      await self.shutdown()\n", "    finally: await self._reset()\n\n  async def _reset(self):\n    self._address_counter = NetworkAddresses.COUNTER_INIT\n    self._topics_counter = NetworkTopics.COUNTER_INIT\n    self._address_map = {}\n    await self.shutdown()\n", "helper")
K("S03", DI, "    finally:\n      self._address_counter = NetworkAddresses.COUNTER_INIT\n      self._topics_counter = NetworkTopics.COUNTER_INIT\n      self._address_map = {}\n      await self.shutdown()\n", "    finally:\n      try:\n        self._address_counter = NetworkAddresses.COUNTER_INIT\n        self._topics_counter = NetworkTopics.COUNTER_INIT\n        self._address_map = {}\n      finally: await self.shutdown()\n", "nested finally")
K("S03", CN, "    try:\n      self._running_event.set()\n      await self.run_server()\n    finally:\n      self._running_event.clear()\n      await self.shutdown()\n", "    self._running_event.set()\n    try: await self.run_server()\n    finally:\n      try: await self.shutdown()\n      finally: self._running_event.clear()\n", "reordered")
K("S03", AG, "    finally:\n      await self.shutdown()\n\nasync def asgi_app_not_found", "    except BaseException:\n      await self.shutdown()\n      raise\n    else: await self.shutdown()\n\nasync def asgi_app_not_found", "except/else")
K("S03", TK, "    try:\n      self.client = await self.create_client()\n      self.client.start()\n      await self.client.request_address()\n      self.bc_server", "    try: await self._serve()\n    finally: await self.shutdown()\n\n  async def _serve(self):\n    try:\n      self.client = await self.create_client()\n      self.client.start()\n      await self.client.request_address()\n      self.bc_server", "inner helper (double shutdown)")
# S04
B("S04", BU, "DiscoveryWorker(), TaskPriorities.Infra", "DiscoveryWorker(), TaskPriorities.Low")
B("S04", BU, "  Infra = 2", "  Infra = 1")
B("S04", BU, "  Network = 3", "  Network = 1")
B("S04", BU, "[NetworkAddressNames.TASK_MANAGER]), TaskPriorities.Low)", "[NetworkAddressNames.TASK_MANAGER]), TaskPriorities.System)")
B("S04", BU, "create_server(url), TaskPriorities.Network", "create_server(url)")
B("S04", BU, "    await self.switch.add_link(await worker.create_link())\n    self.tasks.create(worker.run(), priority)", "    self.tasks.create(worker.run(), priority)\n    await self.switch.add_link(await worker.create_link())")
B("S04", BU, "    self.tasks.create(worker.run(), priority)", "    self.tasks.create(worker.run())")
B("S04", BU, "    self.tasks.create(worker.run(), priority)", "    asyncio.create_task(worker.run())")
B("S04", BU, "AsyncTaskManager(default_frozen=True)", "AsyncTaskManager()")
B("S04", BU, "return_when=\"FIRST_COMPLETED\"", "return_when=\"ALL_COMPLETED\"")
B("S04", BU, "    await self.tasks.cancel_all(\"Other task completed!\")\n", "")
B("S04", UT, "lowest_prio = min(", "lowest_prio = max(")
B("S04", UT, " if p == lowest_prio)", ")")
B("S04", UT, " if p == lowest_prio)", " if p >= lowest_prio)")
B("S04", UT, "      try: await asyncio.wait(next_tasks, timeout=timeout)\n      except: pass\n", "      await asyncio.sleep(0)\n")
B("S04", UT, "for priority, task in self._tasks if not task.done() ]\n    self._frozen", "for priority, task in self._tasks if task not in next_tasks ]\n    self._frozen")
B("S04", UT, "    while len(self._tasks) > 0:\n      lowest", "    if len(self._tasks) > 0:\n      lowest")
B("S04", UT, "    self._tasks.append((priority, task))\n", "    self._tasks.append((0, task))\n")
K("S04", UT, "      next_tasks = set((task for p, task in self._tasks if p == lowest_prio))\n      for task in next_tasks: task.cancel(msg)\n", "      next_tasks = [ task for priority, task in self._tasks if priority == lowest_prio ]\n      for next_task in next_tasks: next_task.cancel(msg)\n")
K("S04", UT, "      lowest_prio = min((p for p, _ in self._tasks))\n      next_tasks = set((task for p, task in self._tasks if p == lowest_prio))\n", "      next_tasks = self._lowest_tasks()\n", "x") if False else None
K("S04", UT, "      lowest_prio = min((p for p, _ in self._tasks))\n", "      lowest_prio = min([ entry[0] for entry in self._tasks ])\n")
K("S04", UT, "      lowest_prio = min((p for p, _ in self._tasks))\n", "      lowest_prio, _ = min(self._tasks, key=lambda entry: entry[0])\n")
K("S04", UT, "    while len(self._tasks) > 0:\n      lowest", "    while self._tasks:\n      lowest")
K("S04", UT, "    while len(self._tasks) > 0:\n      lowest", "    while True:\n      if not self._tasks: break\n      lowest")
K("S04", UT, "      self._tasks = [ (priority, task) for priority, task in self._tasks if not task.done() ]\n    self._frozen", "      remaining = []\n      for priority, task in self._tasks:\n        if not task.done(): remaining.append((priority, task))\n      self._tasks = remaining\n    self._frozen")
K("S04", BU, "    await self.switch.add_link(await worker.create_link())\n    self.tasks.create(worker.run(), priority)", "    link = await worker.create_link()\n    await self.switch.add_link(link)\n    self.tasks.create(worker.run(), priority=priority)")
K("S04", BU, "  Low = 0 ", "  Low = -1 ")
K("S04", BU, "    await self._start_worker(TaskManager(), TaskPriorities.Infra)\n    await self._start_worker(TaskWebBackend(), TaskPriorities.Infra)\n", "    for worker in (TaskManager(), TaskWebBackend()): await self._start_worker(worker, TaskPriorities.Infra)\n")
K("S04", BU, "    await self.tasks.wait(return_when=\"FIRST_COMPLETED\")\n    await self.tasks.cancel_all(\"Other task completed!\")\n", "    try: await self.tasks.wait(return_when=\"FIRST_COMPLETED\")\n    finally: await self.tasks.cancel_all(\"Other task completed!\")\n")
K("S04", BU, "return_when=\"FIRST_COMPLETED\"", "return_when=asyncio.FIRST_COMPLETED")
B("S03", CM, "    change_task = asyncio.create_task(self.change_handler())\n    try: await self.worker.run()\n    finally: change_task.cancel()\n", "    await asyncio.gather(self.worker.run(), self.change_handler())\n", "gather")
K("S03 U04", CM, "    change_task = asyncio.create_task(self.change_handler())\n    try: await self.worker.run()\n    finally: change_task.cancel()\n", "    async with context_task(self.change_handler()): await self.worker.run()\n", "context") if False else None
K("S03 U04", CM, "    change_task = asyncio.create_task(self.change_handler())\n    try: await self.worker.run()\n    finally: change_task.cancel()\n", "    tasks = [asyncio.create_task(self.change_handler())]\n    try:\n      logging.debug('running')\n      await self.worker.run()\n    finally:\n      for task in tasks: task.cancel()\n", "list of tasks")
NI = "net/__init__.py"
B("S03", NI, "    for link in links: link.close() # a receiver that never ran can not close its link\n", "", "links stay open")
B("S03", NI, "    links = list(self.link_manager.links)\n    self.link_manager.cancel_all()\n    for link in links: link.close()", "    self.link_manager.cancel_all()\n    for link in list(self.link_manager.links): link.close()", "forgotten before closed")
B("S03", NI, "    for link in links: link.close() # a", "    for link in links[1:]: link.close() # a", "not the first")
K("S03", NI, "    links = list(self.link_manager.links)\n    self.link_manager.cancel_all()\n    for link in links: link.close()", "    for link in list(self.link_manager.links): link.close()\n    self.link_manager.cancel_all()\n    #", "closed first")
K("S03", NI, "    for task in self._link_recv_tasks.values(): task.cancel()\n    self._link_recv_tasks.clear()", "    tasks = list(self._link_recv_tasks.values())\n    self._link_recv_tasks.clear()\n    for task in tasks: task.cancel()", "copied first")
K("S03", NI, "    for link in links: link.close() # a", "    for link in links:\n      if not link.closed: link.close() # a", "if open")
