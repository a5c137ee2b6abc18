TK = "system/task.py"
# S01 host
B("S01", TK, "    finally: self.tasks.pop(id, None)\n", "    except BaseException: pass\n    else: self.tasks.pop(id, None)\n")
B("S01", TK, "    except asyncio.CancelledError: status = TaskStatus.stopped\n    except BaseException as e:\n", "    except asyncio.CancelledError: raise\n    except BaseException as e:\n")
B("S01", TK, "    except asyncio.CancelledError: status = TaskStatus.stopped\n", "")
B("S01", TK, "      status = TaskStatus.ended\n    except asyncio", "    except asyncio")
B("S01", TK, "    except BaseException as e:\n      import traceback\n      print(traceback.format_exc())\n      status = TaskStatus.failed", "    except Exception as e:\n      import traceback\n      print(traceback.format_exc())\n      status = TaskStatus.failed")
B("S01", TK, "      error_text = str(e)\n", "      error_text = None\n")
B("S01", TK, "      status = TaskStatus.failed\n      error_text", "      status = TaskStatus.stopped\n      error_text")
B("S01", TK, "send_signal(self.client, report_address, TaskConstants.SD_TM_TASK_REPORT", "send_signal(self.client, NetworkAddressNames.TASK_MANAGER, TaskConstants.SD_TM_TASK_REPORT")
B("S01", TK, "    except BaseException as e:\n      import traceback\n      print(traceback.format_exc())\n      status = TaskStatus.failed\n      error_text = str(e)\n\n    try: await send", "    except BaseException as e:\n      import traceback\n      print(traceback.format_exc())\n      status = TaskStatus.failed\n      error_text = str(e)\n\n    if status is not TaskStatus.stopped:\n     try: await send", "no report when stopped") if False else None
B("S01", TK, "self.tasks[body.id] = asyncio.create_task(self.run_task(body.id, task, body.report_address))\n        await req.respond(response)", "await req.respond(response)\n        asyncio.create_task(self.run_task(body.id, task, body.report_address))")
B("S01", TK, "        self.tasks[body.id] = asyncio.create_task(self.run_task(body.id, task, body.report_address))\n        await req.respond(response)", "        self.tasks[body.id] = asyncio.create_task(self.run_task(body.id, task, self.client.address))\n        await req.respond(response)")
B("S01", TK, "        metadata = await asyncio.wait_for(task.setup(), 1) # NOTE: make this configurable\n        response = TaskStartResponse(id=body.id, metadata=metadata, error=None)\n        self.tasks[body.id] = asyncio.create_task(self.run_task(body.id, task, body.report_address))\n", "        self.tasks[body.id] = asyncio.create_task(self.run_task(body.id, task, body.report_address))\n        metadata = await asyncio.wait_for(task.setup(), 1) # NOTE: make this configurable\n        response = TaskStartResponse(id=body.id, metadata=metadata, error=None)\n")
B("S01", TK, "metadata = await asyncio.wait_for(task.setup(), 1) # NOTE: make this configurable", "metadata = {}")
B("S01", TK, "      except asyncio.CancelledError: raise\n      except BaseException as e:\n        await req.respond(TaskStart", "      except BaseException as e:\n        await req.respond(TaskStart")
B("S01", TK, "TaskStartResponse(id=body.id, error=str(e), metadata={})", "TaskStartResponse(id=body.id, error=None, metadata={})")
B("S01", TK, "self.create_task(body.config, body.topic_space_id)", "self.create_task(body.config, None)")
B("S01", TK, "        task = self.tasks[body.id]\n        task.cancel(", "        for task in self.tasks.values(): task.cancel(", "cancel all")
B("S01", TK, "        task = self.tasks[body.id]\n        task.cancel(\"Cancelled remotely!\")", "        task = self.tasks.pop(body.id, None)\n        if task is not None: task.cancel(\"Cancelled remotely!\")", "unknown cancel OK")
B("S01", TK, "      for task in self.tasks.values(): task.cancel()\n", "")
B("S01", TK, "      if len(shutdown_tasks) > 0: await asyncio.wait(shutdown_tasks, timeout=1) # NOTE: make configurable\n", "")
B("S01", TK, "list(self.tasks.values()) + [ asyncio.create_task(self.unregister(ep)) for ep in self._registered_at_endpoints ]", "list(self.tasks.values())", "no unregister")
B("S01", TK, "list(self.tasks.values()) + [ asyncio.create_task(self.unregister(ep)) for ep in self._registered_at_endpoints ]", "[ asyncio.create_task(self.unregister(ep)) for ep in self._registered_at_endpoints ]", "no wait for tasks")
B("S01", TK, "      await self.shutdown()\n      self.ready.clear()", "      self.ready.clear()")
B("S01", TK, "    except asyncio.CancelledError: raise\n    except BaseException as e:\n      if logging", "    except asyncio.CancelledError: pass\n    except BaseException as e:\n      if logging", "swallow cancel in run")
B("S01", TK, "    await self.client.fetch(endpoint, TaskConstants.FD_REGISTER_TASK_HOST, reg.model_dump())\n    self._registered_at_endpoints.append(endpoint)", "    self._registered_at_endpoints.append(endpoint)\n    await self.client.fetch(endpoint, TaskConstants.FD_REGISTER_TASK_HOST, reg.model_dump())")
B("S01", TK, "    self._registered_at_endpoints.append(endpoint)\n", "")
B("S01", TK, "reg = TaskHostRegistration(id=self.id,", "reg = TaskHostRegistration(id=NODE_NAME(),")
B("S01", TK, "if ep!= endpoint ]", "if ep == endpoint ]")
B("S01", TK, "TaskConstants.SD_UNREGISTER_TASK_HOST, ModelWithStrId(id=self.id)", "TaskConstants.SD_UNREGISTER_TASK_HOST, ModelWithStrId(id=self.__class__.__name__)")
K("S01", TK, "    finally: self.tasks.pop(id, None)\n", "    finally:\n      if id in self.tasks: del self.tasks[id]\n")
K("S01", TK, "    try: await send_signal(self.client, report_address, TaskConstants.SD_TM_TASK_REPORT, TaskReport(id=id, status=status, error=error_text).model_dump())\n    finally: self.tasks.pop(id, None)\n", "    try: await self._report(id, status, error_text, report_address)\n    finally: self.tasks.pop(id, None)\n\n  async def _report(self, id, status, error, address):\n    report = TaskReport(id=id, status=status, error=error)\n    await send_signal(self.client, address, TaskConstants.SD_TM_TASK_REPORT, report.model_dump())\n", "report helper")
K("S01", TK, "    try: await send_signal(self.client, report_address, TaskConstants.SD_TM_TASK_REPORT", "    self.tasks.pop(id, None)\n    try: await send_signal(self.client, report_address, TaskConstants.SD_TM_TASK_REPORT", "pop early too")
K("S01", TK, "      await task.run()\n      status = TaskStatus.ended\n    except", "      await task.run()\n    except", "ended in else 1") if False else None
K("S01", TK, "    status = TaskStatus.running\n    try:\n      await task.run()\n      status = TaskStatus.ended\n    except asyncio.CancelledError: status = TaskStatus.stopped\n", "    status = TaskStatus.ended\n    try: await task.run()\n    except asyncio.CancelledError: status = TaskStatus.stopped\n", "initial ended")
K("S01", TK, "      error_text = str(e)\n", "      error_text = repr(e)\n")
K("S01", TK, "      error_text = str(e)\n", "      error_text = f\"{type(e).__name__}: {e}\"\n")
K("S01", TK, "        response = TaskStartResponse(id=body.id, metadata=metadata, error=None)\n        self.tasks[body.id] = asyncio.create_task(self.run_task(body.id, task, body.report_address))\n        await req.respond(response)", "        response = TaskStartResponse(id=body.id, metadata=metadata, error=None)\n        coro = self.run_task(body.id, task, body.report_address)\n        running = asyncio.create_task(coro)\n        self.tasks[body.id] = running\n        await req.respond(response)")
K("S01", TK, "        self.tasks[body.id] = asyncio.create_task(self.run_task(body.id, task, body.report_address))\n        await req.respond(response)", "        self._launch(body, task)\n        await req.respond(response)", "launch helper")
EDITS[-1] = ("K", ["S01"], [EDITS[-1][2][0], (TK, "  async def run_api(self):\n    fetch_server", "  def _launch(self, req, task):\n    self.tasks[req.id] = asyncio.create_task(self.run_task(req.id, task, req.report_address))\n\n  async def run_api(self):\n    fetch_server")], "launch helper")
K("S01", TK, "        task = self.tasks[body.id]\n        task.cancel(\"Cancelled remotely!\")", "        self.tasks[body.id].cancel(\"Cancelled remotely!\")")
K("S01", TK, "      try:\n        task = self.tasks[body.id]\n        task.cancel(\"Cancelled remotely!\")\n        await req.respond(\"OK\")", "      try:\n        if body.id not in self.tasks: return await req.respond_error(new_fetch_body_bad_request(\"no such task\"))\n        self.tasks[body.id].cancel(\"Cancelled remotely!\")\n        await req.respond(\"OK\")")
K("S01", TK, "      try:\n        task = self.tasks[body.id]\n        task.cancel(\"Cancelled remotely!\")\n        await req.respond(\"OK\")", "      try:\n        task = self.tasks.get(body.id)\n        if task is None: return await req.respond_error(new_fetch_body_not_found(\"no such task\"))\n        task.cancel(\"Cancelled remotely!\")\n        await req.respond(\"OK\")")
K("S01", TK, "      shutdown_tasks: list[asyncio.Task] = list(self.tasks.values()) + [ asyncio.create_task(self.unregister(ep)) for ep in self._registered_at_endpoints ]\n      for task in self.tasks.values(): task.cancel()\n", "      for task in self.tasks.values(): task.cancel()\n      shutdown_tasks: list[asyncio.Task] = [ *self.tasks.values(), *(asyncio.create_task(self.unregister(ep)) for ep in self._registered_at_endpoints) ]\n")
K("S01", TK, "      shutdown_tasks: list[asyncio.Task] = list(self.tasks.values()) + [ asyncio.create_task(self.unregister(ep)) for ep in self._registered_at_endpoints ]\n      for task in self.tasks.values(): task.cancel()\n", "      shutdown_tasks: list[asyncio.Task] = []\n      for task in list(self.tasks.values()):\n        task.cancel()\n        shutdown_tasks.append(task)\n      for ep in self._registered_at_endpoints: shutdown_tasks.append(asyncio.create_task(self.unregister(ep)))\n", "appended in loops")
K("S01", TK, "      if len(shutdown_tasks) > 0: await asyncio.wait(shutdown_tasks, timeout=1)", "      if shutdown_tasks: await asyncio.wait(shutdown_tasks, timeout=5)")
K("S01", TK, "      await self.shutdown()\n      self.ready.clear()", "      self.ready.clear()\n      await self.shutdown()")
K("S01", TK, "    except asyncio.CancelledError: raise\n    except BaseException as e:\n      if logging", "    except Exception as e:\n      if logging")
K("S01", TK, "    finally:\n      shutdown_tasks: list", "    finally:\n      await self._cleanup()\n\n  async def _cleanup(self):\n      shutdown_tasks: list", "cleanup helper")
K("S01", TK, "      raise e\n    finally:\n      shutdown", "      raise\n    finally:\n      shutdown")
K("S01", TK, "self._registered_at_endpoints = [ ep for ep in self._registered_at_endpoints if ep!= endpoint ]", "if endpoint in self._registered_at_endpoints: self._registered_at_endpoints.remove(endpoint)")
K("S01", TK, "self._registered_at_endpoints.append(endpoint)", "self._registered_at_endpoints = self._registered_at_endpoints + [ endpoint ]")
# S02 manager
B("S02", TK, "        self.tasks[task_instance.id] = task_instance\n", "")
B("S02", TK, "          host_id=body.host_id,\n          topic_space_id=body.topic_space_id,\n", "          host_id=body.host_id,\n          topic_space_id=None,\n")
B("S02", TK, "          status=TaskStatus.scheduled\n", "          status=TaskStatus.running\n")
B("S02", TK, "        task_host = self.task_hosts[task_instance.host_id]\n", "        task_host = next(iter(self.task_hosts.values()))\n")
B("S02", TK, "          topic_space_id=task_instance.topic_space_id,\n          report_address", "          report_address")
B("S02", TK, "report_address=self.client.address", "report_address=task_host.address")
B("S02", TK, "config=body.config\n        )", "config=task_instance.metadata\n        )")
B("S02", TK, "        task_instance.error=task_start_result.error\n", "")
B("S02", TK, "        task_instance.metadata=task_start_result.metadata\n", "")
B("S02", TK, "TaskStatus.running if task_start_result.error is None else TaskStatus.failed", "TaskStatus.running")
B("S02", TK, "        if task_instance.status == TaskStatus.failed: self.tasks.pop(task_instance.id)\n", "")
B("S02", TK, "        if task_instance.status == TaskStatus.failed: self.tasks.pop(task_instance.id)\n", "        self.tasks.pop(task_instance.id)\n")
B("S02", TK, "        if task_cancel_result != \"OK\": raise Exception(\"Failed to cancel task!\")\n", "")
B("S02", TK, "        task_cancel_result = await self.client.fetch(task_host.address, TaskConstants.FD_TASK_CANCEL, tc_req.model_dump())\n        if task_cancel_result != \"OK\": raise Exception(\"Failed to cancel task!\")\n", "", "no cancel at all")
B("S02", TK, "        if task_cancel_result != \"OK\": raise Exception(\"Failed to cancel task!\")\n        await req.respond(\"OK\")", "        if task_cancel_result != \"OK\": raise Exception(\"Failed to cancel task!\")\n        self.tasks.pop(body.id, None)\n        await req.respond(\"OK\")", "cancel forgets") 
B("S02", TK, "      task.error = report.error\n", "")
B("S02", TK, "      if task.status is not TaskStatus.running:\n", "      if task.status is TaskStatus.ended:\n")
B("S02", TK, "        self.tasks.pop(task.id, None)\n        gc.collect()", "        gc.collect()")
B("S02", TK, "await self.bc_server.broadcast(get_namespace_by_task_id(task.id), RawData(task.model_dump()))", "await self.bc_server.broadcast(get_namespace_by_task_id(task.host_id), RawData(task.model_dump()))")
B("S02", TK, "      await self.bc_server.broadcast(get_namespace_by_task_id(task.id), RawData(task.model_dump()))", "      if task.error is None: await self.bc_server.broadcast(get_namespace_by_task_id(task.id), RawData(task.model_dump()))")
B("S02", TK, "      task = self.tasks[report.id]\n      task.status = report.status\n      task.error = report.error\n", "      task = self.tasks[report.id]\n      data = RawData(task.model_dump())\n      task.status = report.status\n      task.error = report.error\n", "stale 1") if False else None
B("S02", TK, "      self.tasks = { tid: task for tid, task in self.tasks.items() if task.host_id != data.id }\n", "")
B("S02", TK, "if task.host_id != data.id }", "if task.host_id == data.id }")
B("S02", TK, "      self.tasks = { tid: task for tid, task in self.tasks.items() if task.host_id != data.id }\n", "      self.tasks = {}\n")
B("S02", TK, "      self.task_hosts.pop(data.id, None)\n", "")
B("S02", TK, "        await self.bc_server.broadcast(TaskConstants.BC_TASK_HOST_REGISTERED, RawData(reg.model_dump()))\n", "")
B("S02", TK, "        self.task_hosts[reg.id] = reg\n        await self.bc_server.broadcast(TaskConstants.BC_TASK_HOST_REGISTERED, RawData(reg.model_dump()))\n", "        await self.bc_server.broadcast(TaskConstants.BC_TASK_HOST_REGISTERED, RawData(reg.model_dump()))\n        self.task_hosts[reg.id] = reg\n")
B("S02", TK, "      await self.bc_server.broadcast(TaskConstants.BC_TASK_HOST_UNREGISTERED", "      await self.bc_server.broadcast(TaskConstants.BC_TASK_HOST_REGISTERED")
B("S02", TK, "self.task_hosts[reg.id] = reg\n", "self.task_hosts.setdefault(reg.id, reg)\n")
B("S02", TK, "TaskHostRegistrationList.dump_python(list(self.task_hosts.values()))", "TaskHostRegistrationList.dump_python(list(self.task_hosts.values())[:1])")
B("S02", TK, "await req.respond(self.tasks[body.id].model_dump())\n      except KeyError as e: await req.respond_error(new_fetch_body_not_found(str(e)))", "await req.respond(self.tasks[body.id].model_dump())\n      except KeyError as e: await req.respond_error(new_fetch_body_bad_request(str(e)))")
B("S02", TK, "FD_TM_TASK_CANCEL, TMTaskRequestBase", "FD_TM_TASK_GET, TMTaskRequestBase")
B("S02", TK, "TMTaskScheduleRequest(host_id=host_id, topic_space_id=topic_space_id)", "TMTaskScheduleRequest(host_id=host_id)")
B("S02", TK, "        if not task_instance.status.is_active: return task_instance", "        return task_instance")
B("S02", TK, "        if e.status_code == FetchErrorStatusCode.NOT_FOUND: raise TaskNotFoundError()\n        else: raise e", "        if e.status_code == FetchErrorStatusCode.NOT_FOUND: raise TaskNotFoundError()")
B("S02", TK, "        else: raise e\n", "        else: raise TaskNotFoundError()\n")
B("S02", TK, "    async with self.task_receiver([ task_id ]) as receiver:\n      try:\n        await self.cancel_task(task_id)\n      except FetchError as e:\n        if e.status_code == FetchErrorStatusCode.NOT_FOUND: raise TaskNotFoundError()\n        else: raise e\n", "    try:\n      await self.cancel_task(task_id)\n    except FetchError as e:\n      if e.status_code == FetchErrorStatusCode.NOT_FOUND: raise TaskNotFoundError()\n      else: raise e\n    async with self.task_receiver([ task_id ]) as receiver:\n")
B("S02", TK, "  def is_active(self): return self in { TaskStatus.running, TaskStatus.scheduled }", "  def is_active(self): return self in { TaskStatus.running }")
B("S02", TK, "  def is_active(self): return self in { TaskStatus.running, TaskStatus.scheduled }", "  def is_active(self): return self not in { TaskStatus.ended }")
B("S02", TK, 'return f"/task/{task_id}"', 'return "/task"')
K("S02", TK, "  def is_active(self): return self in { TaskStatus.running, TaskStatus.scheduled }", "  def is_active(self): return self == TaskStatus.running or self == TaskStatus.scheduled")
K("S02", TK, "  def is_active(self): return self in { TaskStatus.running, TaskStatus.scheduled }", "  def is_active(self): return self not in (TaskStatus.stopped, TaskStatus.ended, TaskStatus.failed)")
K("S02", TK, "        if not task_instance.status.is_active: return task_instance", "        if task_instance.status.is_active: continue\n        return task_instance")
K("S02", TK, "        if not task_instance.status.is_active: return task_instance", "        if task_instance.status not in (TaskStatus.running, TaskStatus.scheduled): return task_instance")
K("S02", TK, "      task = self.tasks[report.id]\n      task.status = report.status\n      task.error = report.error\n      if task.status is not TaskStatus.running:\n", "      task = self.tasks[report.id]\n      task.error, task.status = report.error, report.status\n      if report.status != TaskStatus.running:\n")
K("S02", TK, "        self.tasks.pop(task.id, None)\n        gc.collect()", "        del self.tasks[report.id]\n        gc.collect()")
K("S02", TK, "      await self.bc_server.broadcast(get_namespace_by_task_id(task.id), RawData(task.model_dump()))", "      namespace = get_namespace_by_task_id(report.id)\n      data = task.model_dump()\n      await self.bc_server.broadcast(namespace, RawData(data))")
K("S02", TK, "      self.tasks = { tid: task for tid, task in self.tasks.items() if task.host_id != data.id }\n", "      self.tasks = dict((tid, task) for tid, task in self.tasks.items() if not task.host_id == data.id)\n")
K("S02", TK, "      self.tasks = { tid: task for tid, task in self.tasks.items() if task.host_id != data.id }\n", "      for tid, task in list(self.tasks.items()):\n        if task.host_id == data.id: del self.tasks[tid]\n")
K("S02", TK, "      self.tasks = { tid: task for tid, task in self.tasks.items() if task.host_id != data.id }\n", "      for tid in [ tid for tid, task in self.tasks.items() if task.host_id == data.id ]: self.tasks.pop(tid)\n")
K("S02", TK, "      self.task_hosts.pop(data.id, None)\n", "      if data.id in self.task_hosts: del self.task_hosts[data.id]\n")
K("S02", TK, "        task_start_request = TaskStartRequest(\n          id=task_instance.id,\n          topic_space_id=task_instance.topic_space_id,\n          report_address=self.client.address,\n          config=body.config\n        )\n\n        task_start_result = await self.client.fetch(task_host.address, TaskConstants.FD_TASK_START, task_start_request.model_dump())\n        task_start_result: TaskStartResponse = TaskStartResponse.model_validate(task_start_result)\n", "        task_start_result = await self._start_on(task_host, task_instance, body.config)\n", "start helper")
EDITS[-1] = ("K", ["S02"], [EDITS[-1][2][0], (TK, "  async def run_fetch_api(self):\n", "  async def _start_on(self, host, inst, config):\n    request = TaskStartRequest(id=inst.id, topic_space_id=inst.topic_space_id, report_address=self.client.address, config=config)\n    result = await self.client.fetch(host.address, TaskConstants.FD_TASK_START, request.model_dump())\n    return TaskStartResponse.model_validate(result)\n\n  async def run_fetch_api(self):\n")], "start helper")
K("S02", TK, "        task_instance.status=TaskStatus.running if task_start_result.error is None else TaskStatus.failed\n\n        if task_instance.status == TaskStatus.failed: self.tasks.pop(task_instance.id)\n", "        if task_start_result.error is None:\n          task_instance.status = TaskStatus.running\n        else:\n          task_instance.status = TaskStatus.failed\n          del self.tasks[task_instance.id]\n")
K("S02", TK, "        task_instance.status=TaskStatus.running if task_start_result.error is None else TaskStatus.failed\n\n        if task_instance.status == TaskStatus.failed: self.tasks.pop(task_instance.id)\n", "        failed = task_start_result.error is not None\n        task_instance.status = TaskStatus.failed if failed else TaskStatus.running\n        if failed: self.tasks.pop(body.id, None)\n")
K("S02", TK, "        task_inst = self.tasks[body.id]\n        task_host = self.task_hosts[task_inst.host_id]\n        tc_req = TaskCancelRequest(id=task_inst.id)\n", "        task_inst = self.tasks[body.id]\n        task_host = self.task_hosts[task_inst.host_id]\n        tc_req = TaskCancelRequest(id=body.id)\n")
K("S02", TK, "        if task_cancel_result != \"OK\": raise Exception(\"Failed to cancel task!\")\n        await req.respond(\"OK\")", "        if task_cancel_result == \"OK\": await req.respond(\"OK\")\n        else: raise Exception(\"Failed to cancel task!\")")
K("S02", TK, "        id = ModelWithStrId.model_validate(req.body).id\n        await req.respond(self.task_hosts[id].model_dump())", "        data = ModelWithStrId.model_validate(req.body)\n        reg = self.task_hosts.get(data.id)\n        if reg is None: return await req.respond_error(new_fetch_body_not_found(data.id))\n        await req.respond(reg.model_dump())")
K("S02", TK, "TaskHostRegistrationList.dump_python(list(self.task_hosts.values()))", "[ reg.model_dump() for reg in self.task_hosts.values() ]")
K("S02", TK, "      try:\n        await self.cancel_task(task_id)\n      except FetchError as e:\n        if e.status_code == FetchErrorStatusCode.NOT_FOUND: raise TaskNotFoundError()\n        else: raise e\n", "      try: await self.cancel_task(task_id)\n      except FetchError as e:\n        if e.status_code != FetchErrorStatusCode.NOT_FOUND: raise\n        raise TaskNotFoundError()\n")
K("S02", TK, "    async with self.task_receiver([ task_id ]) as receiver:", "    receiver = self.task_receiver([ task_id ])\n    async with receiver:")
K("S02", TK, "        self.task_hosts[reg.id] = reg\n        await self.bc_server.broadcast(TaskConstants.BC_TASK_HOST_REGISTERED, RawData(reg.model_dump()))\n        await req.respond(None)", "        self.task_hosts[reg.id] = reg\n        await req.respond(None)\n        await self.bc_server.broadcast(TaskConstants.BC_TASK_HOST_REGISTERED, RawData(reg.model_dump()))")
EDITS[:] = [e for e in EDITS if e]
