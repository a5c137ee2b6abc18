SM, TK, TW, NTM, DI, SDI, BRC = "system/secret_manager.py", "system/task.py", "system/task_web.py", "system/named_topic_manager.py", "client/discovery.py", "services/discovery.py", "client/broadcast.py"
B("C07", TK, '  @field_serializer("id")\n  def serialize_id(self, id: UUID4): return str(id)\n', "")
B("C07", TK, 'class TaskReport(ModelWithId):\n  error: Optional[str]\n  status: TaskStatus\n\n  @field_serializer("status")\n  def serialize_status(self, status: TaskStatus): return status.value\n', 'class TaskReport(ModelWithId):\n  error: Optional[str]\n  status: TaskStatus\n')
B("C07", TK, "@fetch_server.route(TaskConstants.FD_TASK_CANCEL)", "@fetch_server.route(TaskConstants.FD_TM_TASK_CANCEL)", "host cancel")
B("C07", TK, 'if task_cancel_result != "OK"', 'if task_cancel_result != "ok"')
B("C07", TK, "TaskConstants.FD_TASK_CANCEL, tc_req.model_dump()", "TaskConstants.FD_TASK_CANCEL, tc_req.id")
B("C07", TK, "TaskConstants.FD_TASK_CANCEL, tc_req.model_dump()", "TaskConstants.FD_TASK_CANCEL, { \"task_id\": str(tc_req.id) }")
B("C07", TK, "RawData(task.model_dump())", "RawData(task)")
B("C07", TK, "RawData(task.model_dump())", "RawData(report.model_dump())")
B("C07", TK, "await self.bc_server.broadcast(TaskConstants.BC_TASK_HOST_UNREGISTERED", "await self.bc_server.broadcast(TaskConstants.SD_UNREGISTER_TASK_HOST")
B("C07", TK, "TaskConstants.SD_UNREGISTER_TASK_HOST, ModelWithStrId(id=self.id).model_dump()", "TaskConstants.SD_UNREGISTER_TASK_HOST, self.id")
B("C07", TK, "await req.respond(task_instance.model_dump())\n      except KeyError as e: await req.respond_error(new_fetch_body_not_found(str(e)))\n      except ValidationError as e: await req.respond_error(new_fetch_body_bad_request(str(e)))\n\n    @server.route(TaskConstants.FD_TM_TASK_START)", "await req.respond(body.model_dump())\n      except KeyError as e: await req.respond_error(new_fetch_body_not_found(str(e)))\n      except ValidationError as e: await req.respond_error(new_fetch_body_bad_request(str(e)))\n\n    @server.route(TaskConstants.FD_TM_TASK_START)", "schedule answers request")
B("C07", DI, "class GenerateAddressesResponseMessage(GenerateAddressesResponseMessageBase):\n  request_id: int", "class GenerateAddressesResponseMessage(GenerateAddressesResponseMessageBase):\n  request_id: int\n  addresses: set[int]")
B("C07", DI, "class RegisterTopicSpaceRequestMessage(BaseModel):\n  topic_ids: list[int]", "class RegisterTopicSpaceRequestMessage(BaseModel):\n  topic_ids: set[int]")
B("C07", DI, "class TopicSpaceResponseMessage(BaseModel):\n  id: int\n  topic_id_map: list[tuple[int, int]]", "class TopicSpaceResponseMessage(BaseModel):\n  id: int\n  topic_id_map: dict[int, int]")
B("C07", SDI, "DiscoveryConstants.SD_UNREGISTER_ADDRESS_NAME", "DiscoveryConstants.FD_REGISTER_ADDRESS_NAME", "signal handler name")
B("C07", BRC, 'self._endpoint, "gettopics", list(self._namespaces)', 'self._endpoint, "gettopics", self._namespaces')
B("C07", BRC, 'self._endpoint, "gettopics", list(self._namespaces)', 'self._endpoint, "get_topics", list(self._namespaces)')
B("C07", TW, "      data = ModelWithStrId.model_validate(message_data)\n      self.path_registrations", "      data = ModelWithId.model_validate(message_data)\n      self.path_registrations")
K("C07", TK, "class TaskHostRegistration(ModelWithStrId):\n  address: int\n  metadata: MetadataDict", "class TaskHostRegistration(BaseModel):\n  id: str\n  address: int\n  metadata: MetadataDict")
K("C07", TK, "      body = TaskCancelRequest.model_validate(req.body)\n      try:\n        task = self.tasks[body.id]", "      task_id = TaskCancelRequest.model_validate(req.body).id\n      try:\n        task = self.tasks[task_id]")
K("C07", BRC, 'self._endpoint, "gettopics", list(self._namespaces)', 'self._endpoint, "gettopics", [ *self._namespaces ]')
K("C07", TK, "        task_instance = TaskInstance(\n          id=uuid4(),\n          host_id=body.host_id,\n          topic_space_id=body.topic_space_id,\n          metadata={},\n          error=None,\n          status=TaskStatus.scheduled\n        )\n        self.tasks[task_instance.id] = task_instance\n", "        task_instance = TaskInstance(id=uuid4(), host_id=body.host_id, topic_space_id=body.topic_space_id, metadata={}, error=None, status=TaskStatus.scheduled)\n        self.tasks.update({ task_instance.id: task_instance })\n")
K("C07", SM, "SecretModel(id=id, value=value).model_dump()", "{ \"id\": str(id), \"value\": value }")

B("C07", TK, "FD_REGISTER_TASK_HOST, reg.model_dump())", "FD_REGISTER_TASK_HOST, reg.model_dump(exclude={\"metadata\"}))")
B("C07", TK, "FD_TASK_START, task_start_request.model_dump())", "FD_TASK_START, task_start_request.model_dump(include={\"id\", \"config\"}))")
B("C07", TK, "RawData(task.model_dump())", "RawData(task.model_dump(exclude_none=True))")
K("C07", TK, "FD_REGISTER_TASK_HOST, reg.model_dump())", "FD_REGISTER_TASK_HOST, reg.model_dump(mode=\"json\"))")
K("C07", TK, "FD_TASK_CANCEL, tc_req.model_dump())", "FD_TASK_CANCEL, tc_req.model_dump(mode=\"json\"))")
K("C07", TK, "FD_TASK_CANCEL, tc_req.model_dump())", "FD_TASK_CANCEL, { \"id\": str(tc_req.id) })")
K("C07", TK, "RawData(task.model_dump())", "RawData(task.model_dump(exclude=set()))")

