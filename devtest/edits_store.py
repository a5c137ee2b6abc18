TW, NTF, SCF, PDF = "system/task_web.py", "system/named_topic_manager.py", "system/secret_manager.py", "pydanticdb.py"
# S05
B("S05", TW, "    if deployment.id in self.running_deployments: raise ValueError(\"Deployment is running!\")\n    if next(", "    if next(", "update unguarded")
B("S05", TW, "    if id in self.running_deployments: raise ValueError(\"Deployment is running!\")\n    self.deployments", "    self.deployments", "delete unguarded")
B("S05", TW, "    task = await self.get_task(id)\n    if task.deployment_id in self.running_deployments: raise ValueError(\"Deployment is running!\")\n", "", "delete task unguarded")
B("S05", TW, "    if task.deployment_id in self.running_deployments: raise ValueError(\"Deployment is running!\")\n    existing", "    existing", "new place unguarded")
B("S05", TW, "    if existing_task is not None and existing_task.deployment_id in self.running_deployments: raise ValueError(\"Deployment is running!\")\n", "", "old place unguarded")
B("S05", TW, "    if id in self.running_deployments: raise ValueError(\"Deployment is running!\")\n    self.deployments", "    if (rd := self.running_deployments.get(id)) is not None and rd.started: raise ValueError(\"Deployment is running!\")\n    self.deployments", "only when started")
B("S05", TW, "    if id in self.running_deployments: raise ValueError(\"Deployment is running!\")\n    self.deployments", "    if id in self.running_deployments: return\n    self.deployments", "ignored")
B("S05", TW, "    if deployment.id in self.running_deployments: raise ValueError(\"Deployment is running!\")\n    if next(", "    if str(deployment.id) in self.running_deployments: raise ValueError(\"Deployment is running!\")\n    if next(", "str key")
B("S05", TW, "    if task.deployment_id in self.running_deployments: raise ValueError(\"Deployment is running!\")\n    existing", "    if task.id in self.running_deployments: raise ValueError(\"Deployment is running!\")\n    existing", "task id looked up")
B("S05", TW, "    if deployment.id in self.running_deployments: raise ValueError(\"Deployment is running!\")\n    self.running_deployments[", "    self.running_deployments[", "store sets again")
B("S05", TW, "    if id in self.running_deployments: raise ValueError(\"Deployment is running!\")\n    self.deployments.update(", "    if id in self.running_deployments: raise ValueError(\"Deployment is running!\")\n    await asyncio.sleep(0)\n    self.deployments.update(", "stale")
B("S05", TW, "      await self.store.delete_deployment(UUID(ctx.params.get(\"id\", \"\")))\n", "      try: await self.store.delete_deployment(UUID(ctx.params.get(\"id\", \"\")))\n      except ValueError: pass\n", "swallowed")
K("S05 S06", TW, "      if deployment_id in self.store.running_deployments: raise ValueError(\"Deployment is running!\")\n      tasks", "      tasks", "checked by the store only")
K("S05 S06", TW, "    if id in self.running_deployments: raise ValueError(\"Deployment is running!\")\n    self.deployments", "    self._assert_offline(id)\n    self.deployments", "name only") if False else None
K("S05 S06", TW, "    if id in self.running_deployments: raise ValueError(\"Deployment is running!\")\n    self.deployments", "    if self.running_deployments.get(id, None) is not None: raise ValueError(\"Deployment is running!\")\n    self.deployments", "get")
K("S05 S06", TW, "    if id in self.running_deployments: raise ValueError(\"Deployment is running!\")\n    self.deployments", "    if any(rd.id == id for rd in self.running_deployments.values()): raise ValueError(\"Deployment is running!\")\n    self.deployments", "any over values") if False else None
K("S05 S06", TW, "  async def delete_deployment(self, id: UUID4):\n    if id in self.running_deployments: raise ValueError(\"Deployment is running!\")\n", "  def _check(self, id: UUID4):\n    if id in self.running_deployments: raise ValueError(\"Deployment is running!\")\n  async def delete_deployment(self, id: UUID4):\n    self._check(id)\n", "helper")
K("S05 S06", TW, "    task = await self.get_task(id)\n    if task.deployment_id in self.running_deployments: raise ValueError(\"Deployment is running!\")\n    self.tasks.update([t for t in self.tasks.entries if t.id != id])\n", "    entries = self.tasks.entries\n    remaining = []\n    found = False\n    for t in entries:\n      if t.id == id:\n        found = True\n        if t.deployment_id in self.running_deployments: raise ValueError(\"Deployment is running!\")\n      else: remaining.append(t)\n    if not found: raise ValueError(\"Invalid id!\")\n    self.tasks.update(remaining)\n", "loop")
K("S05 S06", TW, "    existing_task = next((t for t in self.tasks.entries if t.id == task.id), None)\n    if existing_task is not None and existing_task.deployment_id in self.running_deployments: raise", "    if any(t.id == task.id and t.deployment_id in self.running_deployments for t in self.tasks.entries): raise", "any old place")
K("S05 S06", TW, "    if id in self.running_deployments: raise ValueError(\"Deployment is running!\")\n    self.deployments.update([d for d in self.deployments.entries if d.id != id])\n    self.deployments.save()\n", "    if id not in self.running_deployments:\n      self.deployments.update([d for d in self.deployments.entries if d.id != id])\n      self.deployments.save()\n    else: raise ValueError(\"Deployment is running!\")\n", "inverted")
# S06
B("S06", TW, "    self.dashboards.update([d for d in self.dashboards.entries if d.id != db.id] + [db])\n    self.dashboards.save()\n", "    self.dashboards.update([d for d in self.dashboards.entries if d.id != db.id] + [db])\n", "dashboard not saved")
B("S06", TW, "    self.dashboards.update([d for d in self.dashboards.entries if d.id != db.id] + [db])\n    self.dashboards.save()\n", "    self.dashboards.save()\n    self.dashboards.update([d for d in self.dashboards.entries if d.id != db.id] + [db])\n", "saved before")
B("S06", TW, "    self.dashboards.update([d for d in self.dashboards.entries if d.id != db.id] + [db])\n", "    self.dashboards.update([d for d in self.dashboards.entries if d.deployment_id != db.deployment_id] + [db])\n", "dashboard key")
B("S06", TW, "    self.dashboards.update([d for d in self.dashboards.entries if d.id != db.id] + [db])\n", "    self.dashboards.update(self.dashboards.entries + [db])\n", "duplicate")
B("S06", TW, "    self.dashboards.update([d for d in self.dashboards.entries if d.id != id])\n    self.dashboards.save()\n", "    self.dashboards.update([d for d in self.dashboards.entries if d.id == id])\n    self.dashboards.save()\n", "deletes the others")
B("S06", TW, "    self.dashboards.update([d for d in self.dashboards.entries if d.id != id])\n    self.dashboards.save()\n", "    self.dashboards.update([d for d in self.dashboards.entries if d.deployment_id != id])\n    self.dashboards.save()\n", "deletes by deployment")
B("S06", TW, "    self.dashboards.update([d for d in self.dashboards.entries if d.id != id])\n    self.dashboards.save()\n", "    self.dashboards.entries.remove(next(d for d in self.dashboards.entries if d.id == id))\n    self.dashboards.save()\n", "removes from a copy")
B("S06", TW, "    if next((True for d in self.deployments.entries if d.id == deployment.id), None) is not None: raise ValueError(\"Deployment already exists!\")\n", "", "create replaces")
B("S06", TW, "    if next((True for d in self.deployments.entries if d.id == deployment.id), None) is not None: raise", "    if next((True for d in self.deployments.entries if d.label == deployment.label), None) is not None: raise", "label compared")
B("S06", TW, "    if next((True for d in self.deployments.entries if d.id == deployment.id), None) is None: raise ValueError(\"Deployment does not exists!\")\n", "", "update creates")
B("S06", TW, "    self.deployments.update([d for d in self.deployments.entries if d.id != deployment.id] + [deployment])\n    self.deployments.save()", "    self.deployments.update([d for d in self.deployments.entries if d.id != deployment.id] + [deployment])\n    self.tasks.save()", "saves other")
B("S06", TW, "    self.deployments.update(self.deployments.entries + [deployment])\n    self.deployments.save()", "    if len(self.deployments.entries) == 0 or deployment.label: self.deployments.update(self.deployments.entries + [deployment])\n    self.deployments.save()", "sometimes not")
B("S06", TW, "    self.tasks.update([t for t in self.tasks.entries if t.id != task.id] + [task])\n", "    self.tasks.update([t for t in self.tasks.entries if t.id != task.id or t.deployment_id != task.deployment_id] + [task])\n", "two keys")
B("S06", TW, "    self.tasks.update([t for t in self.tasks.entries if t.id != id])\n", "    self.tasks.update([t for t in self.tasks.entries if t.deployment_id != task.deployment_id])\n", "all of the deployment")
B("S06", TW, "[ task for task in await self.all_tasks() if task.deployment_id == deployment_id ]", "[ task for task in await self.all_tasks() if task.id == deployment_id ]", "tasks by id")
B("S06", TW, "[ db for db in self.dashboards.entries if db.deployment_id == deployment_id ]", "[ db for db in self.dashboards.entries ]", "all dashboards")
B("S06", TW, "[ db for db in self.dashboards.entries if db.deployment_id == deployment_id ]", "[ db for db in self.dashboards.entries if db.deployment_id == deployment_id and len(db.windows) > 0 ]", "only with windows")
B("S06", TW, "    try: return next(d for d in self.dashboards.entries if d.id == id)\n", "    try: return next(d for d in self.dashboards.entries if d.deployment_id == id)\n", "dashboard by deployment")
B("S06", TW, "for d in self.deployments.entries ]\n", "for d in self.deployments.entries if d.id in self.running_deployments ]\n", "only running")
B("S06", NTF, "      self.db.update([e for e in self.db.entries if e.name != data.name] + [data])\n      self.db.save()\n      await req.respond(data.model_dump())", "      self.db.update([e for e in self.db.entries if e.name != data.name] + [data])\n      await req.respond(data.model_dump())\n      self.db.save()", "saved after the answer")
B("S06", NTF, "      self.db.update([e for e in self.db.entries if e.name != data.name] + [data])\n      self.db.save()\n      await ctx", "      self.db.update([e for e in self.db.entries if e.name != data.name] + [data])\n      await ctx", "web unsaved")
B("S06", NTF, "      name = unquote(ctx.params[\"name\"])\n      self.db.update(e for e in self.db.entries if e.name != name)\n", "      name = unquote(ctx.params[\"name\"])\n      self.db.update(e for e in self.db.entries if not e.name.startswith(name))\n", "prefix")
B("S06", NTF, "      name = unquote(ctx.params[\"name\"])\n      self.db.update(e for e in self.db.entries if e.name != name)\n", "      name = unquote(ctx.params[\"name\"]).lower()\n      self.db.update(e for e in self.db.entries if e.name != name)\n", "lower")
B("S06", NTF, "next(e for e in self.db.entries if e.name == data.name)", "next(e for e in self.db.entries if data.name in e.name)", "contains")
B("S06", SCF, "        data = SecretRequestModel.model_validate(req.body)\n        await req.respond(next(e for e in self.db.entries if e.id == data.id).model_dump())", "        data = SecretRequestModel.model_validate(req.body)\n        await req.respond(next(e for e in self.db.entries if e.id != data.id).model_dump())", "other secret")
B("S06", SCF, "      self.db.update([e for e in self.db.entries if e.id != data.id] + [data])\n      self.db.save()\n      await ctx", "      self.db.update([data])\n      self.db.save()\n      await ctx", "all others lost")
B("S06", SCF, "        self.db.update(e for e in self.db.entries if e.id != id)\n        self.db.save()\n", "        self.db.update(e for e in self.db.entries if e.id != id)\n        if len(self.db.entries) > 0: self.db.save()\n", "last not saved")
B("S06", SCF, "        id = UUID(ctx.params[\"id\"])\n", "        id = ctx.params[\"id\"]\n", "string id")
K("S05 S06", TW, "    self.dashboards.update([d for d in self.dashboards.entries if d.id != db.id] + [db])\n    self.dashboards.save()\n", "    remaining = []\n    for d in self.dashboards.entries:\n      if d.id == db.id: continue\n      remaining.append(d)\n    remaining.append(db)\n    self.dashboards.update(remaining)\n    self.dashboards.save()\n", "loop put")
K("S05 S06", TW, "    self.dashboards.update([d for d in self.dashboards.entries if d.id != db.id] + [db])\n    self.dashboards.save()\n", "    self._put(self.dashboards, db)\n  def _put(self, pdb, entry):\n    pdb.update([e for e in pdb.entries if e.id != entry.id] + [entry])\n    pdb.save()\n", "helper put")
K("S05 S06", TW, "    self.dashboards.update([d for d in self.dashboards.entries if d.id != db.id] + [db])\n", "    self.dashboards.update([*filter(lambda d: d.id != db.id, self.dashboards.entries), db])\n", "filter put")
K("S05 S06", TW, "    self.dashboards.update([d for d in self.dashboards.entries if d.id != db.id] + [db])\n", "    entries = {d.id: d for d in self.dashboards.entries}\n    entries[db.id] = db\n    self.dashboards.update(entries.values())\n", "dict put")
K("S05 S06", TW, "    self.dashboards.update([d for d in self.dashboards.entries if d.id != id])\n", "    self.dashboards.update(filter(lambda d: d.id != id, self.dashboards.entries))\n", "filter remove")
K("S05 S06", TW, "    self.dashboards.update([d for d in self.dashboards.entries if d.id != id])\n", "    self.dashboards.update([d for d in self.dashboards.entries if not (d.id == id)])\n", "not eq")
K("S05 S06", TW, "    if next((True for d in self.deployments.entries if d.id == deployment.id), None) is not None: raise", "    if any(d.id == deployment.id for d in self.deployments.entries): raise", "any")
K("S05 S06", TW, "    if next((True for d in self.deployments.entries if d.id == deployment.id), None) is None: raise", "    if not any(d.id == deployment.id for d in self.deployments.entries): raise", "not any")
K("S05 S06", TW, "    if next((True for d in self.deployments.entries if d.id == deployment.id), None) is None: raise", "    if deployment.id not in {d.id for d in self.deployments.entries}: raise", "set")
K("S05 S06", TW, "    if next((True for d in self.deployments.entries if d.id == deployment.id), None) is not None: raise ValueError(\"Deployment already exists!\")\n", "    for d in self.deployments.entries:\n      if d.id == deployment.id: raise ValueError(\"Deployment already exists!\")\n", "loop raise")
K("S05 S06", TW, "    try: return next(d for d in self.dashboards.entries if d.id == id)\n    except StopIteration: raise ValueError(\"Invalid id!\")\n", "    db = next((d for d in self.dashboards.entries if d.id == id), None)\n    if db is None: raise ValueError(\"Invalid id!\")\n    return db\n", "next default")
K("S05 S06", TW, "    try: return next(d for d in self.dashboards.entries if d.id == id)\n    except StopIteration: raise ValueError(\"Invalid id!\")\n", "    for d in self.dashboards.entries:\n      if d.id == id: return d\n    raise ValueError(\"Invalid id!\")\n", "loop find")
K("S05 S06", TW, "[ task for task in await self.all_tasks() if task.deployment_id == deployment_id ]", "[ self.task_apply_instance(FullTask.model_validate(v.model_dump())) for v in self.tasks.entries if v.deployment_id == deployment_id ]", "filter first")
K("S05 S06", TW, "[ db for db in self.dashboards.entries if db.deployment_id == deployment_id ]", "list(filter(lambda db: db.deployment_id == deployment_id, self.dashboards.entries))", "filter dashboards")
K("S05 S06", TW, "      deployment = DeploymentBase.model_validate_json(await ctx.receive_json_raw())\n      await self.store.create_deployment(deployment)\n", "      raw = await ctx.receive_json_raw()\n      deployment = DeploymentBase.model_validate_json(raw)\n      logging.info(deployment)\n      await self.store.create_deployment(deployment)\n", "local raw")
K("S05 S06", NTF, "      data = NamedTopicRequestModel.model_validate(req.body)\n      self.db.update(e for e in self.db.entries if e.name != data.name)\n      self.db.save()\n", "      self._remove(NamedTopicRequestModel.model_validate(req.body).name)\n", "remove helper") if False else None
K("S05 S06", SCF, "      data = SecretModel.model_validate(req.body)\n      self.db.update([e for e in self.db.entries if e.id != data.id] + [data])\n      self.db.save()\n", "      data = SecretModel.model_validate(req.body)\n      others = [e for e in self.db.entries if e.id != data.id]\n      others.append(data)\n      self.db.update(others)\n      self.db.save()\n", "append")
K("S05 S06", SCF, "      try:\n        id = UUID(ctx.params[\"id\"])\n        self.db.update(e for e in self.db.entries if e.id != id)\n        self.db.save()\n        await ctx.respond_status(200)\n      except KeyError: await ctx.respond_status(404)\n", "      if \"id\" not in ctx.params: return await ctx.respond_status(404)\n      id = UUID(ctx.params[\"id\"])\n      self.db.update(e for e in self.db.entries if e.id != id)\n      self.db.save()\n      await ctx.respond_status(200)\n", "in params")
K("S05 S06", NTF, "        data = NamedTopicRequestModel.model_validate(req.body)\n        await req.respond(next(e for e in self.db.entries if e.name == data.name).model_dump())\n      except StopIteration: await req.respond_error(new_fetch_body_not_found(\"named topic not found!\"))", "        data = NamedTopicRequestModel.model_validate(req.body)\n        matches = [e for e in self.db.entries if e.name == data.name]\n        if len(matches) == 0: await req.respond_error(new_fetch_body_not_found(\"named topic not found!\"))\n        else: await req.respond(matches[0].model_dump())\n      except StopIteration: raise", "matches[0]")
# P01
SAVE0 = "    temp_filename = self._filename + \".tmp\"\n    with open(temp_filename, \"wb\") as fd:\n      fd.write(self._list_model.dump_json(self._entries))\n      fd.flush()\n      os.fsync(fd.fileno())\n    os.replace(temp_filename, self._filename)\n"
B("P01", PDF, SAVE0, "    with open(self._filename, \"wb\") as fd: fd.write(self._list_model.dump_json(self._entries))\n", "in place")
B("P01", PDF, SAVE0, "    data = self._list_model.dump_json(self._entries)\n    with open(self._filename, \"r+b\") as fd:\n      fd.write(data)\n      fd.truncate()\n", "in place r+")
B("P01", PDF, SAVE0, "    with open(self._filename + \".tmp\", \"wb\") as fd:\n      fd.write(self._list_model.dump_json(self._entries))\n      os.replace(self._filename + \".tmp\", self._filename)\n", "replaced while open")
B("P01", PDF, SAVE0, "    temp_filename = self._filename + \".tmp\"\n    try:\n      with open(temp_filename, \"wb\") as fd: fd.write(self._list_model.dump_json(self._entries))\n    finally: os.replace(temp_filename, self._filename)\n", "finally")
B("P01", PDF, SAVE0, "    temp_filename = self._filename + \".tmp\"\n    try:\n      with open(temp_filename, \"wb\") as fd: fd.write(self._list_model.dump_json(self._entries))\n    except OSError: pass\n    os.replace(temp_filename, self._filename)\n", "ignored")
B("P01", PDF, SAVE0, SAVE0.replace("    os.replace(", "    if os.path.exists(self._filename): os.remove(self._filename)\n    os.replace("), "removed first")
B("P01", PDF, SAVE0, SAVE0.replace("os.replace(temp_filename, self._filename)", "shutil.copyfile(temp_filename, self._filename)").replace("    temp_", "    import shutil\n    temp_", 1), "copied")
B("P01", PDF, SAVE0, SAVE0.replace("self._entries)", "self._entries[-100:])"), "last 100")
B("P01", PDF, SAVE0, SAVE0.replace("self._entries)", "self._entries, exclude_unset=True)"), "exclude_unset")
B("P01", PDF, SAVE0, SAVE0.replace("self._entries)", "self._entries, exclude_defaults=True)"), "exclude_defaults")
B("P01", PDF, SAVE0, "    if len(self._entries) == 0: return\n" + SAVE0, "empty not saved")
B("P01", PDF, "    if os.path.exists(filename): self.load()\n", "    if os.path.exists(filename):\n      try: self.load()\n      except ValueError: pass\n", "invalid is empty")
B("P01", PDF, "    if os.path.exists(filename): self.load()\n", "    try: self.load()\n    except OSError: pass\n", "unreadable is empty")
B("P01", PDF, "    if os.path.exists(filename): self.load()\n", "", "never loaded")
B("P01", PDF, "copy.deepcopy(self._entries)", "self._entries", "no copy")
B("P01", PDF, "copy.deepcopy(self._entries)", "list(self._entries)", "shallow")
B("P01", PDF, "copy.deepcopy(self._entries)", "[e.model_copy() for e in self._entries]", "shallow models")
B("P01", PDF, "self._entries = list(entries)", "self._entries = entries", "no list")
K("P01", PDF, "copy.deepcopy(self._entries)", "[copy.deepcopy(e) for e in self._entries]", "deep each")
K("P01", PDF, "copy.deepcopy(self._entries)", "[e.model_copy(deep=True) for e in self._entries]", "model_copy deep")
K("P01", PDF, "self._entries = list(entries)", "self._entries = [*entries]", "star")
K("P01", PDF, "self._entries = list(entries)", "self._entries = [e for e in entries]", "comp")
K("P01", PDF, "    if os.path.exists(filename): self.load()\n", "    try: self.load()\n    except FileNotFoundError: pass\n", "FileNotFoundError")
K("P01", PDF, "    if os.path.exists(filename): self.load()\n", "    if os.path.isfile(self._filename): self.load()\n", "isfile")
K("P01", PDF, "    with open(self._filename, \"rb\") as fd: self._entries = self._list_model.validate_json(fd.read())\n", "    with open(self._filename, \"rb\") as fd: raw = fd.read()\n    self._entries = self._list_model.validate_json(raw)\n", "raw")
K("P01", PDF, SAVE0, "    data = self._list_model.dump_json(self._entries)\n    temp_filename = f\"{self._filename}.new\"\n    with open(temp_filename, mode=\"wb\") as fd: fd.write(data); fd.flush(); os.fsync(fd.fileno())\n    os.replace(temp_filename, self._filename)\n", "f-string, data first")
K("P01", PDF, SAVE0, SAVE0.replace("os.replace", "os.rename"), "rename")
K("P01", PDF, SAVE0, SAVE0.replace("    os.replace(", "    self._commit(").rstrip("\n").replace("self._commit(temp_filename, self._filename)", "self._commit(temp_filename)") + "\n\n  def _commit(self, name): os.replace(name, self._filename)\n", "helper")
K("P01", PDF, SAVE0, "    temp_filename = self._filename + \".tmp\"\n    fd = open(temp_filename, \"wb\")\n    try: fd.write(self._list_model.dump_json(self._entries)); fd.flush(); os.fsync(fd.fileno())\n    finally: fd.close()\n    os.replace(temp_filename, self._filename)\n", "explicit close")
K("P01", PDF, SAVE0, "    temp_filename = self._filename + \".tmp\"\n    try:\n      with open(temp_filename, \"wb\") as fd: fd.write(self._list_model.dump_json(self._entries)); fd.flush(); os.fsync(fd.fileno())\n    except BaseException:\n      os.remove(temp_filename)\n      raise\n    os.replace(temp_filename, self._filename)\n", "cleanup on failure")
K("P01", PDF, SAVE0, "    import pathlib\n    temp = pathlib.Path(self._filename + \".tmp\")\n    with temp.open(\"wb\") as fd: fd.write(self._list_model.dump_json(self._entries)); fd.flush(); os.fsync(fd.fileno())\n    temp.replace(self._filename)\n", "pathlib")
# P02
CMF = "system/connection_manager.py"
B("P02", CMF, "      self._server_url_data.append(data)\n      self.update_server_urls()\n", "      self._server_url_data.append(data)\n      self.update_connection_urls()\n", "stores connections")
B("P02", CMF, "    self.db[\"server\"] =", "    self.db[\"servers\"] =", "other key")
B("P02", CMF, "    self.db[\"server\"] =", "    self.db[\"connection\"] =", "same key")
B("P02", CMF, "      self._connection_url_data.append(data)\n      self.update_connection_urls()\n", "      self.update_connection_urls()\n      self._connection_url_data.append(data)\n", "stored before added")
B("P02", CMF, "      self._connection_url_data.append(data)\n      self.update_connection_urls()\n", "      self._connection_url_data.append(data)\n", "not stored")
B("P02", CMF, "      data.start()\n      self._connection_url_data.append(data)\n", "      self._connection_url_data.append(data)\n", "not started")
B("P02", CMF, "json.dumps([ data.url for data in self._connection_url_data ])", "json.dumps([ data.url for data in self._connection_url_data if data.running ])", "only running stored")
B("P02", CMF, "json.dumps([ data.url for data in self._connection_url_data ])", "json.dumps([ data.sanitized_url for data in self._connection_url_data ])", "sanitized stored")
B("P02", CMF, "      self._connection_url_data = [data for data in self._connection_url_data if data.id != id]\n      self.update_connection_urls()\n", "      self._connection_url_data = [data for data in self._connection_url_data if data.id != id]\n", "removal not stored")
B("P02", CMF, "      self._connection_url_data = [data for data in self._connection_url_data if data.id != id]\n      self.update_connection_urls()\n", "      self.update_connection_urls()\n      self._connection_url_data = [data for data in self._connection_url_data if data.id != id]\n", "stored before removed")
B("P02", CMF, "      self._server_url_data = [data for data in self._server_url_data if data.id != id]\n", "      self._server_url_data = [data for data in self._connection_url_data if data.id != id]\n", "mixed lists")
B("P02", CMF, "      await data.stop()\n      self._server_url_data =", "      self._server_url_data =", "removed runs on")
B("P02", CMF, "      if any(True for server in self._server_url_data if server.id == data.id):", "      if any(True for server in self._connection_url_data if server.id == data.id):", "dup of other kind")
B("P02", CMF, "        await data.worker.shutdown()\n        return await ctx.respond_status(400)\n      data.start()\n      self._connection", "        return await ctx.respond_status(400)\n      data.start()\n      self._connection", "refused linked")
B("P02", CMF, "      data = await self.create_server_url_data(req.url)\n      if any(", "      data = await self.create_connection_url_data(req.url)\n      if any(", "server created as connection")
B("P02", CMF, "      for url in self.get_server_urls(): self._server_url_data.append(await self.create_server_url_data(url))\n", "      for url in self.get_server_urls(): self._connection_url_data.append(await self.create_server_url_data(url))\n", "server among connections at start")
B("P02", CMF, "      for url in self.get_server_urls(): self._server_url_data.append(await self.create_server_url_data(url))\n", "", "servers not loaded")
B("P02", CMF, "      for url_data in itertools.chain(self._connection_url_data, self._server_url_data): url_data.start()\n", "      for url_data in self._connection_url_data: url_data.start()\n", "servers not started")
B("P02", CMF, "      for url_data in itertools.chain(self._connection_url_data, self._server_url_data): url_data.start()\n      await self.run_web_server()\n", "      await self.run_web_server()\n      for url_data in itertools.chain(self._connection_url_data, self._server_url_data): url_data.start()\n", "started late")
B("P02", CMF, "self.db.get(\"server\", b\"[]\")", "self.db.get(\"connection\", b\"[]\")", "reads connections")
B("P02", CMF, "    id_hash.update(self.url.encode(\"utf-8\"))", "    id_hash.update(self.sanitized_url.encode(\"utf-8\"))", "id of sanitized")
B("P02", CMF, "    id_hash.update(self.url.encode(\"utf-8\"))", "    id_hash.update(self.url.encode(\"utf-8\")[:16])", "id of prefix")
B("P02", CMF, "[ url_data.to_json_data() for url_data in self._server_url_data ]", "[ url_data.to_json_data() for url_data in self._server_url_data if url_data.running ]", "list only running")
B("P02", CMF, "      data.start()\n      self._server_url_data.append(data)\n", "      data.start()\n      await asyncio.sleep(0)\n      self._server_url_data.append(data)\n", "dup race")
K("P02", CMF, "      self._connection_url_data = [data for data in self._connection_url_data if data.id != id]\n", "      self._connection_url_data.remove(data)\n", "remove()")
K("P02", CMF, "      self._connection_url_data = [data for data in self._connection_url_data if data.id != id]\n", "      self._connection_url_data = [other for other in self._connection_url_data if other is not data]\n", "is not data")
K("P02", CMF, "      self._connection_url_data.append(data)\n", "      self._connection_url_data = self._connection_url_data + [data]\n", "plus")
K("P02", CMF, "      self._connection_url_data.append(data)\n", "      self._connection_url_data = [*self._connection_url_data, data]\n", "star")
K("P02", CMF, "      if any(True for connection in self._connection_url_data if connection.id == data.id):", "      if any(connection.id == data.id for connection in self._connection_url_data):", "any")
K("P02", CMF, "      if any(True for connection in self._connection_url_data if connection.id == data.id):", "      if data.id in [connection.id for connection in self._connection_url_data]:", "in list")
K("P02", CMF, "      data = next((data for data in self._connection_url_data if data.id == id), None)\n      if data is None: return await ctx.respond_status(404)\n      await data.stop()\n      self._connection_url_data = [data for data in self._connection_url_data if data.id != id]\n      self.update_connection_urls()\n", "      matching = [data for data in self._connection_url_data if data.id == id]\n      if not matching: return await ctx.respond_status(404)\n      await matching[0].stop()\n      self._connection_url_data = [data for data in self._connection_url_data if data.id != id]\n      self.update_connection_urls()\n", "matching")
K("P02", CMF, "      data = next((data for data in self._connection_url_data if data.id == id), None)\n      if data is None: return await ctx.respond_status(404)\n      await data.stop()\n", "      for data in self._connection_url_data:\n        if data.id == id: break\n      else: return await ctx.respond_status(404)\n      await data.stop()\n", "for else")
K("P02", CMF, "      for url in self.get_server_urls(): self._server_url_data.append(await self.create_server_url_data(url))\n", "      self._server_url_data = [await self.create_server_url_data(url) for url in self.get_server_urls()]\n", "comp at start")
K("P02", CMF, "      for url_data in itertools.chain(self._connection_url_data, self._server_url_data): url_data.start()\n", "      for data in self._connection_url_data: data.start()\n      for data in self._server_url_data: data.start()\n", "two loops")
K("P02", CMF, "      for url in self.get_connection_urls(): self._connection_url_data.append(await self.create_connection_url_data(url))\n", "      for url in self.get_connection_urls():\n        data = await self.create_connection_url_data(url)\n        self._connection_url_data.append(data)\n", "local")
K("P02", CMF, "    self.db[\"connection\"] = json.dumps([ data.url for data in self._connection_url_data ]).encode(\"utf-8\")", "    self._store(\"connection\", self._connection_url_data)\n  def _store(self, key, datas):\n    self.db[key] = json.dumps([ data.url for data in datas ]).encode(\"utf-8\")", "helper")
K("P02", CMF, "    self.db[\"connection\"] = json.dumps([ data.url for data in self._connection_url_data ]).encode(\"utf-8\")", "    urls = [ data.url for data in self._connection_url_data ]\n    self.db[\"connection\"] = URLListAdapter.dump_json(urls)", "adapter")
K("P02", CMF, "    id_hash = hashlib.sha256()\n    id_hash.update(b\"url:::\")\n    id_hash.update(self.url.encode(\"utf-8\"))\n    return id_hash.hexdigest()[:16]", "    return hashlib.sha256(b\"url:::\" + self.url.encode(\"utf-8\")).hexdigest()[:16]", "sha of sum")
