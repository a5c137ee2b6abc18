TWF = "system/task_web.py"
B("S07", TWF, "output[\"topic_id\"]) for output in task.outputs) for task in tasks))", "output[\"topic_id\"]) for output in task.outputs) for task in tasks[1:]))", "skip first")
B("S07", TWF, "output[\"topic_id\"]) for output in task.outputs) for", "output[\"topic_id\"]) for output in task.outputs if output.get(\"enabled\")) for", "some outputs")
B("S07", TWF, "output[\"topic_id\"]) for output in task.outputs) for", "output[\"topic_id\"]) for output in task.inputs) for", "inputs")
B("S07", TWF, "      tasks = await self.store.all_tasks_in_deployment(deployment_id)\n", "      tasks = await self.store.all_tasks()\n", "all tasks")
B("S07", TWF, "schedule_task(task.task_host_id, topic_space_id)", "schedule_task(task.task_host_id, None)", "no space")
B("S07", TWF, "schedule_task(task.task_host_id, topic_space_id)", "schedule_task(tasks[0].task_host_id, topic_space_id)", "first host")
B("S07", TWF, "running_deployment.task_instances[task.id] = task_instance", "running_deployment.task_instances[task_instance.id] = task_instance", "wrong key")
B("S07", TWF, "running_deployment.task_instance_configs[task_instance.id] = task.config", "running_deployment.task_instance_configs[task.id] = task.config", "config key")
B("S07", TWF, "asyncio.gather(*(schedule_task(task) for task in tasks))", "asyncio.gather(*(schedule_task(task) for task in tasks if task.task_instance is None))", "skip some")
B("S07", TWF, "      self.deployment_task_listeners[deployment_id] = asyncio.create_task(self.run_deployment_task_listener(running_deployment))\n", "", "no listener")
B("S07", TWF, "running_deployment.task_instance_configs.get(task_instance.id, None)", "running_deployment.task_instance_configs.get(task_id, None)", "start config by task")
B("S07", TWF, "        running_deployment.task_instances[task_id] = new_task_instance\n", "", "start not kept")
B("S07", TWF, "        running_deployment.task_instances[task_id] = new_task_instance\n", "        running_deployment.task_instances[new_task_instance.id] = new_task_instance\n", "start kept under instance")
B("S07", TWF, "      running_deployment.started = True\n", "", "never running")
B("S07", TWF, "        except TaskNotFoundError: pass\n", "        except BaseException: pass\n", "any failure")
B("S07", TWF, "        try: await self.tm_client.cancel_task_wait(task_instance.id)\n        except TaskNotFoundError: pass\n", "        await self.tm_client.cancel_task_wait(task_instance.id)\n", "unknown kills stop")
B("S07", TWF, "self.tm_client.cancel_task_wait(task_instance.id)", "self.tm_client.cancel_task(task_instance.id)", "no wait")
B("S07", TWF, "for task_instance in running_deployment.task_instances.values()))\n", "for task_instance in running_deployment.task_instances.values() if task_instance.status == TaskStatus.running))\n", "only running cancelled")
B("S07", TWF, "for task_instance in running_deployment.task_instances.values()))\n", "for task_instance in running_deployment.task_instances.values()), return_exceptions=True)\n", "return_exceptions")
B("S07", TWF, "      await delete_topic_space(self.client, running_deployment.topic_space_id)\n", "", "space leaks")
B("S07", TWF, "      running_deployment = self.store.get_running_deployment(deployment_id)\n\n      async def stop_task", "      running_deployment = self.store.delete_running_deployment(deployment_id)\n\n      async def stop_task", "gone first")
B("S07", TWF, ".pop(deployment_id, None)) is not None: listener_task.cancel()", ".pop(deployment_id, None)) is not None and listener_task.done(): listener_task.cancel()", "listener stays")
B("S07", TWF, "      deployment.task_instances[task_id] = task_instance\n", "      deployment.task_instances[task_instance.id] = task_instance\n", "update under instance")
B("S07", TWF, "task_instance_id_map = { ti.id: task_id for task_id, ti in", "task_instance_id_map = { task_id: ti.id for task_id, ti in", "map reversed")
B("S07", TWF, "\"running\" if running_deployment.started else \"scheduled\"", "\"running\" if running_deployment.task_instances else \"scheduled\"", "running if any")
B("S07", TWF, ".task_instances.get(task.id, None)", ".task_instances.get(task.deployment_id, None)", "wrong instance shown")
B("S07", TWF, "topic_space_id=topic_space_id, task_instances={}", "topic_space_id=0, task_instances={}", "space not kept")
K("S07", TWF, "      topic_ids = set(itertools.chain.from_iterable((int(output[\"topic_id\"]) for output in task.outputs) for task in tasks))\n", "      topic_ids = { int(output[\"topic_id\"]) for task in tasks for output in task.outputs }\n", "set comp")
K("S07", TWF, "      topic_ids = set(itertools.chain.from_iterable((int(output[\"topic_id\"]) for output in task.outputs) for task in tasks))\n", "      topic_ids: set[int] = set()\n      for task in tasks:\n        for output in task.outputs: topic_ids.add(int(output[\"topic_id\"]))\n", "loops")
K("S07", TWF, "      topic_ids = set(itertools.chain.from_iterable((int(output[\"topic_id\"]) for output in task.outputs) for task in tasks))\n", "      topic_ids = set()\n      for task in tasks: topic_ids.update(int(output[\"topic_id\"]) for output in task.outputs)\n", "update")
K("S07", TWF, "      await asyncio.gather(*(schedule_task(task) for task in tasks))\n", "      for task in tasks: await schedule_task(task)\n", "sequential")
K("S07", TWF, "      await asyncio.gather(*(schedule_task(task) for task in tasks))\n", "      schedule_jobs = [ schedule_task(task) for task in tasks ]\n      await asyncio.gather(*schedule_jobs)\n", "jobs")
K("S07", TWF, "      await asyncio.gather(*(start_task(task_id, task_instance) for (task_id, task_instance) in running_deployment.task_instances.items()))\n", "      await asyncio.gather(*[ start_task(task_id, running_deployment.task_instances[task_id]) for task_id in running_deployment.task_instances ])\n", "by key")
K("S07", TWF, "      await asyncio.gather(*(start_task(task_id, task_instance) for (task_id, task_instance) in running_deployment.task_instances.items()))\n", "      for task_id, task_instance in list(running_deployment.task_instances.items()): await start_task(task_id, task_instance)\n", "seq start")
K("S07", TWF, "        new_task_instance = await self.tm_client.start_task(task_instance.id, running_deployment.task_instance_configs.get(task_instance.id, None))\n        running_deployment.task_instances[task_id] = new_task_instance\n", "        config = running_deployment.task_instance_configs.get(task_instance.id)\n        running_deployment.task_instances[task_id] = await self.tm_client.start_task(task_instance.id, config)\n", "inline")
K("S07", TWF, "      if (listener_task := self.deployment_task_listeners.pop(deployment_id, None)) is not None: listener_task.cancel()\n      self.store.delete_running_deployment(deployment_id)\n", "      self.store.delete_running_deployment(deployment_id)\n      if deployment_id in self.deployment_task_listeners: self.deployment_task_listeners.pop(deployment_id).cancel()\n", "reordered")
K("S07", TWF, "    if (running_deployment := self.running_deployments.get(deployment.id, None)) is not None: deployment.status = \"running\" if running_deployment.started else \"scheduled\"\n", "    if deployment.id in self.running_deployments:\n      if self.running_deployments[deployment.id].started: deployment.status = \"running\"\n      else: deployment.status = \"scheduled\"\n", "in")
K("S07", TWF, "\"running\" if running_deployment.started else \"scheduled\"", "\"running\" if running_deployment.task_instance_configs is None else \"scheduled\"", "configs none")
K("S07", TWF, "    async for task_id, task_instance in self.receive_deployment_task_instance_updates(deployment):\n      deployment.task_instances[task_id] = task_instance\n", "    async for update in self.receive_deployment_task_instance_updates(deployment):\n      deployment.task_instances[update[0]] = update[1]\n", "index")
K("S07", TWF, "        if (task_id := task_instance_id_map.get(task_instance.id, None)) is not None:\n          yield (task_id, task_instance)\n", "        if task_instance.id not in task_instance_id_map: continue\n        yield task_instance_id_map[task_instance.id], task_instance\n", "continue")
K("S07", TWF, "    task_instance_id_map = { ti.id: task_id for task_id, ti in deployment.task_instances.items() }\n", "    task_instance_id_map = {}\n    for task_id, ti in deployment.task_instances.items(): task_instance_id_map[ti.id] = task_id\n", "loop map")
K("S07", TWF, "      async def stop_task(task_instance: TaskInstance):\n        try: await self.tm_client.cancel_task_wait(task_instance.id)\n        except TaskNotFoundError: pass\n      await asyncio.gather(*(stop_task(task_instance) for task_instance in running_deployment.task_instances.values()))\n", "      await asyncio.gather(*(self._stop_instance(ti.id) for ti in running_deployment.task_instances.values()))\n", "K-helper-missing") if False else None
K("S07", TWF, "    if task.deployment_id in self.running_deployments: task.task_instance = self.running_deployments[task.deployment_id].task_instances.get(task.id, None)\n", "    if (running := self.running_deployments.get(task.deployment_id)) is not None: task.task_instance = running.task_instances.get(task.id)\n", "walrus")
K("S07", TWF, "      running_deployment.task_instance_configs = None\n      running_deployment.started = True\n", "      running_deployment.started = True\n      running_deployment.task_instance_configs = None\n", "swap")
K("S07", TWF, "import TaskConstants", "import TaskConstants", "nothing") if False else None
B("S07", TWF, "task_instance_ids = [ ti.id for ti in deployment.task_instances.values() ]", "task_instance_ids = [ ti.id for ti in deployment.task_instances.values() if ti.status == TaskStatus.running ]", "listens to some")
B("S07", TWF, "        try: await self.tm_client.cancel_task_wait(task_instance.id)\n        except TaskNotFoundError: pass\n      await asyncio.gather(*(stop_task(task_instance) for task_instance in running_deployment.task_instances.values()))\n", "        await self.tm_client.cancel_task_wait(task_instance.id)\n      try: await asyncio.gather(*(stop_task(task_instance) for task_instance in running_deployment.task_instances.values()))\n      except TaskNotFoundError: pass\n", "one unknown abandons all")
K("S07", TWF, "task_instance_ids = [ ti.id for ti in deployment.task_instances.values() ]", "task_instance_ids = { deployment.task_instances[task_id].id for task_id in deployment.task_instances }", "set of ids")
