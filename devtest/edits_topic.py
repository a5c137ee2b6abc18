CT, U = "client/topic.py", "utils.py"
# ---- C08
B("C08", CT, "if timestamp < self._topic_timestamps.get(topic_id, 0): return False", "if timestamp <= self._topic_timestamps.get(topic_id, 0): return False")
B("C08", CT, "if timestamp < self._topic_timestamps.get(topic_id, 0): return False", "if timestamp < self.min_timestamp: return False")
B("C08", CT, "    while self._is_waiting(topic_id, timestamp): await", "    if self._is_waiting(topic_id, timestamp): await")
B("C08", CT, "return self.min_timestamp < timestamp", "return self.min_timestamp < timestamp and topic_id in self._topic_timestamps and len(self._topic_timestamps) != 2")
B("C08", CT, "self._topic_timestamps.pop(topic_id, None)", "self._topic_timestamps[topic_id] = 0")
B("C08", CT, "else: self._set_topic_timestamp(topic_id, self.min_timestamp)", "else: self._set_topic_timestamp(topic_id, 0)")
B("C08", CT, "    else: self._topic_timestamps[topic_id] = timestamp\n    self._timestamp_trigger.trigger()", "    else:\n      self._topic_timestamps[topic_id] = timestamp\n      self._timestamp_trigger.trigger()")
B("C08", CT, "    self._done_topics.add(topic_id)\n    self._timestamp_trigger.trigger()", "    self._done_topics.add(topic_id)")
B("C08", CT, "    self._topic_priorities[topic_id] = priority\n    self._timestamp_trigger.trigger()", "    self._topic_priorities[topic_id] = priority")
B("C08", CT, "self._topic_priorities.get(tid, 0) > priority", "self._topic_priorities.get(tid, 0) >= priority")
B("C08", CT, "and tid not in self._done_topics ", "")
B("C08", CT, "self._topic_priorities.get(tid, 0) > priority", "self._topic_priorities.get(tid, -1) > priority")
B("C08", CT, "if topic_id in self._done_topics: self._done_topics.remove(topic_id)", "if topic_id is self._done_topics: self._done_topics.remove(topic_id)")
B("C08", CT, "      self._sync.start_receive(self._topic)\n      action, data = await super().get()", "      action, data = await super().get()\n      self._sync.start_receive(self._topic)", "start after get")
B("C08", CT, "        except ValueError: pass\n      else: return (action, data)", "        except ValueError: return (action, data)\n      else: return (action, data)", "timeless passes")
B("C08", CT, "        except ValueError: pass\n      else: return (action, data)", "        except ValueError: pass", "cost lost")
B("C08", CT, "await self._sync.set_paused(self._topic, data.paused)", "await self._sync.set_paused(self._topic, True)")
B("C08", CT, "if await self._sync.wait_for(self._topic, timestamp): return", "if await self._sync.wait_for(self._topic, timestamp) or True: return")
B("C08", U, "    for fut in self._futs:\n      if not fut.done(): fut.set_result(None)\n    self._futs.clear()", "    for fut in self._futs[:1]:\n      if not fut.done(): fut.set_result(None)\n    self._futs.clear()")
B("C08", U, "    for fut in self._futs:\n      if not fut.done(): fut.set_result(None)\n    self._futs.clear()", "    for fut in self._futs: fut.set_result(None)\n    self._futs.clear()", "no done check")
B("C08", U, "      if not fut.done(): fut.set_result(None)\n    self._futs.clear()", "      if not fut.done(): fut.set_result(None)", "no clear")
K("C08", CT, "    if timestamp < self._topic_timestamps.get(topic_id, 0): return False # NOTE: drop the past\n    self._set_topic_timestamp(topic_id, timestamp)\n    while self._is_waiting(topic_id, timestamp): await self._timestamp_trigger.wait()\n    return True", "    last = self._topic_timestamps.get(topic_id, 0)\n    if last > timestamp: return False\n    self._set_topic_timestamp(topic_id, timestamp)\n    while True:\n      if not self._is_waiting(topic_id, timestamp): return True\n      await self._timestamp_trigger.wait()", "while true")
K("C08", CT, "    if paused: self._set_topic_timestamp(topic_id, None)\n    else: self._set_topic_timestamp(topic_id, self.min_timestamp)", "    self._set_topic_timestamp(topic_id, None if paused else self.min_timestamp)")
K("C08", CT, "return 0 if len(self._topic_timestamps) == 0 else min(self._topic_timestamps.values())", "return min(self._topic_timestamps.values(), default=0)")
K("C08", CT, "    if topic_id in self._done_topics: self._done_topics.remove(topic_id)\n", "    self._done_topics.discard(topic_id)\n")
K("C08", CT, "    if len(self._topic_priorities) == 0: return False\n", "")
K("C08", CT, "    return any(True for tid, timestamp in self._topic_timestamps.items() if tid != topic_id and timestamp == min_timestamp and tid not in self._done_topics and self._topic_priorities.get(tid, 0) > priority)", "    for tid, ts in self._topic_timestamps.items():\n      if tid == topic_id or ts != min_timestamp or tid in self._done_topics: continue\n      if self._topic_priorities.get(tid, 0) > priority: return True\n    return False", "loop for any")
K("C08", CT, "      if action == _InTopicAction.SET_CONTROL:\n        assert isinstance(data, TopicControlData)\n        await self._sync.set_paused(self._topic, data.paused)\n        return (action, data)\n      elif action == _InTopicAction.DATA:\n        try:\n          timestamp = get_timestamp_from_message(data)\n          if await self._sync.wait_for(self._topic, timestamp): return (action, data)\n        except ValueError: pass\n      else: return (action, data)", "      if action == _InTopicAction.DATA:\n        try: timestamp = get_timestamp_from_message(data)\n        except ValueError: continue\n        if not await self._sync.wait_for(self._topic, timestamp): continue\n      elif action == _InTopicAction.SET_CONTROL:\n        assert isinstance(data, TopicControlData)\n        await self._sync.set_paused(self._topic, data.paused)\n      return action, data", "receiver flat")
K("C08", U, "    for fut in self._futs:\n      if not fut.done(): fut.set_result(None)\n    self._futs.clear()", "    futs, self._futs = self._futs, []\n    for fut in futs:\n      if fut.done(): continue\n      fut.set_result(None)")
K("C08", CT, "  def start_receive(self, topic_id: int):\n    self._done_topics.add(topic_id)\n    self._timestamp_trigger.trigger()\n    return super().start_receive(topic_id)", "  def start_receive(self, topic_id: int):\n    super().start_receive(topic_id)\n    if topic_id not in self._done_topics:\n      self._done_topics.add(topic_id)\n      self._timestamp_trigger.trigger()", "trigger on change only")
# ---- C09
B("C09", CT, "if isinstance(message, TopicMessage) and message.topic == self._topic:", "if isinstance(message, TopicMessage):")
B("C09", CT, "if any(pid.id == self._topic for pid in message.remove): self._put_msg(_InTopicAction.SET_COST, None)", "if any(pid.cost == self._topic for pid in message.remove): self._put_msg(_InTopicAction.SET_COST, None)")
B("C09", CT, "if new_cost is not None: self._put", "if new_cost: self._put")
B("C09", CT, "        self._a_is_paused.set(data.paused)\n        return data", "        return data")
B("C09", CT, "        self._a_is_paused.set(data.paused)\n        return data", "        if data.paused: self._a_is_paused.set(True)\n        return data")
B("C09", CT, "if action == _InTopicAction.SET_COST: self._cost = data", "if action == _InTopicAction.SET_COST: self._cost = data or self._cost")
B("C09", CT, "if not isinstance(data, TopicControlData): return data", "return data")
B("C09", CT, "      if self._topic in message.remove: self._put_msg(_OutTopicAction.SET_REQUESTED, False)", "      if message.remove: self._put_msg(_OutTopicAction.SET_REQUESTED, False)")
B("C09", CT, "if self._topic in message.add: self._put_msg(_OutTopicAction.SET_REQUESTED, True)\n      if self", "if self._topic in message.add: self._put_msg(_OutTopicAction.SET_REQUESTED, True)\n      elif not message.add and self", "removal only alone")
B("C09", CT, "      self._is_paused = paused\n      await", "      await")
B("C09", CT, "    if paused != self._is_paused:\n", "    if paused or self._is_paused:\n")
B("C09", CT, "TopicControlData(paused=paused))", "TopicControlData(paused=not paused))")
B("C09", CT, "    await self._set_registered(registered)\n    self._registered = registered", "    self._registered = registered\n    await self._set_registered(registered)")
B("C09", CT, "    if self._registered == registered: return\n", "    if self._registered and registered: return\n")
B("C09", CT, "    else: await self._client.unregister_in_topics([ self._topic ])", "    else: await self._client.unregister_out_topics([ self._topic ])")
B("C09", CT, "async def __aexit__(self, *_): await self._topic_obj.set_registered(False)", "async def __aexit__(self, *_): await self._topic_obj.set_registered(True)")
B("C09", CT, "async def __aexit__(self, *_): await self._topic_obj.set_registered(False)", "async def __aexit__(self, *_):\n    await self._topic_obj.set_registered(False)\n    return True")
B("C09", CT, "    self._topics = list(topics)\n  async def __aenter__(self): await self._client.register_out_topics", "    self._topics = topics\n  async def __aenter__(self): await self._client.register_out_topics")
B("C09", CT, "async def __aexit__(self, *_): await self._client.unregister_out_topics(self._topics)", "async def __aexit__(self, *_): await self._client.unregister_in_topics(self._topics)")
B("C09", CT, "      self._receiver_task.cancel()\n      self._receiver_task = None", "      self._receiver_task.cancel()")
B("C09", CT, "      self._receiver_task.cancel()\n      self._receiver_task = None", "      self._receiver_task = None")
B("C09", U, "    if self.value != value:\n      self._value = value\n      self._change_trigger.trigger()", "    if self.value != value: self._change_trigger.trigger()\n    self._value = value")
B("C09", U, "    if self._value == value: return True\n    else: await self._change_trigger.wait()", "    if self._value: return True\n    else: await self._change_trigger.wait()")
K("C09", CT, "      if any(pid.id == self._topic for pid in message.remove): self._put_msg(_InTopicAction.SET_COST, None)\n      else:\n        new_cost = next((pid.cost for pid in message.add if pid.id == self._topic), None)\n        if new_cost is not None: self._put_msg(_InTopicAction.SET_COST, new_cost)\n", "      if self._topic in set(pid.id for pid in message.remove): self._put_msg(_InTopicAction.SET_COST, None)\n      else:\n        for pid in message.add:\n          if pid.id == self._topic:\n            self._put_msg(_InTopicAction.SET_COST, pid.cost)\n            break\n", "loop break")
K("C09", CT, "    if isinstance(message, TopicMessage) and message.topic == self._topic:\n      if isinstance(message, TopicControlMessage): self._put_msg(_InTopicAction.SET_CONTROL, message.to_data())\n      if isinstance(message, TopicDataMessage): self._put_msg(_InTopicAction.DATA, message.data)\n", "    elif isinstance(message, TopicControlMessage):\n      if message.topic == self._topic: self._put_msg(_InTopicAction.SET_CONTROL, message.to_data())\n    elif isinstance(message, TopicDataMessage) and message.topic == self._topic:\n      self._put_msg(_InTopicAction.DATA, message.data)\n", "elif")
K("C09", CT, "    if paused != self._is_paused:\n      self._is_paused = paused\n      await self._client.send_stream_control(self._topic, TopicControlData(paused=paused))", "    if paused == self._is_paused: return\n    self._is_paused = paused\n    await self._client.send_stream_control(self._topic, TopicControlData(paused))", "guard")
K("C09", CT, "    if registered: await self._client.register_in_topics([ self._topic ])\n    else: await self._client.unregister_in_topics([ self._topic ])", "    change = self._client.register_in_topics if registered else self._client.unregister_in_topics\n    await change((self._topic,))")
K("C09", CT, "      if self._topic in message.add: self._put_msg(_OutTopicAction.SET_REQUESTED, True)\n      if self._topic in message.remove: self._put_msg(_OutTopicAction.SET_REQUESTED, False)", "      for ids, value in ((message.add, True), (message.remove, False)):\n        if self._topic in ids: self._put_msg(_OutTopicAction.SET_REQUESTED, value)")
K("C09", CT, "    if self._receiver_task is None: self._receiver_task = asyncio.create_task(self._run_receiver())\n    await self._receiver.start_recv()", "    await self._receiver.start_recv()\n    if not self._receiver_task: self._receiver_task = asyncio.create_task(self._run_receiver())")
K("C09", U, "    if self.value != value:\n      self._value = value\n      self._change_trigger.trigger()", "    if bool(self) == value: return\n    self._value = value\n    self._change_trigger.trigger()")
K("C09", U, "    if self._value == value: return True\n    else: await self._change_trigger.wait()", "    if self._value != value: await self._change_trigger.wait()\n    return True")
K("C09", CT, "      if action == _InTopicAction.DATA: return data\n      if action == _InTopicAction.SET_CONTROL:\n        assert isinstance(data, TopicControlData)\n        self._a_is_paused.set(data.paused)\n        return data\n      if action == _InTopicAction.SET_COST: self._cost = data", "      if action == _InTopicAction.SET_COST:\n        self._cost = data\n        continue\n      if action == _InTopicAction.SET_CONTROL:\n        assert isinstance(data, TopicControlData)\n        self._a_is_paused.set(data.paused)\n      return data")
