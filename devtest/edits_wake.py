F = "utils.py"
K("U05", F, "    if self.value != value:\n      self._value = value\n      self._change_trigger.trigger()", "    if self.value != value:\n      self._change_trigger.trigger()\n      self._value = value", "bool told first")
B("U05", F, "    if self.value != value:\n      self._value = value\n      self._change_trigger.trigger()", "    self._value = value\n    if self.value != value: self._change_trigger.trigger()", "bool compared after")
B("U05", F, "    if self.value != value:\n      self._value = value\n      self._change_trigger.trigger()", "    self._value = value\n    self._change_trigger.trigger()", "bool always told")
B("U05", F, "    if self.value != value:\n      self._value = value\n      self._change_trigger.trigger()", "    if self.value != value:\n      self._value = value\n      if value: self._change_trigger.trigger()", "bool told of true only")
B("U05", F, "    if self._value == value: return True\n    else: await self._change_trigger.wait()", "    await self._change_trigger.wait()", "bool always waits")
B("U05", F, "    if self._value == value: return True\n    else: await self._change_trigger.wait()", "    if self._value or self._value == value: return True\n    else: await self._change_trigger.wait()", "bool true never waits")
K("U05", F, "      super().__setattr__(name, value)\n      self._change_trigger.trigger()", "      self._change_trigger.trigger()\n      super().__setattr__(name, value)", "obs told first")
B("U05", F, "(name not in self.__dict__ or value != self.__dict__[name])", "name in self.__dict__ and value != self.__dict__[name]", "obs new field untold")
B("U05", F, "    else: super().__setattr__(name, value)\n", "    elif name not in self.__dict__: super().__setattr__(name, value)\n", "obs static set once")
B("U05", F, "    del self._data[key]\n    self._change_trigger.trigger()", "    del self._data[key]", "dict delete untold")
K("U05", F, "    del self._data[key]\n    self._change_trigger.trigger()", "    self._change_trigger.trigger()\n    del self._data[key]", "dict delete told first")
B("U05", F, "    added = super().add_many(ids)\n    for id in added:", "    added = super().add_many(ids)\n    for id in ids:", "ids all woken")
B("U05", F, "      event = self._waiting_ids_added.pop(id, None)\n      if event is not None: event.set()", "      event = self._waiting_ids_added.pop(id, None)\n      if event is not None and event.is_set(): event.set()", "ids never woken")
B("U05", F, "      event = self._waiting_ids_removed.pop(id, None)", "      event = self._waiting_ids_added.pop(id, None)", "ids other table")
B("U05", F, "      if len(self._queue) == 0: raise EOFError() # what was put before the end is still handed out\n", "      if self._closed: raise EOFError()\n", "get end first")
B("U05", F, "    if len(self._queue) != 0: return self._queue.popleft()\n    if self._closed: raise EOFError()", "    if self._closed: raise EOFError()\n    if len(self._queue) != 0: return self._queue.popleft()", "get end before queue")
B("U05", F, "      return self._queue.popleft()\n\n  def put", "      return self._queue.pop()\n\n  def put", "get newest")
B("U05", F, "    if self.test_message(e):\n      self._queue.append(e)\n      self._trigger.trigger()", "    self._queue.append(e)\n    if self.test_message(e):\n      self._trigger.trigger()", "put any")
B("U05", F, "    if self.test_message(e):\n      self._queue.append(e)\n      self._trigger.trigger()", "    if self.test_message(e):\n      self._queue.append(e)", "put untold")
B("U05", F, "    if self.test_message(e):\n      self._queue.append(e)\n      self._trigger.trigger()", "    if self.test_message(e) and not self._closed and len(self._queue) == 0:\n      self._queue.append(e)\n      self._trigger.trigger()", "put one only")
B("U05", F, "    self._closed = True\n    self._trigger.trigger()", "    self._closed = True", "close untold")
B("U05", F, "      if self._entered_count == 1:\n", "      if self._entered_count >= 1:\n", "started again")
B("U05", F, "      if self._entered_count == 0:\n", "      if self._entered_count <= 1:\n", "stopped early")
B("U05", F, "          except EOFError: pass # the consumers were closed\n", "", "aexit raises")
B("U05", F, "    except EOFError:\n      self._on_ended()\n      raise\n", "    except EOFError:\n      self._ended = True\n      raise\n", "end untold")
B("U05", F, "    for consumer in self._consumers: consumer.put(message)", "    for consumer in self._consumers:\n      consumer.put(message)\n      break", "one consumer")
B("U05", F, "    except asyncio.CancelledError: pass\n\n  def _on_ended", "    except asyncio.CancelledError: self._on_ended()\n\n  def _on_ended", "stop ends")
K("U05", F, "    if self.value != value:\n      self._value = value\n      self._change_trigger.trigger()", "    if self.value == value: return\n    self._value = value\n    self._change_trigger.trigger()", "early return")
K("U05", F, "    if self._value == value: return True\n    else: await self._change_trigger.wait()", "    if self._value != value:\n      await self._change_trigger.wait()\n      return None\n    return True", "wait turned")
K("U05", F, "    if key not in self._data or self._data[key] != value:\n      self._data[key] = value\n      self._change_trigger.trigger()", "    changed = key not in self._data or self._data[key] != value\n    if not changed: return\n    self._data[key] = value\n    self._change_trigger.trigger()", "dict changed")
K("U05", F, "    if name not in AsyncObservable.static_fields and (name not in self.__dict__ or value != self.__dict__[name]):\n      super().__setattr__(name, value)\n      self._change_trigger.trigger()\n    else: super().__setattr__(name, value)", "    changed = name not in AsyncObservable.static_fields and (name not in self.__dict__ or value != self.__dict__[name])\n    super().__setattr__(name, value)\n    if changed: self._change_trigger.trigger()", "obs changed")
K("U05", F, "    added = super().add_many(ids)\n    for id in added:\n      event = self._waiting_ids_added.pop(id, None)\n      if event is not None: event.set()\n    return added", "    added = super().add_many(ids)\n    self._wake(self._waiting_ids_added, added)\n    return added\n\n  def _wake(self, waiting, ids):\n    for id in ids:\n      if (event := waiting.pop(id, None)): event.set()", "ids helper")
K("U05", F, "    added = super().add_many(ids)\n    for id in added:\n      event = self._waiting_ids_added.pop(id, None)\n      if event is not None: event.set()\n    return added", "    added = super().add_many(ids)\n    for id in added:\n      if id in self._waiting_ids_added: self._waiting_ids_added.pop(id).set()\n    return added", "ids in")
K("U05", F, "    if self.test_message(e):\n      self._queue.append(e)\n      self._trigger.trigger()", "    if not self.test_message(e): return\n    self._queue.append(e)\n    self._trigger.trigger()", "put early return")
K("U05", F, "      while len(self._queue) == 0 and not self._closed:\n        await _fut\n        _fut = self._trigger.wait()\n", "      while True:\n        if len(self._queue) > 0 or self._closed: break\n        await _fut\n        _fut = self._trigger.wait()\n", "get loop")
K("U05", F, "      if len(self._queue) == 0: raise EOFError() # what was put before the end is still handed out\n      return self._queue.popleft()", "      if self._queue: return self._queue.popleft()\n      raise EOFError()", "get turned")
K("U05", F, "      self._entered_count = max(self._entered_count - 1, 0)\n", "      if self._entered_count > 0: self._entered_count -= 1\n", "count down")
K("U05", F, "      self._entered_count += 1\n      if self._entered_count == 1:\n", "      first = self._entered_count == 0\n      self._entered_count += 1\n      if first:\n", "first")
K("U05", F, "    for consumer in self._consumers: consumer.put(message)", "    for consumer in list(self._consumers):\n      consumer.put(message)", "copy")
K("U05", F, "        if self._task is not None:\n          self._stop()\n", "        task = self._task\n        if task is not None:\n          self._stop()\n", "local task")
K("U05", F, "    except EOFError:\n      self._on_ended()\n      raise\n", "    except EOFError:\n      self._ended = True\n      self.close_consumers()\n      raise\n", "inlined end")
