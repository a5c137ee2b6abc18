TD = "system/tasks/"
# T01
B("T01", TD + "numbertotext.py", "        except ValidationError: pass", "        except KeyError: pass")
B("T01", TD + "gate.py", "        except ValidationError:\n          self.state.control_errored = True", "        except ValidationError:\n          self.state.control_errored = True\n          return", "returns")
B("T01", TD + "messagedetector.py", "        except ValueError: self.state.last_message_invalid = True", "        except ValueError:\n          self.state.last_message_invalid = True\n          break", "breaks")
B("T01", TD + "timestampupdater.py", "except (ValueError, KeyError, TypeError):", "except (KeyError, TypeError):")
B("T01", TD + "stringconcatenator.py", "        data = await self.in_topic.recv_data()\n        message", "        data = await self.in_topic.recv_data_control()\n        message", "control read")
B("T01", TD + "switch.py", "          message = NumberMessage.model_validate(data.data)\n", "          if data.data[\"value\"] is None: continue\n          message = NumberMessage.model_validate(data.data)\n", "item")
K("T01 T02 T03", TD + "numbertotext.py", "      while True:\n        try:\n          data = await self.in_topic.recv_data_control()\n          if isinstance(data, TopicControlData): await self.out_topic.set_paused(data.paused)\n          else:\n            message = NumberMessage.model_validate(data.data)\n            await self.out_topic.send(RawData(TextMessage(timestamp=message.timestamp, value=str(message.value)).model_dump()))\n        except ValidationError: pass",
  "      while True: await self._step()\n\n  async def _step(self):\n    data = await self.in_topic.recv_data_control()\n    if isinstance(data, TopicControlData):\n      await self.out_topic.set_paused(data.paused)\n      return\n    try: message = NumberMessage.model_validate(data.data)\n    except ValidationError: return\n    text = TextMessage(timestamp=message.timestamp, value=str(message.value))\n    await self.out_topic.send(RawData(text.model_dump()))", "helper")
K("T01", TD + "textformatter.py", "        try:\n          message = TextMessage", "        if not isinstance(data.data, dict) or \"value\" not in data.data: continue\n        try:\n          message = TextMessage", "checked")
B("T01", "message/utils.py", "math.isfinite(timestamp)", "not math.isnan(timestamp)")
# T02
B("T02", TD + "gate.py", "self.control_topic.RegisterContext(), self.out_topic.RegisterContext():\n      self.client.start()", "self.control_topic.RegisterContext():\n      self.client.start()", "unregistered")
B("T02", TD + "repeater.py", "      self.client.start()\n      await asyncio.gather", "      await asyncio.gather", "not started")
B("T02", TD + "switch.py", "        await exit_stack.enter_async_context(control_topic.RegisterContext())\n", "", "control")
K("T02 T01", TD + "srlatch.py", "    async with self.out_topic, self.out_topic.RegisterContext(), self.set_topic, self.set_topic.RegisterContext(), self.reset_topic, self.reset_topic.RegisterContext():\n      self.client.start()\n      await", "    async with contextlib.AsyncExitStack() as stack:\n      for t in (self.out_topic, self.set_topic, self.reset_topic):\n        await stack.enter_async_context(t)\n        await stack.enter_async_context(t.RegisterContext())\n      self.client.start()\n      await", "stack")
# T03
B("T03", "system/task.py", "        await asyncio.shield(fut)\n", "        await fut\n", "unshielded")
B("T03", "system/task.py", "        self.stop_event.set()\n        if fut", "        if fut", "not told")
B("T03", TD + "media/videomixer.py", "job = self.job_queue.get(timeout=timeout)", "job = self.job_queue.get()", "forever")
B("T03", TD + "media/textrenderer.py", "while not self.stop_event.is_set()", "while True", "not looked at")
B("T03", "system/task.py", "asyncio.run_coroutine_threadsafe(topic.send(data), self.loop)", "asyncio.ensure_future(topic.send(data))", "thread")
# T04
B("T04", TD + "namedoutput.py", "if isinstance(data, TopicControlData): await out_topic.set_paused(data.paused)", "if isinstance(data, TopicControlData):\n          if data.paused: await out_topic.set_paused(True)")
B("T04", TD + "timetotext.py", "await self.out_topic.set_paused(data.paused)", "await self.out_topic.set_paused(not data.paused)")
B("T04", TD + "repeater.py", "        await self.out_topic.set_paused(data.paused)\n", "        if self.current_data is not None: await self.out_topic.set_paused(data.paused)\n")
B("T04", TD + "synchronizer.py", "data = await in_topic.recv_data_control()\n      if isinstance(data, TopicControlData): await out_topic.set_paused(data.paused)\n      else: await", "data = await in_topic.recv_data()\n      await", "ignored")
K("T04 T05", TD + "namedoutput.py", "        if isinstance(data, TopicControlData): await out_topic.set_paused(data.paused)\n        else: await out_topic.send(data)", "        if not isinstance(data, TopicControlData):\n          await out_topic.send(data)\n          continue\n        paused = data.paused\n        await out_topic.set_paused(paused)")
# T05
B("T05", TD + "namedoutput.py", "else: await out_topic.send(data)", "elif not out_topic.is_paused: await out_topic.send(data)")
B("T05", TD + "synchronizer.py", "self._run_stream(in_topic, out_topic)", "self._run_stream(in_topic, self.topics[0][1])")
B("T05", TD + "numbertotext.py", "str(message.value)", "str(int(message.value))")
B("T05", TD + "timetotext.py", "timestamp=timestamp, value", "timestamp=int(datetime.now().timestamp() * 1000), value")
B("T05", TD + "timetotext.py", "timestamp / 1000", "timestamp // 1000")
B("T05", TD + "stringmatcher.py", "self.regex.match(message.value) is None else 1", "self.regex.match(message.value) is None else 2")
B("T05", TD + "stringmatcher.py", "self.regex.match(message.value)", "self.regex.match(message.value.strip())", "strip")
B("T05", TD + "srlatch.py", "    if self.set_value != self.reset_value:\n      if self.set_value", "    if True:\n      if self.set_value")
B("T05", TD + "srlatch.py", "message.value > 0.5", "message.value >= 0.5")
B("T05", TD + "srlatch.py", "await self.send(message.timestamp)", "if message.value > 0.5: await self.send(message.timestamp)", "only when on")
B("T05", TD + "textformatter.py", "self.var_values[var_name] = default_text", "pass")
B("T05", TD + "calculator.py", "self.var_values[var_name] = default_value", "self.var_values.setdefault(var_name, default_value)")
K("T05", TD + "srlatch.py", "    if self.set_value != self.reset_value:\n      if self.set_value: self.value = True\n      if self.reset_value: self.value = False\n", "    if self.set_value and not self.reset_value: self.value = True\n    elif self.reset_value and not self.set_value: self.value = False\n")
K("T05 T04", TD + "stringmatcher.py", "            await self.out_topic.send(RawData(NumberMessage(timestamp=message.timestamp, value=0 if self.regex.match(message.value) is None else 1).model_dump()))", "            matched = self.regex.match(message.value)\n            result = NumberMessage(timestamp=message.timestamp, value=1 if matched else 0)\n            await self.out_topic.send(RawData(result.model_dump()))")
# T06
B("T06", TD + "gate.py", "self.state.control = msg.value > 0.5", "self.state.control = msg.value >= 0.5")
B("T06", TD + "gate.py", "          self.state.control_errored = False\n", "")
B("T06", TD + "gate.py", "if self.input_paused or not self.control: return False", "if not self.control: return False")
B("T06", TD + "gate.py", "(self.control_paused or self.control_errored)", "(self.control_paused and self.control_errored)")
B("T06", TD + "gate.py", "sync.set_priority(config.in_topic, 0)", "sync.set_priority(config.in_topic, 1)")
B("T06", TD + "gate.py", "self.control: bool = control\n", "self.control: bool = False\n")
B("T06", TD + "gate.py", "        if self.state.get_open(self.fail_mode):\n          await", "        if not self.out_topic.is_paused:\n          await", "stale")
K("T06", TD + "gate.py", "    if self.input_paused or not self.control: return False\n    if fail_mode == GateFailMode.CLOSED and (self.control_paused or self.control_errored): return False\n    return True", "    failed = self.control_paused or self.control_errored\n    return self.control and not self.input_paused and not (failed and fail_mode == GateFailMode.CLOSED)")
K("T06", TD + "gate.py", "      await self.out_topic.set_paused(self.state.get_output_paused(self.fail_mode))\n", "      paused = self.state.get_output_paused(self.fail_mode)\n      await self.out_topic.set_paused(paused)\n")
# T07
B("T07", TD + "switch.py", "if data.paused: self.control_values.pop(idx, None)", "self.control_values.pop(idx, None)")
B("T07", TD + "switch.py", "if data.paused: self.control_values.pop(idx, None)", "if data.paused: self.control_values.clear()")
B("T07", TD + "switch.py", "return max(", "return min(")
B("T07", TD + "switch.py", "await self.out_topic.set_paused(self.pairs[selected_index][0].is_paused)", "await self.out_topic.set_paused(self.pairs[idx := 0][0].is_paused)")
B("T07", TD + "switch.py", "      if self._get_selected_index() == idx:\n        await self.out_topic.set_paused(topic.is_paused)\n        if", "      await self.out_topic.set_paused(topic.is_paused)\n      if self._get_selected_index() == idx:\n        if")
B("T07", TD + "media/mediaswitch.py", "if message.packet.is_keyframe: self._active_index = idx", "self._active_index = idx")
B("T07", TD + "media/mediaswitch.py", "      elif idx == self._active_index: self._active_index = -1", "")
B("T07", TD + "media/mediaswitch.py", "self._active_index = -1\n\n", "self._active_index = 0\n\n")
K("T07", TD + "switch.py", "      if self._get_selected_index() == idx:\n        await self.out_topic.set_paused(topic.is_paused)\n        if not isinstance(data, TopicControlData): await self.out_topic.send(data)", "      if self._get_selected_index() != idx: continue\n      if isinstance(data, TopicControlData): await self.out_topic.set_paused(data.paused)\n      else: await self.out_topic.send(data)")
K("T07", TD + "switch.py", "    if len(self.control_values) == 0: return -1\n    return max(self.control_values, key=lambda idx: self.control_values[idx])", "    if not self.control_values: return -1\n    return max(self.control_values.items(), key=lambda entry: entry[1])[0]")
K("T07", TD + "switch.py", "if data.paused: self.control_values.pop(idx, None)", "if data.paused and idx in self.control_values: del self.control_values[idx]")
K("T07", TD + "switch.py", "    if len(self.control_values) == 0: return -1\n    return max(self.control_values, key=lambda idx: self.control_values[idx])", "    best = -1\n    for idx, value in self.control_values.items():\n      if best == -1 or value > self.control_values[best]: best = idx\n    return best", "loop")
# T08
B("T08", TD + "repeater.py", "msg = self.current_data.shallow_copy()", "msg = self.current_data")
B("T08", TD + "timestampupdater.py", "            data = data.shallow_copy()\n", "")
B("T08", TD + "timestampupdater.py", "            data = data.shallow_copy()\n            set_timestamp_on_message(data, ref_time + self.config.time_offset)\n            await self.out_topic.send(data)", "            data = data.shallow_copy()\n            await self.out_topic.send(data)\n            set_timestamp_on_message(data, ref_time + self.config.time_offset)")
B("T08", "net/serialization.py", "RawData({ **self.data })", "RawData(self.data)")
B("T08", TD + "switch.py", "          message = NumberMessage.model_validate(data.data)\n", "          data.data[\"value\"] = float(data.data[\"value\"])\n          message = NumberMessage.model_validate(data.data)\n")
B("T08", TD + "media/mediaswitch.py", "            await self.out_topic.send(data)", "            data = data.shallow_copy()\n            data.data[\"packet\"][\"is_keyframe\"] = True\n            await self.out_topic.send(data)")
K("T08", TD + "timestampupdater.py", "            data = data.shallow_copy()\n            set_timestamp_on_message(data, ref_time", "            changed = data.shallow_copy()\n            data = changed\n            set_timestamp_on_message(changed, ref_time")
K("T08", "net/serialization.py", "RawData({ **self.data })", "RawData(dict(self.data))")
# T09
CA = TD + "calculator.py"
B("T09", CA, "return args[0] - args[1]", "return args[1] - args[0]")
B("T09", CA, 'if (args[0] > 0.5) != (args[1] > 0.5) else 0.0', 'if args[0] != args[1] else 0.0')
B("T09", CA, 'if args[0] >= args[1]', 'if args[0] > args[1]')
B("T09", CA, '| product "/" atom -> div', '| atom "/" product -> div')
B("T09", CA, '| sum "-" product -> sub', '| product "-" sum -> sub')
B("T09", CA, "math.atan2(y, x)", "math.atan2(x, y)")
B("T09", CA, "return math.log10(x)", "return math.log2(x)")
B("T09", CA, "except (ValidationError, VisitError): pass", "except ValidationError: pass")
B("T09", CA, "args[1] if args[0] > 0.5 else args[2]", "args[1] if args[0] else args[2]")
B("T09", CA, "{ **self.default_input_map, **input_map }", "{ **input_map }")
B("T09", CA, "        except (ValidationError, VisitError): pass", "        except VisitError: pass", "val")
K("T09", CA, "return 1.0 if args[0] > args[1] else 0.0", "return float(args[0] > args[1])")
K("T09", CA, "  def not_(self, args): return 0.0 if args[0] > 0.5 else 1.0", "  def not_(self, args):\n    value, *_ = args\n    if value > 0.5: return 0.0\n    return 1.0")
K("T09", CA, "def sqrt(self, x): return math.sqrt(x)", "def sqrt(self, value):\n    result = math.sqrt(value)\n    return result")
K("T09 T05", CA, "    result: float = CalculatorEvalTransformer(CalculatorEvalContext(self.var_values)).transform(self.formula_ast)\n", "    context = CalculatorEvalContext(self.var_values)\n    transformer = CalculatorEvalTransformer(context)\n    result = transformer.transform(self.formula_ast)\n")
# T13
B("T13", TD + "replaybuffer.py", "      await asyncio.sleep(0.001) # a round without any waiting must not keep everything else from running\n", "")
B("T13", TD + "repeater.py", "      await asyncio.sleep(max(wait_time, 0))", "      if wait_time > 0: await asyncio.sleep(wait_time)")
B("T13", TD + "pulsegenerator.py", "        await asyncio.sleep(self.interval)", "        if self.interval > 0: await asyncio.sleep(self.interval)")
B("T13", TD + "timebuffer.py", "await self.out_topic.send(self.message_queue.popleft())\n          continue", "await self.out_topic.send(self.message_queue[0])\n          continue")
B("T13", TD + "timebuffer.py", "if len(self.message_queue) == 0: await self.update_trigger.wait()", "if len(self.message_queue) == 0 and not self.paused: await self.update_trigger.wait()")
B("T13", TD + "messagedetector.py", "      try: await asyncio.wait_for(self.state.wait_change(), timeout=self.config.repeat_interval or None)\n      except asyncio.TimeoutError: pass", "      if self.config.repeat_interval: await asyncio.sleep(self.config.repeat_interval)")
K("T13", TD + "numbertotext.py", "      while True:\n        try:\n          data = await self.in_topic.recv_data_control()\n", "      while True:\n        data = await self.in_topic.recv_data_control()\n        try:\n")
K("T13", TD + "timebuffer.py", "        await self.out_topic.send(self.message_queue.popleft())\n\n", "        await self._send_first()\n\n  async def _send_first(self):\n    message = self.message_queue.popleft()\n    await self.out_topic.send(message)\n\n")
K("T06", TD + "gate.py", "          self.state.control = msg.value > 0.5\n", "          on = msg.value > 0.5\n          if on != self.state.control: self.state.control = on\n", "only changes")
K("T06", TD + "gate.py", "          self.state.control_errored = False\n", "          if self.state.control_errored: self.state.control_errored = False\n", "only changes 2")
K("T06", TD + "gate.py", "        self.state.control_paused = data.paused\n", "        if data.paused: self.state.control_paused = True\n        else: self.state.control_paused = False\n", "branches")
B("T06", TD + "gate.py", "        self.state.control_paused = data.paused\n", "        if data.paused: self.state.control_paused = True\n", "never resumed")
B("T06", TD + "gate.py", "          self.state.control_errored = False\n", "          if self.state.control: self.state.control_errored = False\n", "kept when off")
# T10
B("T10", TD + "timebuffer.py", "      else: self.message_queue.append(data)\n", "      elif not self.paused: self.message_queue.append(data)\n", "dropped while paused")
B("T10", TD + "timebuffer.py", "if top_timestamp - next_timestamp >= self.config.size:", "if top_timestamp - next_timestamp > self.config.size:")
B("T10", TD + "timebuffer.py", "pending_ms = self.config.size - (get_timestamp_ms() - next_timestamp)", "pending_ms = self.config.size + (get_timestamp_ms() - next_timestamp)")
B("T10", TD + "timebuffer.py", "await asyncio.sleep(pending_ms / 1000.)", "await asyncio.sleep(pending_ms / 100.)")
B("T10", TD + "timebuffer.py", "      await self.out_topic.set_paused(self.paused and len(self.message_queue) == 0)\n\n      if", "      await self.out_topic.set_paused(self.paused)\n\n      if", "clock paused")
B("T10", TD + "timebuffer.py", "      else: self.message_queue.append(data)\n      self.update_trigger.trigger()\n", "      else:\n        self.message_queue.append(data)\n        self.update_trigger.trigger()\n", "only told of data")
B("T10", TD + "timebuffer.py", "        try: top_timestamp = get_timestamp_from_message(top_message)\n        except ValueError: break\n\n        if top_timestamp - next_timestamp >= self.config.size: await self.out_topic.send(self.message_queue.popleft())", "        try: top_timestamp = get_timestamp_from_message(top_message)\n        except ValueError: break\n\n        if top_timestamp - next_timestamp >= self.config.size: await self.out_topic.send(self.message_queue.pop())", "newest")
B("T10", TD + "timebuffer.py", "          await self.out_topic.send(self.message_queue.popleft())\n          continue", "          self.message_queue.popleft()\n          continue", "invalid dropped")
K("T10", TD + "timebuffer.py", "        if top_timestamp - next_timestamp >= self.config.size: await self.out_topic.send(self.message_queue.popleft())\n        else: break\n", "        if top_timestamp - next_timestamp < self.config.size: break\n        message = self.message_queue.popleft()\n        await self.out_topic.send(message)\n", "inverted")
K("T10", TD + "timebuffer.py", "          pending_ms = self.config.size - (get_timestamp_ms() - next_timestamp)\n          if pending_ms > 0: await asyncio.sleep(pending_ms / 1000.)\n", "          due = next_timestamp + self.config.size\n          await asyncio.sleep(max(0, due - get_timestamp_ms()) / 1000)\n", "max")
K("T10", TD + "timebuffer.py", "      await self.out_topic.set_paused(self.paused and len(self.message_queue) == 0)\n\n      if", "      done = self.paused and not len(self.message_queue)\n      await self.out_topic.set_paused(done)\n\n      if", "not len")
B("T10", TD + "replaybuffer.py", "if time_offset is None: time_offset = self.sync.time - ts", "time_offset = self.sync.time - ts", "no distances")
B("T10", TD + "replaybuffer.py", "        if not data.paused and last_paused:\n", "        if data.paused and not last_paused:\n")
B("T10", TD + "replaybuffer.py", "          self.buffer.clear()\n          await self.stop_play()\n", "          self.buffer.clear()\n", "goes on")
B("T10", TD + "replaybuffer.py", "message.value > 0.5", "message.value >= 0.5")
B("T10", TD + "replaybuffer.py", "      await self.out_topic.set_paused(True)\n      await self.stop_play()\n", "      await self.stop_play()\n", "not silent")
B("T10", TD + "replaybuffer.py", "        self.buffer.append(data)\n        await", "        if not self.playing: self.buffer.append(data)\n        await", "dropped")
B("T10", TD + "replaybuffer.py", "          if wait_time > 0: await asyncio.sleep(wait_time)\n", "          if wait_time > 0: await asyncio.sleep(wait_time / 1000)\n", "too fast")
B("T10", TD + "replaybuffer.py", "        except (ValueError, TypeError): pass\n        await self.out_topic.send(data)", "        except (ValueError, TypeError): continue\n        await self.out_topic.send(data)", "skipped")
K("T10", TD + "replaybuffer.py", "          set_timestamp_on_message(data, ts + time_offset)\n          wait_time = ((ts + time_offset) - self.sync.time) / 1000\n", "          new_ts = ts + time_offset\n          set_timestamp_on_message(data, new_ts)\n          wait_time = (new_ts - self.sync.time) / 1000\n")
K("T10", TD + "replaybuffer.py", "        if not data.paused and last_paused:\n          self.buffer.clear()\n          await self.stop_play()\n", "        resumed = last_paused and not data.paused\n        if resumed:\n          await self.stop_play()\n          self.buffer.clear()\n")
# T11
MD = TD + "messagedetector.py"
B("T11", MD, "          self.message_trigger.trigger()\n          self.time_sync.update(get_timestamp_from_message(data))\n", "          self.time_sync.update(get_timestamp_from_message(data))\n          self.message_trigger.trigger()\n", "only valid ones")
B("T11", MD, "          self.state.last_message_invalid = False\n", "", "never valid")
B("T11", MD, "        self.state.timed_out = False\n", "", "never in time")
B("T11", MD, "    if self.input_paused or self.timed_out: return False\n    if", "    if self.input_paused and self.timed_out: return False\n    if")
B("T11", MD, "      if self.fail_mode == MessageDetectorFailMode.CLOSED: return False\n", "")
B("T11", MD, "value=float(self.state.signal)", "value=float(not self.state.output_paused)")
B("T11", MD, "class MessageDetectorState(AsyncObservable):", "class MessageDetectorState:")
K("T11", MD, "    if self.input_paused or self.timed_out: return False\n    if self.last_message_invalid:\n      if self.fail_mode == MessageDetectorFailMode.CLOSED: return False\n      if self.fail_mode == MessageDetectorFailMode.OPEN: return True # to be explicit\n      raise ValueError(\"invalid fail mode!\")\n    else: return True\n", "    if self.output_paused: return False\n    return not self.last_message_invalid or self.fail_mode == MessageDetectorFailMode.OPEN\n")
K("T11", MD, "        try:\n          self.message_trigger.trigger()\n          self.time_sync.update(get_timestamp_from_message(data))\n          self.state.last_message_invalid = False\n        except ValueError: self.state.last_message_invalid = True\n", "        self.message_trigger.trigger()\n        try: timestamp = get_timestamp_from_message(data)\n        except ValueError:\n          self.state.last_message_invalid = True\n          continue\n        self.time_sync.update(timestamp)\n        self.state.last_message_invalid = False\n")
K("T11", MD, "value=float(self.state.signal)", "value=1.0 if self.state.signal else 0.0")
# T12
B("T12", TD + "timestampupdater.py", "ref_time + self.config.time_offset", "ref_time - self.config.time_offset")
B("T12", TD + "timestampupdater.py", 'if self.config.time_reference == "message"', 'if self.config.time_reference != "message"')
B("T12", TD + "timestampupdater.py", "if not self.config.fail_closed: await", "if self.config.fail_closed: await")
B("T12", TD + "timestampupdater.py", "            if not self.config.fail_closed: await self.out_topic.send(data)", "            await self.out_topic.send(data)", "always")
B("T12", TD + "repeater.py", "          else: self.current_data = None\n", "")
B("T12", TD + "repeater.py", "          self.time_sync.update(msg_time)\n", "")
B("T12", TD + "repeater.py", "if not self.out_topic.is_paused and self.current_data", "if self.current_data")
B("T12", TD + "repeater.py", "set_timestamp_on_message(msg, self.time_sync.time)", "set_timestamp_on_message(msg, get_timestamp_from_message(self.current_data))")
K("T12", TD + "repeater.py", "          if not self.config.fail_closed: await self.out_topic.send(data)\n          else: self.current_data = None\n", "          if self.config.fail_closed: self.current_data = None\n          else: await self.out_topic.send(data)\n")
K("T12", TD + "repeater.py", "          self.time_sync.update(msg_time)\n          self.current_data = data.shallow_copy()\n", "          self.current_data = data.shallow_copy()\n          self.time_sync.update(msg_time)\n")
SC = TD + "stringconcatenator.py"
B("T12", SC, "          last_control = message.value\n", "          last_control = max(last_control, message.value)\n")
B("T12", SC, "last_control <= 0.5 and message.value > 0.5", "message.value > 0.5")
B("T12", SC, '            self.value = ""\n', "")
B("T12", SC, " and len(self.value) > 0", "")
B("T12", SC, "self.value += message.value", "self.value = message.value + self.value")
B("T12", SC, "sync.set_priority(config.in_topic, 1)", "sync.set_priority(config.in_topic, 0)")
K("T12", SC, "          if last_control <= 0.5 and message.value > 0.5 and len(self.value) > 0:\n", "          rising = message.value > 0.5 and not last_control > 0.5\n          if rising and self.value:\n")
K("T12", SC, "            await self.out_topic.send(RawData(TextMessage(timestamp=message.timestamp, value=self.value).model_dump()))\n            self.value = \"\"\n", "            text, self.value = self.value, \"\"\n            await self.out_topic.send(RawData(TextMessage(timestamp=message.timestamp, value=text).model_dump()))\n")
RB = "rawdatabuffer.py"
B("T10", RB, "self.pop(0)", "self.pop()")
B("T10", RB, "index: int = -1", "index: int = 0")
B("T10", RB, "str(self._key_counter)", "str(len(self._index_map))")
B("T10", RB, "    key = self._index_map.pop(index)\n    data = RawData(self._db[key])\n    del self._db[key]\n", "    data = self[index]\n    del self._index_map[index]\n", "leaks")
B("T10", RB, "    for key in self._index_map: del self._db[key]\n", "    self._db.clear()\n")
B("T10", RB, "    del self._db[self._index_map[key]]\n    del self._index_map[key]", "    del self._index_map[key]\n    del self._db[self._index_map[key]]", "wrong order")
B("T10", RB, "    self._key_counter += 1\n", "")
K("T10", RB, "    key = self._index_map.pop(index)\n    data = RawData(self._db[key])\n    del self._db[key]\n    return data", "    data = self[index]\n    del self[index]\n    return data")
K("T10", RB, "    self._index_map.append(str(self._key_counter))\n    self._key_counter += 1\n    self._db[self._index_map[-1]] = bytes(data.serialize())", "    key = str(self._key_counter)\n    self._key_counter += 1\n    self._db[key] = bytes(data.serialize())\n    self._index_map.append(key)")
K("T10", RB, "    self._index_map.clear()", "    self._index_map = []")
