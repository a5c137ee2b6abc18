# refactorings of the tasks: no check may complain
TA = "T01 T02 T03 T04 T05 T06 T07 T08 T09 T10 T11 T12 T13"
def t5(n): return f"system/tasks/{n}.py"
def KK(f, *subs, name=""):
  K(TA, t5(f), subs[0][0], subs[0][1], name)
  EDITS[-1][2][0:] = [(t5(f), o, n) for o, n in subs]
# gate
KK("gate", ("        if self.state.get_open(self.fail_mode):\n          await self.out_topic.send(data)\n", "        await self._pass_on(data)\n"),
   ("class GateTaskHost", "  async def _pass_on(self, data):\n    if not self.state.get_open(self.fail_mode): return\n    await self.out_topic.send(data)\n\nclass GateTaskHost"))
KK("gate", ("        try:\n          msg = NumberMessage.model_validate(data.data)\n          self.state.control = msg.value > 0.5\n          self.state.control_errored = False\n        except ValidationError:\n          self.state.control_errored = True\n",
            "        self._handle_control(data)\n"),
   ("  async def run_out_pauser", "  def _handle_control(self, data):\n    try: value = NumberMessage.model_validate(data.data).value\n    except ValidationError: self.state.control_errored = True\n    else:\n      self.state.control_errored = False\n      self.state.control = 0.5 < value\n\n  async def run_out_pauser"))
KK("gate", ("    if self.input_paused or not self.control: return False\n    if fail_mode == GateFailMode.CLOSED and (self.control_paused or self.control_errored): return False\n    return True\n",
            "    failed = fail_mode == GateFailMode.CLOSED and (self.control_paused or self.control_errored)\n    return bool(self.control and not self.input_paused and not failed)\n"))
KK("gate", ("    while True:\n      data = await self.in_topic.recv_data_control()\n      if isinstance(data, TopicControlData):\n        self.state.input_paused = data.paused\n      else:\n        if self.state.get_open(self.fail_mode):\n          await self.out_topic.send(data)\n",
            "    while True:\n      message = await self.in_topic.recv_data_control()\n      if isinstance(message, TopicControlData):\n        self.state.input_paused = message.paused\n        continue\n      if not self.state.get_open(self.fail_mode): continue\n      await self.out_topic.send(message)\n"))
KK("gate", ("      self.client.start()\n      await asyncio.gather(self.run_control_recv(), self.run_in_recv(), self.run_out_pauser())\n",
            "      self.client.start()\n      receivers = [self.run_out_pauser(), self.run_control_recv(), self.run_in_recv()]\n      await asyncio.gather(*receivers)\n"))
# message detector
KK("messagedetector", ("        try:\n          self.message_trigger.trigger()\n          self.time_sync.update(get_timestamp_from_message(data))\n          self.state.last_message_invalid = False\n        except ValueError: self.state.last_message_invalid = True\n",
                       "        self.message_trigger.trigger()\n        try: timestamp = get_timestamp_from_message(data)\n        except ValueError:\n          self.state.last_message_invalid = True\n          continue\n        self.time_sync.update(timestamp)\n        self.state.last_message_invalid = False\n"))
KK("messagedetector", ("      await self.signal_topic.send(RawData(NumberMessage(timestamp=self.time_sync.time, value=float(self.state.signal)).model_dump()))\n      try: await", "      await self._send_signal()\n      try: await"),
   ("class MessageDetectorTaskHost", "  async def _send_signal(self):\n    value = 1.0 if self.state.signal else 0.0\n    message = NumberMessage(timestamp=self.time_sync.time, value=value)\n    await self.signal_topic.send(RawData(message.model_dump()))\n\nclass MessageDetectorTaskHost"))
KK("messagedetector", ("    if self.last_message_invalid:\n      if self.fail_mode == MessageDetectorFailMode.CLOSED: return False\n      if self.fail_mode == MessageDetectorFailMode.OPEN: return True # to be explicit\n      raise ValueError(\"invalid fail mode!\")\n    else: return True\n",
                       "    if not self.last_message_invalid: return True\n    return self.fail_mode != MessageDetectorFailMode.CLOSED\n"))
KK("messagedetector", ("      try:\n        await asyncio.wait_for(self.message_trigger.wait(), self.config.time_out)\n        self.state.timed_out = False\n      except asyncio.TimeoutError: self.state.timed_out = True\n",
                       "      try: await asyncio.wait_for(self.message_trigger.wait(), timeout=self.config.time_out)\n      except asyncio.TimeoutError: self.state.timed_out = True\n      else: self.state.timed_out = False\n"))
# switch
KK("switch", ("      if self._get_selected_index() == idx:\n        await self.out_topic.set_paused(topic.is_paused)\n        if not isinstance(data, TopicControlData): await self.out_topic.send(data)\n",
              "      if self._get_selected_index() != idx: continue\n      await self.out_topic.set_paused(topic.is_paused)\n      if isinstance(data, TopicControlData): continue\n      await self.out_topic.send(data)\n"))
KK("switch", ("    if len(self.control_values) == 0: return -1\n    return max(self.control_values, key=lambda idx: self.control_values[idx])\n",
              "    if not self.control_values: return -1\n    return max(self.control_values, key=self.control_values.get)\n"))
KK("switch", ("      try:\n        if isinstance(data, TopicControlData):\n          if data.paused: self.control_values.pop(idx, None)\n        else:\n          message = NumberMessage.model_validate(data.data)\n          await self.set_value(idx, message.value)\n      except ValidationError: pass\n",
              "      if isinstance(data, TopicControlData):\n        if data.paused and idx in self.control_values: del self.control_values[idx]\n        continue\n      try: message = NumberMessage.model_validate(data.data)\n      except ValidationError: continue\n      await self.set_value(idx, message.value)\n"))
KK("switch", ("    selected_index = self._get_selected_index()\n    if selected_index != -1:\n      await self.out_topic.set_paused(self.pairs[selected_index][0].is_paused)\n",
              "    selected_index = self._get_selected_index()\n    if selected_index == -1: return\n    in_topic, _ = self.pairs[selected_index]\n    await self.out_topic.set_paused(in_topic.is_paused)\n"))
# time buffer
KK("timebuffer", ("      if isinstance(data, TopicControlData): self.paused = data.paused\n      else: self.message_queue.append(data)\n      self.update_trigger.trigger()\n",
                  "      if isinstance(data, TopicControlData):\n        self.paused = data.paused\n        self.update_trigger.trigger()\n      else:\n        self.message_queue.append(data)\n        self.update_trigger.trigger()\n"))
KK("timebuffer", ("        if top_timestamp - next_timestamp >= self.config.size: await self.out_topic.send(self.message_queue.popleft())\n        else: break\n",
                  "        if top_timestamp - next_timestamp < self.config.size: break\n        message = self.message_queue.popleft()\n        await self.out_topic.send(message)\n"))
KK("timebuffer", ("      if len(self.message_queue) > 0:\n        next_message = self.message_queue[0]\n        try:\n          next_timestamp = get_timestamp_from_message(next_message)\n          pending_ms = self.config.size - (get_timestamp_ms() - next_timestamp)\n          if pending_ms > 0: await asyncio.sleep(pending_ms / 1000.)\n        except ValueError: pass\n        await self.out_topic.send(self.message_queue.popleft())\n",
                  "      if len(self.message_queue) == 0: continue\n      try:\n        timestamp = get_timestamp_from_message(self.message_queue[0])\n        pending_ms = self._pending(timestamp)\n        if pending_ms > 0: await asyncio.sleep(pending_ms / 1000)\n      except ValueError: pass\n      message = self.message_queue.popleft()\n      await self.out_topic.send(message)\n"),
   ("class TimeBufferTaskHost", "  def _pending(self, timestamp): return timestamp + self.config.size - get_timestamp_ms()\n\nclass TimeBufferTaskHost"))
KK("timebuffer", ("      run_sender = self.run_sender_message() if self.config.time_reference == \"message\" else self.run_sender_clock()\n      await asyncio.gather(self.run_receiver(), run_sender)\n",
                  "      if self.config.time_reference == \"message\": run_sender = self.run_sender_message()\n      else: run_sender = self.run_sender_clock()\n      await asyncio.gather(run_sender, self.run_receiver())\n"))
# replay
KK("replaybuffer", ("      if isinstance(data, TopicControlData):\n        if not data.paused and last_paused:\n          self.buffer.clear()\n          await self.stop_play()\n        last_paused = data.paused\n      else:\n        self.buffer.append(data)\n        await self.update_playing_state()\n",
                    "      if not isinstance(data, TopicControlData):\n        self.buffer.append(data)\n        await self.update_playing_state()\n        continue\n      resumed = last_paused and not data.paused\n      last_paused = data.paused\n      if resumed:\n        self.buffer.clear()\n        await self.stop_play()\n"))
KK("replaybuffer", ("    if self.play_task is not None:\n      if not self.play_task.done():\n        self.play_task.cancel()\n        try: await self.play_task\n        except asyncio.CancelledError: pass\n      self.play_task = None\n",
                    "    task = self.play_task\n    if task is None: return\n    if not task.done():\n      task.cancel()\n      try: await task\n      except asyncio.CancelledError: pass\n    self.play_task = None\n"))
KK("replaybuffer", ("    if self.playing and self.play_task is None and len(self.buffer) > 0: self.play_task = asyncio.create_task(self.play())\n    if not self.playing:\n      await self.out_topic.set_paused(True)\n      await self.stop_play()\n",
                    "    if not self.playing:\n      await self.out_topic.set_paused(True)\n      await self.stop_play()\n    elif self.play_task is None and len(self.buffer) > 0:\n      self.play_task = asyncio.create_task(self.play())\n"))
KK("replaybuffer", ("      try:\n        data = await self.play_topic.recv_data()\n        message = NumberMessage.model_validate(data.data)\n        self.sync.update(message.timestamp)\n        self.playing = message.value > 0.5\n        await self.update_playing_state()\n      except ValidationError: pass\n",
                    "      data = await self.play_topic.recv_data()\n      try: message = NumberMessage.model_validate(data.data)\n      except ValidationError: continue\n      self.sync.update(message.timestamp)\n      self.playing = message.value > 0.5\n      await self.update_playing_state()\n"))
KK("replaybuffer", ("          if time_offset is None: time_offset = self.sync.time - ts\n          set_timestamp_on_message(data, ts + time_offset)\n          wait_time = ((ts + time_offset) - self.sync.time) / 1000\n",
                    "          if time_offset is None: time_offset = self.sync.time - ts\n          play_ts = ts + time_offset\n          set_timestamp_on_message(data, play_ts)\n          wait_time = (play_ts - self.sync.time) / 1000\n"))
# repeater
KK("repeater", ("        try:\n          msg_time = get_timestamp_from_message(data)\n          self.time_sync.update(msg_time)\n          self.current_data = data.shallow_copy()\n          self.data_trigger.trigger()\n        except ValueError:\n          if not self.config.fail_closed: await self.out_topic.send(data)\n          else: self.current_data = None\n",
                "        try: msg_time = get_timestamp_from_message(data)\n        except ValueError:\n          if self.config.fail_closed: self.current_data = None\n          else: await self.out_topic.send(data)\n          continue\n        self.current_data = data.shallow_copy()\n        self.time_sync.update(msg_time)\n        self.data_trigger.trigger()\n"))
KK("repeater", ("      if not self.out_topic.is_paused and self.current_data is not None:\n        try:\n          msg = self.current_data.shallow_copy()\n          set_timestamp_on_message(msg, self.time_sync.time)\n          await self.out_topic.send(msg)\n        except ValueError: pass\n", "      await self._repeat()\n"),
   ("class RepeaterTaskHost", "  async def _repeat(self):\n    if self.current_data is None or self.out_topic.is_paused: return\n    try:\n      msg = self.current_data.shallow_copy()\n      set_timestamp_on_message(msg, self.time_sync.time)\n    except ValueError: return\n    await self.out_topic.send(msg)\n\nclass RepeaterTaskHost"))
KK("repeater", ("      wait_time = float(t0 + frame_counter * delay) - time.time()\n      await asyncio.sleep(max(wait_time, 0))\n", "      next_time = t0 + frame_counter * delay\n      await asyncio.sleep(max(float(next_time) - time.time(), 0))\n"))
# concatenator
KK("stringconcatenator", ("        if isinstance(data, TopicControlData): await self.out_topic.set_paused(data.paused)\n        else:\n          message = NumberMessage.model_validate(data.data)\n          if last_control <= 0.5 and message.value > 0.5 and len(self.value) > 0:\n            await self.out_topic.send(RawData(TextMessage(timestamp=message.timestamp, value=self.value).model_dump()))\n            self.value = \"\"\n          last_control = message.value\n",
                          "        if isinstance(data, TopicControlData):\n          await self.out_topic.set_paused(data.paused)\n          continue\n        message = NumberMessage.model_validate(data.data)\n        rising = last_control <= 0.5 and message.value > 0.5\n        if rising and self.value != \"\":\n          await self.out_topic.send(RawData(TextMessage(timestamp=message.timestamp, value=self.value).model_dump()))\n          self.value = \"\"\n        last_control = message.value\n"))
KK("stringconcatenator", ("        message = TextMessage.model_validate(data.data)\n        self.value += message.value\n", "        text = TextMessage.model_validate(data.data).value\n        self.value = self.value + text\n"))
# timestamp updater
KK("timestampupdater", ("            if self.config.time_reference == \"message\": ref_time = get_timestamp_from_message(data)\n            else: ref_time = get_timestamp_ms()\n", "            ref_time = get_timestamp_from_message(data) if self.config.time_reference == \"message\" else get_timestamp_ms()\n"))
KK("timestampupdater", ("            data = data.shallow_copy()\n            set_timestamp_on_message(data, ref_time + self.config.time_offset)\n            await self.out_topic.send(data)\n", "            updated = data.shallow_copy()\n            set_timestamp_on_message(updated, self.config.time_offset + ref_time)\n            await self.out_topic.send(updated)\n"))
KK("timestampupdater", ("        if isinstance(data, TopicControlData):\n          await self.out_topic.set_paused(data.paused)\n        else:\n          try:\n            if self.config.time_reference == \"message\": ref_time = get_timestamp_from_message(data)\n            else: ref_time = get_timestamp_ms()\n            data = data.shallow_copy()\n            set_timestamp_on_message(data, ref_time + self.config.time_offset)\n            await self.out_topic.send(data)\n          except (ValueError, KeyError, TypeError):\n            if not self.config.fail_closed: await self.out_topic.send(data)\n",
                        "        if isinstance(data, TopicControlData): await self.out_topic.set_paused(data.paused)\n        else: await self._handle(data)\n\n  def _updated(self, data):\n    if self.config.time_reference == \"message\": ref_time = get_timestamp_from_message(data)\n    else: ref_time = get_timestamp_ms()\n    result = data.shallow_copy()\n    set_timestamp_on_message(result, ref_time + self.config.time_offset)\n    return result\n\n  async def _handle(self, data):\n    try: result = self._updated(data)\n    except (ValueError, KeyError, TypeError):\n      if self.config.fail_closed: return\n      result = data\n    await self.out_topic.send(result)\n"))
# latch
KK("srlatch", ("    if self.set_value != self.reset_value:\n      if self.set_value: self.value = True\n      if self.reset_value: self.value = False\n", "    if self.set_value != self.reset_value: self.value = self.set_value\n"))
KK("srlatch", ("    if self.set_value != self.reset_value:\n      if self.set_value: self.value = True\n      if self.reset_value: self.value = False\n", "    if self.set_value and not self.reset_value: self.value = True\n    elif self.reset_value and not self.set_value: self.value = False\n"))
KK("srlatch", ("        setattr(self, value_name, message.value > 0.5)\n", "        is_high = message.value > 0.5\n        if value_name == \"set_value\": self.set_value = is_high\n        else: self.reset_value = is_high\n"))
# calculator
KK("calculator", ("    result: float = CalculatorEvalTransformer(CalculatorEvalContext(self.var_values)).transform(self.formula_ast)\n    await self.out_topic.send(RawData(NumberMessage(timestamp=timestamp,value=result).model_dump()))\n",
                  "    context = CalculatorEvalContext(self.var_values)\n    message = NumberMessage(timestamp=timestamp, value=CalculatorEvalTransformer(context).transform(self.formula_ast))\n    await self.out_topic.send(RawData(message.model_dump()))\n"))
KK("calculator", ("        try:\n          message = NumberMessage.model_validate(data.data)\n          self.var_values[var_name] = message.value\n          await self.send_value(message.timestamp)\n        except (ValidationError, VisitError): pass\n",
                  "        try: message = NumberMessage.model_validate(data.data)\n        except ValidationError: continue\n        self.var_values[var_name] = message.value\n        try: await self.send_value(message.timestamp)\n        except (VisitError, ValidationError): pass\n"))
KK("calculator", ("    if config.synchronized:\n      sync = SequentialInTopicSynchronizer()\n      self.in_topics = [\n        (client.sync_in_topic(input_var.in_topic, sync), input_var.name, input_var.default_value)\n        for input_var in config.variable_tracks\n      ]\n    else:\n      self.in_topics = [\n        (client.in_topic(input_var.in_topic), input_var.name, input_var.default_value)\n        for input_var in config.variable_tracks\n      ]\n",
                  "    sync = SequentialInTopicSynchronizer() if config.synchronized else None\n    self.in_topics = []\n    for input_var in config.variable_tracks:\n      in_topic = client.in_topic(input_var.in_topic) if sync is None else client.sync_in_topic(input_var.in_topic, sync)\n      self.in_topics.append((in_topic, input_var.name, input_var.default_value))\n"))
# converters
KK("numbertotext", ("            message = NumberMessage.model_validate(data.data)\n            await self.out_topic.send(RawData(TextMessage(timestamp=message.timestamp, value=str(message.value)).model_dump()))\n",
                    "            number = NumberMessage.model_validate(data.data)\n            text = TextMessage(timestamp=number.timestamp, value=f\"{number.value}\")\n            await self.out_topic.send(RawData(text.model_dump()))\n"))
KK("stringmatcher", ("value=0 if self.regex.match(message.value) is None else 1)", "value=int(self.regex.match(message.value) is not None))"))
KK("stringmatcher", ("            message = TextMessage.model_validate(data.data)\n            await self.out_topic.send(RawData(NumberMessage(timestamp=message.timestamp, value=0 if self.regex.match(message.value) is None else 1).model_dump()))\n",
                     "            message = TextMessage.model_validate(data.data)\n            matched = self.regex.match(message.value)\n            value = 1 if matched else 0\n            await self.out_topic.send(RawData(NumberMessage(timestamp=message.timestamp, value=value).model_dump()))\n"))
KK("textformatter", ("    result = self.config.template.format_map(self.var_values)\n    await self.out_topic.send(RawData(TextMessage(timestamp=timestamp,value=result).model_dump()))\n", "    text = self.config.template.format_map(self.var_values)\n    message = TextMessage(value=text, timestamp=timestamp)\n    await self.out_topic.send(RawData(message.model_dump()))\n"))
KK("textformatter", ("      if isinstance(data, TopicControlData): self.var_values[var_name] = default_text\n      else:\n        try:\n          message = TextMessage.model_validate(data.data)\n          self.var_values[var_name] = message.value\n          await self.send_value(message.timestamp)\n        except ValidationError: pass\n",
                     "      if isinstance(data, TopicControlData):\n        self.var_values[var_name] = default_text\n        continue\n      try: message = TextMessage.model_validate(data.data)\n      except ValidationError: continue\n      self.var_values[var_name] = message.value\n      await self.send_value(message.timestamp)\n"))
KK("synchronizer", ("      if isinstance(data, TopicControlData): await out_topic.set_paused(data.paused)\n      else: await out_topic.send(data)\n", "      if not isinstance(data, TopicControlData):\n        await out_topic.send(data)\n        continue\n      await out_topic.set_paused(data.paused)\n"))
KK("synchronizer", ("        await exit_stack.enter_async_context(in_topic)\n        await exit_stack.enter_async_context(in_topic.RegisterContext())\n        await exit_stack.enter_async_context(out_topic)\n        await exit_stack.enter_async_context(out_topic.RegisterContext())\n",
                    "        for topic in (in_topic, out_topic):\n          await exit_stack.enter_async_context(topic)\n          await exit_stack.enter_async_context(topic.RegisterContext())\n"))
KK("namedoutput", ("        data = await self.in_topic.recv_data_control()\n        if isinstance(data, TopicControlData): await out_topic.set_paused(data.paused)\n        else: await out_topic.send(data)\n", "        await self._forward(await self.in_topic.recv_data_control(), out_topic)\n\n  async def _forward(self, data, out_topic):\n    if isinstance(data, TopicControlData): await out_topic.set_paused(data.paused)\n    else: await out_topic.send(data)\n"))
KK("media/mediaswitch", ("      if self._get_selected_index() == idx:\n        await self.out_topic.set_paused(topic.is_paused)\n        if not isinstance(data, TopicControlData):\n          if idx != self._active_index:\n            try:\n              message = MediaMessage.model_validate(data.data)\n              if message.packet.is_keyframe: self._active_index = idx\n            except ValidationError: pass\n          if idx == self._active_index:\n            await self.out_topic.send(data)\n      elif idx == self._active_index: self._active_index = -1\n",
                         "      if self._get_selected_index() != idx:\n        if idx == self._active_index: self._active_index = -1\n        continue\n      await self.out_topic.set_paused(topic.is_paused)\n      if isinstance(data, TopicControlData): continue\n      if idx != self._active_index and self._starts(data): self._active_index = idx\n      if idx == self._active_index: await self.out_topic.send(data)\n\n  def _starts(self, data):\n    try: return MediaMessage.model_validate(data.data).packet.is_keyframe\n    except ValidationError: return False\n"))
