def ui(n): return f"system/tasks/ui/{n}.py"
B("T14", ui("controlbase"), "    self._value = value\n    self._value_changed_trigger.trigger()\n", "    self._value = value\n")
B("T14", ui("controlbase"), "    self._value = value\n    self._value_changed_trigger.trigger()\n", "    if value != self._value: self._value_changed_trigger.trigger()\n    self._value = value\n")
B("T14", ui("controlbase"), "      await self.send_value(self._value)\n      try:\n", "      try:\n")
B("T14", ui("controlbase"), "    while True:\n      await self.send_value(self._value)\n      try:\n        if self.config.repeat_interval > 0: await asyncio.wait_for(self.wait_value_changed(), self.config.repeat_interval)\n        else: await self.wait_value_changed()\n      except asyncio.TimeoutError: pass\n",
  "    while True:\n      try:\n        if self.config.repeat_interval > 0: await asyncio.wait_for(self.wait_value_changed(), self.config.repeat_interval)\n        else: await self.wait_value_changed()\n      except asyncio.TimeoutError: pass\n      await self.send_value(self._value)\n")
B("T14", ui("controlbase"), "        else: await self.wait_value_changed()\n      except asyncio.TimeoutError: pass\n", "        else: await asyncio.wait_for(self.wait_value_changed(), 1)\n      except asyncio.TimeoutError: pass\n")
B("T14", ui("controlbase"), "      except asyncio.TimeoutError: pass\n", "      except asyncio.TimeoutError:\n        if self.config.repeat_interval < 1: return\n", "ends after an interval")
B("T14", ui("controlbase"), "        if self.config.repeat_interval > 0:", "        if self.config.repeat_interval >= 1:")
B("T14", ui("controlbase"), "asyncio.wait_for(self.wait_value_changed(), self.config.repeat_interval)", "asyncio.wait_for(self.wait_value_changed(), self.config.repeat_interval * 1000)")
B("T14", ui("controlbase"), "      self.value = self._value.__class__.model_validate(await ctx.receive_json())\n      await ctx.respond_status(200)\n", "      value = self._value.__class__.model_validate(await ctx.receive_json())\n      await ctx.respond_status(200)\n      self.value = value\n")
B("T14", ui("controlbase"), "      self.value = self._value.__class__.model_validate(await ctx.receive_json())\n", "      self._value = self._value.__class__.model_validate(await ctx.receive_json())\n")
B("T14", ui("controlbase"), "self._value.__class__.model_validate(await ctx.receive_json())", "self._value.__class__.model_construct(**(await ctx.receive_json()))")
B("T14", ui("controlbase"), "await ctx.respond_json(self._value.model_dump())", "await ctx.respond_json(self.config.model_dump())")
B("T14", ui("controlbase"), "          await wait_with_dependencies(self.wait_value_changed(), [receive_disconnect_task])\n          await ctx.send_message(self._value.model_dump_json())\n", "          value = self._value\n          await wait_with_dependencies(self.wait_value_changed(), [receive_disconnect_task])\n          await ctx.send_message(value.model_dump_json())\n")
B("T14", ui("controlbase"), "          await wait_with_dependencies(self.wait_value_changed(), [receive_disconnect_task])\n", "          await self.wait_value_changed()\n")
B("T14", ui("controlbase"), "          await wait_with_dependencies(self.wait_value_changed(), [receive_disconnect_task])\n          await ctx.send_message(self._value.model_dump_json())\n", "          last = self._value\n          await wait_with_dependencies(self.wait_value_changed(), [receive_disconnect_task])\n          if last.model_fields_set != self._value.model_fields_set: await ctx.send_message(self._value.model_dump_json())\n")
B("T14", ui("textdisplay"), "new_text[-self.config.max_length:]", "new_text[:self.config.max_length]")
B("T14", ui("textdisplay"), "self.value.value + self.config.seperator + message.value", "message.value + self.config.seperator + self.value.value")
B("T14", ui("textdisplay"), "if self.config.max_length != -1:", "if self.config.max_length > 1:")
B("T14", ui("textdisplay"), "        if self.config.append: new_text", "        if self.config.append and len(self.value.value) < 4: new_text")
B("T14", ui("textdisplay"), "        self.value = TextDisplayValue(value=new_text)\n", "        self.value.value = new_text\n")
B("T14", ui("statusdisplay"), "StatusDisplayValue(value=message.value)", "StatusDisplayValue(value=max(message.value, self.config.threshold))")
B("T14", ui("valuedisplaybar"), "self.value = DisplayBarValue(value=message.value)", "self.value = DisplayBarValue(value=min(max(message.value, self.config.min_value), self.config.max_value))")
B("T14", ui("statusdisplay"), "        self.value = StatusDisplayValue(value=message.value)\n", "        self._value = StatusDisplayValue(value=message.value)\n")
B("T14", ui("valuedisplaybar"), "      except ValidationError: pass\n", "      except ValidationError: self.value = DisplayBarValue(value=self.config.default_value)\n")
B("T14", ui("sliderui"), "value=value.value)", "value=max(value.value, self.config.min_value))")
B("T14", ui("switchui"), "value=1 if value.value else 0", "value=0 if value.value else 1")
B("T14", ui("radiobuttonsui"), "value = 1 if out_topic.topic == data.selected_topic else 0", "value = 1 if out_topic.topic >= data.selected_topic else 0")
B("T14", ui("radiobuttonsui"), "      await out_topic.send(RawData(NumberMessage(timestamp=timestamp, value=value).model_dump()))\n", "      if value: await out_topic.send(RawData(NumberMessage(timestamp=timestamp, value=value).model_dump()))\n")
B("T14", ui("textinput"), "    if len(value.value.strip()) > 0:\n", "    if len(value.value) > 0:\n")
B("T14", ui("textinput"), "value=value.value)", "value=value.value.strip())")
TA = "T14 T02 T01 T13 T03"
K(TA, ui("controlbase"), "    self._value = value\n    self._value_changed_trigger.trigger()\n", "    self._value_changed_trigger.trigger()\n    self._value = value\n")
K(TA, ui("controlbase"), "        if self.config.repeat_interval > 0: await asyncio.wait_for(self.wait_value_changed(), self.config.repeat_interval)\n        else: await self.wait_value_changed()\n", "        interval = self.config.repeat_interval if self.config.repeat_interval > 0 else None\n        await asyncio.wait_for(self.wait_value_changed(), timeout=interval)\n")
K(TA, ui("controlbase"), "      await self.send_value(self._value)\n      try:\n        if self.config.repeat_interval > 0: await asyncio.wait_for(self.wait_value_changed(), self.config.repeat_interval)\n        else: await self.wait_value_changed()\n      except asyncio.TimeoutError: pass\n", "      await self.send_value(self.value)\n      await self._wait_next()\n\n  async def _wait_next(self):\n    if self.config.repeat_interval <= 0:\n      await self.wait_value_changed()\n      return\n    try: await asyncio.wait_for(self.wait_value_changed(), self.config.repeat_interval)\n    except asyncio.TimeoutError: pass\n")
K(TA, ui("controlbase"), "      self.value = self._value.__class__.model_validate(await ctx.receive_json())\n", "      body = await ctx.receive_json()\n      new_value = type(self._value).model_validate(body)\n      self.value = new_value\n")
K(TA, ui("controlbase"), "          await wait_with_dependencies(self.wait_value_changed(), [receive_disconnect_task])\n          await ctx.send_message(self._value.model_dump_json())\n", "          await wait_with_dependencies(self.wait_value_changed(), (receive_disconnect_task,))\n          message = self.value.model_dump_json()\n          await ctx.send_message(message)\n")
K(TA, ui("textdisplay"), "        if self.config.append: new_text = self.value.value + self.config.seperator + message.value\n        else: new_text = message.value\n        if self.config.max_length != -1: new_text = new_text[-self.config.max_length:]\n        self.value = TextDisplayValue(value=new_text)\n", "        self._show(message.value)\n")
EDITS[-1][2].append((ui("textdisplay"), "class TextDisplayTaskHost", "  def _show(self, text):\n    parts = [self.value.value, text] if self.config.append else [text]\n    joined = self.config.seperator.join(parts)\n    limit = self.config.max_length\n    self.value = TextDisplayValue(value=joined if limit == -1 else joined[-limit:])\n\nclass TextDisplayTaskHost"))
K(TA, ui("textdisplay"), "new_text = self.value.value + self.config.seperator + message.value", "new_text = f\"{self.value.value}{self.config.seperator}{message.value}\"")
K(TA, ui("switchui"), "value=1 if value.value else 0", "value=int(value.value)")
K(TA, ui("radiobuttonsui"), "      value = 1 if out_topic.topic == data.selected_topic else 0\n      await out_topic.send(RawData(NumberMessage(timestamp=timestamp, value=value).model_dump()))\n", "      await self._send(out_topic, timestamp, out_topic.topic == data.selected_topic)\n\n  async def _send(self, out_topic, timestamp, selected):\n    message = NumberMessage(timestamp=timestamp, value=1 if selected else 0)\n    await out_topic.send(RawData(message.model_dump()))\n")
K(TA, ui("textinput"), "    if len(value.value.strip()) > 0:\n      await self.out_topic.send", "    if not value.value.strip(): return\n    if True:\n      await self.out_topic.send")
K(TA, ui("statusdisplay"), "      try:\n        data = await self.in_topic.recv_data()\n        message = NumberMessage.model_validate(data.data)\n        self.value = StatusDisplayValue(value=message.value)\n      except ValidationError: pass\n", "      data = await self.in_topic.recv_data()\n      try: number = NumberMessage.model_validate(data.data)\n      except ValidationError: continue\n      self.value = StatusDisplayValue(value=number.value)\n")
