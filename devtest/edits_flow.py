MI, MO, VI, AI_, AO, VV = "system/tasks/media/inputcontainer.py", "system/tasks/media/outputcontainer.py", "system/tasks/media/videoinput.py", "system/tasks/media/audioinput.py", "system/tasks/media/audiooutput.py", "system/tasks/ui/videoviewer.py"
CB, TW, UT, CM, AS, TF, CA, RB = "system/tasks/ui/controlbase.py", "system/task_web.py", "utils.py", "system/connection_manager.py", "asgi.py", "system/tasks/textformatter.py", "system/tasks/calculator.py", "system/tasks/replaybuffer.py"
# U02
B("U02", VI, "    vc = cv2.VideoCapture(self.config.camera_id)\n    try:\n", "    try:\n      vc = cv2.VideoCapture(self.config.camera_id)\n")
B("U02", CB, "      await ctx.accept()\n      receive_disconnect_task = asyncio.create_task(ctx.receive_disconnect())\n      try:\n", "      try:\n        await ctx.accept()\n        receive_disconnect_task = asyncio.create_task(ctx.receive_disconnect())\n")
B("U02", MI, "    tasks: list[asyncio.Task] = []\n    try:\n      source", "    try:\n      source")
B("U02", MI, "        if container is not None: await container.close()\n", "        await container.close()\n", "None closed")
B("U02", TF, "    tasks: list[asyncio.Task] = []\n    try:\n      async with contextlib.AsyncExitStack() as exit_stack:\n", "    try:\n      async with contextlib.AsyncExitStack() as exit_stack:\n        tasks: list[asyncio.Task] = []\n")
B("U02", "system/task.py", "    error_text = None\n    status = TaskStatus.running\n    try:\n", "    try:\n", "error_text unbound")
B("U02", "client/fetch.py", "    try:\n      await self._client.send_to(self._remote_endpoint", "    try:\n      await self._client.send_to(self._remote_endpoint", "x") if False else None
B("U02", AI_, "    stream = sounddevice.RawInputStream(", "    try: stream = sounddevice.RawInputStream(", "x") if False else None
B("U02", "system/task.py", "    fut: None | asyncio.Future = None\n    async with", "    async with")
K("U02", "system/task.py", "    fut: None | asyncio.Future = None\n    async with self.init():\n      try:\n        fut = self.loop.run_in_executor(None, self.run_sync)\n        await asyncio.shield(fut)\n      finally:\n        self.stop_event.set()\n        if fut: await fut\n", "    async with self.init():\n      started = False\n      try:\n        fut = self.loop.run_in_executor(None, self.run_sync)\n        started = True\n        await asyncio.shield(fut)\n      finally:\n        self.stop_event.set()\n        if started: await fut\n", "flag instead of None")
K("U02", VI, "    vc = cv2.VideoCapture(self.config.camera_id)\n    try:\n", "    vc = None\n    try:\n      vc = cv2.VideoCapture(self.config.camera_id)\n", "K1") if False else None
K("U02", MI, "        if container is not None: await container.close()\n", "        if container: await container.close()\n")
K("U02", MI, "        if container is not None: await container.close()\n", "        if container is None: pass\n        else: await container.close()\n")
K("U02 U04", MI, "        if container is not None: await container.close()\n      finally:\n        for t in tasks: t.cancel()\n        if len(tasks) > 0: await asyncio.wait(tasks)\n", "        await self._close(container)\n      finally: await self._end(tasks)\n\n  async def _close(self, container):\n    if container is not None: await container.close()\n\n  async def _end(self, tasks):\n    for t in tasks: t.cancel()\n    if len(tasks) > 0: await asyncio.wait(tasks)\n", "helpers")
K("U02 U03 U04", TF, "    finally:\n      for task in tasks: task.cancel()\n", "    except asyncio.CancelledError: raise\n    finally:\n      [task.cancel() for task in tasks]\n")
K("U02 U03 U04", TF, "    finally:\n      for task in tasks: task.cancel()\n", "    except BaseException:\n      for task in tasks: task.cancel()\n      raise\n    else:\n      for task in tasks: task.cancel()\n")
# U03
B("U03", "system/task.py", "      except asyncio.CancelledError: raise\n      except BaseException as e:\n        await req.respond(Task", "      except BaseException as e:\n        await req.respond(Task")
B("U03", "client/fetch.py", "          except asyncio.CancelledError: raise\n", "")
B("U03", "client/signal.py", "          except asyncio.CancelledError: raise\n", "")
B("U03", TF, "          await self.send_value(message.timestamp)\n        except ValidationError: pass", "          await self.send_value(message.timestamp)\n        except: pass")
B("U03", RB, "        await self.update_playing_state()\n      except ValidationError: pass", "        await self.update_playing_state()\n      except BaseException as e: print(e)")
B("U03", "system/task.py", "        fut = self.loop.run_in_executor(None, self.run_sync)\n        await asyncio.shield(fut)\n", "        fut = self.loop.run_in_executor(None, self.run_sync)\n        await asyncio.shield(fut)\n      except asyncio.CancelledError: pass\n", "sync task")
B("U03", "services/discovery.py", "    finally:", "    except asyncio.CancelledError: pass\n    finally:")
B("U03", "connection.py", "      self._running_event.set()\n      await self.run_server()\n    finally:", "      self._running_event.set()\n      await self.run_server()\n    except BaseException as e: logging.warning(e)\n    finally:")
B("U03", "client/receiver.py", "      self._receiving_count = 0\n      await self._client.disable_receiver(self)\n      raise\n", "      self._receiving_count = 0\n      await self._client.disable_receiver(self)\n", "start_recv swallows")
B("U03", "client/__init__.py", "", "", "x") if False else None
B("U03", UT, "  try: return await", "  try: return await") if False else None
B("U03", TW, "            except asyncio.CancelledError: raise\n            except BaseException as e: logging.warning(\"Failed to send", "            except BaseException as e: logging.warning(\"Failed to send")
B("U03", "connection.py", "    except asyncio.CancelledError: raise\n    except BaseException as e: raise ConnectionClosedError(origin=e)\n\n  async def _recv", "    except BaseException as e: return\n\n  async def _recv", "link send swallows") if False else None
B("U03", CM, "    with contextlib.suppress", "    with contextlib.suppress") if False else None
B("U03", TF, "      data = await in_topic.recv_data_control()\n", "      with contextlib.suppress(BaseException): data = await in_topic.recv_data_control()\n")
K("U03", TF, "      data = await in_topic.recv_data_control()\n", "      with contextlib.suppress(ValueError): data = await in_topic.recv_data_control()\n")
K("U03", "client/signal.py", "          except asyncio.CancelledError: raise\n          except BaseException as e: logging", "          except Exception as e: logging")
K("U03", TW, "            except asyncio.CancelledError: raise\n            except BaseException as e: logging.warning(\"Failed to send", "            except Exception as e: logging.warning(\"Failed to send")
K("U03", "client/__init__.py", "      self._receive_task.cancel(\"stopped receiving!\")\n      try: await self._receive_task\n      except asyncio.CancelledError: pass", "      task = self._receive_task\n      task.cancel(\"stopped receiving!\")\n      try: await task\n      except asyncio.CancelledError: pass")
K("U03", CM, "    except asyncio.CancelledError: pass\n    except Exception", "    except asyncio.CancelledError: logging.debug('stopped')\n    except Exception")
# U04
B("U04", AI_, "    finally: stream.close()\n", "    except OSError: stream.close()\n")
B("U04", AO, "    finally: stream.close()\n", "    except queue.Full: pass\n    stream.close()\n")
B("U04", VI, "    finally:\n      vc.release()\n", "    except ValueError: pass\n    vc.release()\n")
B("U04", MI, "        if container is not None: await container.close()\n      finally:", "        pass\n      finally:")
B("U04", MI, "        for t in tasks: t.cancel()\n        if len(tasks) > 0: await asyncio.wait(tasks)\n", "        pass\n")
B("U04", MO, "        if container is not None: await container.close()\n      finally:\n        for t in tasks: t.cancel()\n", "        for t in tasks: t.cancel()\n      finally:\n")
B("U04", TF, "    finally:\n      for task in tasks: task.cancel()\n", "    except ValidationError: pass\n")
B("U04", CA, "    finally:\n      for task in tasks: task.cancel()\n", "    except ValueError:\n      for task in tasks: task.cancel()\n")
B("U04", RB, "      finally: await self.stop_play()\n", "      finally: await self.out_topic.set_paused(True)\n")
B("U04", RB, "      try: await asyncio.gather(self.run_input_receiver(), self.run_play_receiver())\n      finally: await self.stop_play()\n", "      await asyncio.gather(self.run_input_receiver(), self.run_play_receiver())\n      await self.stop_play()\n")
B("U04", VV, "          receive_disconnect_task.cancel()\n", "")
B("U04", CB, "        receive_disconnect_task.cancel()\n", "")
B("U04", UT, "  try: yield\n  finally:\n    task.cancel()\n    try: await task\n    except asyncio.CancelledError: pass\n", "  yield\n  task.cancel()\n  try: await task\n  except asyncio.CancelledError: pass\n")
B("U04", AS, "      await receiver.stop_recv()\n", "      pass\n")
B("U04", AS, "      for task in tasks: task.cancel()\n      await", "      await")
B("U04", "system/tasks/media/screencapture.py", "    with mss.mss(with_cursor=self.config.with_cursor, display=self.config.display or None) as sct:\n", "    sct = mss.mss(with_cursor=self.config.with_cursor, display=self.config.display or None)\n    if True:\n")
B("U04", "system/tasks/textformatter.py", "        for in_topic, var_name, default_value in self.in_topics:\n", "        ticker = asyncio.create_task(self.send_value(0))\n        for in_topic, var_name, default_value in self.in_topics:\n")
K("U04", VI, "    finally:\n      vc.release()\n", "    finally: self._done(vc)\n\n  def _done(self, vc): vc.release()\n")
K("U04", VI, "    finally:\n      vc.release()\n", "    except BaseException:\n      vc.release()\n      raise\n    vc.release()\n")
K("U04", AS, "      for task in tasks: task.cancel()\n      await receiver.stop_recv()\n", "      await self._stop(receiver, *tasks)\n\n  async def _stop(self, receiver, *tasks):\n    for t in tasks: t.cancel()\n    await receiver.stop_recv()\n")
K("U04", AS, "      tasks = self._start_loops(receiver, sender, receive, send)\n", "      first, second = self._start_loops(receiver, sender, receive, send)\n      tasks = [first, second]\n")
K("U04", RB, "      finally: await self.stop_play()\n", "      finally:\n        play_task, self.play_task = self.play_task, None\n        if play_task is not None:\n          play_task.cancel()\n          await asyncio.wait([play_task])\n") 
K("U04", RB, "      finally: await self.stop_play()\n", "      finally:\n        if self.play_task is not None: self.play_task.cancel()\n") 
K("U04", MI, "        for t in tasks: t.cancel()\n        if len(tasks) > 0: await asyncio.wait(tasks)\n", "        for i in range(len(tasks)): tasks[i].cancel()\n        if len(tasks) > 0: await asyncio.wait(tasks)\n")
K("U04", "system/tasks/media/screencapture.py", "    with mss.mss(with_cursor=self.config.with_cursor, display=self.config.display or None) as sct:\n", "    sct = mss.mss(with_cursor=self.config.with_cursor, display=self.config.display or None)\n    with sct:\n")
B("U03", "system/tasks/srlatch.py", "except ValidationError", "except (ValidationError, asyncio.CancelledError)")
B("U04", "system/tasks/media/audioencoder.py", "    finally:\n      self.encoder.close()\n", "    except ValueError:\n      self.encoder.close()\n")
B("U04", "system/tasks/media/videodecoder.py", "    finally:\n      self.decoder.close()\n", "    except ValidationError: pass\n")
K("U04", "system/tasks/media/audioencoder.py", "    finally:\n      self.encoder.close()\n", "    finally: self.stop_encoder()\n\n  def stop_encoder(self): self.encoder.close()\n")
