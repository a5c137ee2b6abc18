N = "net/__init__.py"
B("N02", N, "if link != origin and message.topic in link.in_topics]", "if message.topic in link.in_topics]")
B("N02", N, "if link != origin and message.topic in link.in_topics]", "if link != origin]")
B("N02", N, "if link != origin and message.topic in link.in_topics]", "if link != origin and message.topic in link.in_topics and link._cost < 10]")
B("N02", N, "if link != origin and message.topic in link.in_topics]", "if link != origin and message.topic in link.recv_topics]")
B("N02", N, "      except ConnectionClosedError: pass # only", "      except ConnectionClosedError: break # only")
B("N02", N, "        self.stream_controls[message.topic] = message.to_data()", "        if message.paused: self.stream_controls[message.topic] = message.to_data()")
B("N02", N, "for topic in message.add if topic in self.stream_controls ]", "for topic in message.remove if topic in self.stream_controls ]")
B("N02", N, "    for control_message in [ self.stream_controls[topic].to_message(topic) for topic in message.add if topic in self.stream_controls ]", "    for control_message in [ self.stream_controls[topic].to_message(topic) for topic in final_add if topic in self.stream_controls ]")
K("N02 N05", N, "    await self.send_to(message, [ link for link in self.link_manager.links if link != origin and message.topic in link.in_topics])",
"""    targets = []
    for link in self.link_manager.links:
      if link is origin: continue
      if message.topic in link.in_topics: targets.append(link)
    await self.send_to(message, targets)""")
K("N02 N05", N, "    await self.send_to(message, [ link for link in self.link_manager.links if link != origin and message.topic in link.in_topics])",
"""    topic = message.topic
    def wanted(l): return l != origin and topic in l.in_topics
    await self.send_to(message, list(filter(wanted, self.link_manager.links)))""")
K("N02 N05", N, "    await self.send_to(message, [ link for link in self.link_manager.links if link != origin and message.topic in link.in_topics])",
"""    await self._forward(message, origin)
  async def _forward(self, message, origin):
    for link in tuple(self.link_manager.links):
      if origin == link or message.topic not in link.in_topics: continue
      try: await link.send(message)
      except ConnectionClosedError: continue""")
B("N04", N, "    removed_in_topics = self.in_topics.remove_many(link.in_topics)\n", "    removed_in_topics = set()\n")
B("N04", N, "      link.close()\n      await self.remove_link(link)", "      await self.remove_link(link)")
B("N04", N, "    except BaseException as e:\n      logging.error(f\"Error receiving from link: {e}\")\n      raise e\n    finally:\n      link.close()\n      await self.remove_link(link)",
  "    except BaseException as e:\n      logging.error(f\"Error receiving from link: {e}\")\n      raise e\n    link.close()\n    await self.remove_link(link)")
B("N04", N, "    if len(removed_topics) > 0 or len(updated_topics) > 0:\n      await self.broadcast", "    if len(removed_topics) > 0:\n      await self.broadcast")
B("N04", N, "await self.broadcast(AddressesChangedMessage(updated_addresses, removed_addresses))", "await self.broadcast(AddressesChangedMessage(set(), removed_addresses))")
B("N04", N, "if task is not asyncio.current_task(): task.cancel()", "task.cancel()")
B("N05", N, "for link in list(links):", "for link in links:")
B("N05", N, "      except ConnectionClosedError: pass # only", "      except ConnectionClosedError: return # only")
B("N05", N, "if found_conn is not None: await self.send_to(message, [found_conn])", "if found_conn is not None: await found_conn.send(message)")
K("N04", N, "    removed_in_topics = self.in_topics.remove_many(link.in_topics)\n    removed_topics, updated_topics = self.out_topics.remove_many(link.get_priced_out_topics())\n", "    priced = link.get_priced_out_topics()\n    removed_topics, updated_topics = self.out_topics.remove_many(priced)\n    removed_in_topics = self.in_topics.remove_many(set(link.in_topics))\n")
