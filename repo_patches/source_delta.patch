From 8b52b38137552dfba4ac148733c89d847f36adc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:01 +0000
Subject: [PATCH 01/69] fix: subscribing on a switch without links raised
 ValueError

---
 streamtasks/net/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index 3c5ee23..1f67ec1 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -263,8 +263,8 @@ class Switch:
     change_map: dict[Link, InTopicsChangedMessage] = {}
 
     for topic in add_topics:
-      best_link = min(self.link_manager.links, key=lambda link: link.out_topics.get(topic, float('inf')))
-      if topic not in best_link.out_topics: continue
+      best_link = min(self.link_manager.links, key=lambda link: link.out_topics.get(topic, float('inf')), default=None)
+      if best_link is None or topic not in best_link.out_topics: continue
       if best_link not in change_map: change_map[best_link] = InTopicsChangedMessage(set(), set())
       change_map[best_link].add.add(topic)
 
-- 
2.43.0


From 19468588330771cd2326f0377b469c6a509e6ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:14 +0000
Subject: [PATCH 02/69] fix: removing a link must release its subscriptions and
 complete even if a send suspends

---
 streamtasks/net/__init__.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index 1f67ec1..31dd442 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -196,7 +196,9 @@ class LinkManager:
   def has_link(self, link: Link): return link in self._link_recv_tasks
   def accept_link(self, link: Link, receiver_task: asyncio.Task): self._link_recv_tasks[link] = receiver_task
   def remove_link(self, link: Link):
-    if link in self._link_recv_tasks: self._link_recv_tasks.pop(link).cancel()
+    if link not in self._link_recv_tasks: return
+    task = self._link_recv_tasks.pop(link)
+    if task is not asyncio.current_task(): task.cancel() # the receiver removes its own link, it must be able to finish doing so
   def cancel_all(self):
     for task in self._link_recv_tasks.values(): task.cancel()
     self._link_recv_tasks.clear()
@@ -236,17 +238,18 @@ class Switch:
   async def remove_link(self, link: Link):
     self.link_manager.remove_link(link)
 
-    recv_topics = link.recv_topics
+    # release everything the link held before the first suspension, so a failure below can not leave anything behind
+    removed_in_topics = self.in_topics.remove_many(link.in_topics)
     removed_topics, updated_topics = self.out_topics.remove_many(link.get_priced_out_topics())
-    updated_in_topics = recv_topics - removed_topics
+    removed_addresses, updated_addresses = self.addresses.remove_many(link.get_priced_addresses())
+    updated_in_topics = set(topic for topic in link.recv_topics - removed_topics if topic in self.in_topics)
 
-    if len(updated_in_topics) > 0:
-      await self.request_in_topics_change(set(updated_in_topics), set())
+    if len(updated_in_topics) > 0 or len(removed_in_topics) > 0:
+      await self.request_in_topics_change(updated_in_topics, removed_in_topics)
 
     if len(removed_topics) > 0 or len(updated_topics) > 0:
       await self.broadcast(OutTopicsChangedMessage(updated_topics, removed_topics))
 
-    removed_addresses, updated_addresses = self.addresses.remove_many(link.get_priced_addresses())
     if len(removed_addresses) > 0 or len(updated_addresses) > 0:
       await self.broadcast(AddressesChangedMessage(updated_addresses, removed_addresses))
 
-- 
2.43.0


From 186bacc67a2677eac68cf1d8b967daa5c397eb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:40 +0000
Subject: [PATCH 03/69] fix: a closed destination link must not take down the
 link that sent the message

---
 streamtasks/net/__init__.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index 31dd442..444a2fb 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -255,7 +255,9 @@ class Switch:
 
   def stop_receiving(self): self.link_manager.cancel_all()
   async def send_to(self, message: Message, links: list[Link]):
-    for link in links: await link.send(message)
+    for link in list(links): # the links may change while sending
+      try: await link.send(message)
+      except ConnectionClosedError: pass # only concerns that link, its own receiver removes it
   async def broadcast(self, message: Message): await self.send_to(message, self.link_manager.links)
 
   async def send_remove_in_topic(self, topic: int):
@@ -278,7 +280,7 @@ class Switch:
           if conn not in change_map: change_map[conn] = InTopicsChangedMessage(set(), set())
           for topic in remove_sub: change_map[conn].remove.add(topic)
 
-    for conn, message in change_map.items(): await conn.send(message)
+    for conn, message in change_map.items(): await self.send_to(message, [conn])
 
   async def on_in_topics_changed(self, message: InTopicsChangedMessage, origin: Link):
     # todo: control stream
@@ -286,7 +288,7 @@ class Switch:
     final_remove = self.in_topics.remove_many(message.remove)
 
     for control_message in [ self.stream_controls[topic].to_message(topic) for topic in message.add if topic in self.stream_controls ]:
-      await origin.send(control_message)
+      await self.send_to(control_message, [origin])
 
     await self.request_in_topics_change(final_add, final_remove)
 
@@ -294,7 +296,7 @@ class Switch:
     if message.address not in self.addresses: return
     address_cost = self.addresses.get(message.address)
     found_conn = next(( conn for conn in self.link_manager.links if conn.addresses.get(message.address, -1) == address_cost ), None)
-    if found_conn is not None: await found_conn.send(message)
+    if found_conn is not None: await self.send_to(message, [found_conn])
 
   async def on_stream_message(self, message: TopicMessage, origin: Link):
     await self.send_to(message, [ link for link in self.link_manager.links if link != origin and message.topic in link.in_topics])
-- 
2.43.0


From c0fd167f01a7a8283aecd7f6f75a1d60f6befdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:53 +0000
Subject: [PATCH 04/69] fix: close a link once it stops being received, so its
 owner learns that it is gone

---
 streamtasks/net/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index 444a2fb..3c4a1c2 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -346,4 +346,5 @@ class Switch:
       logging.error(f"Error receiving from link: {e}")
       raise e
     finally:
+      link.close()
       await self.remove_link(link)
-- 
2.43.0


From 9f30ca877eb07d73183966be858f7fa8e2b3f880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:08 +0000
Subject: [PATCH 05/69] fix: announcing a topic whose previous provider
 withdrew it killed the announcing link

---
 streamtasks/net/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index 3c4a1c2..0c64390 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -310,7 +310,7 @@ class Switch:
     for pt in message.add:
       if pt.id in self.in_topics:
         topic_provider = next((conn for conn in self.link_manager.links if pt.id in conn.recv_topics), None)
-        if topic_provider is None or topic_provider.out_topics[pt.id] > pt.cost:
+        if topic_provider is None or topic_provider.out_topics.get(pt.id, float('inf')) > pt.cost:
           resub_topics.add(pt.id)
     await self.request_in_topics_change(resub_topics, resub_topics) # resub to the better providers
 
-- 
2.43.0


From 043c5ef74362a0500a01be0e2c204239e1b46c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:21 +0000
Subject: [PATCH 06/69] fix: resubscribe to a remaining provider when the
 provider in use withdraws a topic

---
 streamtasks/net/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index 0c64390..2b05dfb 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -312,6 +312,9 @@ class Switch:
         topic_provider = next((conn for conn in self.link_manager.links if pt.id in conn.recv_topics), None)
         if topic_provider is None or topic_provider.out_topics.get(pt.id, float('inf')) > pt.cost:
           resub_topics.add(pt.id)
+    for pt in message.remove: # the provider in use withdrew the topic, but others still have it
+      if pt.id in self.in_topics and pt.id in self.out_topics and pt.id in origin.recv_topics and pt.id not in origin.out_topics:
+        resub_topics.add(pt.id)
     await self.request_in_topics_change(resub_topics, resub_topics) # resub to the better providers
 
   async def on_addresses_changed(self, message: AddressesChangedRecvMessage, origin: Link):
-- 
2.43.0


From 4f7e49acf65bf78b30dbe0108800376414e8513f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:13 +0000
Subject: [PATCH 07/69] fix: the auth token of a server was only checked for
 its first connection

---
 streamtasks/connection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/connection.py b/streamtasks/connection.py
index 8b979fa..e330d11 100644
--- a/streamtasks/connection.py
+++ b/streamtasks/connection.py
@@ -103,7 +103,8 @@ class RawConnection(ABC):
     try:
       client_data = msgpack.unpackb(await self.recv())
       if not isinstance(client_data, dict): raise ValueError()
-      server_auth = extra_data.pop("auth", None)
+      server_auth = extra_data.get("auth", None)
+      extra_data = { k: v for k, v in extra_data.items() if k != "auth" } # shared by all connections and never sent back
       client_auth = client_data.get("auth", None)
       accepted = client_data.get("version", None) == _get_version_specifier() and client_auth == server_auth
       server_data = { **extra_data, "accepted": accepted, "version": _get_version_specifier() }
-- 
2.43.0


From c8451685255fb8f0169a86d0c80f573530b27f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:25 +0000
Subject: [PATCH 08/69] fix: AutoReconnector crashed instead of reconnecting
 after a lost or refused connection

---
 streamtasks/connection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/streamtasks/connection.py b/streamtasks/connection.py
index e330d11..5cadcf8 100644
--- a/streamtasks/connection.py
+++ b/streamtasks/connection.py
@@ -74,9 +74,9 @@ class AutoReconnector(Worker):
           link.on_closed.append(functools.partial(self._async_connected.set, False))
           if link.closed: self._async_connected.set(False) # in case it closed already
           await self._async_connected.wait(False)
-          await asyncio.wait(self.delay)
-          logging.info("reconnecting")
-        except (ConnectionClosedError, ConnectionError): pass
+        except (ConnectionClosedError, OSError, websockets.WebSocketException): pass
+        await asyncio.sleep(self.delay)
+        logging.info("reconnecting")
     finally: await self.shutdown()
 
   async def wait_connected(self, connected: bool = True): await self._async_connected.wait(connected)
-- 
2.43.0


From b46b82212975cafb61845e6c5f07bc7596d12b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:41 +0000
Subject: [PATCH 09/69] fix: a stream connection skipped a sync word directly
 preceded by its own first byte

---
 streamtasks/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/connection.py b/streamtasks/connection.py
index 5cadcf8..62f44c9 100644
--- a/streamtasks/connection.py
+++ b/streamtasks/connection.py
@@ -159,7 +159,7 @@ class RawStreamConnection(RawConnection):
     while sync_index < len(RawStreamConnection.SYNC_WORD):
       next_byte = await self._reader.readexactly(1)
       if RawStreamConnection.SYNC_WORD[sync_index] == next_byte[0]: sync_index += 1
-      else: sync_index = 0
+      else: sync_index = 1 if RawStreamConnection.SYNC_WORD[0] == next_byte[0] else 0
     data_len, = struct.unpack("<L", await self._reader.readexactly(4))
     return await self._reader.readexactly(data_len)
 
-- 
2.43.0


From fc3181e8f43be1758db4b043148912edd6e4d294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:15 +0000
Subject: [PATCH 10/69] fix: a receiver enabled while the last one is being
 disabled was never served

---
 streamtasks/client/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/streamtasks/client/__init__.py b/streamtasks/client/__init__.py
index d88d5dd..d2d52f0 100644
--- a/streamtasks/client/__init__.py
+++ b/streamtasks/client/__init__.py
@@ -118,8 +118,9 @@ class Client:
   async def disable_receiver(self, receiver: Receiver):
     self._receivers.remove(receiver)
     if len(self._receivers) == 0 and self._receive_task is not None:
-      self._receive_task.cancel()
-      try: await self._receive_task
+      receive_task, self._receive_task = self._receive_task, None # a receiver enabled from now on needs a new task
+      receive_task.cancel()
+      try: await receive_task
       except asyncio.CancelledError: pass
 
   def set_address_name(self, name: str, address: Optional[int]):
@@ -139,4 +140,4 @@ class Client:
         for receiver in self._receivers:
           receiver.on_message(message)
     finally:
-      self._receive_task = None
+      if self._receive_task is asyncio.current_task(): self._receive_task = None
-- 
2.43.0


From b254ab892c43c7bdb8be17b0a7f4547e524a114f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:28 +0000
Subject: [PATCH 11/69] fix: a message that one receiver fails to process ended
 the receive loop of the client

---
 streamtasks/client/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streamtasks/client/__init__.py b/streamtasks/client/__init__.py
index d2d52f0..31c128e 100644
--- a/streamtasks/client/__init__.py
+++ b/streamtasks/client/__init__.py
@@ -1,5 +1,6 @@
 from typing import Iterable, Optional, Any, Union
 import asyncio
+import logging
 from streamtasks.client.discovery import request_addresses
 from streamtasks.client.receiver import Receiver
 from streamtasks.client.topic import InTopic, InTopicSynchronizer, OutTopic, InTopicsContext, OutTopicsContext, SynchronizedInTopic
@@ -138,6 +139,7 @@ class Client:
         if isinstance(message, InTopicsChangedMessage): self._subscribed_provided_topics.change_many(message.add, message.remove)
         if isinstance(message, TopicMessage) and message.topic not in self._in_topics: continue
         for receiver in self._receivers:
-          receiver.on_message(message)
+          try: receiver.on_message(message)
+          except Exception as e: logging.debug(f"Failed to process message: {e}")
     finally:
       if self._receive_task is asyncio.current_task(): self._receive_task = None
-- 
2.43.0


From 42226368d6206f4ad2f41349c454775ee742ed9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:37 +0000
Subject: [PATCH 12/69] fix: a receiver that fails to start stayed enabled

---
 streamtasks/client/receiver.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/streamtasks/client/receiver.py b/streamtasks/client/receiver.py
index 778c64e..a94decd 100644
--- a/streamtasks/client/receiver.py
+++ b/streamtasks/client/receiver.py
@@ -23,8 +23,13 @@ class Receiver(ABC, Generic[T]):
     self._receiving_count += 1
     if self._receiving_count > 1: return
     await self._client.enable_receiver(self)
-    await asyncio.sleep(0)
-    await self._on_start_recv()
+    try:
+      await asyncio.sleep(0)
+      await self._on_start_recv()
+    except BaseException:
+      self._receiving_count = 0
+      await self._client.disable_receiver(self)
+      raise
 
   async def stop_recv(self):
     self._receiving_count = max(0, self._receiving_count - 1)
-- 
2.43.0


From 08f0801a5d38974ef4691eb2c5f75029cb411b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:48 +0000
Subject: [PATCH 13/69] fix: a fetch handler failing validation after it
 responded caused a second response

---
 streamtasks/client/fetch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/client/fetch.py b/streamtasks/client/fetch.py
index 3c1552a..1cdb0b8 100644
--- a/streamtasks/client/fetch.py
+++ b/streamtasks/client/fetch.py
@@ -109,7 +109,8 @@ class FetchServer(Receiver[tuple[str, FetchRequest]]):
             await self._descriptor_mapping[descriptor](fr)
             if not fr.response_sent: await fr.respond(None)
           except asyncio.CancelledError: raise
-          except ValidationError as e: await fr.respond_error(new_fetch_body_bad_request(str(e)))
+          except ValidationError as e:
+            if not fr.response_sent: await fr.respond_error(new_fetch_body_bad_request(str(e)))
           except BaseException as e:
             if not fr.response_sent: await fr.respond_error(new_fetch_body_general_error(str(e)))
             logging.debug(e, descriptor)
-- 
2.43.0


From 2a9c51293bb4c9b4f190213bfca7a9a53de6bacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:59 +0000
Subject: [PATCH 14/69] fix: a request for a negative number of ids made the
 discovery hand out ids twice

---
 streamtasks/services/discovery.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/services/discovery.py b/streamtasks/services/discovery.py
index 73b51bb..1ddd5c0 100644
--- a/streamtasks/services/discovery.py
+++ b/streamtasks/services/discovery.py
@@ -142,10 +142,10 @@ class DiscoveryWorker(Worker):
 
   def generate_topic_ids(self, count: int) -> set[int]:
     res = set(self._topics_counter + i for i in range(count))
-    self._topics_counter += count
+    self._topics_counter += len(res)
     return res
 
   def generate_addresses(self, count: int) -> set[int]:
     res = set(self._address_counter + i for i in range(count))
-    self._address_counter += count
+    self._address_counter += len(res)
     return res
-- 
2.43.0


From b31d74835628a71bbac2e95775cb65c86045236b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:10 +0000
Subject: [PATCH 15/69] fix: the secret manager shared its address name with
 the named topic manager

---
 streamtasks/services/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/services/constants.py b/streamtasks/services/constants.py
index 8cec79a..085fdb8 100644
--- a/streamtasks/services/constants.py
+++ b/streamtasks/services/constants.py
@@ -19,4 +19,4 @@ class NetworkAddressNames:
   TASK_MANAGER = "task_manager"
   TASK_MANAGER_WEB = "task_manager_web"
   NAMED_TOPIC_MANAGER = "named_topic_manager"
-  SECRET_MANAGER = "named_topic_manager"
+  SECRET_MANAGER = "secret_manager"
-- 
2.43.0


From b5c6aac34cd5f4cd156be9974975174e7b71044a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:20 +0000
Subject: [PATCH 16/69] fix: leaving an address name context kept the name
 resolvable in the client

---
 streamtasks/client/discovery.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/client/discovery.py b/streamtasks/client/discovery.py
index c401ce6..42d93ff 100644
--- a/streamtasks/client/discovery.py
+++ b/streamtasks/client/discovery.py
@@ -161,7 +161,7 @@ async def get_topic_space_translation(client: 'Client', topic_space_id: int, top
 
 @asynccontextmanager
 async def address_name_context(client: 'Client', name: str, address: int | None = None):
-  address = address or client.address
+  if address is None: address = client.address
   if address is None: raise ValueError("Missing address!")
   try:
     await client.fetch(NetworkAddresses.ID_DISCOVERY, DiscoveryConstants.FD_REGISTER_ADDRESS_NAME, RegisterAddressNameRequestBody(address_name=name, address=address).model_dump())
@@ -169,7 +169,7 @@ async def address_name_context(client: 'Client', name: str, address: int | None
     yield
   finally:
     await send_signal(client, NetworkAddresses.ID_DISCOVERY, DiscoveryConstants.SD_UNREGISTER_ADDRESS_NAME, UnregisterAddressNameMessage(address_name=name).model_dump())
-    client.set_address_name(name, address)
+    client.set_address_name(name, None)
 
 async def wait_for_topic_signal(client: 'Client', topic: int): return await TopicSignalReceiver(client, topic).wait()
 
-- 
2.43.0


From d0b544c50e75f5d454508d565e6c953eb828ddc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:32 +0000
Subject: [PATCH 17/69] fix: forced removal reported ids that were not tracked

---
 streamtasks/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/streamtasks/utils.py b/streamtasks/utils.py
index c94db34..92c0ced 100644
--- a/streamtasks/utils.py
+++ b/streamtasks/utils.py
@@ -51,8 +51,7 @@ class IdTracker:
     return final
   def remove_many(self, ids: Iterable[int], force: bool = False):
     if force:
-      for id in ids: self._map.pop(id, None)
-      return ids
+      return set(id for id in list(ids) if self._map.pop(id, None) is not None)
     else:
       final = set()
       for id in ids:
-- 
2.43.0


From 9233b3caf59a10ea6d7578a8a0e4593c6b7c4d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:44 +0000
Subject: [PATCH 18/69] fix: input topics never learned their cost

---
 streamtasks/client/topic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/streamtasks/client/topic.py b/streamtasks/client/topic.py
index 1a6e043..cbeb52f 100644
--- a/streamtasks/client/topic.py
+++ b/streamtasks/client/topic.py
@@ -7,7 +7,7 @@ from streamtasks.utils import AsyncBool, AsyncTrigger
 from streamtasks.net.serialization import RawData
 from streamtasks.message.utils import get_timestamp_from_message
 from streamtasks.net import Message
-from streamtasks.net.messages import InTopicsChangedMessage, OutTopicsChangedMessage, TopicControlData, TopicControlMessage, TopicDataMessage, TopicMessage
+from streamtasks.net.messages import InTopicsChangedMessage, OutTopicsChangedRecvMessage, TopicControlData, TopicControlMessage, TopicDataMessage, TopicMessage
 
 if TYPE_CHECKING:
   from streamtasks.client import Client
@@ -64,8 +64,8 @@ class _InTopicReceiver(Receiver[tuple[_InTopicAction, None | int | TopicControlD
   def _put_msg(self, action: _InTopicAction, data: None | int | TopicControlData | RawData): self._recv_queue.put_nowait((action, data))
 
   def on_message(self, message: Message):
-    if isinstance(message, OutTopicsChangedMessage):
-      if self._topic in message.remove: self._put_msg(_InTopicAction.SET_COST, None)
+    if isinstance(message, OutTopicsChangedRecvMessage):
+      if any(pid.id == self._topic for pid in message.remove): self._put_msg(_InTopicAction.SET_COST, None)
       else:
         new_cost = next((pid.cost for pid in message.add if pid.id == self._topic), None)
         if new_cost is not None: self._put_msg(_InTopicAction.SET_COST, new_cost)
-- 
2.43.0


From e7dced27dca6c7238357b3adf4b65c31a3de79ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:54 +0000
Subject: [PATCH 19/69] fix: topic priorities had no effect once a topic was
 received from

---
 streamtasks/client/topic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/client/topic.py b/streamtasks/client/topic.py
index cbeb52f..f4d0d94 100644
--- a/streamtasks/client/topic.py
+++ b/streamtasks/client/topic.py
@@ -146,7 +146,7 @@ class PrioritizedSequentialInTopicSynchronizer(SequentialInTopicSynchronizer):
     self._done_topics = set()
 
   async def wait_for(self, topic_id: int, timestamp: int) -> bool:
-    if topic_id is self._done_topics: self._done_topics.remove(topic_id)
+    if topic_id in self._done_topics: self._done_topics.remove(topic_id)
     return await super().wait_for(topic_id, timestamp)
 
   def start_receive(self, topic_id: int):
-- 
2.43.0


From 12e0f204fde936315ea92b7e2e9a0d103ab33ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:04 +0000
Subject: [PATCH 20/69] fix: synchronized input topics never learned their cost

---
 streamtasks/client/topic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/client/topic.py b/streamtasks/client/topic.py
index f4d0d94..13d3d99 100644
--- a/streamtasks/client/topic.py
+++ b/streamtasks/client/topic.py
@@ -182,6 +182,7 @@ class _SynchronizedInTopicReceiver(_InTopicReceiver):
           timestamp = get_timestamp_from_message(data)
           if await self._sync.wait_for(self._topic, timestamp): return (action, data)
         except ValueError: pass
+      else: return (action, data)
 
 class SynchronizedInTopic(InTopic):
   def __init__(self, client: 'Client', topic: int, sync: InTopicSynchronizer) -> None:
-- 
2.43.0


From da195a8d418f94e6a0b11fc9c0c825e64bf85a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:17 +0000
Subject: [PATCH 21/69] fix: changing a topic priority did not wake topics it
 lets through

---
 streamtasks/client/topic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/client/topic.py b/streamtasks/client/topic.py
index 13d3d99..a9a3b3f 100644
--- a/streamtasks/client/topic.py
+++ b/streamtasks/client/topic.py
@@ -156,6 +156,7 @@ class PrioritizedSequentialInTopicSynchronizer(SequentialInTopicSynchronizer):
 
   def set_priority(self, topic_id: int, priority: int):
     self._topic_priorities[topic_id] = priority
+    self._timestamp_trigger.trigger()
 
   def _is_waiting(self, topic_id: int, timestamp: int):
     min_timestamp = self.min_timestamp
-- 
2.43.0


From 9996f2b1ca666a262dc454917652c4336d7fa777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:03 +0000
Subject: [PATCH 22/69] fix: topic contexts given a generator left its topics
 registered

---
 streamtasks/client/topic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/client/topic.py b/streamtasks/client/topic.py
index a9a3b3f..aa13a65 100644
--- a/streamtasks/client/topic.py
+++ b/streamtasks/client/topic.py
@@ -249,7 +249,7 @@ class OutTopic(_TopicBase):
 class InTopicsContext:
   def __init__(self, client: 'Client', topics: Iterable[int]):
     self._client = client
-    self._topics = topics
+    self._topics = list(topics)
   async def __aenter__(self): await self._client.register_in_topics(self._topics)
   async def __aexit__(self, *_): await self._client.unregister_in_topics(self._topics)
 
@@ -257,6 +257,6 @@ class InTopicsContext:
 class OutTopicsContext:
   def __init__(self, client: 'Client', topics: Iterable[int]):
     self._client = client
-    self._topics = topics
+    self._topics = list(topics)
   async def __aenter__(self): await self._client.register_out_topics(self._topics)
   async def __aexit__(self, *_): await self._client.unregister_out_topics(self._topics)
-- 
2.43.0


From ecd645f7aa241e0ed5353680c590c4a65dc53e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:09 +0000
Subject: [PATCH 23/69] fix: secrets with their UUID ids cannot be encoded for
 the wire, and a missing secret is a general error

---
 streamtasks/system/secret_manager.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/streamtasks/system/secret_manager.py b/streamtasks/system/secret_manager.py
index b670b4c..85743ce 100644
--- a/streamtasks/system/secret_manager.py
+++ b/streamtasks/system/secret_manager.py
@@ -1,7 +1,7 @@
 import asyncio
 import os
 from uuid import UUID
-from pydantic import UUID4, BaseModel, TypeAdapter
+from pydantic import UUID4, TypeAdapter
 from streamtasks.asgi import ASGIAppRunner, asgi_default_http_error_handler
 from streamtasks.asgiserver import ASGIRouter, ASGIServer, HTTPContext, http_context_handler
 from streamtasks.client import Client
@@ -11,14 +11,13 @@ from streamtasks.env import get_data_sub_dir
 from streamtasks.net import EndpointOrAddress
 from streamtasks.pydanticdb import PydanticDB
 from streamtasks.services.constants import NetworkAddressNames
+from streamtasks.system.task import ModelWithId
 from streamtasks.system.task_web import TaskWebPathHandler
 
-class SecretModel(BaseModel):
-  id: UUID4
+class SecretModel(ModelWithId):
   value: str
 
-class SecretRequestModel(BaseModel):
-  id: UUID4
+class SecretRequestModel(ModelWithId): pass
 
 SecretModelListModel = TypeAdapter(list[SecretModel])
 
@@ -39,7 +38,7 @@ class SecretManager(TaskWebPathHandler):
       try:
         data = SecretRequestModel.model_validate(req.body)
         await req.respond(next(e for e in self.db.entries if e.id == data.id).model_dump())
-      except KeyError: await req.respond_error(new_fetch_body_not_found("secret not found!"))
+      except StopIteration: await req.respond_error(new_fetch_body_not_found("secret not found!"))
 
     @server.route("put_secret")
     async def _(req: FetchRequest):
-- 
2.43.0


From 5477d9b117cfcb26f399c09afdf12b05b5498774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:23 +0000
Subject: [PATCH 24/69] fix: a broadcast about an unregistered task host is
 never received, its id is no UUID

---
 streamtasks/system/task.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index a2e884c..6bd3cdb 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -413,9 +413,9 @@ class TaskHostRegisteredReceiver(BroadcastReceiver[TaskHostRegistration]):
   def transform_data(self, _: str, data: RawData) -> TaskInstance:
     return TaskHostRegistration.model_validate(data.data)
 
-class TaskHostUnregisteredReceiver(BroadcastReceiver[ModelWithId]):
-  def transform_data(self, _: str, data: RawData) -> ModelWithId:
-    return ModelWithId.model_validate(data.data)
+class TaskHostUnregisteredReceiver(BroadcastReceiver[ModelWithStrId]):
+  def transform_data(self, _: str, data: RawData) -> ModelWithStrId:
+    return ModelWithStrId.model_validate(data.data)
 
 class TaskManagerClient:
   def __init__(self, client: Client, address_name: str = NetworkAddressNames.TASK_MANAGER) -> None:
-- 
2.43.0


From 269f8ef046cf57fed52d9a92c4823a86dd06fbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:38 +0000
Subject: [PATCH 25/69] fix: unregistering a path fails, the ids of path
 registrations are no UUIDs

---
 streamtasks/system/task_web.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index 6c7c817..1c12630 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -240,7 +240,7 @@ class TaskWebBackend(Worker):
 
     @server.route(TaskConstants.SD_TMW_UNREGISTER_PATH)
     async def _(message_data: Any):
-      data = ModelWithId.model_validate(message_data)
+      data = ModelWithStrId.model_validate(message_data)
       self.path_registrations = [ reg for reg in self.path_registrations if reg.id != data.id]
 
     await server.run()
-- 
2.43.0


From 493660274d276537f7f50b830ce0f91e876a3e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:00 +0000
Subject: [PATCH 26/69] fix: a task host stopped with running tasks failed
 before it shut down

---
 streamtasks/system/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index 6bd3cdb..fd3de6a 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -213,7 +213,7 @@ class TaskHost(Worker):
         logging.debug("Failed to register task host!", e, traceback.format_exc())
       raise e
     finally:
-      shutdown_tasks: list[asyncio.Task] = list(self.tasks) + [ asyncio.create_task(self.unregister(ep)) for ep in self._registered_at_endpoints ]
+      shutdown_tasks: list[asyncio.Task] = list(self.tasks.values()) + [ asyncio.create_task(self.unregister(ep)) for ep in self._registered_at_endpoints ]
       for task in self.tasks.values(): task.cancel()
       if len(shutdown_tasks) > 0: await asyncio.wait(shutdown_tasks, timeout=1) # NOTE: make configurable
       await self.shutdown()
-- 
2.43.0


From a73a75c57c081478db2e0adf5bac3ad212ea509b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:13 +0000
Subject: [PATCH 27/69] fix: a task whose report could not be sent was never
 forgotten by its host

---
 streamtasks/system/task.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index fd3de6a..0c1ac4c 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -235,8 +235,8 @@ class TaskHost(Worker):
       status = TaskStatus.failed
       error_text = str(e)
 
-    await send_signal(self.client, report_address, TaskConstants.SD_TM_TASK_REPORT, TaskReport(id=id, status=status, error=error_text).model_dump())
-    self.tasks.pop(id, None)
+    try: await send_signal(self.client, report_address, TaskConstants.SD_TM_TASK_REPORT, TaskReport(id=id, status=status, error=error_text).model_dump())
+    finally: self.tasks.pop(id, None)
 
   async def run_api(self):
     fetch_server = FetchServer(self.client)
-- 
2.43.0


From b5a502aee04c69283329e5d3581965486a2e31d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:27 +0000
Subject: [PATCH 28/69] fix: a task with invalid metadata was reported as
 failed but kept running

---
 streamtasks/system/task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index 0c1ac4c..1c37aee 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -247,8 +247,9 @@ class TaskHost(Worker):
       try:
         task = await self.create_task(body.config, body.topic_space_id)
         metadata = await asyncio.wait_for(task.setup(), 1) # NOTE: make this configurable
+        response = TaskStartResponse(id=body.id, metadata=metadata, error=None)
         self.tasks[body.id] = asyncio.create_task(self.run_task(body.id, task, body.report_address))
-        await req.respond(TaskStartResponse(id=body.id, metadata=metadata, error=None))
+        await req.respond(response)
       except BaseException as e:
         await req.respond(TaskStartResponse(id=body.id, error=str(e), metadata={}))
 
-- 
2.43.0


From 1ecd8f858cd69a45cf854cd9e636fd1ac6e17803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:39 +0000
Subject: [PATCH 29/69] fix: a task host cancelled while a task starts went on
 serving

---
 streamtasks/system/task.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index 1c37aee..504cbf5 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -250,6 +250,7 @@ class TaskHost(Worker):
         response = TaskStartResponse(id=body.id, metadata=metadata, error=None)
         self.tasks[body.id] = asyncio.create_task(self.run_task(body.id, task, body.report_address))
         await req.respond(response)
+      except asyncio.CancelledError: raise
       except BaseException as e:
         await req.respond(TaskStartResponse(id=body.id, error=str(e), metadata={}))
 
-- 
2.43.0


From acfd9558682de2f82be7041b495c4bc947b50a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:16 +0000
Subject: [PATCH 30/69] fix: stop the servers when the connection manager stops

---
 streamtasks/system/connection_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/connection_manager.py b/streamtasks/system/connection_manager.py
index 2a309ba..77b5cd3 100644
--- a/streamtasks/system/connection_manager.py
+++ b/streamtasks/system/connection_manager.py
@@ -125,7 +125,7 @@ class ConnectionManager(TaskWebPathHandler):
       for url_data in itertools.chain(self._connection_url_data, self._server_url_data): url_data.start()
       await self.run_web_server()
     finally:
-      for data in itertools.chain(self._connection_url_data, self._connection_url_data): await data.stop()
+      for data in itertools.chain(self._connection_url_data, self._server_url_data): await data.stop()
 
   async def run_web_server(self):
     app = ASGIServer()
-- 
2.43.0


From 239cee8b08b9afa40f9f446db7962e4551e3743e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 31/69] fix: a connection or server that failed can be stopped
 and removed

---
 streamtasks/system/connection_manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/streamtasks/system/connection_manager.py b/streamtasks/system/connection_manager.py
index 77b5cd3..6e7a234 100644
--- a/streamtasks/system/connection_manager.py
+++ b/streamtasks/system/connection_manager.py
@@ -4,6 +4,7 @@ import functools
 import hashlib
 import itertools
 import json
+import logging
 import os
 import re
 from typing import Generic, TypeVar
@@ -66,6 +67,7 @@ class UrlData(Generic[T]):
     self.task.cancel()
     try: await self.task
     except asyncio.CancelledError: pass
+    except Exception as e: logging.warning(f"Connection failed: {e}")
     finally: self.task = None
 
   @abstractmethod
-- 
2.43.0


From 3e43a9cb1aaba0823af66eaaba2cba282cd178e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:42 +0000
Subject: [PATCH 32/69] fix: a path that is registered again replaces its
 former registration

---
 streamtasks/system/task_web.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index 1c12630..8ce8ba4 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -230,7 +230,7 @@ class TaskWebBackend(Worker):
     @server.route(TaskConstants.FD_TMW_REGISTER_PATH)
     async def _(req: FetchRequest):
       body = PathRegistration.model_validate(req.body)
-      self.path_registrations.append(body)
+      self.path_registrations = [ reg for reg in self.path_registrations if reg.id != body.id ] + [ body ]
       await req.respond(None)
 
     await server.run()
-- 
2.43.0


From f373908177f85b13c7cb01f9932e3fb2546d63f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:56 +0000
Subject: [PATCH 33/69] fix: path handlers unregister their path when they stop

---
 streamtasks/system/task_web.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index 8ce8ba4..b7c3dfe 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -17,7 +17,7 @@ from streamtasks.client.broadcast import BroadcastReceiver
 from streamtasks.client.discovery import address_name_context, delete_topic_space, get_topic_space_translation, register_topic_space, wait_for_address_name
 from streamtasks.client.fetch import FetchRequest, FetchServer
 from streamtasks.client.receiver import TopicsReceiver
-from streamtasks.client.signal import SignalServer
+from streamtasks.client.signal import SignalServer, send_signal
 from streamtasks.env import get_data_sub_dir
 from streamtasks.net import EndpointOrAddress
 from streamtasks.net.serialization import RawData
@@ -116,6 +116,7 @@ class TaskWebPathHandler(Worker):
     self.client: Client
 
   async def run(self):
+    registered_at: list[EndpointOrAddress] = []
     try:
       self.client = await self.create_client()
       self.client.start()
@@ -124,8 +125,15 @@ class TaskWebPathHandler(Worker):
         address = reg_ep[0] if isinstance(reg_ep, tuple) else reg_ep
         if isinstance(address, str): await wait_for_address_name(self.client, address)
         await self.client.fetch(reg_ep, TaskConstants.FD_TMW_REGISTER_PATH, PathRegistration(id=self.id, endpoint=self.client.address, frontend=self.frontend, path=self.path).model_dump())
+        registered_at.append(reg_ep)
       await self.run_inner()
-    finally: await self.shutdown()
+    finally:
+      try:
+        if len(registered_at) > 0: await asyncio.wait([ asyncio.create_task(self.unregister_path(reg_ep)) for reg_ep in registered_at ], timeout=1)
+      finally: await self.shutdown()
+
+  async def unregister_path(self, endpoint: EndpointOrAddress):
+    await send_signal(self.client, endpoint, TaskConstants.SD_TMW_UNREGISTER_PATH, ModelWithStrId(id=self.id).model_dump())
 
   @abstractmethod
   async def run_inner(self): pass
-- 
2.43.0


From 7b3207833350c99ce88360a9e0c0f544d519a55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 34/69] fix: wait_with_dependencies ends what it waits for
 before it returns

---
 streamtasks/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/streamtasks/utils.py b/streamtasks/utils.py
index 92c0ced..2d22dfa 100644
--- a/streamtasks/utils.py
+++ b/streamtasks/utils.py
@@ -283,8 +283,11 @@ RT = TypeVar('RT')
 
 async def wait_with_dependencies(main: Awaitable[RT], deps: Iterable[asyncio.Future]):
   main = asyncio.Task(main) if asyncio.iscoroutine(main) else main
-  await asyncio.wait([main, *deps], return_when="FIRST_COMPLETED")
-  if not main.done(): main.cancel()
+  try: await asyncio.wait([main, *deps], return_when="FIRST_COMPLETED")
+  finally:
+    if not main.done():
+      main.cancel()
+      await asyncio.wait([main])
   return main.result()
 
 def get_timestamp_ms(): return time.time_ns() // 1000_000
-- 
2.43.0


From a43e57f90fe922a09f8b3566f77c47970d657b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:35 +0000
Subject: [PATCH 35/69] fix: context_task failed in its clean-up when the task
 could not be created

---
 streamtasks/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/streamtasks/utils.py b/streamtasks/utils.py
index 2d22dfa..ef7622b 100644
--- a/streamtasks/utils.py
+++ b/streamtasks/utils.py
@@ -319,9 +319,8 @@ def strip_nones_from_dict(data: dict): return { k: v for k, v in data.items() if
 
 @asynccontextmanager
 async def context_task(coro):
-  try:
-    task = asyncio.create_task(coro)
-    yield
+  task = asyncio.create_task(coro)
+  try: yield
   finally:
     task.cancel()
     try: await task
-- 
2.43.0


From 9199025de0fc0eaa10f90cbad1d43f199e79dff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:48 +0000
Subject: [PATCH 36/69] fix: websocket handlers failed in their clean-up when
 the connection could not be accepted

---
 streamtasks/system/connection_manager.py   |  4 ++--
 streamtasks/system/task_web.py             | 16 ++++++++--------
 streamtasks/system/tasks/ui/controlbase.py |  4 ++--
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/streamtasks/system/connection_manager.py b/streamtasks/system/connection_manager.py
index 6e7a234..d610d17 100644
--- a/streamtasks/system/connection_manager.py
+++ b/streamtasks/system/connection_manager.py
@@ -206,9 +206,9 @@ class ConnectionManager(TaskWebPathHandler):
     @router.websocket_route("/on-change")
     @websocket_context_handler
     async def _(ctx: WebsocketContext):
+      await ctx.accept()
+      receive_disconnect_task = asyncio.create_task(ctx.receive_disconnect())
       try:
-        await ctx.accept()
-        receive_disconnect_task = asyncio.create_task(ctx.receive_disconnect())
         await asyncio.gather(_ws_connection_change_handler(ctx, receive_disconnect_task), _ws_server_change_handler(ctx, receive_disconnect_task))
       finally:
         receive_disconnect_task.cancel()
diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index b7c3dfe..94b962f 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -388,9 +388,9 @@ class TaskWebBackend(Worker):
       await ctx.respond_json_string(task.model_dump_json())
 
     async def ws_topic_handler(ctx: WebsocketContext, topic_id: int):
+      await ctx.accept()
+      receive_disconnect_task = asyncio.create_task(ctx.receive_disconnect())
       try:
-        await ctx.accept()
-        receive_disconnect_task = asyncio.create_task(ctx.receive_disconnect())
         async with TopicsReceiver(self.client, [ topic_id ]) as recv:
           while ctx.connected:
             _, data = await wait_with_dependencies(recv.get(), [receive_disconnect_task])
@@ -411,10 +411,10 @@ class TaskWebBackend(Worker):
     @router.websocket_route("/task-host/updates")
     @websocket_context_handler
     async def _(ctx: WebsocketContext):
+      await ctx.accept()
+      receive_disconnect_task = asyncio.create_task(ctx.receive_disconnect())
       try:
-        await ctx.accept()
         await ctx.send_message("HELLO!")
-        receive_disconnect_task = asyncio.create_task(ctx.receive_disconnect())
         async with BroadcastReceiver[tuple[str, RawData]](self.client, [TaskConstants.BC_TASK_HOST_REGISTERED, TaskConstants.BC_TASK_HOST_UNREGISTERED], self.task_manager_address_name) as receiver:
           while ctx.connected:
             ns, data = await wait_with_dependencies(receiver.get(), [receive_disconnect_task])
@@ -427,11 +427,11 @@ class TaskWebBackend(Worker):
     @router.websocket_route("/deployment/{deployment_id}/task-instances")
     @websocket_context_handler
     async def _(ctx: WebsocketContext):
+      deployment = self.store.get_running_deployment(UUID(ctx.params.get("deployment_id", "")))
+      update_generator = self.receive_deployment_task_instance_updates(deployment)
+      await ctx.accept()
+      receive_disconnect_task = asyncio.create_task(ctx.receive_disconnect())
       try:
-        await ctx.accept()
-        receive_disconnect_task = asyncio.create_task(ctx.receive_disconnect())
-        deployment = self.store.get_running_deployment(UUID(ctx.params.get("deployment_id", "")))
-        update_generator = self.receive_deployment_task_instance_updates(deployment)
         while ctx.connected:
           task_id, task_instance = await wait_with_dependencies(anext(update_generator), [receive_disconnect_task])
           await ctx.send_message(UpdateTaskInstanceMessage(id=task_id, task_instance=task_instance).model_dump_json())
diff --git a/streamtasks/system/tasks/ui/controlbase.py b/streamtasks/system/tasks/ui/controlbase.py
index 30172f6..0e21f6c 100644
--- a/streamtasks/system/tasks/ui/controlbase.py
+++ b/streamtasks/system/tasks/ui/controlbase.py
@@ -86,9 +86,9 @@ class UIBaseTask(Task, Generic[C, V]):
     @router.websocket_route("/value")
     @websocket_context_handler
     async def _(ctx: WebsocketContext):
+      await ctx.accept()
+      receive_disconnect_task = asyncio.create_task(ctx.receive_disconnect())
       try:
-        await ctx.accept()
-        receive_disconnect_task = asyncio.create_task(ctx.receive_disconnect())
         while ctx.connected:
           await wait_with_dependencies(self.wait_value_changed(), [receive_disconnect_task])
           await ctx.send_message(self._value.model_dump_json())
-- 
2.43.0


From 4e51d6ef3c4fe19633666a485312f4136cab2652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:59 +0000
Subject: [PATCH 37/69] fix: video input and speech recognition failed in their
 clean-up when the device or model could not be opened

---
 streamtasks/system/tasks/inference/asrspeechrecognition.py | 2 +-
 streamtasks/system/tasks/media/videoinput.py               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/tasks/inference/asrspeechrecognition.py b/streamtasks/system/tasks/inference/asrspeechrecognition.py
index 4465e7f..a8a7d61 100644
--- a/streamtasks/system/tasks/inference/asrspeechrecognition.py
+++ b/streamtasks/system/tasks/inference/asrspeechrecognition.py
@@ -52,8 +52,8 @@ class ASRSpeechRecognitionTask(SyncTask):
       except (ValidationError, ValueError): pass
 
   def run_sync(self):
+    model = StreamingASR.from_hparams(self.config.source, savedir=get_model_data_dir(self.config.source), run_opts={ "device":self.config.device })
     try:
-      model = StreamingASR.from_hparams(self.config.source, savedir=get_model_data_dir(self.config.source), run_opts={ "device":self.config.device })
       if model is None: raise FileNotFoundError("The model could not be loaded from the specified source!")
 
       streaming_context = model.make_streaming_context(DynChunkTrainConfig(chunk_size=self.config.chunk_size, left_context_size=self.config.left_context_size))
diff --git a/streamtasks/system/tasks/media/videoinput.py b/streamtasks/system/tasks/media/videoinput.py
index fad5d5d..54e6ca8 100644
--- a/streamtasks/system/tasks/media/videoinput.py
+++ b/streamtasks/system/tasks/media/videoinput.py
@@ -51,8 +51,8 @@ class VideoInputTask(SyncTask):
       yield
 
   def run_sync(self):
+    vc = cv2.VideoCapture(self.config.camera_id)
     try:
-      vc = cv2.VideoCapture(self.config.camera_id)
       vc.set(cv2.CAP_PROP_FPS, self.config.rate)
       if not vc.isOpened(): raise Exception(f"Failed to open video capture on id {self.config.camera_id}")
       min_next_timestamp: int | float = 0
-- 
2.43.0


From 0300d8730235f88a50f893b3cdbb9f84d4d990da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:10 +0000
Subject: [PATCH 38/69] fix: the output container task swallowed its
 cancellation, failed in its clean-up and left its streams running

---
 streamtasks/system/tasks/media/outputcontainer.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/streamtasks/system/tasks/media/outputcontainer.py b/streamtasks/system/tasks/media/outputcontainer.py
index b9362e2..8c149b4 100644
--- a/streamtasks/system/tasks/media/outputcontainer.py
+++ b/streamtasks/system/tasks/media/outputcontainer.py
@@ -135,6 +135,8 @@ class OutputContainerTask(Task):
         except ValidationError: pass
 
   async def run(self):
+    container: OutputContainer | None = None
+    tasks: list[asyncio.Task] = []
     try:
       destination = self.config.destination
       if self.config.destination_secret:
@@ -144,7 +146,6 @@ class OutputContainerTask(Task):
         destination += await secret_manager_client.resolve_secret(self.config.destination_secret)
         await self.client.stop_wait()
 
-      container: OutputContainer | None = None
       container = await OutputContainer.open(destination, **self.config.container_options)
       streams: dict[int, AVOutputStream] = {}
       streams.update({ cfg.in_topic: container.add_video_stream(cfg.to_codec_info()) for cfg in self.config.video_tracks })
@@ -153,12 +154,14 @@ class OutputContainerTask(Task):
       tasks = [ asyncio.create_task(self._run_stream(stream, in_topic_id)) for in_topic_id, stream in streams.items() ]
       # TODO add barrier here
       self.client.start()
-      done, pending = await asyncio.wait(tasks, return_when="FIRST_EXCEPTION")
-      for t in pending: t.cancel()
+      done, _ = await asyncio.wait(tasks, return_when="FIRST_EXCEPTION")
       for t in done: await t
-    except asyncio.CancelledError: pass
     finally:
-      if container is not None: await container.close()
+      try:
+        if container is not None: await container.close()
+      finally:
+        for t in tasks: t.cancel()
+        if len(tasks) > 0: await asyncio.wait(tasks)
 
 class OutputContainerTaskHost(TaskHost):
   @property
-- 
2.43.0


From 0baeab24975938be700557111dc48612eebf5792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:22 +0000
Subject: [PATCH 39/69] fix: the input container task swallowed its
 cancellation, failed in its clean-up and could leave streams running

---
 streamtasks/system/tasks/media/inputcontainer.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/streamtasks/system/tasks/media/inputcontainer.py b/streamtasks/system/tasks/media/inputcontainer.py
index bc5c0a9..fd3b5aa 100644
--- a/streamtasks/system/tasks/media/inputcontainer.py
+++ b/streamtasks/system/tasks/media/inputcontainer.py
@@ -81,6 +81,8 @@ class InputContainerTask(Task):
     except EOFError: pass
 
   async def run(self):
+    container: InputContainer | None = None
+    tasks: list[asyncio.Task] = []
     try:
       source = self.config.source
       if self.config.source_secret:
@@ -90,8 +92,6 @@ class InputContainerTask(Task):
         source += await secret_manager_client.resolve_secret(self.config.source_secret)
         await self.client.stop_wait()
 
-      container: InputContainer | None = None
-      tasks: list[asyncio.Task] = []
       container = await InputContainer.open(source, **self.config.container_options)
       tasks = [
         *(asyncio.create_task(self._run_stream(container.get_video_stream(idx, cfg.to_codec_info(), cfg.force_transcode), cfg.out_topic)) for idx, cfg in enumerate(self.config.video_tracks)),
@@ -100,14 +100,12 @@ class InputContainerTask(Task):
       self.client.start()
       done, _ = await asyncio.wait(tasks, return_when="FIRST_EXCEPTION")
       for t in done: await t
-    except asyncio.CancelledError: pass
     finally:
-      if container is not None: await container.close()
-      for t in tasks:
-        try:
-          t.cancel()
-          await t
-        except asyncio.CancelledError: pass
+      try:
+        if container is not None: await container.close()
+      finally:
+        for t in tasks: t.cancel()
+        if len(tasks) > 0: await asyncio.wait(tasks)
 
 class InputContainerTaskHost(TaskHost):
   @property
-- 
2.43.0


From 77b4fd7dba7cf4739a315d01fa22090aa02420df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:56 +0000
Subject: [PATCH 40/69] fix: a topic viewer cancelled while sending went on
 sending

---
 streamtasks/system/task_web.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index 94b962f..516baef 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -397,6 +397,7 @@ class TaskWebBackend(Worker):
             try:
               if isinstance(data, RawData): await ctx.send_message(json.dumps({ "type": "data", "data": make_json_serializable(data.data) }, allow_nan=False))
               else: await ctx.send_message(json.dumps({ "type": "control", "data": { "paused": data.paused } }))
+            except asyncio.CancelledError: raise
             except BaseException as e: logging.warning("Failed to send message ", e)
       except asyncio.CancelledError: pass
       finally:
-- 
2.43.0


From 3fd9326511244b7e2191fe812080ebb97afab03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 41/69] fix: a task host cancelled while it answers a cancel
 request went on serving

---
 streamtasks/system/task.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index 504cbf5..7216151 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -262,6 +262,7 @@ class TaskHost(Worker):
         task.cancel("Cancelled remotely!")
         await req.respond("OK")
       except KeyError as e: await req.respond_error(new_fetch_body_bad_request(str(e)))
+      except asyncio.CancelledError: raise
       except BaseException as e: await req.respond_error(new_fetch_body_general_error(str(e)))
 
     await fetch_server.run()
-- 
2.43.0


From c04aac027e97dd13adadd9081e0eaade79acde20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:25 +0000
Subject: [PATCH 42/69] fix: a tunnelled request that failed or was cancelled
 left its receiver and tasks running

---
 streamtasks/asgi.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/streamtasks/asgi.py b/streamtasks/asgi.py
index 725c204..f16885f 100644
--- a/streamtasks/asgi.py
+++ b/streamtasks/asgi.py
@@ -199,14 +199,23 @@ class ASGIProxyApp:
     receiver = ASGIEventReceiver(self._client, port)
     await receiver.start_recv() # NOTE: must be enabled before sending init message, otherwise events will be lost
 
-    init_respose_raw = await self._client.fetch(self._remote_endpoint, ASGIConstants.FD_DESCRIPTOR, ASGIInitRequest(
-      address=self._client.address,
-      port=port,
-      scope=ser_scope).model_dump())
-    init_respose = ASGIInitResponse.model_validate(init_respose_raw)
+    tasks: list[asyncio.Task] = []
+    try:
+      init_respose_raw = await self._client.fetch(self._remote_endpoint, ASGIConstants.FD_DESCRIPTOR, ASGIInitRequest(
+        address=self._client.address,
+        port=port,
+        scope=ser_scope).model_dump())
+      init_respose = ASGIInitResponse.model_validate(init_respose_raw)
+      sender = ASGIEventSender(self._client, (self._remote_endpoint[0], init_respose.port))
+      tasks = self._start_loops(receiver, sender, receive, send)
+      done, _ = await asyncio.wait(tasks, return_when="FIRST_COMPLETED")
+      for task in done: await task
+    finally:
+      for task in tasks: task.cancel()
+      await receiver.stop_recv()
 
+  def _start_loops(self, receiver: ASGIEventReceiver, sender: ASGIEventSender, receive, send) -> list[asyncio.Task]:
     closed_event = asyncio.Event()
-    sender = ASGIEventSender(self._client, (self._remote_endpoint[0], init_respose.port))
 
     async def recv_loop():
       while not closed_event.is_set():
@@ -223,12 +232,7 @@ class ASGIProxyApp:
         for event in data.events: await send(MessagePackValueTransformer.deannotate_value(event))
         if data.closed: closed_event.set()
 
-    recv_task = asyncio.create_task(recv_loop())
-    send_task = asyncio.create_task(send_loop())
-    await closed_event.wait()
-    await receiver.stop_recv()
-    recv_task.cancel()
-    send_task.cancel()
+    return [asyncio.create_task(recv_loop()), asyncio.create_task(send_loop())]
 
 class HTTPServerOverASGI(Worker):
   def __init__(self, http_endpoint: tuple[str, int], asgi_endpoint: EndpointOrAddress, http_config: dict[str, Any] = {}):
-- 
2.43.0


From 43fc2500a72fb1cdd95a85d4fe70d88995f1e9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:39 +0000
Subject: [PATCH 43/69] fix: audio input and output left their stream open when
 it failed

---
 streamtasks/system/tasks/media/audioinput.py  | 22 +++++++++----------
 streamtasks/system/tasks/media/audiooutput.py |  2 +-
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/streamtasks/system/tasks/media/audioinput.py b/streamtasks/system/tasks/media/audioinput.py
index f2d3781..d000acd 100644
--- a/streamtasks/system/tasks/media/audioinput.py
+++ b/streamtasks/system/tasks/media/audioinput.py
@@ -44,18 +44,18 @@ class AudioInputTask(SyncTask):
       device=device,
       channels=self.config.channels,
       dtype=SAMPLE_FORMAT_2_PA_TYPE[self.config.sample_format])
-    stream.start()
-    min_next_timestamp = 0
+    try:
+      stream.start()
+      min_next_timestamp = 0
 
-    while not self.stop_event.is_set():
-      data, _ = stream.read(self.config.buffer_size)
-      data = bytes(data)
-      timestamp = max(get_timestamp_ms(), min_next_timestamp)
-      frame_duration = len(data) * 1000 // self.bytes_per_second
-      min_next_timestamp = timestamp + frame_duration
-      self.send_data(self.out_topic, RawData(TimestampChuckMessage(timestamp=timestamp, data=data).model_dump()))
-
-    stream.close()
+      while not self.stop_event.is_set():
+        data, _ = stream.read(self.config.buffer_size)
+        data = bytes(data)
+        timestamp = max(get_timestamp_ms(), min_next_timestamp)
+        frame_duration = len(data) * 1000 // self.bytes_per_second
+        min_next_timestamp = timestamp + frame_duration
+        self.send_data(self.out_topic, RawData(TimestampChuckMessage(timestamp=timestamp, data=data).model_dump()))
+    finally: stream.close()
 
 class AudioInputTaskHost(TaskHost):
   @property
diff --git a/streamtasks/system/tasks/media/audiooutput.py b/streamtasks/system/tasks/media/audiooutput.py
index 5eebf72..5087368 100644
--- a/streamtasks/system/tasks/media/audiooutput.py
+++ b/streamtasks/system/tasks/media/audiooutput.py
@@ -51,8 +51,8 @@ class AudioOutputTask(SyncTask):
       device=device,
       channels=self.config.channels,
       dtype=SAMPLE_FORMAT_2_PA_TYPE[self.config.sample_format])
-    stream.start()
     try:
+      stream.start()
       while not self.stop_event.is_set():
         try:
           message = self.message_queue.get(timeout=0.5)
-- 
2.43.0


From a7333675a6159c8e4e391b266afbbf3a81e0ba9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:50 +0000
Subject: [PATCH 44/69] fix: the video viewer left its container open when the
 stream or connection could not be set up

---
 streamtasks/system/tasks/ui/videoviewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/ui/videoviewer.py b/streamtasks/system/tasks/ui/videoviewer.py
index fc1648b..700980d 100644
--- a/streamtasks/system/tasks/ui/videoviewer.py
+++ b/streamtasks/system/tasks/ui/videoviewer.py
@@ -61,10 +61,10 @@ class VideoViewerTask(Task):
       async with in_topic, in_topic.RegisterContext():
         buffer = BytesIO()
         container = await OutputContainer.open(buffer, format="mpegts")
-        video_stream = container.add_video_stream(VideoCodecInfo(self.config.width, self.config.height, self.config.rate, self.config.pixel_format, "h264"))
         receive_disconnect_task = asyncio.create_task(ctx.receive_disconnect())
 
         try:
+          video_stream = container.add_video_stream(VideoCodecInfo(self.config.width, self.config.height, self.config.rate, self.config.pixel_format, "h264"))
           await ctx.accept()
           while ctx.connected:
             try:
-- 
2.43.0


From b74c7cb3c79f0a212f5c684ce84a9d3e1f5caf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:04 +0000
Subject: [PATCH 45/69] fix: a replay buffer that was stopped went on replaying

---
 streamtasks/system/tasks/replaybuffer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/replaybuffer.py b/streamtasks/system/tasks/replaybuffer.py
index dc43f7a..729ebce 100644
--- a/streamtasks/system/tasks/replaybuffer.py
+++ b/streamtasks/system/tasks/replaybuffer.py
@@ -33,7 +33,8 @@ class ReplayBufferTask(Task):
   async def run(self):
     async with self.out_topic, self.out_topic.RegisterContext(), self.in_topic, self.in_topic.RegisterContext(), self.play_topic, self.play_topic.RegisterContext():
       self.client.start()
-      await asyncio.gather(self.run_input_receiver(), self.run_play_receiver())
+      try: await asyncio.gather(self.run_input_receiver(), self.run_play_receiver())
+      finally: await self.stop_play()
 
   async def run_input_receiver(self):
     last_paused = False
-- 
2.43.0


From c2300177ac26ff78df2167f1fdb9c83a7a62c800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:00 +0000
Subject: [PATCH 46/69] fix: stopping a connection or server waits until it has
 ended, and a failed one leaves nothing running

---
 streamtasks/system/connection_manager.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/connection_manager.py b/streamtasks/system/connection_manager.py
index d610d17..f6070a7 100644
--- a/streamtasks/system/connection_manager.py
+++ b/streamtasks/system/connection_manager.py
@@ -61,7 +61,10 @@ class UrlData(Generic[T]):
     if self.task is not None: return
     self.task = asyncio.create_task(self.run())
 
-  async def run(self): await asyncio.gather(self.worker.run(), self.change_handler())
+  async def run(self):
+    change_task = asyncio.create_task(self.change_handler())
+    try: await self.worker.run()
+    finally: change_task.cancel()
   async def stop(self):
     if self.task is None: return None
     self.task.cancel()
-- 
2.43.0


From a11c5ed4c24586799be459944e7f0fa58f0919a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:35 +0000
Subject: [PATCH 47/69] fix: PydanticDB.save replaces the file instead of
 truncating it first

---
 streamtasks/pydanticdb.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/streamtasks/pydanticdb.py b/streamtasks/pydanticdb.py
index c181107..32ed25b 100644
--- a/streamtasks/pydanticdb.py
+++ b/streamtasks/pydanticdb.py
@@ -16,7 +16,12 @@ class PydanticDB(Generic[T]):
   def entries(self): return copy.deepcopy(self._entries)
 
   def save(self):
-    with open(self._filename, "wb") as fd: fd.write(self._list_model.dump_json(self._entries))
+    temp_filename = self._filename + ".tmp"
+    with open(temp_filename, "wb") as fd:
+      fd.write(self._list_model.dump_json(self._entries))
+      fd.flush()
+      os.fsync(fd.fileno())
+    os.replace(temp_filename, self._filename)
 
   def load(self):
     with open(self._filename, "rb") as fd: self._entries = self._list_model.validate_json(fd.read())
-- 
2.43.0


From cf4b3f3dec960b65a742a4c3e645a0e4e7e4ce08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:46 +0000
Subject: [PATCH 48/69] fix: save a named topic that is created by resolving it

---
 streamtasks/system/named_topic_manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/named_topic_manager.py b/streamtasks/system/named_topic_manager.py
index b3814b1..200efaf 100644
--- a/streamtasks/system/named_topic_manager.py
+++ b/streamtasks/system/named_topic_manager.py
@@ -65,7 +65,9 @@ class NamedTopicManager(TaskWebPathHandler):
     @server.route("resolve_named_topic")
     async def _(req: FetchRequest):
       data = NamedTopicRequestModel.model_validate(req.body)
-      if next((1 for e in self.db.entries if e.name == data.name), None) is None: self.db.update(self.db.entries + [ NamedTopicModel(name=data.name, metadata={}) ])
+      if next((1 for e in self.db.entries if e.name == data.name), None) is None:
+        self.db.update(self.db.entries + [ NamedTopicModel(name=data.name, metadata={}) ])
+        self.db.save()
       if data.name not in self.topic_map: self.topic_map[data.name] = (await self.client.request_topic_ids(1))[0]
       await req.respond(NamedTopicResolvedResponseModel(topic=self.topic_map[data.name]).model_dump())
 
-- 
2.43.0


From b1b466a7ee1ec61909b5a131c6f25a21fa35d4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:58 +0000
Subject: [PATCH 49/69] fix: create_or_update_task refuses a task of a running
 deployment instead of storing it twice

---
 streamtasks/system/task_web.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index 516baef..138164d 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -188,11 +188,9 @@ class TaskWebBackendStore:
     except StopIteration: raise ValueError("Invalid id!")
   async def create_or_update_task(self, task: StoredTask) -> StoredTask:
     if task.deployment_id in self.running_deployments: raise ValueError("Deployment is running!")
-    try:
-      existing_task = await self.get_task(task.id)
-      if existing_task.deployment_id in self.running_deployments: raise ValueError("Deployment is running!")
-      self.tasks.update([t for t in self.tasks.entries if t.id != task.id] + [task])
-    except: self.tasks.update(self.tasks.entries + [task])
+    existing_task = next((t for t in self.tasks.entries if t.id == task.id), None)
+    if existing_task is not None and existing_task.deployment_id in self.running_deployments: raise ValueError("Deployment is running!")
+    self.tasks.update([t for t in self.tasks.entries if t.id != task.id] + [task])
     self.tasks.save()
   async def delete_task(self, id: UUID4):
     task = await self.get_task(id)
-- 
2.43.0


From b0208b191b5835167ce98be1b62a35058d72b6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:09 +0000
Subject: [PATCH 50/69] fix: a started deployment is reported as running

---
 streamtasks/system/task_web.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index 138164d..a2f8cb2 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -301,6 +301,7 @@ class TaskWebBackend(Worker):
       await asyncio.gather(*(start_task(task_id, task_instance) for (task_id, task_instance) in running_deployment.task_instances.items()))
 
       running_deployment.task_instance_configs = None
+      running_deployment.started = True
       await ctx.respond_json_string((await self.store.get_deployment(deployment_id)).model_dump_json())
 
     @router.post("/api/deployment/{id}/stop")
-- 
2.43.0


From e4cdb99339a2d262738b35371b7aba673b7483ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:21 +0000
Subject: [PATCH 51/69] fix: scheduling a deployment that is already scheduled
 does not replace it

---
 streamtasks/system/task_web.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index a2f8cb2..3b1be3e 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -147,7 +147,9 @@ class TaskWebBackendStore:
     self.tasks = PydanticDB(StoredTask, os.path.join(data_dir, "tasks.json"))
     self.dashboards = PydanticDB(DeploymentDashboard, os.path.join(data_dir, "dashboards.json"))
 
-  def set_running_deployment(self, deployment: RunningDeployment): self.running_deployments[deployment.id] = deployment
+  def set_running_deployment(self, deployment: RunningDeployment):
+    if deployment.id in self.running_deployments: raise ValueError("Deployment is running!")
+    self.running_deployments[deployment.id] = deployment
   def get_running_deployment(self, deployment_id: UUID4): return self.running_deployments[deployment_id]
   def delete_running_deployment(self, deployment_id: UUID4): return self.running_deployments.pop(deployment_id)
 
@@ -274,6 +276,7 @@ class TaskWebBackend(Worker):
     @http_context_handler
     async def _(ctx: HTTPContext):
       deployment_id = UUID(ctx.params.get("id", ""))
+      if deployment_id in self.store.running_deployments: raise ValueError("Deployment is running!")
       tasks = await self.store.all_tasks_in_deployment(deployment_id)
       topic_ids = set(itertools.chain.from_iterable((int(output["topic_id"]) for output in task.outputs) for task in tasks))
       topic_space_id, _ = await register_topic_space(self.client, topic_ids)
-- 
2.43.0


From 66fefd5f80c867ec0c0fc0634b4eb8d074a36661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:48 +0000
Subject: [PATCH 52/69] fix: a refused connection or server stays linked to the
 switch

---
 streamtasks/system/connection_manager.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/connection_manager.py b/streamtasks/system/connection_manager.py
index f6070a7..9832632 100644
--- a/streamtasks/system/connection_manager.py
+++ b/streamtasks/system/connection_manager.py
@@ -164,7 +164,9 @@ class ConnectionManager(TaskWebPathHandler):
     async def _(ctx: HTTPContext):
       req = UrlCreateModel.model_validate_json(await ctx.receive_json_raw())
       data = await self.create_connection_url_data(req.url)
-      if any(True for connection in self._connection_url_data if connection.id == data.id): return await ctx.respond_status(400)
+      if any(True for connection in self._connection_url_data if connection.id == data.id):
+        await data.worker.shutdown()
+        return await ctx.respond_status(400)
       data.start()
       self._connection_url_data.append(data)
       self.update_connection_urls()
@@ -190,7 +192,9 @@ class ConnectionManager(TaskWebPathHandler):
     async def _(ctx: HTTPContext):
       req = UrlCreateModel.model_validate_json(await ctx.receive_json_raw())
       data = await self.create_server_url_data(req.url)
-      if any(True for server in self._server_url_data if server.id == data.id): return await ctx.respond_status(400)
+      if any(True for server in self._server_url_data if server.id == data.id):
+        await data.worker.shutdown()
+        return await ctx.respond_status(400)
       data.start()
       self._server_url_data.append(data)
       self.update_server_urls()
-- 
2.43.0


From d6ad1507edfec773fe0203bb945a8f6262efd067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:35 +0000
Subject: [PATCH 53/69] fix: a switch that is stopped before its receivers ran
 leaves its links open

---
 streamtasks/net/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index 2b05dfb..5ce68e2 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -253,7 +253,10 @@ class Switch:
     if len(removed_addresses) > 0 or len(updated_addresses) > 0:
       await self.broadcast(AddressesChangedMessage(updated_addresses, removed_addresses))
 
-  def stop_receiving(self): self.link_manager.cancel_all()
+  def stop_receiving(self):
+    links = list(self.link_manager.links)
+    self.link_manager.cancel_all()
+    for link in links: link.close() # a receiver that never ran can not close its link
   async def send_to(self, message: Message, links: list[Link]):
     for link in list(links): # the links may change while sending
       try: await link.send(message)
-- 
2.43.0


From 129fc3c3c735067e2e5bf234b0243c0d11ae8fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 54/69] fix: a request no route matches was answered as an
 internal error, a fetch error without a status not at all

---
 streamtasks/asgi.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/streamtasks/asgi.py b/streamtasks/asgi.py
index f16885f..5c38f1a 100644
--- a/streamtasks/asgi.py
+++ b/streamtasks/asgi.py
@@ -273,8 +273,8 @@ async def asgi_default_http_error_handler(ctx: HTTPContext):
   except FetchError as e:
     logging.debug("ASGI request error (fetch error): ", e)
     if e.status_code == FetchErrorStatusCode.NOT_FOUND: await ctx.respond_status(404)
-    if e.status_code == FetchErrorStatusCode.BAD_REQUEST: await ctx.respond_status(400)
-    if e.status_code == FetchErrorStatusCode.GENERAL: await ctx.respond_status(500)
-  except BaseException as e:
+    elif e.status_code == FetchErrorStatusCode.BAD_REQUEST: await ctx.respond_status(400)
+    else: await ctx.respond_status(500)
+  except Exception as e:
     logging.debug("ASGI request error (unknown): ", e)
     await ctx.respond_status(500)
-- 
2.43.0


From e93623cea99a4257c131789a8208ec1b3fb467a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 55/69] fix: passing a request on changed the state of the
 handlers that had passed it on

---
 streamtasks/asgiserver.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/streamtasks/asgiserver.py b/streamtasks/asgiserver.py
index f562507..09de887 100644
--- a/streamtasks/asgiserver.py
+++ b/streamtasks/asgiserver.py
@@ -62,8 +62,7 @@ def asgi_type_handler(supported_types: set[str]):
 
 def asgi_scope_set_state(scope: ASGIScope, state: dict[str, Any]):
   new_scope: ASGIScope = { **scope }
-  if not "state" in new_scope: new_scope["state"] = {}
-  new_scope["state"].update(state)
+  new_scope["state"] = { **new_scope.get("state", {}), **state }
   return new_scope
 
 def asgi_scope_get_next_fn(scope: ASGIScope) -> ASGIHandler:
-- 
2.43.0


From c7671f76f883c9aaba6863aa9519c0cf96e17e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:25 +0000
Subject: [PATCH 56/69] fix: hand over empty binary websocket messages

---
 streamtasks/asgiserver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streamtasks/asgiserver.py b/streamtasks/asgiserver.py
index 09de887..db0b80a 100644
--- a/streamtasks/asgiserver.py
+++ b/streamtasks/asgiserver.py
@@ -164,7 +164,9 @@ class WebsocketContext(TransportContext):
     event = await self._wreceive()
     if event["type"] == "websocket.connect": return "connect", None
     if event["type"] == "websocket.disconnect": return "disconnect", None
-    if event["type"] == "websocket.receive": return "message", event.get("bytes", None) or event.get("text", None)
+    if event["type"] == "websocket.receive":
+      data = event.get("bytes", None)
+      return "message", event.get("text", None) if data is None else data
 
   async def send_message(self, data: str | ByteString):
     event: dict[str, Any] = { "type": "websocket.send", "bytes": None, "text": None }
-- 
2.43.0


From b0630fbee776a31fc7138b82407c18445a4a1559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:40 +0000
Subject: [PATCH 57/69] fix: do not serve index files that lead outside of the
 directory

---
 streamtasks/asgiserver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/asgiserver.py b/streamtasks/asgiserver.py
index db0b80a..ac9a207 100644
--- a/streamtasks/asgiserver.py
+++ b/streamtasks/asgiserver.py
@@ -541,8 +541,8 @@ def static_files_handler(path: str | pathlib.Path, index_files: Iterable[str], r
   async def handler(ctx: HTTPContext):
     request_path = directory_path.joinpath(ctx.path.lstrip("/\\")).resolve()
     if directory_path not in request_path.parents and directory_path != request_path: return await ctx.respond_status(404)
-    if request_path.is_dir(): request_path = next((p for p in (request_path.joinpath(idx_file) for idx_file in index_files) if p.exists()), None)
-    if request_path is None or not request_path.exists() or request_path.is_dir(): return await ctx.respond_status(404)
+    if request_path.is_dir(): request_path = next((p for p in (request_path.joinpath(idx_file).resolve() for idx_file in index_files) if p.exists()), None)
+    if request_path is None or directory_path not in request_path.parents or not request_path.exists() or request_path.is_dir(): return await ctx.respond_status(404)
     await ctx.delegate(static_file_handler(request_path, response_buffer_size=response_buffer_size))
 
   return handler
-- 
2.43.0


From 9e0683ed389e5573c60ad4091f322d4e4f1f2bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:06 +0000
Subject: [PATCH 58/69] fix: serve tasks and task hosts from what they
 registered last

---
 streamtasks/system/task_web.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index 3b1be3e..44f1e04 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -213,8 +213,6 @@ class TaskWebBackend(Worker):
     super().__init__()
     self.task_manager_address_name = task_manager_address_name
     self.address_name = address_name
-    self.task_host_asgi_handlers: dict[str, ASGIHandler] = {}
-    self.task_asgi_handlers: dict[UUID4, ASGIHandler] = {}
     self.deployment_task_listeners: dict[UUID4, asyncio.Task] = {}
     self.path_registrations: list[PathRegistration] = []
     self.store = TaskWebBackendStore()
@@ -499,16 +497,12 @@ class TaskWebBackend(Worker):
           yield (task_id, task_instance)
 
   async def get_task_host_asgi_handler(self, id: str) -> ASGIHandler:
-    if (router := self.task_host_asgi_handlers.get(id, None)) is None:
-      reg: TaskHostRegistration = await self.tm_client.get_task_host(id)
-      self.task_host_asgi_handlers[id] = router = self._metadata_to_router(reg.metadata)
-    return router
+    reg: TaskHostRegistration = await self.tm_client.get_task_host(id)
+    return self._metadata_to_router(reg.metadata)
 
   async def get_task_asgi_handler(self, id: UUID4) -> ASGIHandler:
-    if (router := self.task_asgi_handlers.get(id, None)) is None:
-      reg: TaskInstance = await self.tm_client.get_task(id)
-      self.task_asgi_handlers[id] = router = self._metadata_to_router(reg.metadata)
-    return router
+    reg: TaskInstance = await self.tm_client.get_task(id)
+    return self._metadata_to_router(reg.metadata)
 
   def _metadata_to_router(self, metadata: MetadataDict) -> ASGIHandler:
     router = ASGIRouter()
-- 
2.43.0


From 9451bdd1218aff47b663b7c8e153829d87731d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:39 +0000
Subject: [PATCH 59/69] fix: T01 messages without a mapping or with an infinite
 timestamp no longer end tasks

---
 streamtasks/message/utils.py                 | 3 ++-
 streamtasks/system/tasks/replaybuffer.py     | 4 ++--
 streamtasks/system/tasks/timestampupdater.py | 2 +-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/streamtasks/message/utils.py b/streamtasks/message/utils.py
index 72b0276..b2e999c 100644
--- a/streamtasks/message/utils.py
+++ b/streamtasks/message/utils.py
@@ -1,3 +1,4 @@
+import math
 from streamtasks.net.serialization import RawData
 
 def get_timestamp_from_message(data: RawData) -> int:
@@ -7,7 +8,7 @@ def get_timestamp_from_message(data: RawData) -> int:
   elif hasattr(content, "timestamp") and isinstance(content.timestamp, int): timestamp = content.timestamp
   else: raise ValueError(f"could not get timestamp from message: {data}")
   if isinstance(timestamp, int): return timestamp
-  if isinstance(timestamp, float): return int(timestamp)
+  if isinstance(timestamp, float) and math.isfinite(timestamp): return int(timestamp)
   raise ValueError(f"could not get timestamp from message: {data}")
 
 def set_timestamp_on_message(data: RawData, timestamp: int):
diff --git a/streamtasks/system/tasks/replaybuffer.py b/streamtasks/system/tasks/replaybuffer.py
index 729ebce..a15711a 100644
--- a/streamtasks/system/tasks/replaybuffer.py
+++ b/streamtasks/system/tasks/replaybuffer.py
@@ -64,14 +64,14 @@ class ReplayBufferTask(Task):
     while True:
       time_offset: int | None = None
       for data in self.buffer:
-        data = data.shallow_copy()
         try:
+          data = data.shallow_copy()
           ts = get_timestamp_from_message(data)
           if time_offset is None: time_offset = self.sync.time - ts
           set_timestamp_on_message(data, ts + time_offset)
           wait_time = ((ts + time_offset) - self.sync.time) / 1000
           if wait_time > 0: await asyncio.sleep(wait_time)
-        except ValueError: pass
+        except (ValueError, TypeError): pass
         await self.out_topic.send(data)
       if not self.config.loop: break
     await self.out_topic.set_paused(True)
diff --git a/streamtasks/system/tasks/timestampupdater.py b/streamtasks/system/tasks/timestampupdater.py
index 922b566..288c5e8 100644
--- a/streamtasks/system/tasks/timestampupdater.py
+++ b/streamtasks/system/tasks/timestampupdater.py
@@ -37,7 +37,7 @@ class TimestampUpdaterTask(Task):
             data = data.shallow_copy()
             set_timestamp_on_message(data, ref_time + self.config.time_offset)
             await self.out_topic.send(data)
-          except (ValueError, KeyError):
+          except (ValueError, KeyError, TypeError):
             if not self.config.fail_closed: await self.out_topic.send(data)
 
 class TimestampUpdaterTaskHost(TaskHost):
-- 
2.43.0


From e1e78b68e73d836086b03b7e4a93517c2add4f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:48 +0000
Subject: [PATCH 60/69] fix: T09 logical operators of the calculator work and
 undefined results do not end it

---
 streamtasks/system/tasks/calculator.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/streamtasks/system/tasks/calculator.py b/streamtasks/system/tasks/calculator.py
index f2157a7..96d9d6a 100644
--- a/streamtasks/system/tasks/calculator.py
+++ b/streamtasks/system/tasks/calculator.py
@@ -12,6 +12,7 @@ from pydantic import BaseModel, ValidationError, model_validator
 from typing import Any
 import math
 from lark import Lark, ParseTree, Transformer
+from lark.exceptions import VisitError
 import re
 
 CalculatorGrammar = Lark(r"""
@@ -31,8 +32,8 @@ start: expr
     | expr "!=" expr -> ne
 
 ?binary_op: sum
-    | binary_op "&" expr -> and
-    | binary_op "|" expr -> or
+    | binary_op "&" expr -> and_
+    | binary_op "|" expr -> or_
     | binary_op "^" expr -> xor
 
 ?sum: product
@@ -51,7 +52,7 @@ start: expr
     | NAME -> variable
     | "-" atom -> neg
     | "+" atom -> pos
-    | "!" atom -> not
+    | "!" atom -> not_
     | "(" expr ")" -> group
     | NAME "(" [expr ("," expr)*]  ")" -> func
 
@@ -124,7 +125,7 @@ class CalculatorEvalTransformer(Transformer):
   def pow(self, args): return args[0] ** args[1]
   def and_(self, args): return 1.0 if args[0] > 0.5 and args[1] > 0.5 else 0.0
   def or_(self, args): return 1.0 if args[0] > 0.5 or args[1] > 0.5 else 0.0
-  def xor(self, args): return 1.0 if args[0] > 0.5 != args[1] > 0.5 else 0.0
+  def xor(self, args): return 1.0 if (args[0] > 0.5) != (args[1] > 0.5) else 0.0
   def gt(self, args): return 1.0 if args[0] > args[1] else 0.0
   def lt(self, args): return 1.0 if args[0] < args[1] else 0.0
   def ge(self, args): return 1.0 if args[0] >= args[1] else 0.0
@@ -233,7 +234,7 @@ class CalculatorTask(Task):
           message = NumberMessage.model_validate(data.data)
           self.var_values[var_name] = message.value
           await self.send_value(message.timestamp)
-        except ValidationError: pass
+        except (ValidationError, VisitError): pass
 
   async def send_value(self, timestamp: int):
     result: float = CalculatorEvalTransformer(CalculatorEvalContext(self.var_values)).transform(self.formula_ast)
-- 
2.43.0


From c859d84c18bc4902f2b062a962d434265d40e717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:57 +0000
Subject: [PATCH 61/69] fix: T10 the repeater keeps running when a message
 arrives before its first round

---
 streamtasks/system/tasks/repeater.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/repeater.py b/streamtasks/system/tasks/repeater.py
index 301f5a8..85405b7 100644
--- a/streamtasks/system/tasks/repeater.py
+++ b/streamtasks/system/tasks/repeater.py
@@ -50,7 +50,7 @@ class RepeaterTask(Task):
 
   async def _run_sender(self):
     frame_counter = 0
-    t0: float | None = None
+    t0 = time.time()
     delay = hertz_to_fintervall(self.config.rate)
 
     while True:
-- 
2.43.0


From fc72b9e3049e1321a8c9f8a9087d79d0d0629749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:35 +0000
Subject: [PATCH 62/69] fix: T07 a switch whose highest control is no number
 keeps running

---
 streamtasks/system/tasks/switch.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/streamtasks/system/tasks/switch.py b/streamtasks/system/tasks/switch.py
index db0cfc3..f1e2b44 100644
--- a/streamtasks/system/tasks/switch.py
+++ b/streamtasks/system/tasks/switch.py
@@ -68,8 +68,7 @@ class SwitchTask(Task):
 
   def _get_selected_index(self):
     if len(self.control_values) == 0: return -1
-    selected_value = max(value for value in self.control_values.values())
-    return next(idx for idx, value in self.control_values.items() if value == selected_value)
+    return max(self.control_values, key=lambda idx: self.control_values[idx])
 
 class SwitchTaskHost(TaskHost):
   @property
-- 
2.43.0


From 65c272d6cf678345c09c08b2f67c8a82f9da66d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:44 +0000
Subject: [PATCH 63/69] fix: T07 a media switch that returns to an input starts
 with a keyframe

---
 streamtasks/system/tasks/media/mediaswitch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/system/tasks/media/mediaswitch.py b/streamtasks/system/tasks/media/mediaswitch.py
index 1e062a7..b115c0e 100644
--- a/streamtasks/system/tasks/media/mediaswitch.py
+++ b/streamtasks/system/tasks/media/mediaswitch.py
@@ -25,6 +25,7 @@ class MediaSwitchTask(SwitchTask):
             except ValidationError: pass
           if idx == self._active_index:
             await self.out_topic.send(data)
+      elif idx == self._active_index: self._active_index = -1
 
 class MediaSwitchTaskHost(TaskHost):
   @property
-- 
2.43.0


From 7be6729cda64e439d3f6287760404f3694bca35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:54 +0000
Subject: [PATCH 64/69] fix: T01 timestamps no date can be made of do not end
 time to text

---
 streamtasks/system/tasks/timetotext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/timetotext.py b/streamtasks/system/tasks/timetotext.py
index 9ff222b..ab5044c 100644
--- a/streamtasks/system/tasks/timetotext.py
+++ b/streamtasks/system/tasks/timetotext.py
@@ -34,7 +34,7 @@ class TimeToTextTask(Task):
             timestamp = get_timestamp_from_message(data)
             value = datetime.fromtimestamp(timestamp / 1000).strftime(self.config.date_format)
             await self.out_topic.send(RawData(TextMessage(timestamp=timestamp, value=value).model_dump()))
-        except ValueError: pass
+        except (ValueError, OverflowError, OSError): pass
 
 class TimeToTextTaskHost(TaskHost):
   @property
-- 
2.43.0


From 3afd65cc14bfcccfd7501dc47eac16a7bc49eafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:05 +0000
Subject: [PATCH 65/69] fix: T10 a replay buffer that is cleared keeps running
 and buffers leave no files

---
 streamtasks/rawdatabuffer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/streamtasks/rawdatabuffer.py b/streamtasks/rawdatabuffer.py
index de5fc8f..d3fe995 100644
--- a/streamtasks/rawdatabuffer.py
+++ b/streamtasks/rawdatabuffer.py
@@ -6,16 +6,16 @@ from streamtasks.net.serialization import RawData
 class RawDataBuffer:
   def __init__(self) -> None:
     self._key_counter: int = 0
-    self._db_file = tempfile.mktemp(".db")
-    self._db = dbm.open(self._db_file, "c")
+    self._dir = tempfile.TemporaryDirectory()
+    self._db = dbm.open(os.path.join(self._dir.name, "buffer"), "c")
     self._index_map: list[str] = []
 
   def __del__(self):
     self._db.close()
-    os.remove(self._db_file)
+    self._dir.cleanup()
 
   def clear(self):
-    self._db.clear()
+    for key in self._index_map: del self._db[key]
     self._index_map.clear()
 
   def append(self, data: RawData):
-- 
2.43.0


From 89e115a466b93e9fa9627f4f796fb615dde08e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:16 +0000
Subject: [PATCH 66/69] fix: T10 a time buffer that is cancelled sends nothing
 before its time

---
 streamtasks/system/tasks/timebuffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/timebuffer.py b/streamtasks/system/tasks/timebuffer.py
index 92e6206..4223b20 100644
--- a/streamtasks/system/tasks/timebuffer.py
+++ b/streamtasks/system/tasks/timebuffer.py
@@ -74,7 +74,7 @@ class TimeBufferTask(Task):
           pending_ms = self.config.size - (get_timestamp_ms() - next_timestamp)
           if pending_ms > 0: await asyncio.sleep(pending_ms / 1000.)
         except ValueError: pass
-        finally: await self.out_topic.send(self.message_queue.popleft())
+        await self.out_topic.send(self.message_queue.popleft())
 
 class TimeBufferTaskHost(TaskHost):
   @property
-- 
2.43.0


From 4085a3ac7ab183fcb007e5897299006841f905f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:29 +0000
Subject: [PATCH 67/69] fix: a looping replay buffer whose messages need no
 waiting blocked everything else

---
 streamtasks/system/tasks/replaybuffer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/system/tasks/replaybuffer.py b/streamtasks/system/tasks/replaybuffer.py
index a15711a..6cf1459 100644
--- a/streamtasks/system/tasks/replaybuffer.py
+++ b/streamtasks/system/tasks/replaybuffer.py
@@ -74,6 +74,7 @@ class ReplayBufferTask(Task):
         except (ValueError, TypeError): pass
         await self.out_topic.send(data)
       if not self.config.loop: break
+      await asyncio.sleep(0.001) # a round without any waiting must not keep everything else from running
     await self.out_topic.set_paused(True)
 
   async def update_playing_state(self):
-- 
2.43.0


From ed4e75262edfd3ba6214b8dc06b02ba8222ec73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:44 +0000
Subject: [PATCH 68/69] fix: a repeater that is behind its rate blocked
 everything else

---
 streamtasks/system/tasks/repeater.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/repeater.py b/streamtasks/system/tasks/repeater.py
index 85405b7..9cbd1b3 100644
--- a/streamtasks/system/tasks/repeater.py
+++ b/streamtasks/system/tasks/repeater.py
@@ -66,7 +66,7 @@ class RepeaterTask(Task):
         except ValueError: pass
       frame_counter += 1
       wait_time = float(t0 + frame_counter * delay) - time.time()
-      if wait_time > 0: await asyncio.sleep(wait_time)
+      await asyncio.sleep(max(wait_time, 0))
 
 class RepeaterTaskHost(TaskHost):
   @property
-- 
2.43.0


From a7fd72d9159c05f3fe05ed616e4c587de82937df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:36 +0000
Subject: [PATCH 69/69] fix: what was put before a producer ended was not
 handed out to those that waited for it

---
 streamtasks/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/utils.py b/streamtasks/utils.py
index ef7622b..0d7e064 100644
--- a/streamtasks/utils.py
+++ b/streamtasks/utils.py
@@ -197,6 +197,7 @@ class AsyncProducer(Generic[T0]):
         if self._task is not None:
           self._stop()
           try: await self.wait_done()
+          except EOFError: pass # the consumers were closed
           finally:  self._task = None
 
   def _stop(self): self._task.cancel()
@@ -265,7 +266,7 @@ class AsyncConsumer(Generic[T1]):
         await _fut
         _fut = self._trigger.wait()
       # TODO we need to do this in here to prevent double deques
-      if self._closed: raise EOFError()
+      if len(self._queue) == 0: raise EOFError() # what was put before the end is still handed out
       return self._queue.popleft()
 
   def put(self, e: T1):
-- 
2.43.0

