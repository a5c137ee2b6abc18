C = "streamtasks/connection.py"
PREK = '''
import asyncio, sys, tempfile, os, msgpack
from unittest import mock
from streamtasks.connection import *
from streamtasks.connection import RawConnection, RawConnectionLink, RawStreamConnection, StreamServerBase, ConnectionClosedError, extract_connection_data_from_url, get_node_socket_path, _get_version_specifier
from streamtasks.net import Switch
class Writer:
  def __init__(self): self.buf = b""
  def write(self, d): self.buf += d
  async def drain(self): pass
  def close(self): pass
class Conn(RawConnection):
  def __init__(self, *incoming):
    super().__init__(); self.incoming = list(incoming); self.out = []; self.closed = False
  def close(self): self.closed = True
  async def _send(self, data): self.out.append(data)
  async def _recv(self):
    if not self.incoming: raise ConnectionClosedError()
    return self.incoming.pop(0)
'''
S("k01-unversioned-client", "K01", [(C, "      accepted = client_data.get(\"version\", None) == _get_version_specifier() and client_auth == server_auth", "      accepted = client_data.get(\"version\", _get_version_specifier()) == _get_version_specifier() and client_auth == server_auth")],
  "a client that sends no version at all", "a client without a version passes the handshake", PREK + '''
async def main():
  for d, want in (({"version": _get_version_specifier()}, True), ({}, False), ({"version": "x"}, False)):
    c = Conn(msgpack.packb(d))
    try: await c.init_server({}); ok = True
    except BaseException: ok = False
    assert ok == want, d
    assert msgpack.unpackb(c.out[0])["accepted"] == want
asyncio.run(main())
''')
S("k01-cancelled-handshake", "K01", [(C, "    except BaseException as e:\n      self.close()\n      raise e\n\n  async def init_server", "    except Exception as e:\n      self.close()\n      raise e\n\n  async def init_server")],
  "a client whose connect call is cancelled (a timeout) while it waits for the server's answer", "the connection of a cancelled handshake stays open", PREK + '''
async def main():
  class Slow(Conn):
    async def _recv(self): await asyncio.sleep(60)
  c = Slow()
  try: await asyncio.wait_for(c.init_client({}), 0.1)
  except asyncio.TimeoutError: pass
  assert c.closed
asyncio.run(main())
''')
S("k02-short-length", "K02", [(C, "self._writer.write(struct.pack(\"<L\", len(data)))", "self._writer.write(struct.pack(\"<H\", len(data)))"), (C, "struct.unpack(\"<L\", await self._reader.readexactly(4))", "struct.unpack(\"<H\", await self._reader.readexactly(2))")],
  "a message of more than 65535 bytes on a stream connection", "large messages fail to be sent", PREK + '''
async def main():
  for n in (10, 65535, 70000):
    w = Writer(); r = asyncio.StreamReader()
    await RawStreamConnection(r, w).send(b"x" * n)
    r.feed_data(w.buf)
    assert await asyncio.wait_for(RawStreamConnection(r, w).recv(), 5) == b"x" * n
asyncio.run(main())
''')
S("k02-unshielded-send", "K02", [(C, "      await asyncio.shield(self._send(data))", "      await self._send(data)")],
  "a sender cancelled while its transport applies back pressure in the middle of a frame", "a cancellation cuts a frame short", PREK + '''
async def main():
  sent = []
  class Slow(Conn):
    async def _send(self, data):
      for b in data:
        await asyncio.sleep(0.05); sent.append(b)
  c = Slow()
  t = asyncio.create_task(c.send(b"abcd"))
  await asyncio.sleep(0.12)
  t.cancel()
  await asyncio.sleep(0.4)
  assert bytes(sent) == b"abcd", sent
asyncio.run(main())
''')
S("k03-connected-first", "K03", [(C, "          await self.switch.add_link(link)\n          self._async_connected.set(True)\n          link.on_closed", "          self._async_connected.set(True)\n          await self.switch.add_link(link)\n          link.on_closed")],
  "a link that closes while it is being attached", "the reconnector counts as connected for good although attaching failed", PREK + '''
async def main():
  async def fn(): return RawConnectionLink(Conn(), 1)
  r = AutoReconnector(fn, delay=0.05)
  class S(Switch):
    n = 0
    async def add_link(self, link):
      S.n += 1
      raise ConnectionClosedError()
  r.switch = S()
  t = asyncio.create_task(r.run())
  await asyncio.sleep(0.2)
  assert S.n > 1 and not r.connected
  t.cancel()
asyncio.run(main())
''')
S("k04-node-netloc", "K04", [(C, "get_node_socket_path(purl.hostname or None)", "get_node_socket_path(purl.netloc or None)")],
  "a node url with user name and password", "client and server use another socket when the url carries credentials", PREK + '''
d = extract_connection_data_from_url("node://me:pw@abc?cost=7")
assert d.path == get_node_socket_path("abc") and d.cost == 7 and d.handshake_data["username"] == "me", d
assert extract_connection_data_from_url("node://").path == get_node_socket_path(None)
''')
S("k05-counted-first", "K05", [(C, "      await self.switch.add_link(link)\n      self.on_connected()\n      link.on_closed.append(self.on_disconnected)\n    except", "      self.on_connected()\n      await self.switch.add_link(link)\n      link.on_closed.append(self.on_disconnected)\n    except")],
  "a peer that disconnects after its handshake, while the server announces its addresses to it", "the connection is counted for ever", PREK + '''
async def main():
  s = TCPSocketServer("localhost", 0, 1, {})
  class S(Switch):
    async def add_link(self, link): raise ConnectionClosedError()
  s.switch = S()
  r = asyncio.StreamReader(); w = Writer()
  await RawStreamConnection(r, w).send(msgpack.packb({"version": _get_version_specifier()}))
  r.feed_data(w.buf)
  await s.on_connection(r, w)
  assert s.connection_count == 0, s.connection_count
asyncio.run(main())
''')
S("k03-closed-while-added", "K03", [(C, "          if link.closed: self._async_connected.set(False) # in case it closed already\n", "")],
  "a connection that is lost while it is added to the switch", "it counts as connected for ever and is never opened again", PREK + '''
from streamtasks.net import create_queue_connection
async def main():
  n = 0
  async def connect_():
    nonlocal n
    n += 1
    a, b = create_queue_connection()
    a.close()
    return a
  r = AutoReconnector(connect_, delay=0.02)
  t = asyncio.create_task(r.run()); await asyncio.sleep(0.5)
  assert n > 1, n
  assert not r.connected or n > 1
  t.cancel(); await asyncio.gather(t, return_exceptions=True)
asyncio.run(main())
''')
S("k04-server-default-cost", "K04", [(C, "    return WebsocketServer(data.hostname, data.port, data.cost, data.handshake_data)", "    return WebsocketServer(data.hostname, data.port, DEFAULT_COSTS.WEBSOCKET, data.handshake_data)")],
  "a url of a websocket that sets a cost", "the server's links have another cost than the client's", PREK + '''
s = create_server("ws://127.0.0.1:9999?cost=7")
assert s.cost == extract_connection_data_from_url("ws://127.0.0.1:9999?cost=7").cost == 7, s.cost
''')
S("k05-websocket-forgets", "K05", [(C, "      self.on_connected()\n      link.on_closed.append(self.on_disconnected)\n      link.on_closed.append(close_event.set)\n      await close_event.wait()\n", "      self.on_connected()\n      link.on_closed.append(close_event.set)\n      await close_event.wait()\n      self.on_disconnected()\n")],
  "a websocket server whose handler ends while a connection is open", "the connection is counted for ever", PREK + '''
class Sock:
  def __init__(self): self.q = asyncio.Queue(); self.sent = []
  async def recv(self): return await self.q.get()
  async def send(self, d): self.sent.append(d)
  async def close(self): pass
async def main():
  s = WebsocketServer("127.0.0.1", 1, 5, {})
  sock = Sock(); sock.q.put_nowait(msgpack.packb({"version": _get_version_specifier()}))
  t = asyncio.create_task(s.on_connection(sock)); await asyncio.sleep(0.1)
  assert s.connection_count == 1
  t.cancel(); await asyncio.gather(t, return_exceptions=True)
  s.switch.stop_receiving(); await asyncio.sleep(0.1)
  assert s.connection_count == 0, s.connection_count
asyncio.run(main())
''')
