C = "connection.py"
# ---- K01
B("K01", C, "client_data.get(\"version\", None) == _get_version_specifier() and client_auth", "client_auth")
B("K01", C, "accepted = client_data.get(\"version\", None) == _get_version_specifier() and client_auth == server_auth", "accepted = client_data.get(\"version\", None) == _get_version_specifier() and (server_auth is None or client_auth is None or client_auth == server_auth)")
B("K01", C, "      if not accepted: raise ConnectionError(\"Server rejected connection\")\n    except", "    except")
B("K01", C, "client_data = { **extra_data, \"version\"", "client_data = { \"version\"")
B("K01", C, "      extra_data = { k: v for k, v in extra_data.items() if k != \"auth\" } # shared by all connections and never sent back\n", "")
B("K01", C, "      if server_data.get(\"accepted\", False) != True: raise ConnectionError(\"Server rejected connection\")\n", "")
B("K01", C, "    except BaseException as e:\n      self.close()\n      raise e\n\n  async def init_server", "    except Exception as e:\n      self.close()\n      raise e\n\n  async def init_server")
B("K01", C, "      connection = RawWebsocketConnection(socket)\n      await connection.init_server(self.handshake_data)\n      link = RawConnectionLink(connection, self.cost)\n      await self.switch.add_link(link)", "      connection = RawWebsocketConnection(socket)\n      link = RawConnectionLink(connection, self.cost)\n      await self.switch.add_link(link)\n      await connection.init_server(self.handshake_data)")
B("K01", C, "  await connection.init_client(data.handshake_data)\n", "  await connection.init_client({})\n")
K("K01", C, "      accepted = client_data.get(\"version\", None) == _get_version_specifier() and client_auth == server_auth", "      accepted = client_auth == server_auth\n      if client_data.get(\"version\") != _get_version_specifier(): accepted = False")
K("K01", C, "server_data = { **extra_data, \"accepted\": accepted, \"version\": _get_version_specifier() }", "server_data = dict(extra_data)\n      server_data[\"accepted\"] = accepted\n      server_data[\"version\"] = _get_version_specifier()")
K("K01", C, "    except BaseException as e:\n      self.close()\n      raise e\n\n  async def init_server", "    except BaseException:\n      self.close()\n      raise\n\n  async def init_server")
# ---- K02
B("K02", C, "struct.pack(\"<L\", len(data))", "struct.pack(\">L\", len(data))")
B("K02", C, "struct.unpack(\"<L\", await self._reader.readexactly(4))", "struct.unpack(\"<H\", await self._reader.readexactly(2))")
B("K02", C, "return await self._reader.readexactly(data_len)", "return await self._reader.read(data_len)")
B("K02", C, "      else: sync_index = 1 if RawStreamConnection.SYNC_WORD[0] == next_byte[0] else 0", "      else: sync_index = 0")
B("K02", C, "      await asyncio.shield(self._send(data))", "      await self._send(data)")
B("K02", C, "    async with self._send_lock:\n      await", "    async with self._recv_lock:\n      await")
B("K02", C, "    async with self._recv_lock:\n      return await asyncio.shield(self._recv())", "    return await asyncio.shield(self._recv())")
B("K02", C, "(EOFError, ConnectionError, BrokenPipeError, asyncio.IncompleteReadError)", "(ConnectionError, BrokenPipeError)")
B("K02", C, "    except websockets.ConnectionClosed as e: raise ConnectionClosedError(origin=e)\n\n  async def recv", "    except websockets.ConnectionClosedError as e: raise ConnectionClosedError(origin=e)\n\n  async def recv")
B("K02", C, "    except asyncio.CancelledError: raise\n    except BaseException as e: raise ConnectionClosedError(origin=e)\n\n  async def _recv", "    except BaseException as e: raise ConnectionClosedError(origin=e)\n\n  async def _recv")
B("K02", C, "    try: return deserialize_message(await self._connection.recv())\n    except asyncio.CancelledError: raise\n    except BaseException as e:", "    try: return deserialize_message(await self._connection.recv())\n    except asyncio.CancelledError: raise\n    except ConnectionError as e:")
K("K02", C, "    self._writer.write(RawStreamConnection.SYNC_WORD)\n    self._writer.write(struct.pack(\"<L\", len(data)))\n    self._writer.write(data)\n", "    self._writer.write(self.SYNC_WORD + len(data).to_bytes(4, \"little\") + data)\n")
K("K02", C, "    data_len, = struct.unpack(\"<L\", await self._reader.readexactly(4))\n", "    header = await self._reader.readexactly(4)\n    data_len = int.from_bytes(header, \"little\")\n")
K("K02", C, "    sync_index = 0\n    while sync_index < len(RawStreamConnection.SYNC_WORD):\n      next_byte = await self._reader.readexactly(1)\n      if RawStreamConnection.SYNC_WORD[sync_index] == next_byte[0]: sync_index += 1\n      else: sync_index = 1 if RawStreamConnection.SYNC_WORD[0] == next_byte[0] else 0\n", "    window = b\"\"\n    while window != self.SYNC_WORD: window = (window + await self._reader.readexactly(1))[-len(self.SYNC_WORD):]\n")
K("K02", C, "    sync_index = 0\n    while sync_index < len(RawStreamConnection.SYNC_WORD):\n      next_byte = await self._reader.readexactly(1)\n      if RawStreamConnection.SYNC_WORD[sync_index] == next_byte[0]: sync_index += 1\n      else: sync_index = 1 if RawStreamConnection.SYNC_WORD[0] == next_byte[0] else 0\n    data_len", "    await self._sync()\n    return await self._read_payload()\n\n  async def _sync(self):\n    matched = 0\n    while True:\n      byte, = await self._reader.readexactly(1)\n      if byte == self.SYNC_WORD[matched]: matched += 1\n      elif byte == self.SYNC_WORD[0]: matched = 1\n      else: matched = 0\n      if matched == len(self.SYNC_WORD): break\n\n  async def _read_payload(self) -> bytes:\n    data_len")
K("K02", C, "    async with self._send_lock:\n      await asyncio.shield(self._send(data))", "    await self._send_lock.acquire()\n    try: await asyncio.shield(self._send(data))\n    finally: self._send_lock.release()")
# ---- K03
B("K03", C, "        except (ConnectionClosedError, OSError, websockets.WebSocketException): pass", "        except (ConnectionClosedError, websockets.WebSocketException): pass")
B("K03", C, "        await asyncio.sleep(self.delay)\n        logging", "        logging")
B("K03", C, "          await self._async_connected.wait(False)\n", "")
B("K03", C, "          link.on_closed.append(functools.partial(self._async_connected.set, False))\n", "")
B("K03", C, "    finally: await self.shutdown()\n\n  async def wait_connected", "    finally: pass\n\n  async def wait_connected")
B("K03", C, "          await self.switch.add_link(link)\n          self._async_connected.set(True)\n          link.on", "          self._async_connected.set(True)\n          await self.switch.add_link(link)\n          link.on")
K("K03", C, "          link.on_closed.append(functools.partial(self._async_connected.set, False))", "          link.on_closed.append(lambda: self._async_connected.set(False))")
K("K03", C, """        try:
          link = await self.connect_fn()
          await self.switch.add_link(link)
          self._async_connected.set(True)
          link.on_closed.append(functools.partial(self._async_connected.set, False))
          if link.closed: self._async_connected.set(False) # in case it closed already
          await self._async_connected.wait(False)
        except (ConnectionClosedError, OSError, websockets.WebSocketException): pass
        await asyncio.sleep(self.delay)
        logging.info("reconnecting")
    finally: await self.shutdown()
""", """        await self._run_once()
        await asyncio.sleep(self.delay)
        logging.info("reconnecting")
    finally: await self.shutdown()

  async def _run_once(self):
    try:
      link = await self.connect_fn()
      await self.switch.add_link(link)
      self._async_connected.set(True)
      link.on_closed.append(self._on_lost)
      if link.closed: self._on_lost()
      await self._async_connected.wait(False)
    except Exception as e: logging.debug(e)

  def _on_lost(self): self._async_connected.set(False)
""")
# ---- K04
B("K04", C, "cost=cost or DEFAULT_COSTS.WEBSOCKET, handshake_data=handshake_data, secure=True", "cost=cost or DEFAULT_COSTS.WEBSOCKET, handshake_data=handshake_data, secure=False")
B("K04", C, "return TCPConnectionData(hostname=purl.hostname, port=purl.port, cost=cost or", "return TCPConnectionData(hostname=purl.hostname, port=purl.port, cost=")
B("K04", C, "handshake_data[\"password\"] = purl.password", "handshake_data[\"username\"] = purl.password")
B("K04", C, "    return UnixSocketServer(data.path, data.cost, data.handshake_data)", "    return UnixSocketServer(data.path, data.cost, {})")
B("K04", C, "    case _: raise ValueError(\"Invalid url scheme!\")", "    case _: return UnixConnectionData(path=get_node_socket_path(None), cost=DEFAULT_COSTS.NODE, handshake_data={})")
B("K04", C, "asyncio.open_connection(data.hostname, data.port)", "asyncio.open_connection(\"localhost\", data.port)")
B("K04", C, "return RawConnectionLink(connection, data.cost)", "return RawConnectionLink(connection, DEFAULT_COSTS.TCP)")
B("K04", C, "    scheme = \"wss\" if self.secure else \"ws\"", "    scheme = \"ws\" if self.secure else \"wss\"")
B("K04", C, "websockets.serve(self.on_connection, host=self.host, port=self.port)", "websockets.serve(self.on_connection, port=self.port)")
K("K04", C, "    case \"ws\": return WebsocketConnectionData(hostname=purl.hostname, port=purl.port, cost=cost or DEFAULT_COSTS.WEBSOCKET, handshake_data=handshake_data, secure=False)\n    case \"wss\": return WebsocketConnectionData(hostname=purl.hostname, port=purl.port, cost=cost or DEFAULT_COSTS.WEBSOCKET, handshake_data=handshake_data, secure=True)\n", "    case \"ws\" | \"wss\": return WebsocketConnectionData(hostname=purl.hostname, port=purl.port, cost=cost or DEFAULT_COSTS.WEBSOCKET, handshake_data=handshake_data, secure=purl.scheme == \"wss\")\n")
K("K04", C, "    return f\"{scheme}://{self.hostname}:{self.port}\"", "    return scheme + \"://\" + self.hostname + \":\" + str(self.port)")
K("K04", C, "    rw = await asyncio.open_unix_connection(data.path)\n    connection = RawStreamConnection(*rw)", "    reader, writer = await asyncio.open_unix_connection(path=data.path)\n    connection = RawStreamConnection(reader, writer)")
K("K01 K04", C, "  await connection.init_client(data.handshake_data)\n  return RawConnectionLink(connection, data.cost)", "  return await _init_link(connection, data)\n\nasync def _init_link(connection, data):\n  await connection.init_client(data.handshake_data)\n  return RawConnectionLink(connection, data.cost)")
# ---- K05
B("K05", C, "    self.on_closed.append(connection.close)\n", "")
B("K05", C, "      self.on_connected()\n      link.on_closed.append(self.on_disconnected)\n    except", "      self.on_connected()\n    except")
B("K05", C, "      link.on_closed.append(close_event.set)\n      await close_event.wait()\n", "")
B("K05", C, "      self._running_event.clear()\n      await self.shutdown()", "      self._running_event.clear()")
B("K05", C, "      await close_event.wait()\n    except BaseException as e:", "      await close_event.wait()\n    except ConnectionError as e:")
K("K05", C, "      link.on_closed.append(self.on_disconnected)\n      link.on_closed.append(close_event.set)\n", "      link.on_closed.extend([self.on_disconnected, close_event.set])\n")
K("K05", C, "    self.on_closed.append(connection.close)\n", "    self.on_closed.append(lambda: connection.close())\n")
