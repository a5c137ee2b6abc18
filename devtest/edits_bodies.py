W = "asgiserver.py"
# A03
CONT = "    if directory_path not in request_path.parents and directory_path != request_path: return await ctx.respond_status(404)\n"
IDX = "    if request_path.is_dir(): request_path = next((p for p in (request_path.joinpath(idx_file).resolve() for idx_file in index_files) if p.exists()), None)\n"
FIN = "    if request_path is None or directory_path not in request_path.parents or not request_path.exists() or request_path.is_dir(): return await ctx.respond_status(404)\n"
B("A03", W, "request_path is None or directory_path not in request_path.parents or not", "request_path is None or not", "index not contained")
B("A03", W, "directory_path.joinpath(ctx.path.lstrip(\"/\\\\\")).resolve()\n" + CONT, "directory_path.joinpath(ctx.path.lstrip(\"/\\\\\"))\n" + CONT, "links not followed")
B("A03", W, CONT + IDX + FIN, "    if not str(request_path).startswith(str(directory_path)): return await ctx.respond_status(404)\n" + IDX.replace(".resolve()", "") + "    if request_path is None or not request_path.exists() or request_path.is_dir(): return await ctx.respond_status(404)\n", "prefix")
B("A03", W, CONT + IDX + FIN, "    if request_path.is_dir(): request_path = next((p for p in (request_path.joinpath(idx_file) for idx_file in index_files) if p.exists()), None)\n    if request_path is None or not request_path.exists() or request_path.is_dir(): return await ctx.respond_status(404)\n", "none at all")
B("A03", W, "joinpath(ctx.path.lstrip(\"/\\\\\"))", "joinpath(ctx.path.lstrip(\"/\\\\\").split(\"/\")[-1])", "last part only")
B("A03", W, "for idx_file in index_files) if p.exists()", "for idx_file in reversed(index_files)) if p.exists()", "last index")
B("A03", W, IDX, "", "no index")
B("A03", W, " or not request_path.exists() or request_path.is_dir()", " or request_path.is_dir()", "missing fails")
B("A03", W, " or not request_path.exists() or request_path.is_dir()", " or not request_path.exists()", "directory served")
B("A03", W, FIN, FIN.replace("ctx.respond_status(404)", "ctx.respond_status(403)"), "403")
B("A03", W, "    if request_path.is_dir(): request_path = next(", "    if request_path.is_dir() and request_path == directory_path: request_path = next(", "root index only")
K("A03", W, CONT, "    if not request_path.is_relative_to(directory_path): return await ctx.respond_status(404)\n", "relative")
K("A03", W, IDX, "    if request_path.is_dir():\n      found = None\n      for name in index_files:\n        candidate = (request_path / name).resolve()\n        if candidate.exists():\n          found = candidate\n          break\n      request_path = found\n", "loop")
K("A03", W, FIN, "    if request_path is None: return await ctx.respond_status(404)\n    if not request_path.is_relative_to(directory_path) or not request_path.is_file(): return await ctx.respond_status(404)\n", "is_file")
K("A03", W, "  @http_context_handler\n  async def handler(ctx: HTTPContext):\n    request_path = ", "  def contained(p): return directory_path == p or directory_path in p.parents\n\n  @http_context_handler\n  async def handler(ctx: HTTPContext):\n    request_path = ", "unused helper")
K("A03", W, FIN + "    await ctx.delegate(static_file_handler(request_path, response_buffer_size=response_buffer_size))\n", "    if request_path is not None and directory_path in request_path.parents and request_path.exists() and not request_path.is_dir():\n      await ctx.respond_file(request_path, buffer_size=response_buffer_size)\n    else: await ctx.respond_status(404)\n", "inverted")
# A06
B("A06", W, "    while not self._ended: body.write(await self.read())\n", "    body.write(await self.read())\n", "first part")
B("A06", W, "      self._ended = not event.get(\"more_body\", False)\n      return event.get(\"body\", b\"\")", "      self._ended = not event.get(\"more_body\", True)\n      return event.get(\"body\", b\"\")", "default more")
B("A06", W, "      self._ended = not event.get(\"more_body\", False)\n      return event.get(\"body\", b\"\")", "      body = event.get(\"body\", b\"\")\n      self._ended = len(body) == 0\n      return body", "ends on empty")
B("A06", W, "    if event_type == \"http.disconnect\": self._ended = True\n", "", "disconnect")
B("A06", W, "return event.get(\"body\", b\"\")\n    return", "return event[\"body\"] if self._ended else b\"\"\n    return", "last part only")
B("A06", W, "  @functools.cached_property\n  def body(self)", "  @property\n  def body(self)", "a reader each time")
B("A06", W, "    self._buffer.truncate(0)\n", "", "kept")
B("A06", W, "    self._buffer.seek(0)\n    self._buffer.truncate(0)\n", "    self._buffer.truncate(0)\n", "no seek")
B("A06", W, "      \"more_body\": not close\n", "      \"more_body\": close\n", "inverted")
B("A06", W, "  async def close(self): await self.flush(True)", "  async def close(self): await self.flush()", "never ends")
B("A06", W, "(b\"content-length\", str(len(content)).encode(\"utf-8\"))", "(b\"content-length\", str(len(content) + 1).encode(\"utf-8\"))", "length")
B("A06", W, "await self.respond_buffer(status, text.encode(\"utf-8\"), mime_type, \"utf-8\")", "await self.respond_buffer(status, text.encode(\"latin-1\"), mime_type, \"utf-8\")", "charset")
B("A06", W, "mime_type=\"application/json\", charset=encoding)", "mime_type=\"application/json\")", "charset lost")
B("A06", W, "async def respond_json_string(self, json_string: str, status: int = 200): await self.respond_text(json_string, mime_type=\"application/json\", status=status)", "async def respond_json_string(self, json_string: str, status: int = 200): await self.respond_text(json_string, mime_type=\"application/json\")", "status lost")
B("A06", W, "while len(buf := fd.read(buffer_size)) == buffer_size:", "while len(buf := fd.read(buffer_size)) >= buffer_size:", "endless")
B("A06", W, "      while len(buf := fd.read(buffer_size)) == buffer_size:\n        writer.write(buf)\n        await writer.flush()\n      writer.write(buf)\n", "      while len(buf := fd.read(buffer_size)) == buffer_size:\n        writer.write(buf)\n        await writer.flush()\n", "tail lost")
B("A06", W, "      while len(buf := fd.read(buffer_size)) == buffer_size:\n        writer.write(buf)\n        await writer.flush()\n      writer.write(buf)\n", "      buf = fd.read(buffer_size)\n      writer.write(buf)\n", "one chunk")
B("A06", W, "    mime_type = mime_type or mimetypes.guess_type(path)[0]\n", "    mime_type = mimetypes.guess_type(path)[0] or mime_type\n", "guessed first")
B("A06", W, "      (b\"content-length\", str(st.st_size).encode(\"utf-8\")),", "      (b\"content-length\", str(st.st_blocks).encode(\"utf-8\")),", "blocks")
B("A06", W, "ct_params.get(\"charset\", \"utf-8\")", "ct_params.get(\"charset\", \"latin-1\")", "default charset")
B("A06", W, "    if mime_type not in allowed_mime_types: raise ValueError(f\"Mime type '{mime_type}' is not in allowed types!\")\n", "    if mime_type not in allowed_mime_types and len(allowed_mime_types) > 1: raise ValueError(f\"Mime type '{mime_type}' is not in allowed types!\")\n", "one type")
B("A06", W, "    data = await self.body.read_all()\n", "    data = await self.body.read()\n", "one part")
B("A06", W, "return decoder(data, \"ignore\")[0]", "return data.decode(\"utf-8\", \"ignore\")", "charset unused")
B("A06", W, "    if event_type == \"http.response.start\": event = { **event, \"headers\": event.get(\"headers\", []) + self._add_response_headers }\n    if", "    if event_type == \"http.response.start\" and self._add_response_headers: event = { **event, \"headers\": self._add_response_headers }\n    if", "headers replaced")
K("A06", W, "    body = BytesIO()\n    while not self._ended: body.write(await self.read())\n    return body.getvalue()", "    parts = []\n    while not self._ended: parts.append(await self.read())\n    return b\"\".join(parts)", "list")
K("A06", W, "    body = BytesIO()\n    while not self._ended: body.write(await self.read())\n    return body.getvalue()", "    body = b\"\"\n    while not self._ended: body += await self.read()\n    return body", "plus")
K("A06", W, "    body = BytesIO()\n    while not self._ended: body.write(await self.read())\n    return body.getvalue()", "    body = bytearray()\n    while not self.ended: body.extend(await self.read())\n    return bytes(body)", "bytearray")
K("A06", W, "      \"more_body\": not close\n    })\n    self._buffer.seek(0)\n    self._buffer.truncate(0)\n", "      \"more_body\": not close\n    })\n    self._buffer = BytesIO()\n", "new buffer")
K("A06", W, "    await self._send({\n      \"type\": \"http.response.body\",\n      \"body\": self._buffer.getvalue(),\n      \"more_body\": not close\n    })\n    self._buffer.seek(0)\n    self._buffer.truncate(0)\n", "    data = self._buffer.getvalue()\n    self._buffer.truncate(0)\n    self._buffer.seek(0)\n    event = { \"type\": \"http.response.body\", \"body\": data }\n    event[\"more_body\"] = False if close else True\n    await self._send(event)\n", "reset first")
K("A06", W, "    content_type = mime_type\n    if charset is not None: content_type += f\"; charset={charset}\"\n", "    content_type = mime_type if charset is None else f\"{mime_type}; charset={charset}\"\n", "one expression")
K("A06", W, "      while len(buf := fd.read(buffer_size)) == buffer_size:\n        writer.write(buf)\n        await writer.flush()\n      writer.write(buf)\n      await writer.flush(close=True)\n", "      while buf := fd.read(buffer_size):\n        writer.write(buf)\n        await writer.flush()\n      await writer.close()\n", "until empty")
K("A06", W, "      while len(buf := fd.read(buffer_size)) == buffer_size:\n        writer.write(buf)\n        await writer.flush()\n      writer.write(buf)\n      await writer.flush(close=True)\n", "      while True:\n        buf = fd.read(buffer_size)\n        writer.write(buf)\n        if len(buf) != buffer_size: break\n        await writer.flush()\n      await writer.close()\n", "break")
K("A06", W, "    return decoder(data, \"ignore\")[0]", "    text, _ = decoder(data, \"ignore\")\n    return text", "unpacked")
K("A06", W, "    data = await self.body.read_all()\n    return decoder(data, \"ignore\")[0]", "    return (await self.body.read_all()).decode(charset, errors=\"ignore\")", "decode")
# A08
B("A08", W, "    while self._connected:\n      event_type, data = await self.receive()\n      if event_type == \"message\" and data is not None: yield data", "    while self._connected:\n      event_type, data = await self.receive()\n      if event_type == \"message\" and data: yield data", "empty dropped")
B("A08", W, "    while self._connected:\n      event_type, data = await self.receive()\n", "    while True:\n      event_type, data = await self.receive()\n", "never ends")
B("A08", W, "    if self._accepted: return\n", "", "accepted again")
B("A08", W, "      self._accepted = True\n", "", "never accepted")
B("A08", W, "      if event_type != \"connect\": raise RuntimeError", "      if event_type == \"disconnect\": raise RuntimeError", "message accepted")
B("A08", W, "      event = { **event, \"headers\": event.get(\"headers\", []) + self._add_accept_headers }", "      event = { **event, \"headers\": event.get(\"headers\", []) }", "added headers lost")
B("A08", W, "    await self.accept(headers, subprotocol)\n    while", "    await self.accept(headers)\n    while", "protocol lost")
B("A08", W, "    if isinstance(data, str): event[\"text\"] = data\n    else: event[\"bytes\"] = data\n", "    if isinstance(data, str): event[\"bytes\"] = data.encode(\"utf-8\")\n    else: event[\"bytes\"] = data\n", "text as bytes")
B("A08", W, "\"code\": code, \"reason\": WebsocketContext", "\"code\": 1000, \"reason\": WebsocketContext", "code")
B("A08", W, "    elif event[\"type\"] == \"websocket.disconnect\": self._connected = False\n", "", "stays connected")
B("A08", W, "      event = await self._wreceive()\n      if event.get(\"type\", None) == \"websocket.disconnect\": return\n", "      event = await self._receive()\n      if event.get(\"type\", None) == \"websocket.disconnect\": return\n", "unnoticed")
K("A08", W, "    while self._connected:\n      event_type, data = await self.receive()\n      if event_type == \"message\" and data is not None: yield data", "    while True:\n      event_type, data = await self.receive()\n      if event_type == \"disconnect\": return\n      if event_type == \"message\" and data is not None: yield data", "return")
K("A08", W, "    event: dict[str, Any] = { \"type\": \"websocket.send\", \"bytes\": None, \"text\": None }\n    if isinstance(data, str): event[\"text\"] = data\n    else: event[\"bytes\"] = data\n    await self._wsend(event)", "    is_text = isinstance(data, str)\n    await self._wsend({ \"type\": \"websocket.send\", \"bytes\": None if is_text else data, \"text\": data if is_text else None })", "one expression")
K("A08", W, "    if event[\"type\"] == \"websocket.connect\": self._connected = True\n    elif event[\"type\"] == \"websocket.disconnect\": self._connected = False\n", "    match event[\"type\"]:\n      case \"websocket.connect\": self._connected = True\n      case \"websocket.disconnect\": self._connected = False\n", "match")
