# A07
V = "system/task_web.py"
B("A07", V, "reg: TaskInstance = await self.tm_client.get_task(id)\n    return self._metadata_to_router(reg.metadata)", "if id not in self.known:\n      reg: TaskInstance = await self.tm_client.get_task(id)\n      self.known[id] = self._metadata_to_router(reg.metadata)\n    return self.known[id]", "kept")
B("A07", V, "reg: TaskHostRegistration = await self.tm_client.get_task_host(id)\n    return self._metadata_to_router(reg.metadata)", "if (router := self.hosts.get(id)) is None:\n      reg: TaskHostRegistration = await self.tm_client.get_task_host(id)\n      self.hosts[id] = router = self._metadata_to_router(reg.metadata)\n    return router", "host kept")
B("A07", V, "@router.transport_route(\"/task/{id}/{path*}\")\n    @path_rewrite_handler(\"/{path*}\")", "@router.transport_route(\"/task/{id}/{path*}\")\n    @path_rewrite_handler(\"{path*}\")", "no slash")
B("A07", V, "@router.transport_route(\"/task/{id}/{path*}\")\n    @path_rewrite_handler(\"/{path*}\")", "@router.transport_route(\"/task/{id}/{path*}\")\n    @path_rewrite_handler(\"/{id}/{path*}\")", "id left")
B("A07", V, "@router.transport_route(\"/task-host/{id}/{path*}\")\n    @path_rewrite_handler(\"/{path*}\")", "@router.transport_route(\"/task-host/{id}/{path*}\")", "not rewritten")
B("A07", V, "if ctx.path.startswith(reg.path):", "if reg.path in ctx.path:", "anywhere")
B("A07", V, "ctx.path[len(reg.path) - 1:] }", "ctx.path[len(reg.path):] }", "slash lost")
B("A07", V, "{ **ctx.scope, \"path\": ctx.path[len(reg.path) - 1:] }", "{ **ctx.scope, \"path\": ctx.path[len(reg.path) - 1:], \"query_string\": b\"\" }", "query lost")
B("A07", V, "for reg in self.path_registrations:\n        if ctx", "for reg in reversed(self.path_registrations):\n        if ctx", "last first")
B("A07", V, "[ reg for reg in self.path_registrations if reg.id != body.id ] + [ body ]", "[ reg for reg in self.path_registrations if reg.path != body.path ] + [ body ]", "by path")
B("A07", V, "[ reg for reg in self.path_registrations if reg.id != body.id ] + [ body ]", "self.path_registrations + [ body ]", "twice")
B("A07", V, "[ reg for reg in self.path_registrations if reg.id != data.id]", "[ reg for reg in self.path_registrations if reg.id == data.id]", "others removed")
B("A07", V, "    if MetadataFields.ASGISERVER in metadata:\n", "    if len(router._handlers) == 0 and MetadataFields.ASGISERVER in metadata:\n", "files or application")
B("A07", V, "if isinstance(v, str) and k.lower().startswith(\"file:\")", "if isinstance(v, str) and k.startswith(\"file:\")", "case")
B("A07", V, "((k[5:], v) for", "((k, v) for", "prefix kept")
B("A07", V, "str_to_endpoint(metadata[MetadataFields.ASGISERVER])", "str_to_endpoint(metadata[MetadataFields.ASGISERVER])[0]", "port lost")
B("A07", V, "      await ctx.next()\n\n    router.add_handler(static", "      await ctx.respond_status(404)\n\n    router.add_handler(static", "no files")
B("A07", V, "await self.tm_client.get_task(id)", "await self.tm_client.get_task(self.last_id)", "other id")
K("A07", V, "reg: TaskInstance = await self.tm_client.get_task(id)\n    return self._metadata_to_router(reg.metadata)", "return self._metadata_to_router((await self.tm_client.get_task(id)).metadata)", "one line")
K("A07", V, "ctx.path[len(reg.path) - 1:] }", "\"/\" + ctx.path[len(reg.path):] }", "slash added")
K("A07", V, "ctx.path[len(reg.path) - 1:] }", "\"/\" + ctx.path.removeprefix(reg.path) }", "removeprefix")
K("A07", V, "      for reg in self.path_registrations:\n        if ctx.path.startswith(reg.path):\n          return await ctx.delegate(ASGIProxyApp(self.client, reg.endpoint), { **ctx.scope, \"path\": ctx.path[len(reg.path) - 1:] })\n      await ctx.next()\n", "      reg = next((r for r in self.path_registrations if ctx.path.startswith(r.path)), None)\n      if reg is None: await ctx.next()\n      else:\n        app = ASGIProxyApp(self.client, reg.endpoint)\n        await ctx.delegate(app, { **ctx.scope, \"path\": ctx.path[len(reg.path) - 1:] })\n", "next")
K("A07", V, "    for (path, content) in ((k[5:], v) for k, v in metadata.items() if isinstance(v, str) and k.lower().startswith(\"file:\")):\n", "    for key, content in metadata.items():\n      if not isinstance(content, str) or not key.lower().startswith(\"file:\"): continue\n      path = key[5:]\n", "loop")
K("A07", V, "    if MetadataFields.ASGISERVER in metadata:\n      router.add_handler(ASGIProxyApp(self.client, str_to_endpoint(metadata[MetadataFields.ASGISERVER])))", "    server = metadata.get(MetadataFields.ASGISERVER, None)\n    if server is not None:\n      proxy = ASGIProxyApp(self.client, str_to_endpoint(server))\n      router.add_handler(proxy)", "get")
K("A07", V, "      await ctx.delegate(await self.get_task_asgi_handler(id))", "      handler = self._metadata_to_router((await self.tm_client.get_task(id)).metadata)\n      await ctx.delegate(handler)", "inline")
K("A07", V, "    @path_rewrite_handler(\"/{path*}\")\n    @transport_context_handler\n    async def _(ctx: TransportContext):\n      id: UUID4 = UUID(ctx.params.get(\"id\", \"\"))\n      await ctx.delegate(await self.get_task_asgi_handler(id))", "    @transport_context_handler\n    async def _(ctx: TransportContext):\n      id: UUID4 = UUID(ctx.params.get(\"id\", \"\"))\n      await ctx.delegate(await self.get_task_asgi_handler(id), { **ctx.scope, \"path\": f\"/{ctx.params['path']}\" })", "own rewriting")
K("A07", V, "self.path_registrations = [ reg for reg in self.path_registrations if reg.id != body.id ] + [ body ]", "others = [ reg for reg in self.path_registrations if reg.id != body.id ]\n      others.append(body)\n      self.path_registrations = others", "append")
