KF = ["streamtasks/connection.py"]
P("K01", "A connection is used only after a mutually accepted handshake",
  "A server attaches a connection only if the client sent the server's own version and an authentication token equal to the server's configured one, for every connection it ever receives; the answer it sends says accepted exactly then and never contains the token. A client uses a connection only if the server answered with the client's own version and accepted, and every handshake that fails or is cancelled closes the connection and raises.",
  ["inputs", "histories", "fault_sequences"], "all handshake contents, any number of connections, failures and cancellations at every step",
  "Tests connect good clients; a comparison that lets a missing token pass, or configuration changed by the first connection, needs a specific client or a second one.",
  KF, [("handshake of both sides", "streamtasks/connection.py RawConnection.init_client / init_server"), ("places that attach or return connections", "streamtasks/connection.py on_connection handlers, connect")],
  [("handshake data", "token and extra values configured for the server, shared by its connections", "ServerBase.handshake_data")], ["Switch.add_link", "connect"],
  AI + ": equality facts on every completing path, contents of the answer as a symbolic dictionary, events on every failing path", NOTE)
P("K02", "Messages cross a connection whole and in order, failures close it",
  "What one side of a connection sends, of any size and content, the other side receives as the same bytes, also when stray bytes precede a frame: the reader resumes at the first occurrence of the sync word. Neither concurrent sends nor a cancellation can cut or interleave frames, sending never waits for a pending receive, and any failure of the transport except cancellation surfaces on the link as the connection-closed error.",
  ["inputs", "schedules", "fault_sequences"], "all byte sequences, payload sizes, interleavings of senders and receivers, transport failures",
  "Tests send small frames over a healthy transport, one at a time.",
  KF, [("framing and resynchronisation", "streamtasks/connection.py RawStreamConnection"), ("locks and shielding", "streamtasks/connection.py RawConnection.send / recv"), ("error mapping", "streamtasks/connection.py RawConnectionLink, RawWebsocketConnection")], [], ["RawConnection.send", "RawConnection.recv", "RawConnectionLink.send/recv"],
  AI + "; writer and reader codecs compared, the search loop extracted as a finite automaton and compared with the string-matching automaton of the sync word, lock regions on every path", NOTE + " The search automaton is only extracted from loops that read byte by byte and keep finite constant state; others are noted as undecided in the evidence.")
P("K03", "A reconnecting connection never gives up and never doubles",
  "However an attempt to connect or the attachment of a link fails because the peer is away, refuses or closes, the reconnector pauses for its delay and tries again, until it is stopped. It connects anew only after its current link closed, counts as connected exactly while a link is attached and open, and shuts its switch down when it stops.",
  ["fault_sequences", "histories"], "all failure kinds at every step, any number of reconnects, cancellation at every step",
  "Tests reconnect once after one kind of failure.",
  KF, [("reconnect loop", "streamtasks/connection.py AutoReconnector.run")], [("connected flag", "whether a link is attached and open", "AutoReconnector._async_connected")], ["AutoReconnector.connected", "connect attempts"],
  AI + ": every path of one loop round with every failure kind injected at every await", NOTE)
P("K04", "A url means the same transport, address and cost on both ends",
  "Each supported url scheme (none, node, unix, tcp, ws, wss) is understood by client and server as the same transport, at the host and port, path or node name the url gives, and any other scheme is refused. User name, password and single query values of the url become handshake data, and a numeric cost in the url, else the default of the transport, becomes the cost of the links on both ends.",
  ["inputs", "configurations"], "all urls",
  "Tests use two or three fixed urls.",
  KF, [("url parsing", "streamtasks/connection.py extract_connection_data_from_url"), ("opening and serving", "streamtasks/connection.py connect, create_server, *Server.run_server")], [], ["connect", "create_server"],
  AI + ": the parsed url, opened transport and listening address as symbolic terms, compared per scheme", NOTE + " urllib's parsing is trusted.")
P("K05", "Connections and links of a server live and end together",
  "Closing a link closes its connection, and a websocket stays open until its link closes. A server counts exactly the attached connections, no failure of a single connection leaves its handler, and however a server ends it stops counting as running and its switch is shut down.",
  ["fault_sequences", "histories"], "failures and cancellations at every step of any connection",
  "Tests connect and disconnect cleanly.",
  KF, [("connection handlers and server run", "streamtasks/connection.py ServerBase, StreamServerBase, WebsocketServer"), ("link wrapper", "streamtasks/connection.py RawConnectionLink")], [("connection count", "attached connections", "ServerBase._connection_count")], ["ServerBase.connection_count", "ServerBase.running"],
  AI + ": events on every path of the handlers with failures injected at every await; registered close handlers are applied symbolically", NOTE)
