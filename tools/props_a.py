AF = ["streamtasks/asgi.py", "streamtasks/asgiserver.py"]
P("A04", "Every request is answered exactly once, failed ones with the right status",
  "Every http request gets exactly one complete response. A request whose handling fails is answered with 400 for bad values and invalid bodies, 404 for something missing or when no route matches, the status of the answer another node gave (not found 404, bad request 400, anything else 500), and 500 for every other error; a websocket whose handling fails is closed. Every application served by a node answers its errors this way, and every route of it answers on every way through it that neither fails nor passes the request on.",
  ["inputs", "fault_sequences"], "all requests to all applications and routes, any exception raised while one is handled",
  "Tests request a few routes that succeed; errors raised below a handler, answers of other nodes, and applications without the error handler do not occur.",
  AF + ["streamtasks/system/task_web.py", "streamtasks/system/connection_manager.py", "streamtasks/system/named_topic_manager.py", "streamtasks/system/secret_manager.py"], [("server", "streamtasks/asgiserver.py ASGIServer"), ("errors", "streamtasks/asgi.py asgi_default_http_error_handler"), ("routes", "every function that adds routes to an ASGIRouter")], [("response", "events sent for a request", "HTTPContext")], ["responses", "closed websockets"],
  AI + ": every path through a server with the error handler and a handler that raises each kind of exception, and of every route handler; the events sent are counted and their status compared", NOTE + " A handler that fails after its response has started is not judged.")
P("A05", "Requests reach the first handler they are for, unchanged",
  "The handlers of an application are asked in the order they were added; one that passes a request on reaches the next one, however often it does so, and after the last one the request is found to have no handler. A route handles exactly the requests of its kind, one of its methods (in whatever case they were given) and a path its pattern matches (which ones a pattern matches is not part of this), and gets the parameters found in it; every other request is passed on. A handler gets the request as it came (only a rewriting changes its path, to the one made of its parameters, and nothing else), events pass through unchanged in both directions, and what the caller passed is not changed.",
  ["inputs", "programs"], "all requests of any kind, method and path; any handlers in any order, some of which pass requests on",
  "Tests route a few requests to single handlers; passing on twice, other kinds of requests and methods, and nested applications do not occur.",
  AF, [("handlers", "streamtasks/asgiserver.py ASGINext, ASGIHandlerStack, ASGIRouter"), ("routes", "streamtasks/asgiserver.py HTTPRoute, WebsocketRoute, TransportRoute"), ("rewriting", "streamtasks/asgiserver.py path_rewrite")], [("scope", "what is known of a request, with the state of its handlers", "ContextBase")], ["calls of handlers", "scopes and events handlers get"],
  AI + ": every path through stacks and routers built of opaque handlers, for each kind of request and each method; which handler is called, with which scope and events", NOTE + " Which paths a pattern matches is not judged.")
P("A01", "Requests tunnelled to another node are whole and end with either side",
  "A request tunnelled over the network reaches an application of its own on the serving node, with the scope it came with; the events of the request reach that application, and its events reach the caller, each once, in order and on ports no other tunnel uses, also while other tunnels are open. The tunnel ends when the application ends, however it ends, when the request is disconnected, or when something fails, which the caller is told. When it has ended neither side still listens for it or runs tasks for it, and a serving node that stops ends the applications of its tunnels.",
  ["schedules", "inputs", "fault_sequences"], "all requests and applications, all sequences and batches of events in both directions, any failure or cancellation on either side",
  "Tests tunnel a few short requests that succeed; applications that fail, tunnels that are refused, disconnected or cancelled, and several tunnels at once do not occur.",
  ["streamtasks/asgi.py"], [("sending end", "streamtasks/asgi.py ASGIProxyApp"), ("serving end", "streamtasks/asgi.py ASGIAppRunner"), ("messages", "streamtasks/asgi.py ASGIEventReceiver, ASGIEventSender")], [("tunnel", "ports and queues of the two ends", "ASGIConnectionConfig")], ["messages sent", "events handed to applications and callers"],
  AI + ": every path through both ends, run against modelled queues, signals and tasks with scripted messages and injected failures; the sequence of messages, events, listening and ended tasks is compared with the required one", NOTE + " Messages are assumed to arrive in order and none to be lost.")
P("A02", "Values sent through a tunnel arrive as they were",
  "What is encoded for a tunnel and decoded on the other side is equal to the original, in type and value: text, numbers, truth values, bytes and nothing, and lists, tuples, sets and mappings of them nested in any way, also those that look like an encoded value. A value of any other type arrives as nothing and does not make the rest fail. What is sent only consists of values the encoding carries.",
  ["inputs"], "all values of the carried types, nested to any depth, for both encodings",
  "Tests send a few scopes and events; tuples and sets in lists, lists that begin with a type name, empty containers and unknown types do not occur.",
  ["streamtasks/asgi.py"], [("encodings", "streamtasks/asgi.py ValueTransformer, JSONValueTransformer, MessagePackValueTransformer")], [], ["encoded values", "decoded values"],
  "structural induction by " + AI + ": decoding is composed with encoding for every type of leaf and for containers of unknown members, whose own way is the hypothesis", NOTE)
P("A03", "Static files are served from within their directory only",
  "A handler that serves the files of a directory answers with a file only if it lies within that directory with all links followed, whatever the path of the request. A path that names a file gets that file, one that names a directory the first of its index files, in the given order, that exists. Every other request is answered as not found (404), and a handler that serves a single file answers every request with that file.",
  ["inputs", "configurations"], "all paths of requests, any files, directories and links, any list of index files",
  "Tests serve one file of a directory; paths that lead outside, links, directories without an index file and several index files do not occur.",
  ["streamtasks/asgiserver.py"], [("files", "streamtasks/asgiserver.py static_files_handler, static_file_handler")], [], ["files given to the response", "status of the response"],
  AI + ": every path through the handlers for an opaque request path, with what is known on it about each path that is served or refused", NOTE + " Files that change while a request is answered are not judged.")
P("A06", "Request and response bodies arrive whole",
  "The body a handler reads is made of the parts the client sent, in order, up to the last one or until the client is gone, and nothing more is taken from the client. What a handler writes to a response is sent once, in order and with one last part; texts, json, buffers and files (of any size, read in pieces of any size) are sent whole, with the length, type and charset they are announced with and the headers added before. Text is read whole, in the charset the client stated (utf-8 if none), and only if it is of an allowed type.",
  ["inputs", "histories"], "all bodies in parts of any size and number, clients that leave, all contents and files, any piece size that is -1 or positive",
  "Tests send and receive short bodies in one part; empty parts, bodies in several parts, clients that leave, empty files and files that end with a full piece do not occur.",
  ["streamtasks/asgiserver.py"], [("reading", "streamtasks/asgiserver.py HTTPBodyReader, HTTPContext"), ("writing", "streamtasks/asgiserver.py HTTPBodyWriter, HTTPContext")], [("body", "parts received and sent", "HTTPBodyReader, HTTPBodyWriter")], ["bodies handlers read", "events sent for a response"],
  AI + ": handlers run against scripted parts of opaque data (also empty ones) and modelled buffers and files; the data read and the events sent are compared with the required ones", NOTE + " Scripts have up to four parts, files up to three pieces.")
P("A08", "Websocket sessions keep messages whole and in order",
  "A websocket is accepted once, after its client has connected, with the given protocol and all headers that were given for it. A handler gets every message the client sends, empty ones too, as text or data as it was sent, in order until the client is gone. What it sends is sent once, text as text and data as data, and a close carries the given code and reason (the one known for the code if none is given).",
  ["inputs", "histories"], "all sequences of messages of a client, text or data, also empty; all messages, codes and reasons a handler sends",
  "Tests exchange a few messages; empty ones, handlers that accept before they read messages, clients that leave early and reasons do not occur.",
  ["streamtasks/asgiserver.py"], [("sessions", "streamtasks/asgiserver.py WebsocketContext")], [("session", "is it connected and accepted", "WebsocketContext")], ["messages handlers get", "events sent to the client"],
  AI + ": handlers run against scripted events of a client with opaque texts and data; the messages read and the events sent are compared with the required ones", NOTE)
P("A07", "Requests for tasks, task hosts and registered paths reach their owner",
  "A request for a task or a task host is answered from what that task or host has registered when the request comes, not from what it had registered before: a GET for a path it registered a file for gets that file, every other request its application if it registered one, and is otherwise answered as not found. A request whose path begins with a registered path is answered by the application that was registered first for such a path. The application gets the request with the rest of its path, with one slash at its beginning, and everything else as it was; a new registration replaces the one with the same id, and removing one removes only that.",
  ["inputs", "histories"], "all requests for tasks and hosts with any files and applications registered, registered and removed paths, restarts of tasks and hosts between requests",
  "Tests do not request tasks or hosts through the web interface; files beside an application, tasks that are asked for before they start and overlapping paths do not occur.",
  ["streamtasks/system/task_web.py"], [("requests", "streamtasks/system/task_web.py TaskWebBackend.run_asgi_server"), ("registrations", "streamtasks/system/task_web.py TaskWebBackend.run_fetch_api, run_signal_api")], [("registrations", "registered paths", "TaskWebBackend.path_registrations")], ["applications requests are passed to", "scopes they get"],
  AI + ": the whole application is run for a request of each kind with what the task or host has registered given; which application is reached, with which path, scope and events, is compared with the registration", NOTE + " Which of two registered paths is longer does not matter.")
