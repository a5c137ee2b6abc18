CF = ["streamtasks/client/__init__.py", "streamtasks/client/receiver.py"]
P("C01", "Every enabled receiver is handed every message, whatever others do",
  "While a receiver is started, every message its client receives is handed to it exactly once, except topic messages of topics the client has not subscribed to. A receiver that fails on a message neither ends delivery nor keeps that message from the others; starting and stopping receivers in any order, failed or cancelled starts included, leaves a running delivery for every started receiver and none for stopped ones, and a receiver unsubscribes exactly what it subscribed.",
  ["inputs", "schedules", "histories", "fault_sequences"], "all messages, any interleaving of starting and stopping receivers, failures and cancellations at every await",
  "Tests use receivers that never fail and that start and stop one after another.",
  CF, [("receive loop and its task", "streamtasks/client/__init__.py Client enable_receiver, disable_receiver, _task_receive"), ("start and stop counting", "streamtasks/client/receiver.py Receiver")],
  [("enabled receivers", "receivers that get messages", "Client._receivers"), ("start count", "nested starts of a receiver", "Receiver")], ["Receiver.on_message"],
  AI + ": every path of the loop with every receiver failure injected, and of starting and stopping with failures and cancellations at each await; the paths are evaluated for every start count", NOTE)
P("C02", "Announcements of a client match its use of topics and its address",
  "Registering or unregistering topics sends one announcement with exactly the topics whose first use began or whose last use ended, as provided or as subscribed topics respectively, and none when there are no such topics. Setting a client's address announces exactly the difference between the old and the new address and stores the new one; own topics and the own address are announced at cost zero.",
  ["inputs", "histories"], "all collections of topics, all counts of earlier uses, all old and new addresses including none and 0",
  "Tests register each topic once and set one address.",
  CF, [("announcing", "streamtasks/client/__init__.py Client register_*/unregister_*, set_address")], [("use counts", "uses per topic", "Client in/out topic trackers")], ["messages sent on the client's link"],
  AI + ": every path, with the tracker's outcome and the addresses as symbolic values, evaluated for none, one and several changed topics and for all pairs of addresses", NOTE)
P("C04", "Every handled request gets exactly one right answer, servers keep serving",
  "A request whose handler runs is answered exactly once, at the endpoint the request names: by the handler, or after it with a plain success when it completed without answering and an error when it failed, and never a second time. No failure of a handler ends a fetch or signal server (a cancellation does, and it stops receiving then); a server takes in exactly the valid messages on its own port whose descriptor has a handler, and runs that handler with what was sent.",
  ["inputs", "fault_sequences"], "all messages, all kinds of handler failures before and after answering",
  "Tests call handlers that answer properly; a handler that fails after it answered, or a malformed message, is not sampled.",
  ["streamtasks/client/fetch.py", "streamtasks/client/signal.py"], [("servers and their dispatch", "streamtasks/client/fetch.py FetchServer, FetchRequest; streamtasks/client/signal.py SignalServer")], [("answered flag", "whether a request was answered", "FetchRequest.response_sent")], ["responses sent"],
  AI + ": every path of the serve loop with each kind of failure injected into the handler, of accepting messages with invalid ones injected, and of answering and routing", NOTE)
P("C05", "A fetch gets its own response or raises, and leaves nothing behind",
  "A fetch listens on a port of its own before its request is sent, takes only a valid response on that port, returns exactly its body or raises the error it carries, and stops listening exactly once however it ends; without a local address it is refused before anything is sent. Ports handed out stay inside their range above all well-known ports and do not repeat before the range is used up, and an addressed send goes to the given port of the given or resolved address with the given data.",
  ["inputs", "schedules", "fault_sequences"], "all responses and endpoints, failures and cancellations at every await, any number of concurrent fetches",
  "Tests await one fetch at a time that succeeds.",
  ["streamtasks/client/__init__.py", "streamtasks/client/fetch.py", "streamtasks/utils.py", "streamtasks/net/__init__.py"], [("fetching and addressed sending", "streamtasks/client/__init__.py Client.fetch, send_to, get_free_port"), ("response receiver", "streamtasks/client/fetch.py FetchReponseReceiver"), ("id generator", "streamtasks/utils.py IdGenerator")], [("next port", "next free port", "IdGenerator")], ["Client.fetch", "Client.send_to"],
  AI + ": every path with failures injected at each await; the port generator's transition function is extracted and evaluated over whole ranges", NOTE)
SVC = ["streamtasks/services/discovery.py", "streamtasks/client/discovery.py", "streamtasks/client/__init__.py"]
P("C06", "Topic ids and addresses are handed out once and only to their requester",
  "For any requested number the discovery service hands out exactly that many ids (none for a negative number), none of which it handed out before in the same run and none of which is a well-known one, and it answers a request with exactly those. A client takes only the answer to its own request, refuses an answer with another number of ids, and registers or takes over exactly the ids it was given.",
  ["inputs", "histories", "schedules"], "all requested numbers, all sequences of requests, concurrent requests of several clients without an address",
  "Tests request small positive numbers once.",
  SVC, [("handing out ids", "streamtasks/services/discovery.py DiscoveryWorker generate_topic_ids, generate_addresses and their handlers"), ("requesting", "streamtasks/client/discovery.py request_addresses, ResolveAddressesReceiver; Client.request_topic_ids, request_address")], [("counters", "next unused id", "DiscoveryWorker")], ["discovery answers", "Client.request_topic_ids", "Client.request_address"],
  AI + ": the generators' transition functions extracted and evaluated over request sequences, handlers and request functions on every path", NOTE + " That a counter does not overflow is not considered.")
P("C10", "A registered name leads to its address exactly while it is registered",
  "The discovery service stores a name with its address before announcing that pair, answers a resolution with the stored address of the asked name or none, and forgets exactly an unregistered name. A client resolves a name from its cache or by asking and never remembers an unanswered one; while a name context is entered its name is registered for the given or own address, however it is left the name is unregistered and forgotten by the client, a client waiting for a name listens before it asks and stops listening, and no two services use the same name.",
  ["inputs", "histories", "schedules", "fault_sequences"], "all names and addresses, any order of registering and waiting, failures and cancellations at every await",
  "Tests register and resolve one name in order.",
  SVC + ["streamtasks/services/constants.py"], [("name registry", "streamtasks/services/discovery.py DiscoveryWorker"), ("names in clients", "streamtasks/client/discovery.py register/unregister/resolve/wait, address_name_context; Client.resolve_address_name")], [("registry", "address of each registered name", "DiscoveryWorker"), ("name cache", "known addresses", "Client")], ["discovery answers and signals", "Client.resolve_address_name"],
  AI + ": handlers and client functions on every path with failures and cancellations injected at each await, mapping changes tracked symbolically", NOTE)
P("C11", "Topic spaces and broadcasts map to exactly their own topics",
  "Registering a topic space maps every given topic to an id handed out for it under an id no other space has; requesting, translating and deleting affect exactly the space asked for, and an unknown space is answered with an error. A broadcaster has one announced topic per namespace that was asked for, answers exactly the topics of the requested namespaces, broadcasts data only on the topic of its namespace and withdraws all topics however serving ends; a receiver subscribes the topics it was answered, unsubscribes the same ones, and takes in exactly their data messages with the namespace they belong to.",
  ["inputs", "histories", "fault_sequences"], "all sets of topics and namespaces, any order of requests, failures and cancellations while serving",
  "Tests use one space and one or two namespaces, stopped regularly.",
  SVC + ["streamtasks/client/broadcast.py"], [("topic spaces", "streamtasks/services/discovery.py topic space handlers; streamtasks/client/discovery.py"), ("broadcasts", "streamtasks/client/broadcast.py BroadcastingServer, BroadcastReceiver")], [("spaces", "topic map per space id", "DiscoveryWorker"), ("namespace topics", "topic per namespace", "BroadcastingServer")], ["discovery answers", "broadcast messages"],
  AI + ": handlers, client functions and the serving context on every path with failures injected, mapping changes tracked symbolically", NOTE)
TO = ["streamtasks/client/topic.py", "streamtasks/utils.py"]
P("C08", "Synchronised topics hand out data in time order and never stall one another",
  "A synchronised input topic hands out a data message only once no unpaused topic in sync is behind its timestamp and, where priorities are set, no topic of higher priority at that timestamp still has a message at hand; it refuses exactly data without a timestamp and data older than the last of its own topic. Pausing a topic takes it out of this waiting, resuming it joins at the earliest time of the others, and every change that lets a waiting message through wakes it. Control messages and costs are handed out at once.",
  ["inputs", "schedules", "histories"], "all orders of messages, pauses and priority changes on any set of synchronised topics",
  "Tests send a few messages on two topics in one order.",
  TO, [("synchronisers", "streamtasks/client/topic.py SequentialInTopicSynchronizer, PrioritizedSequentialInTopicSynchronizer"), ("receiving", "streamtasks/client/topic.py _SynchronizedInTopicReceiver"), ("waking", "streamtasks/utils.py AsyncTrigger")], [("times", "time of the last message per topic in sync", "synchroniser"), ("finished topics", "topics without a message at hand", "synchroniser"), ("priorities", "priority per topic", "synchroniser")], ["messages handed out by a synchronised topic"],
  AI + ": every path of the synchronisers, with everything known about the shared state forgotten at each wait, followed on a small domain of states (three topics, their times, priorities and finished sets) and compared with the rule of order", NOTE + " The order of finished computation is decided per call from the state; that a sender keeps sending is not considered.")
P("C09", "Topic objects reflect the state of their topic and register symmetrically",
  "An input topic's cost and paused state are those of the last announcement and control message for its topic, an output topic's requested state is that of the last subscription message; setting the paused state of an output topic sends one control message with the new state exactly when it changed. Registering announces the topic exactly when the registration changes and is remembered only once announced; registration contexts of a topic or of any iterable of topics undo exactly what they did and swallow no error. Whoever waits for a flag to have a value it already has does not wait, and every change of a flag wakes those who wait.",
  ["inputs", "histories", "fault_sequences"], "all messages and announcements, all sequences of changes, failing registrations, any iterable",
  "Tests switch each state once, with lists of topics.",
  TO, [("topic objects", "streamtasks/client/topic.py InTopic, OutTopic and their receivers"), ("contexts", "streamtasks/client/topic.py _TopicRegisterContext, InTopicsContext, OutTopicsContext; Client.in_topics_context, out_topics_context"), ("flags", "streamtasks/utils.py AsyncBool, AsyncTrigger")], [("paused, cost, requested, registered", "state of a topic object", "topic objects")], ["InTopic.cost, is_paused", "OutTopic.is_requested, set_paused", "messages sent on the client's link"],
  AI + ": every path of handling messages, of pausing and registering with failures injected, followed on concrete messages of every kind with and without the topic and compared with the specified state", NOTE)
P("C07", "What is sent is what the other side expects",
  "Every request, signal and broadcast sent by a part of the system has a counterpart of the same kind that handles it, carries every value its handler requires in a form it accepts, and is answered with what the requester requires. Everything sent can be encoded for a connection between nodes and decoded again at the other end. Handlers compare identifiers only with identifiers of the same kind.",
  ["programs", "inputs", "configurations"], "all requests, signals and broadcasts in the code, all values of their types, over local and remote connections",
  "Tests exchange few of the messages, over local links that do not encode them.",
  CF + ["streamtasks/services/discovery.py", "streamtasks/system/task.py", "streamtasks/system/task_web.py", "streamtasks/system/secret_manager.py", "streamtasks/system/named_topic_manager.py"],
  [("requests and handlers", "every Client.fetch, send_signal and broadcast call; every FetchServer and SignalServer route; every BroadcastReceiver"), ("models", "pydantic models of the messages")], [], ["fetch answers and errors", "signals", "broadcast messages"],
  AI + ": every handler and every function that asks is followed on every path; the types of the bodies sent are derived from the models and compared with those the other side validates", "Bodies whose type cannot be derived are accepted; values within a type are other properties' business.")
