P("N01", "Every wire message survives encoding and decoding unchanged",
  "Encoding any message that can travel on a link and decoding the result yields a message of the same kind with equal fields, whatever the field values are. A payload wrapper never lets its bytes and its decoded value get out of step: encoding yields the wrapped data, a declared in-place update forces re-encoding from the updated value, and a copy does not share mutable state with the original.",
  ["inputs", "histories"], "all message kinds, all field values, all orders of encode, decode, update and copy",
  "The tests encode a handful of messages; a kind left out of the type table, a swapped field or a stale cache shows up only for that kind, those values or that order of operations.",
  ["streamtasks/net/messages.py", "streamtasks/net/serialization.py"],
  [("serialize_message / deserialize_message and the type tables", "streamtasks/net/serialization.py"), ("as_dict / from_dict of each message class", "streamtasks/net/messages.py"), ("payload wrapper's lazy encode/decode caches", "streamtasks/net/serialization.py")],
  [("payload caches", "encoded bytes and decoded value of a payload, either may be absent", "RawData")], ["serialize_message", "deserialize_message", "RawData.serialize"],
  AI + ": encoder and decoder are composed symbolically per message class and the result compared field by field with the original", NOTE + " msgpack is assumed to be its own inverse on the values it accepts.")

P("N02", "Stream messages reach exactly the other subscribed links, unchanged",
  "A data or control message received on one attached link is forwarded, unchanged, to every other attached link that is subscribed to its topic and to no link that is not subscribed, and never back to the link it came from. The last control state of a topic is remembered and sent to each link that subscribes to it later.",
  ["inputs", "histories", "configurations"], "all topologies, subscription states, topics, message contents",
  "Tests use a few links and topics; a filter that is wrong for one combination of origin, subscription and topic passes them.",
  NF, [("forwarding and subscription handling of the switch", "streamtasks/net/__init__.py Switch")], [("link subscriptions", "topics each link asked for", "Link.in_topics"), ("control states", "last control message by topic", "Switch.stream_controls")], ["Link.send on each attached link"],
  AI + ": guards on every path to a forwarding send", NOTE)

P("N03", "Addressed messages and announcements follow the lowest-cost routes",
  "The switch's route table always equals what its attached links announced: an announced id is recorded at the announced cost plus the cost of the link it came over and is removed when withdrawn, and every change of the best cost or reachability is announced to all other links, including what is already known to a link that attaches. A message to a reachable address is sent, unchanged, to exactly one attached link offering that address at the lowest known cost, and a message to an unknown address is sent nowhere.",
  ["histories", "inputs", "configurations"], "all histories of announcements, withdrawals and attachments, all costs",
  "Tests check one or two static topologies; routes depend on the whole history of announcements.",
  NF, [("link-level bookkeeping of received announcements", "streamtasks/net/__init__.py Link._process_recv_message"), ("announcement handling and address routing", "streamtasks/net/__init__.py Switch")],
  [("link routes", "ids announced over a link with their cost", "Link.addresses, Link.out_topics"), ("switch routes", "counted prices per id", "PricedIdTracker")], ["Link.send on each attached link"],
  AI + ": provenance of every recorded and announced cost, and of the destination of addressed messages", NOTE + " Two recorded findings: an id announced again over the same link keeps its previous price counted.")

P("N04", "A link that goes away leaves nothing behind",
  "However receiving from an attached link ends (the peer closes it, the task is cancelled, or handling one of its messages fails), the link is closed and detached, and everything it had subscribed to, announced or was being asked for is released exactly once. The release is complete even if a send during it fails or suspends, withdrawals are announced to the remaining links, and topics others still want are requested from a remaining provider.",
  ["fault_sequences", "schedules", "histories"], "all ways a link can end, all points at which a send can fail or suspend",
  "Tests detach links in quiet states; a release that is skipped on an exception path or cut off by a cancellation leaves stale routes that surface only later.",
  NF, [("receive loop of an attached link and link removal", "streamtasks/net/__init__.py Switch._run_link_receiving, Switch.remove_link, LinkManager")], [("attached links", "links and their receiver tasks", "LinkManager")], ["Switch.in_topics", "Switch.out_topics", "Switch.addresses"],
  AI + " with exception and cancellation edges at every await", NOTE)

P("N05", "A closed link never disturbs traffic between the others",
  "While the switch handles a message, attaches or removes a link, the failure of a send to some other, closed link never propagates to the caller and never ends the receive loop of the link being served; the remaining destinations are still served. Links may attach or detach while a delivery to many links is in progress without making it fail.",
  ["fault_sequences", "schedules"], "any subset of destination links closed at any point, any interleaving of attach/detach with deliveries",
  "It takes a destination that closes between being chosen and being sent to; tests never produce that window.",
  NF, [("delivery to several links", "streamtasks/net/__init__.py Switch.send_to, broadcast")], [], ["Switch.handle_message", "Switch.add_link", "Switch.remove_link"],
  AI + ": exception flow from every send, and iteration over live collections across awaits", NOTE)

P("N06", "A closed link refuses use, wakes its receiver and closes its peer once",
  "After a link is closed, sending and receiving on it raise the connection-closed error and nothing is delivered; closing again has no effect. A receive that is pending when the link closes ends with the connection-closed error, every close handler runs exactly once, and closing one end of a paired or wrapping link closes the other.",
  ["histories", "schedules"], "all orders of send, receive and close, from any task",
  "Tests close links once, after use; double close, close during a pending receive and close from the peer are interleavings.",
  ["streamtasks/net/__init__.py", "streamtasks/connection.py"], [("close flag, pending receiver and close handlers", "streamtasks/net/__init__.py Link")], [("closed", "whether the link was closed", "Link._closed"), ("close handlers", "callbacks run at close", "Link.on_closed")], ["Link.send", "Link.recv", "Link.close"],
  AI + ": typestate of links (open/closed) over send, receive and close, and of the wiring of paired links", NOTE)

P("N07", "Topic remapping renames topics consistently in both directions",
  "A link wrapped with a topic mapping renames every topic id in every topic-carrying message it sends according to the mapping, and renames back with the inverse mapping what it receives; ids without an entry pass unchanged. Everything else in a message, and messages without topics, are passed on untouched.",
  ["inputs", "configurations"], "all mappings, all message kinds and contents",
  "Tests remap a data topic or two; a missed message kind or set of ids only matters for the topology that uses it.",
  ["streamtasks/net/__init__.py"], [("remapping link", "streamtasks/net/__init__.py TopicRemappingLink")], [("mapping", "internal to external ids and its inverse", "TopicRemappingLink")], ["Link.send and Link.recv of the wrapping link"],
  AI + ": symbolic image of every message field under the mapping, per message class and direction", NOTE)

P("N08", "Subscription and price counting is exact under repetition and overlap",
  "Adding an id reports it as new only if it was not held before, removing it reports it as gone only when its last holder removed it, and removing an id that is not held changes nothing. For priced ids the price known and reported for an id is always the lowest one currently held, and an id disappears only with its last price.",
  ["histories", "inputs"], "all sequences of additions and removals with repetitions and equal prices",
  "Counting mistakes need several holders of the same id or price; tests add and remove once.",
  ["streamtasks/utils.py", "streamtasks/net/helpers.py"], [("reference counting", "streamtasks/utils.py IdTracker"), ("price counting", "streamtasks/net/helpers.py PricedIdTracker")], [("counts", "holders per id, holders per price", "IdTracker, PricedIdTracker")], ["add_many", "remove_many", "change_many"],
  AI + ": transfer function of the count of an arbitrary id, evaluated for the counts 0, 1, 2 and more", NOTE)

P("N09", "Topics are requested upstream exactly while someone wants them",
  "The switch asks for a topic upstream when the first of its links subscribes and drops the request when the last one unsubscribes, and it asks only the attached link offering the topic at the lowest cost. A wanted topic moves to a provider that becomes cheaper, and to a remaining provider when the one in use withdraws it; what was requested from a link is recorded as it is sent.",
  ["histories", "configurations"], "all histories of subscriptions and offers, any number of providers and prices",
  "It depends on the order of subscribe, announce and withdraw over several links, which tests fix to one order.",
  NF, [("upstream requests", "streamtasks/net/__init__.py Switch.request_in_topics_change and its callers")], [("requested topics", "topics asked for per link", "Link.recv_topics"), ("wanted topics", "counted subscriptions", "Switch.in_topics")], ["Link.send of subscription changes"],
  AI + ": provenance of requested topics and choice of provider on every path", NOTE)
