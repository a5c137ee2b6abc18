UF = ["streamtasks/utils.py", "streamtasks/client", "streamtasks/connection.py", "streamtasks/asgi.py", "streamtasks/system", "streamtasks/media"]
FLOW = "control-flow graphs with exception and cancellation edges of every function of the package, "
P("U02", "Clean-up never fails on something that was never acquired",
  "Whatever fails or is cancelled, at whichever step of acquiring what an operation needs (connections, devices, tasks, containers, values), the code that runs afterwards — error handling, clean-up and everything behind them — only uses what has been acquired by then. So the original failure or cancellation is what its caller sees, and the rest of the clean-up is carried out.",
  ["fault_sequences", "schedules"], "a failure or cancellation at every call and await of every function",
  "Tests run the acquiring steps successfully; a failure between two of them is never injected.",
  UF, [("clean-up code", "finally blocks and exception handlers of the package")], [("locals", "what has been acquired so far", "every function")], ["the exception a caller sees"],
  FLOW + "disjunctive forward dataflow of which locals are assigned, None or truthy", NOTE)
P("U03", "A cancelled operation ends",
  "When an operation is cancelled, wherever it waits, it does its clean-up and ends: it does not go on with its loop or with its next step, and no server goes on serving because one of its handlers absorbed the cancellation. A task or worker that is cancelled ends as cancelled, not as if it had finished.",
  ["schedules", "fault_sequences"], "a cancellation at every await of every coroutine",
  "Tests cancel idle components only; a cancellation that arrives while a message is processed or an answer is sent never occurs.",
  UF, [("exception handlers", "every handler of the package that can see a cancellation")], [("running coroutines", "servers, tasks, workers, handlers", "")], ["whether a cancelled task is done", "how a task reports to have ended"],
  FLOW + "reachability of further awaits from every point a cancellation can arrive at, across awaited coroutines of the package", NOTE + " Waiting for a task one has cancelled oneself may absorb its cancellation.")
P("U04", "What an operation acquires is released however it ends",
  "Background tasks an operation starts, and devices, media containers, coders, files and message receivers it opens for itself, are ended or closed however the operation ends: when it returns, when any later step fails, and when it is cancelled at any point. Background work that a task starts does not outlive the task.",
  ["fault_sequences", "schedules"], "a failure or cancellation at every call and await between acquiring and releasing",
  "Tests open no devices and never make a step fail between opening and closing.",
  UF, [("acquiring functions", "every function that creates a task, opens a device, container or file, or starts a receiver"), ("media tasks", "streamtasks/system/tasks")], [("resources", "held by one activation or one task", "")], ["tasks still running", "devices and containers still open"],
  FLOW + "path search from every acquisition to the ways out of its function (typestate), helpers followed", NOTE + " A second failure during the clean-up is not followed; what is handed over to an object that outlives the operation is that object's.")
P("U05", "Whoever waits for a change is woken by it, queues lose nothing",
  "A value, field, entry or id that changes is kept and wakes everyone who waits for it; setting the same value again wakes nobody, and who waits for a value that is already there does not wait. A consumer of a producer gets every message that is for it once, oldest first, also those put right before the end, and finds the end only when nothing is left. A producer runs while somebody waits for its messages: it is started by the first and stopped by the last, and one that has ended tells all its consumers and is not started again.",
  ["schedules", "inputs"], "all orders of setting, waiting, putting, ending and stopping",
  "Tests wait for a few changes one at a time; messages put right before the end, several consumers that come and go and the same value set twice do not occur.",
  ["streamtasks/utils.py"], [("values", "streamtasks/utils.py AsyncBool, AsyncObservable, AsyncObservableDict, AwaitableIdTracker"), ("queues", "streamtasks/utils.py AsyncConsumer, AsyncProducer")], [("waiting", "who waits for a change", ""), ("queue", "messages put and not yet got, whether the end has come", "AsyncConsumer")], ["who is woken", "what consumers get"],
  "abstract interpretation of every operation: what is stored, who is woken, and what every way out of waiting and getting knows of the queue", NOTE + " Who waits for one of two changes that follow each other at once may find the second only. The worker threads of producers are part of T03.")
