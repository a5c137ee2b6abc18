SF = ["streamtasks/system/task.py", "streamtasks/worker.py", "streamtasks/client/fetch.py", "streamtasks/client/signal.py"]
P("S01", "A task host starts, cancels, reports and cleans up its tasks",
  "However a task of a host ends (finished, cancelled, or failed with any exception), the host sends exactly one report of it to the address the task was started with, naming how it ended and, if it failed, the error, and forgets the task. A start request makes and sets up exactly the task asked for and runs it once under the requested id; a start that fails runs nothing and is answered with the error, and a cancel request cancels exactly the named task or is answered with an error. However a host stops, it cancels its tasks and waits for them, unregisters wherever it is registered, and then shuts down its links.",
  ["inputs", "fault_sequences", "schedules"], "all start and cancel requests, all ways a task's setup or run can end, failures and cancellation at every await of the host",
  "Tests start, cancel and stop one well-behaved task; a failing setup, an undeliverable report, or a host that fails while tasks run never occur.",
  SF, [("task host", "streamtasks/system/task.py TaskHost.run, run_task, run_api, register, unregister")], [("running tasks", "the tasks a host runs, by id", "TaskHost"), ("registrations", "endpoints at which the host is registered", "TaskHost")], ["answers to start and cancel requests", "task reports", "unregister signals"],
  AI + ": every path of the host's handlers, of running a task and of stopping, with each kind of exception injected at each await", NOTE + " How long a host waits for cancelled tasks is not judged.")
P("S02", "The task manager keeps the state of tasks and hosts",
  "Scheduling stores a new scheduled task for the given host and topic space and answers it; starting and cancelling ask exactly the host of the named task, with that task's topic space and the given configuration, and answer success only where the host did; a task whose start failed is forgotten and answered as failed with its error. A report sets the status and error of exactly the reported task, forgets it unless it runs, and is then broadcast to those who follow that task; registering and unregistering hosts takes effect on exactly that host and its tasks before it is announced. Unknown ids and malformed requests are answered with the error that says so, and whoever cancels a task and waits listens before asking and gets only an inactive task.",
  ["inputs", "histories", "fault_sequences"], "all requests, reports and host answers in any order, unknown ids and malformed bodies",
  "Tests drive one task of one host through the good path.",
  SF, [("manager", "streamtasks/system/task.py TaskManager.run_fetch_api, run_signal_api"), ("client", "streamtasks/system/task.py TaskManagerClient")], [("tasks, hosts", "known task instances and host registrations", "TaskManager")], ["answers to manager requests", "broadcasts of tasks and hosts", "requests to hosts"],
  AI + ": every path of every handler and client call, what is stored, sent and answered compared with the specified state change", NOTE)
P("S03", "A component that stops closes its links and stops its parts",
  "However a component's run ends (it returns, fails, or is cancelled wherever it waits), its own switch is stopped, which closes every link to it, and what showed it as running or ready is cleared. A path it registered is unregistered under the same id wherever it was registered, before the links close. However the connection manager ends, every connection and server it runs is stopped, one that failed does not keep the others from being stopped, and stopping one cancels its run and waits for its end.",
  ["fault_sequences", "schedules"], "a return, failure or cancellation at every step of every component's run",
  "Tests cancel a few idle components and never make one fail or stop while it is still starting or registering.",
  ["streamtasks/worker.py", "streamtasks/services/discovery.py", "streamtasks/connection.py", "streamtasks/asgi.py", "streamtasks/system/task.py", "streamtasks/system/task_web.py", "streamtasks/system/connection_manager.py"], [("components", "run of every subclass of Worker"), ("parts", "streamtasks/system/connection_manager.py UrlData, ConnectionManager.run_inner"), ("paths", "streamtasks/system/task_web.py TaskWebPathHandler")], [("links", "the links of a component's switch", "Worker.switch"), ("flags", "events that show a component running or ready", "ServerBase, TaskHost"), ("registrations", "where a path is registered", "TaskWebPathHandler.run")], ["closed links", "running and ready flags", "unregister signals"],
  FLOW + "path search over control-flow graphs with failure and cancellation edges: from every step of a run to every way out, helpers and inherited methods followed", NOTE + " A second cancellation during the clean-up is not followed.")
P("S04", "A system stops as a whole and in order",
  "Every component a system starts is attached to the system's switch before it runs and kept until it has ended, with its priority; when one of them ends, also before anyone waited, all others are stopped. Stopping cancels exactly the running components of the lowest priority, waits for them and cancels again those that have not ended, and goes on to the next priority only when none is left: task hosts first, then what only this node needs, then what every node needs, and the connections to other nodes last.",
  ["schedules", "histories"], "any set of started components, any of which may end or be slow to end",
  "Tests stop components by hand one by one; nothing tests a system with all its priorities or a component that is slow to end.",
  ["streamtasks/utils.py", "streamtasks/system/builder.py"], [("system", "streamtasks/system/builder.py SystemBuilder"), ("tasks", "streamtasks/utils.py AsyncTaskManager")], [("tasks", "running components with their priority", "AsyncTaskManager")], ["order of cancellations", "links of started components"],
  AI + ": every path of starting, waiting and stopping; priorities of all start methods compared across groups", NOTE + " How long a component takes to end is not judged.")
WF = ["streamtasks/system/task_web.py", "streamtasks/system/named_topic_manager.py", "streamtasks/system/secret_manager.py", "streamtasks/pydanticdb.py"]
P("S05", "Scheduled and running deployments are not changed",
  "While a deployment is scheduled or running, requests to update or delete it, to put a task into it, and to change, move or delete one of its tasks are refused and change nothing stored, and it cannot be scheduled a second time, also not by requests handled at the same time. No other task and no deployment may be waited for between that check and the change.",
  ["histories", "schedules", "inputs"], "all requests of the web backend in any order and interleaving",
  "Tests schedule, start and stop one deployment and never try to change it meanwhile.",
  WF[:1], [("backend", "streamtasks/system/task_web.py TaskWebBackend.run_asgi_server"), ("store", "streamtasks/system/task_web.py TaskWebBackendStore")], [("deployments, tasks", "stored deployments and tasks", "TaskWebBackendStore"), ("running deployments", "deployments that are scheduled or running, by id", "TaskWebBackendStore")], ["answers to requests", "stored deployments and tasks"],
  AI + ": every path of every request handler from the request to the stored entries; what is known about running deployments is forgotten whenever another node is asked", NOTE + " Whether a scheduled deployment exists at all is not judged.")
P("S06", "Stored entries are created, replaced, deleted and read by their key",
  "Storing a dashboard, task, named topic or secret leaves exactly one entry with its key, holding what the request gave, and deleting removes exactly the entry with the requested key; in both cases every other entry stays as it was. An existing deployment is not created again and a missing one is not updated. Every change is in the saved file before the request is answered as done; a request for one entry answers the one with that key, a request for a deployment's entries exactly those of that deployment, and a list all.",
  ["inputs", "histories", "crash_points"], "all requests on stored entries, over the web and over the network, whatever is stored already",
  "Tests store one deployment with two tasks; nothing tests replacing, deleting, named topics, secrets, dashboards or a restart.",
  WF, [("store", "streamtasks/system/task_web.py TaskWebBackendStore"), ("named topics", "streamtasks/system/named_topic_manager.py NamedTopicManager"), ("secrets", "streamtasks/system/secret_manager.py SecretManager")], [("entries", "stored deployments, tasks, dashboards, named topics and secrets", "PydanticDB")], ["answers to requests", "saved files"],
  AI + ": every path of every request handler; the new entries are compared, member by member, with the old ones and the request", NOTE)
P("P01", "Stored entries survive a crash and are read back as they were saved",
  "At any moment, also in the middle of a save or of a failing one, the stored file holds all entries of one complete save; a save that returned has replaced it with the current entries. At the start all entries of an existing file are read, and a file that cannot be read is an error instead of an empty start. What is handed out are deep copies and an update keeps a list of its own, so that nothing but an update changes what is stored.",
  ["crash_points", "inputs", "histories"], "a crash or failure at every step of a save, any content of the file, anything callers do with what they got",
  "No test stops in the middle of a save, fills the disk or changes what it was handed.",
  WF[3:], [("database", "streamtasks/pydanticdb.py PydanticDB")], [("entries", "entries in memory", "PydanticDB"), ("file", "entries on disk", "PydanticDB")], ["the stored file", "what is handed out"],
  AI + ": every path of saving, reading and updating, with a failure of each file operation", NOTE + " A rename is taken to be atomic and a flushed file to be on disk.")
P("P02", "Connections and servers are kept by kind and started again",
  "Adding a connection or server links it, starts it, puts it among those of its kind and stores that before it is answered; one whose url exists already is refused, also when two requests overlap, and does not stay linked. Removing stops exactly the one with the requested id, takes it from those of its kind and stores that before it is answered. At the start everything stored is created as what it was stored as, with its whole url, and started; the id depends on the whole url alone, and lists hold all of a kind.",
  ["histories", "schedules", "crash_points", "inputs"], "all requests in any order and interleaving, failed and running connections and servers alike, a restart after any of them",
  "No test adds, removes or restores a connection or a server through the connection manager.",
  ["streamtasks/system/connection_manager.py"], [("connection manager", "streamtasks/system/connection_manager.py ConnectionManager"), ("id", "streamtasks/system/connection_manager.py UrlData.id")], [("connections, servers", "those in use, by kind", "ConnectionManager"), ("stored urls", "urls stored per kind", "ConnectionManager.db")], ["answers to requests", "stored urls", "links of the switch"],
  AI + ": every path of every request handler and of the start; what is added, removed, stored and started is compared with the request, member by member", NOTE + " Whether an invalid url is answered properly is not judged.")
P("S07", "A deployment is scheduled, started and stopped as a whole",
  "Scheduling a deployment registers one topic space with exactly the topics of all outputs of its tasks, schedules every task once on its own host in that space, and keeps each instance under its task and each configuration under its instance. Starting starts every instance with the configuration of its own task and keeps what was answered under the same task; only then is the deployment shown as running, before that as scheduled. Stopping cancels every instance and waits for it, also when another is not known any more, then deletes the topic space, and only then is the deployment no longer running; when cancelling fails it stays so. A reported change of an instance is kept under its own task.".replace(" A reported change of an instance is kept under its own task.", "").replace("; when cancelling fails it stays so", "; when cancelling fails it stays so, and a reported change of an instance is kept under its own task"),
  ["histories", "fault_sequences", "inputs"], "any set of tasks on any hosts, any of which may have ended or refuse to be cancelled",
  "Tests run one deployment with one or two tasks on one host through the good path.",
  WF[:1], [("backend", "streamtasks/system/task_web.py TaskWebBackend.run_asgi_server, run_deployment_task_listener")], [("running deployments", "topic space, instances by task and configurations by instance", "RunningDeployment")], ["requests to the task manager", "registered topic spaces", "the shown status of a deployment"],
  AI + ": every path of the three requests, gathered coroutines run as part of them; each request, what is kept and in which order compared with what is specified", NOTE + " Overlapping requests for one deployment are S05's.")
