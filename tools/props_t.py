TF = ["streamtasks/system/task.py", "streamtasks/system/tasks"]
P("T01", "Messages a task cannot use never end it",
  "Whatever message arrives on an input of a built-in task (content that is not what the task expects, no or no usable timestamp, no mapping at all), the task goes on receiving: no such message makes it fail or stop. A pause or resume of an input is never taken as data, and data never as a pause.",
  ["inputs"], "all messages of any content on any input of any task, in any state of the task",
  "Tests of two tasks send valid messages only.",
  ["streamtasks/message/utils.py"] + TF, [("receivers", "every coroutine of every task class that receives from a topic"), ("timestamps", "streamtasks/message/utils.py get_timestamp_from_message, set_timestamp_on_message")], [], ["whether the task still runs"],
  AI + ": every coroutine of every task class (found from its entry point through every coroutine it spawns) run with modelled messages: a pause, valid data, data that fails validation, has no timestamp or is no mapping", NOTE + " What libraries do with the content of a valid message is not judged.")
P("T02", "Tasks use their topics only while these are open",
  "Whenever a built-in task receives from, sends to, pauses or resumes a topic, that topic is open and registered with the task's client, whose messages are being received.",
  ["schedules", "configurations"], "all tasks, in all configurations, at every point where one of their coroutines uses a topic, however these are scheduled",
  "Tests run two tasks; the order in which others open their topics and start their coroutines is not sampled.",
  TF, [("topics", "every use of a topic in a task class")], [("open topics", "topics entered and registered", "InTopic, OutTopic")], ["messages received and sent"],
  AI + ": every use of a topic on every path of every coroutine of every task class, with the topics that are open and registered at every place the coroutine is started from", NOTE)
P("T03", "Worker threads end with their task and send on its loop",
  "However a task with a worker thread ends, also when it is cancelled, its thread is told to stop and waited for while the topics of the task are still open. A worker thread looks at the request to stop in every round of its loop and never waits for a message without a limit, and everything it sends is sent on the event loop of the task.",
  ["schedules", "fault_sequences"], "all tasks with worker threads, any point at which they are cancelled or fail",
  "No test runs a task with a worker thread; cancellations while it waits or works do not occur.",
  TF, [("threads", "streamtasks/system/task.py SyncTask and its subclasses")], [("stop request", "event the thread looks at", "SyncTask.stop_event")], ["threads that run after a task", "messages sent"],
  AI + ": every path through the run function of such tasks, with cancellation at every await, and every round of every worker loop", NOTE + " How long a round takes is not judged.")
TD_ = "streamtasks/system/tasks/"
UI_ = TD_ + "ui/"
P("T04", "Pauses and resumes pass through the tasks",
  "A task that turns the messages of one input into those of one output (named input and output, synchronizer, timestamp updater, repeater, number and time to text, string matcher, resampler, scaler, renderers, meters and speech and language models; the concatenator for its control) passes every pause and every resume of that input on to its output once and as it came: a pause as a pause, a resume as a resume.",
  ["inputs", "histories"], "all sequences of pauses, resumes and messages on the input of such a task",
  "Tests of two tasks (gate, calculator) sample a few sequences; for the others none exist.",
  TF, [("pauses", "the coroutines of the tasks that call set_paused of their output for what they receive")], [], ["pauses and resumes of the output"],
  AI + ": every round of every coroutine of such a task, from one message received to the next, with a pause, a resume and a message", NOTE)
P("T05", "Converting tasks answer every message they can use, once",
  "Named inputs and outputs and synchronizers pass every message on once, unchanged, to the output that belongs to its input. A task that converts messages (number to text, time to text, string matcher, text formatter, latch, calculator) sends exactly one message for each it can use, with the timestamp of that message and the value that belongs to it, and none for others; tasks with a worker thread hand each usable message to it exactly once.",
  ["inputs"], "all messages on any input of such a task, in any state of the task",
  "Tests cover the calculator with a handful of values; the other tasks have no tests.",
  TF, [("conversion", "the coroutines of the tasks that receive and send")], [("last values", "values kept by latch, formatter and calculator", "attributes of the tasks")], ["messages sent"],
  AI + ": every round of every coroutine of such a task; the values sent are compared with the defined ones over a small domain of messages and states", NOTE + " What media libraries make of a message is not judged.")
P("T06", "A gate lets through exactly what its state allows",
  "A gate passes a message on, once and unchanged, exactly while its input is not paused, its control is above 0.5 and, if it fails closed, its control is neither paused nor was its last message one that is no number. Its output is paused exactly while it is closed, from its start and after every change; with synchronized inputs a control message goes before a message of the same time.",
  ["inputs", "histories", "configurations"], "all sequences of messages, pauses and resumes on control and input, in both fail modes",
  "Tests sample one sequence per fail mode.",
  [TD_ + "gate.py", "streamtasks/utils.py", "streamtasks/client/topic.py"], [("gate", TD_ + "gate.py GateState, GateTask")], [("state", "control value, control paused, control error, input paused", "GateState")], ["messages sent", "pauses of the output"],
  AI + ": every round of every coroutine of the gate, decided over all combinations of its state", NOTE)
P("T07", "A switch passes on the input with the highest control value",
  "A switch passes a message on, once and unchanged, exactly if its input is the one with the highest control value, and pauses its output exactly as that input is; a paused control takes its input out of the choice, a resumed one or a message that is no number changes nothing, and nothing is selected before the first control message. A media switch passes on messages of a newly selected input from its next keyframe.",
  ["inputs", "histories"], "all sequences of messages, pauses and resumes on all inputs and controls, any number of inputs",
  "There is no test of a switch.",
  [TD_ + "switch.py", TD_ + "media/mediaswitch.py"], [("switch", TD_ + "switch.py SwitchTask"), ("media switch", TD_ + "media/mediaswitch.py")], [("control values", "last value of every control", "SwitchTask.control_values")], ["messages sent", "pauses of the output"],
  AI + ": every round of every coroutine of both switches; whether a message is passed on is decided over all small assignments of control values", NOTE + " The pause state of the output after a paused control is not judged.")
P("T08", "Tasks never change messages that others hold",
  "A task that changes a message (its timestamp or an entry) changes only one that it made or copied itself and has not sent yet, never one it received and never a part that a copy shares with the original; the copy of a message has its own entries, equal to those of the original.",
  ["inputs", "schedules"], "all messages received by any task, which other tasks on the same node hold as well",
  "Tests have one receiver per message.",
  ["streamtasks/net/serialization.py", "streamtasks/message/utils.py"] + TF, [("changes", "set_timestamp_on_message and every assignment to a part of a message"), ("copies", "streamtasks/net/serialization.py RawData.shallow_copy")], [], ["content of messages seen by other receivers"],
  "ownership analysis over " + AI + ": for every value changed on any path of any coroutine or worker of a task, whether it derives from a received message without a copy or was passed on before", NOTE)
P("T09", "Formulas of the calculator mean what they say",
  "Every operator, function and constant of a calculator's formula has its usual meaning, a value above 0.5 counts as true and truth values are 0 and 1. Operators bind as in arithmetic and those of one level from left to right; a formula that has no value for the current variables sends nothing and does not end the task.",
  ["inputs", "programs"], "all formulas of the grammar and all values of their variables",
  "Tests evaluate fourteen formulas.",
  [TD_ + "calculator.py"], [("grammar", TD_ + "calculator.py calculator_grammar"), ("evaluation", TD_ + "calculator.py CalculatorEvalTransformer")], [], ["values sent"],
  "structural analysis of the grammar (levels, associativity, aliases) joined to the methods of the transformer, the expression of every one evaluated symbolically and compared with the meaning of its operator over a grid of values; " + AI + " for failing formulas", NOTE + " Operator chains the grammar does not accept are not judged.")
P("T13", "No task keeps the event loop to itself",
  "In every round of a loop of a coroutine the coroutine waits for something (a message, a timer, a lock) or takes one of finitely many things that are left: no coroutine loops for ever without letting others run, whatever its configuration and whatever messages arrive.",
  ["schedules", "configurations"], "all loops of all coroutines of the package, all configurations",
  "Tests use configurations whose loops wait; a loop that does not hangs the node only with others.",
  ["streamtasks"], [("loops", "every loop in a coroutine of the package")], [], ["whether other coroutines run"],
  "control-flow analysis: for every loop in a coroutine every path of a round is checked to pass an await that can suspend or to use up a finite collection; " + AI + " decides paths that only the values of conditions exclude", NOTE + " An await of a function of the package counts if every path through it can suspend.")
P("T10", "Buffers keep every message and give it out at its time",
  "A time buffer keeps every message and sends the oldest, once and unchanged, when it is as old as the buffer's size (by the clock or by the newest message); its output is paused exactly while its input is and nothing is left. A replay buffer keeps every message in order, plays them (over and over if it is set to) with their distances from the time playing starts while its control is above 0.5, and is emptied exactly by a resume after a pause. The store behind both holds what was put in, in order, and gives back each once.",
  ["inputs", "histories"], "all sequences of messages, pauses, resumes and controls, any sizes and contents of the buffers",
  "There is no test of a buffer.",
  [TD_ + "timebuffer.py", TD_ + "replaybuffer.py", "streamtasks/rawdatabuffer.py"], [("time buffer", TD_ + "timebuffer.py TimeBufferTask"), ("replay buffer", TD_ + "replaybuffer.py ReplayBufferTask"), ("store", "streamtasks/rawdatabuffer.py RawDataBuffer")], [("stored messages", "messages kept, in order", "RawDataBuffer")], ["messages sent", "pauses of the output"],
  AI + ": every round of every coroutine of both buffers over ages, windows and pause states around each limit; the operations of the store are run symbolically in sequences and compared with a list", NOTE + " What a time buffer that goes by its messages keeps while paused is not judged, nor the accuracy of sleeping.")
P("T11", "A message detector's signal says whether messages arrive",
  "A message detector's signal is 1 exactly while its input is not paused, no timeout has passed since the last message and, if it fails closed, the last message had a usable timestamp; any message ends a timeout. The signal is sent at the start and after every change.",
  ["inputs", "histories", "schedules"], "all sequences of messages, pauses, resumes and silences, in both fail modes",
  "There is no test of a message detector.",
  [TD_ + "messagedetector.py"], [("detector", TD_ + "messagedetector.py MessageDetectorTask, MessageDetectorState")], [("state", "input paused, timed out, last message invalid, fail mode", "MessageDetectorState")], ["signals sent"],
  AI + ": every round of every coroutine of the detector; the signal is decided over all combinations of its state", NOTE)
P("T12", "Updater, repeater and concatenator send what they should, when they should",
  "A timestamp updater sends each message once, with the timestamp of the message or the clock plus its offset, and one without a usable timestamp exactly if it does not fail closed. A repeater repeats the last message with a time that follows the messages while its output is not paused, and stops after a message without a timestamp if it fails closed. A string concatenator keeps texts in order and sends them, once and together, with the time of the control when that rises above 0.5, a text going before a control of the same time when synchronized.",
  ["inputs", "histories"], "all sequences of messages, pauses and resumes on their inputs, in all configurations",
  "There is no test of these tasks.",
  [TD_ + "timestampupdater.py", TD_ + "repeater.py", TD_ + "stringconcatenator.py"], [("updater", TD_ + "timestampupdater.py"), ("repeater", TD_ + "repeater.py"), ("concatenator", TD_ + "stringconcatenator.py")], [("kept", "last message, text so far, last control value", "attributes of the tasks")], ["messages sent"],
  AI + ": every round of every coroutine of the three tasks, the concatenator's over all short sequences of control values around 0.5 and texts", NOTE + " Texts that arrive while the concatenator's send is suspended are not judged.")
P("T14", "Controls and displays send, show and take their value",
  "A control (slider, switch, radio buttons, text input) sends its current value with the time to its output at its start, after every change and, if an interval is set, again after every interval; radio buttons send 1 for the selected button and 0 for every other one, a blank text is not sent. A status, value bar or text display shows the value of the last message it can use, a text display its texts joined with the separator and cut to the newest characters as set, and pauses and other messages change nothing. The page of such a task gets the current value and configuration, a value it posts that is valid becomes the current one before it is answered, and a page that is connected is sent every new value until it goes away.",
  ["inputs", "histories"], "all values, messages and pauses, all configurations of the tasks, changes at any time",
  "There is no test of these tasks.",
  [UI_ + "controlbase.py", UI_ + "sliderui.py", UI_ + "switchui.py", UI_ + "radiobuttonsui.py", UI_ + "textinput.py", UI_ + "statusdisplay.py", UI_ + "textdisplay.py", UI_ + "valuedisplaybar.py"], [("controls", UI_ + "controlbase.py"), ("texts", UI_ + "textdisplay.py")], [("value", "current value", "attribute of the tasks")], ["messages sent", "what pages get"],
  AI + ": every round of the tasks and of the handlers of their pages, with the value exchanged by another one whenever a change is waited for; what is shown and sent is evaluated for all cases of a few values and settings", NOTE + " A change made while a value is being sent is sent with the next change or interval; the audio frequency display's bins are not judged.")
