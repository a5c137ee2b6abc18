def X(id, title, statement, over, text, why, files, mech, na): P(id, title, statement, over, text, why, files, mech, [], [], None, "", na)
X("X01", "Published messages arrive at every subscriber in the end",
  "A message published on a topic that has a route to a subscriber is received by that subscriber in the end, in the order it was published on one route.", ["schedules", "fault_sequences"], "all topologies, routes and loads",
  "Tests run small idle networks.", ["streamtasks/net/__init__.py", "streamtasks/connection.py"], [("delivery end to end", "Switch, links and connections")],
  "Liveness over a whole network: whether every step happens in the end depends on the fairness of the scheduler, buffers of the transport and peers in other processes, none of which is in the source. Its safety parts are decided by N02-N06, K02, C01, C08.")
X("X02", "Time synchronizers follow the time of their messages",
  "The time a synchronizer gives differs from the time of the source of its messages by no more than their delay.", ["schedules", "inputs"], "all delays and clocks",
  "Tests cannot vary clocks.", ["streamtasks/utils.py"], [("time", "TimeSynchronizer")],
  "The claim compares wall clocks at run time; the source only fixes that the offset is that of the last message, which T11 and T12 use.")
X("X03", "Media survives encoding, containers and decoding",
  "What a decoder gives for the packets of an encoder of the same codec is the media that was encoded, with the same times and within the losses of the codec; containers give back the streams written to them.", ["inputs"], "all codecs, formats and media",
  "There are no tests of media tasks.", ["streamtasks/media"], [("codecs", "streamtasks/media, PyAV")],
  "What frames and packets contain is computed by FFmpeg through PyAV, outside the source; a static rule could only restate the calls made.")
X("X04", "Mixed, resampled and rendered media has the right samples and pixels",
  "The audio mixer adds the samples that belong to one time, resamplers and scalers keep duration and content, renderers draw the values of their input.", ["inputs", "histories"], "all sample rates, channel counts, timestamps and values",
  "There are no tests of these tasks.", ["streamtasks/system/tasks/media"], [("mixing", "streamtasks/system/tasks/media")],
  "The results are arrays computed by numpy, FFmpeg and plotting libraries whose values depend on numbers at run time (rates, timestamps, buffer lengths) that no bound in the source limits.")
X("X05", "Inference tasks recognise and generate what their models would",
  "Speech recognition, speaker recognition, text generation and speech synthesis give the results of the configured model for their input.", ["inputs"], "all models and inputs",
  "Tests cannot load models.", ["streamtasks/system/tasks/inference"], [("models", "streamtasks/system/tasks/inference")],
  "Results of models loaded at run time are not determined by the source. What the tasks do around them (threads, pauses, clean-up) is decided by T01-T04, T13, U02-U04.")
X("X06", "A node keeps up with the rate of its messages",
  "Queues of a node do not grow without limit and every message is passed on within a bounded time at the documented rates.", ["schedules", "configurations"], "all rates and sizes of messages",
  "Tests send a few messages.", ["streamtasks/net", "streamtasks/client", "streamtasks/connection.py"], [("throughput", "queues and loops of a node")],
  "Rates, sizes and processing times are quantities of a run; the queues are unbounded by design and no rule over the source can bound them. That no loop keeps the event loop to itself is decided by T13.")
X("X07", "The web interface shows what the system does",
  "The pages of the web interface show the deployments, tasks and connections of the system as they are and change them as the user asks.", ["histories"], "all user actions and system states",
  "There are no tests of the web packages.", ["web-packages"], [("pages", "web-packages")],
  "The packages are TypeScript sources whose dependencies are not installed here, so they can be neither resolved nor type-checked; their observable behaviour is in the browser. The HTTP interface they use is decided by A01-A08, S05-S07.")
