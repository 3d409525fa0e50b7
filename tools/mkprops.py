"""Generate /verif/properties.jsonl (kept next to the text so that it stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": ["vtelem/" + f for f in files],
                          "mechanism": [{"name": n, "where": "vtelem/" + w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

p("C01", "Frames respect their size limit and decode to exactly what was encoded",
  "A finished data or event frame is never longer than its maximum size, and an element that would not fit is refused without altering the frame. Its bytes follow the documented layout (application id, frame type, timestamp in milliseconds, element count, element ids, element contents, optional checksum, all big-endian), and the length prefix it can be sent with equals its length. Decoding those bytes with the same registry returns exactly the application id, frame type, timestamp, and the channel names and typed values (for events: previous and current value and time) that were put in, in order, and reports its checksum state correctly.",
  ["inputs", "configurations"], "all maximum sizes, checksum settings, channel sets, value types and boundary values, element counts, timestamps",
  "tests encode a few fixed frames; boundary fits (exactly full, one byte short), extreme values of all primitive types and mixed-type frames are not enumerated",
  ["frame/__init__.py", "frame/channel.py", "frame/framer.py", "parsing/encapsulation.py", "parsing/frames.py", "classes/byte_buffer.py", "classes/type_primitive.py"],
  [("space accounting", "frame/channel.py"), ("finalize", "frame/__init__.py"), ("decode_frame", "parsing/encapsulation.py")], ["frame bytes", "decoded frame object"])
p("C02", "Each dispatch emits exactly the due channels, once, in size-bounded frames",
  "Dispatching telemetry at a given time emits every channel whose period has elapsed since its last emission, and no other channel, exactly once each, in registration order and with the value it holds at that moment, and records that time as its last emission. The emitted elements are spread over as many frames as needed, all stamped with the dispatch time and none longer than the environment's current maximum size; nothing is dropped or duplicated at a frame boundary. The maximum size can only ever be lowered, and reported emission and frame counts and built-in metrics equal what was really produced.",
  ["inputs", "histories", "configurations"], "all channel sets, periods, value histories, dispatch times (also non-monotonic) and maximum sizes, including size changes between dispatches",
  "tests dispatch a handful of fixed channel sets; combinations of period, history and frame-size boundary are unbounded",
  ["channel/__init__.py", "channel/environment.py", "channel/framer.py", "frame/channel.py"],
  [("emit", "channel/__init__.py"), ("build_data_frames", "channel/framer.py"), ("handle_new_mtu", "channel/environment.py")], ["frame queue", "decoded frames", "metric channels"])
p("C03", "Change events report every change exactly once, in order, with both values",
  "For a channel with change tracking, every accepted assignment that changes its value produces exactly one event carrying the previous value and the time it was set and the new value and its time; assignments that leave the value unchanged, are rejected, or are on untracked channels produce none. The next dispatch delivers all pending events once, in the order the changes happened, over as many size-bounded frames as needed. Up to 256 changes are retained between two dispatches: beyond that later changes are dropped without disturbing the ones already pending or the channel's value.",
  ["inputs", "histories", "schedules"], "all histories of assignments, additions, commands and dispatches over any channel set, and all interleavings of a setter with a dispatch",
  "tests make a few changes and dispatch once; ordering across channels, unchanged writes, capacity limits and frame-size boundaries need arbitrary histories",
  ["classes/type_primitive.py", "classes/event_queue.py", "channel/framer.py", "channel/environment.py"],
  [("changed callback", "classes/type_primitive.py"), ("enqueue/consume", "classes/event_queue.py"), ("build_event_frames", "channel/framer.py")], ["event frames"])
p("C04", "A channel only ever holds values its type can represent, and obeys command rules",
  "An assignment or addition is accepted exactly when the resulting value is of the channel's type and within its representable range; a refused one reports failure and leaves value and last-set time unchanged. A channel that is not commandable never changes through commands and reports failure for them. Every value a channel accepts can be encoded, and is read back from the encoding unchanged up to the precision of its type.",
  ["inputs", "histories"], "all primitive types and all candidate values, in particular the boundaries of each range, wrong types, and sequences of set, add and command",
  "tests try a few in-range and one or two out-of-range values per type",
  ["classes/type_primitive.py", "enums/primitive.py", "channel/__init__.py", "channel/environment.py"],
  [("validate", "enums/primitive.py"), ("set/add", "classes/type_primitive.py"), ("command", "channel/__init__.py")], ["return values", "channel value and time"])
p("C05", "Stream reassembly yields the same frames however the bytes are split",
  "For any byte stream of length-prefixed frames, the frames recovered are exactly those sent, in order and unmodified, independently of how the stream is cut into chunks. If a length prefix exceeds the receiver's maximum, no frame is delivered from it and everything buffered at that moment is discarded; frames that start in later data are again recovered. Starting a new connection never combines bytes of an earlier connection with the new ones.",
  ["inputs", "histories"], "all byte streams, all ways to split them (including single bytes and cuts inside a length prefix), all maximum sizes, and any sequence of oversized prefixes",
  "tests use two or three hand-picked splits; the number of splits is exponential in the stream length",
  ["frame/processor.py", "classes/byte_buffer.py", "client/socket.py", "client/file.py"],
  [("FrameProcessor.process", "frame/processor.py"), ("ByteBuffer append/read/remove", "classes/byte_buffer.py")], ["list of recovered frames"])
p("C06", "Corrupt, foreign or unintelligible frames are never delivered and stop nothing",
  "A client never delivers a frame that carries a checksum not matching its contents, one that belongs to a different application, or one it cannot interpret (unknown frame type, unknown channel, truncated or malformed content). It keeps receiving afterwards, and every valid frame before and after the bad one is delivered exactly once and in order.",
  ["inputs", "fault_sequences", "histories"], "all corruptions (bit flips, truncations, extensions, foreign ids, unknown types, random bytes) at any position of any sequence of frames",
  "tests feed a single kind of invalid frame; corruption positions and mixes are unbounded",
  ["parsing/encapsulation.py", "parsing/frames.py", "client/__init__.py", "client/socket.py", "enums/frame.py"],
  [("decode_frame", "parsing/encapsulation.py"), ("handle_frames", "client/__init__.py")], ["telemetry output queue of the client"])
p("C07", "Messages of any size are reassembled exactly once from any fragment order",
  "A message is split into numbered fragments that each respect the maximum frame size and together carry exactly its bytes, and message numbers advance by one per message, wrapping at their field width. Whatever the order, duplication, loss or interleaving of fragments of different messages at the receiver, a message completes exactly when the last of its distinct fragments arrives, with its exact content and type and exactly one notification to each registered handler of its type. An incomplete message is never reported, and a message already complete is never reported again.",
  ["inputs", "histories", "fault_sequences"], "all message lengths (including empty and exact multiples of the fragment size), fragment permutations, duplications and interleavings",
  "tests deliver fragments in order for one message at a time; permutations with duplicates grow factorially",
  ["message/framer.py", "message/cache.py", "frame/message.py", "parsing/frames.py"],
  [("serialize/deserialize", "message/framer.py"), ("ingest", "message/cache.py")], ["fragment frames", "complete(), content(), callbacks"])
p("C08", "Cached message fragments survive restarts; interruptions never corrupt content",
  "Loading a message cache from the directory an earlier instance saved to restores exactly its complete messages and its partially received ones: same types, contents and missing fragments, also when several messages of a type are in flight. If the earlier instance stopped without saving, at any point inside or between its file operations, reloading either still offers a message with its exact content or still waits for the fragments that were not persisted. It never reports a message as complete with wrong or absent content.",
  ["crash_points", "histories"], "all histories of received fragments, saves and clean-ups, with a stop at every point inside and between the file operations of receiving, followed by reload and further fragments",
  "tests save and reload once with one message; crash points between the individual file writes are never exercised",
  ["message/cache.py", "classes/data_cache.py"],
  [("fragment store", "message/cache.py"), ("write/load", "classes/data_cache.py")], ["reloaded cache behaviour"])
p("C09", "Registry names and ids are unique, stable and dense, and lookups change nothing",
  "Registering a new name in any registry (channels, channel groups, enumerations, types, services) gives it the next unused identifier, and re-registering a known name fails and changes nothing. Name-to-identifier and identifier-to-item lookups are mutual inverses for ever after, and looking up an unknown name or identifier reports its absence without any effect on the registry. The description a registry exports (every kind but groups has one) lists exactly the registered items, with their attributes.",
  ["inputs", "histories"], "all sequences of registrations, duplicate registrations, and hit or miss lookups by name and by identifier, across registry kinds",
  "tests register a few items and look up what exists; effects of missing lookups on later behaviour need histories",
  ["registry/__init__.py", "registry/enum.py", "registry/type.py", "registry/service.py", "channel/registry.py", "channel/group_registry.py"],
  [("Registry.add/get_item/get_id", "registry/__init__.py"), ("export", "registry/enum.py")], ["return values", "describe() output", "count()"])
p("C10", "Daemon lifecycle operations are honoured once and consistently in every schedule",
  "A daemon that is started runs its task in at most one thread at a time, and its visible state follows idle, starting, running (or paused), stopping, idle, passing only through legal transitions; a successful stop returns only when the task has ended, and a restart stops and then starts it. Starting, pausing or unpausing a daemon that is already so, or stopping one that is not running, has no effect and says so, and operations requested by name behave as the corresponding call and are skipped in the states where they do not apply. Stop and start requests from several threads at once never leave it stuck, running after the last stop has succeeded, or with its resources unusable.",
  ["schedules", "histories"], "all sequences of lifecycle operations from one thread, and all bounded-preemption interleavings of operations from two threads with the daemon's own thread",
  "tests run one real-time schedule of sequential operations; races between start, stop and the task's own exit are not reachable deterministically",
  ["daemon/__init__.py", "enums/daemon.py", "daemon/synchronous.py", "daemon/queue.py"],
  [("start/stop/pause/unpause/perform", "daemon/__init__.py")], ["state reports", "task entry and exit", "return values"])
p("C11", "The daemon manager acts on every daemon exactly once and respects dependencies",
  "Performing an operation on all managed daemons applies it exactly once to each; when starting, every daemon is started after all daemons it depends on, and the overall result is success exactly when every individual one succeeded. Registering a name a second time is refused and changes nothing, and asking for an unknown name reports its absence, has no effect, and leaves all other daemons operable. Reported states list exactly the registered daemons with their current states.",
  ["configurations", "histories", "inputs"], "all acyclic dependency graphs (also with missing dependencies), all patterns of individual failures, and all sequences of register, query and bulk operations",
  "tests use one small graph where everything succeeds",
  ["daemon/manager.py", "factories/daemon_manager.py"],
  [("perform_all/perform_stack", "daemon/manager.py")], ["order of operations on the managed daemons", "return values", "states()"])
p("C12", "Every frame written reaches every attached stream once and in order",
  "The stream writer delivers every frame taken from its queue exactly once, in queue order and unmodified, to every output stream and queue attached at that moment, and its frame and byte counts equal what it processed. A stream that fails is detached, reported at most once to its error handler, and disturbs neither the other outputs nor later frames; attaching or detaching outputs from other threads during writing never loses frames for the remaining outputs nor stops the writer. Removing an output succeeds exactly once per registration.",
  ["schedules", "histories", "fault_sequences"], "all sequences of attach, detach, frame and failing writes, and bounded-preemption interleavings of attach/detach with writing",
  "the existing writer tests are timing-dependent and use streams that never fail; detaching concurrently with a write is unreachable for them",
  ["stream/writer.py", "daemon/queue.py", "stream/__init__.py"],
  [("frame_handle/add_stream/remove_stream/add_queue", "stream/writer.py")], ["bytes written per stream", "queued frames", "error callbacks"])
p("C13", "Every command is handled in order and answered; bad ones never stop the rest",
  "Each command submitted is processed exactly once, in submission order, and a requested outcome is reported exactly once per registered handler (once with a failure if there is none, or if the command has no name). A handler that raises, a malformed command or an unknown name yields a failed outcome and never prevents later commands from being processed, nor changes which commands are known. A synchronous request returns the outcome of its own command.",
  ["histories", "inputs", "schedules"], "all sequences of well-formed, malformed, unknown and failing commands with any set of registered handlers, submitted from one or several threads",
  "tests submit one valid and one invalid command; a failing handler followed by others, and repeated unknown commands, are not covered",
  ["daemon/command_queue.py", "daemon/queue.py"],
  [("process_command", "daemon/command_queue.py"), ("execute", "daemon/command_queue.py")], ["result callbacks", "returned results", "handler invocations"])
p("C14", "Channel commands by id or name do exactly what they say, or fail without effect",
  "A get command reports the current value, and set, increment and decrement change the addressed channel to exactly the requested or computed value, for channels addressed by name or by identifier and for enumeration channels by value name. A command with missing or wrong parameters, an unknown channel, a value outside the channel's type or a channel that may not be commanded fails, says so, and leaves every channel unchanged.",
  ["inputs", "histories"], "all channel types, addressing modes, operations, amounts (defaults, signs, wrong types) and sequences of such commands",
  "tests cover a few commands on one or two channels",
  ["telemetry/environment.py", "channel/environment.py", "daemon/command_queue.py", "telemetry/server.py"],
  [("channel command handler", "telemetry/server.py")], ["command results", "channel values"])
p("C15", "UDP destinations come and go at any time, and each present gets every frame",
  "Every registered UDP destination receives each frame sent while it is registered exactly once and in order, as one datagram per frame when flushing immediately and otherwise as datagrams that concatenate to the frames, and frames are sized for the smallest limit of the destinations added. Adding returns a distinct handle; removing a known one closes it, stops its delivery and leaves the others untouched, while removing an unknown or already removed one fails without effect. Closing everything closes each destination once, and a destination that fails while sending is removed without affecting the others, also when this happens concurrently with removal requests.",
  ["histories", "schedules", "fault_sequences"], "all sequences of add, remove, frame, send failure and close, and bounded-preemption interleavings of removal with sending",
  "tests add one client and remove it; failing sends racing removal are unreachable",
  ["classes/udp_client_manager.py", "factories/udp_client_manager.py", "stream/writer.py", "mtu.py"],
  [("add_client/remove_client/close_all", "classes/udp_client_manager.py")], ["datagrams received", "return values", "metrics"])
p("C16", "Channel groups are read and written as one, never partially",
  "All channels of a group are read in one step and written in one step: no dispatch and no other group access, from any thread, ever observes a mixture of old and new values of a write. Values read are the current channel values, values written are those provided (a value that a channel can't hold leaves that channel alone, and a write that names an unknown channel or enumeration value fails as a whole), types are preserved, and a group and its channels keep the names and identifiers they were registered with.",
  ["schedules", "histories"], "all bounded-preemption interleavings of group writers, group readers and dispatching, over any group layout",
  "tests read and write groups from a single thread",
  ["channel/group.py", "channel/group_registry.py", "classes/time_entity.py"],
  [("data() context manager", "channel/group.py")], ["emitted frames", "values read"])
p("C17", "All time consumers share one clock that scales, sleeps and sets consistently",
  "After an update, or once a forced time has been distributed, every registered time consumer reports exactly the keeper's time, and consumers added later receive it when they are added and from the next update on. Each update advances the shared time by the real time elapsed since the previous one multiplied by the current scale, never backwards by itself, so the time stays continuous when the scale changes. A sleep of a given duration lasts that duration divided by the scale in real time, and neither scaling nor sleeping raises for any legal scale, including zero, as long as the platform can sleep that long.",
  ["inputs", "histories", "schedules"], "all sequences of scale changes, forced times, updates, sleeps and registrations",
  "tests check one or two scales against real time with tolerances",
  ["classes/time_keeper.py", "classes/time_entity.py"],
  [("update/scale/sleep/add_slave", "classes/time_keeper.py")], ["reported times"])
p("C18", "A state machine runs only its current state and notifies each transition once",
  "A state machine is always in exactly one registered state: each run executes the step of the state that is current at that moment exactly once, with the data given to it and the machine's current data. If that step names another registered state, the old state's leave step and then the new state's enter step are called exactly once each and the machine moves unless one of them refuses, in which case it stays; an unknown name is an error that leaves the state as it was. Runs from several threads behave as in some sequential order, and the counters and the reported (before, after) states equal what happened.",
  ["histories", "schedules", "inputs"], "all state graphs, refusal patterns and sequences of runs with and without new data, and bounded-preemption interleavings of two runners",
  "tests run one two-state machine sequentially",
  ["classes/state_machine.py", "classes/state.py"],
  [("run/dispatch/transition", "classes/state_machine.py")], ["order of enter, leave and run calls", "reported state"])
p("C19", "A failing operation never leaves a lock held; concurrent use never deadlocks",
  "When an operation on an environment, registry, group, state machine, daemon or manager fails or raises, other threads can still use every object afterwards and see no partial effect of it. No combination of concurrent public operations on one telemetry system (dispatching, commanding, grouping, registering, adjusting time, starting and stopping daemons, attaching outputs) blocks for ever, provided its frame queue is being drained.",
  ["schedules", "inputs", "fault_sequences"], "every public operation made to fail in every way it can, followed by use from another thread; all bounded-preemption interleavings of pairs of operations",
  "tests never use an object from another thread after a failure and run one uncontrolled schedule",
  ["classes/time_entity.py", "channel/environment.py", "channel/group.py", "telemetry/environment.py", "stream/writer.py", "daemon/__init__.py", "classes/metered_queue.py"],
  [("optional lock", "classes/time_entity.py"), ("lock ordering", "telemetry/environment.py")], ["progress of every thread"])
p("C20", "HTTP requests get the mapped response, with exact status, body and length",
  "A request is answered by the handler registered for exactly its method and path, with the status, headers and body the handler produced and a content length equal to the number of body bytes; unknown paths, unsupported methods and failing handlers get the documented error status. Query, URL-encoded form and multipart parameters reach the handler exactly as sent. The index lists exactly the registered handlers, and no request changes what later requests see unless its handler does.",
  ["inputs", "histories"], "all sequences of requests over registered and unregistered paths and methods, bodies of every supported encoding, and non-ASCII content",
  "tests request a few known pages; misses followed by hits, non-ASCII content and mixed encodings are not sampled",
  ["classes/http_request_mapper.py", "daemon/http.py", "telemetry/server.py"],
  [("RequestHandler", "classes/http_request_mapper.py")], ["HTTP responses"])
p("C21", "Built-in metrics and queue depths equal the true counts in every schedule",
  "A metered queue delivers its elements first-in first-out, exactly once, and once activity pauses the reported depth, enqueue and dequeue counts equal the true ones; they are never negative and never lose an update to a concurrent one. A daemon's reported status and counters equal its real state and activity. The same holds for every other counter the system publishes, whatever the interleaving of the threads that update it.",
  ["schedules", "histories"], "all bounded-preemption interleavings of producers, consumers and registration of the metrics environment",
  "tests update from one thread at a time; lost updates need a specific preemption",
  ["classes/metered_queue.py", "channel/environment.py", "daemon/__init__.py", "stream/writer.py"],
  [("MeteredQueue get/put", "classes/metered_queue.py"), ("metric_add", "channel/environment.py"), ("increment_metric", "daemon/__init__.py")], ["metric channel values"])
p("C22", "A configured server starts what was asked, shuts down on request, and only then",
  "A telemetry server starts exactly the services its configuration enables, reports the address of each in the service registry, and answers on each of them; it can be configured with any combination of services. It shuts down when its run time expires, on an interrupt, or on a shutdown request that carries its own application id, and never on a request with any other or malformed id. After shutdown all its services have ended and their addresses are free.",
  ["configurations", "histories"], "all combinations of enabled services, and sequences of requests with right, wrong and malformed ids",
  "tests start one or two configurations",
  ["telemetry/server.py", "factories/telemetry_server.py", "app.py", "entry.py", "types/telemetry_server.py"],
  [("TelemetryServer construction and shutdown", "telemetry/server.py")], ["service registry", "HTTP and socket behaviour"])
p("C23", "A recorded telemetry file replays exactly the frames that were recorded",
  "Replaying a file of recorded frames delivers exactly its complete frames, once each, in order and unmodified, for any file size, read granularity and frame limit (a limit of k delivers exactly the first k), and ends there; a truncated last frame is not delivered. The number of bytes and frames reported as processed equals what was consumed. A replay that is limited, or stopped and restarted, continues where it left off without repeating or skipping a frame.",
  ["inputs", "histories"], "all recordings (including empty, truncated and corrupt), read granularities, frame limits, and stop/restart points",
  "tests replay one generated file end to end",
  ["client/file.py", "client/__init__.py", "frame/processor.py"],
  [("FileClient", "client/file.py")], ["delivered frames", "byte index and counters"])
p("C24", "Enumeration names and values stay a consistent two-way mapping",
  "A user enumeration maps every name to exactly one value and back, and looking up an unknown name or value reports its absence and changes nothing that is later listed, encoded or exported. Unless one is given its default is one of its members. Enumerations built from program types, from description files or by adding members agree on names, values and default; registering a name again keeps the first definition, and an enumeration channel always reports the name that belongs to its value.",
  ["inputs", "histories"], "all member sets, defaults, sequences of adds, hit and miss lookups, registrations and enumeration-channel assignments",
  "tests look up existing members of two enumerations",
  ["classes/user_enum.py", "registry/enum.py", "registry/enum_retry.py", "telemetry/environment.py"],
  [("UserEnum lookups", "classes/user_enum.py"), ("add_enum/get_enum", "registry/enum.py")], ["lookup results", "iteration", "describe()"])
p("C25", "Descriptions validate, and survive encoding to text and files unchanged",
  "Every describable object produces a description that its own schema accepts, and decoding its text or file form (plain or indented, any key order) gives an object equal to the original. An object built from a description that its schema does not accept reports itself as invalid, and one that is accepted reports itself as valid.",
  ["inputs"], "all describable object kinds with all admissible field values, and all single-field mutations of valid descriptions",
  "tests encode one object per kind",
  ["classes/serdes.py", "serializables/primitive.py", "schema/__init__.py", "schema/manager.py", "classes/user_enum.py", "types/serializable.py"],
  [("Serializable", "classes/serdes.py"), ("schema validation", "schema/__init__.py")], ["decoded objects", "raised errors"])
p("C26", "A queue-fed daemon handles each element once, in order, and drains to stop",
  "Every element put into the queue of a queue-fed daemon before it is stopped is handled exactly once and in order; stopping handles all elements queued before the stop request and returns only afterwards, and none is handled after it. Elements queued while it is stopped are handled, in order, after it is started again. A stop requested while the queue is empty wakes it and ends it.",
  ["schedules", "histories"], "all interleavings (bounded preemptions) of producers, the handling thread, and stop/start requests",
  "tests put a few elements and stop after a real-time delay",
  ["daemon/queue.py", "daemon/__init__.py", "classes/metered_queue.py"],
  [("QueueDaemon.run", "daemon/queue.py")], ["handled elements", "return of stop"])
p("C27", "A periodic daemon iterates at its rate, never while paused or after its stop",
  "A periodic daemon calls its task once per period of (scaled) time while running, with the run time and overrun count it reports equal to what happened; a task that takes longer than its period is counted as an overrun and its next call follows at once, one call per overrun. It makes no call while paused (apart from one that was already due at that instant), resumes within a period afterwards, and makes none after a stop has returned; changing the period takes effect from the next iteration.",
  ["histories", "schedules", "inputs"], "all periods, task durations and pause, resume, stop and rate-change instants, in virtual time",
  "tests measure a single rate in real time with tolerances and without overruns",
  ["daemon/synchronous.py", "daemon/__init__.py", "classes/time_keeper.py"],
  [("Daemon.run loop", "daemon/synchronous.py")], ["times of the task calls", "metric channels"])
p("C28", "A persistent data cache gives back what was written and forgets what was cleaned",
  "Loading a cache from a directory gives, for every key, exactly the data present when it was last written there. Cleaning empties it in memory and in the directory, and it remains usable afterwards exactly like a new one.",
  ["histories", "inputs"], "all sequences of changes, writes, cleans and loads over any set of keys and serialisable values",
  "tests write and load once",
  ["classes/data_cache.py", "message/cache.py"],
  [("write/load/clean", "classes/data_cache.py")], ["cache data after reload"])
p("C29", "Network receivers get every frame, once and in order, from their connection on",
  "A client connected to the TCP or WebSocket telemetry service receives, decoded and in order, exactly the frames the server sends while it is connected; several clients are independent of each other and of clients that disconnect at any point. Disconnecting, or stopping the service, ends the affected connections, releases everything associated with them, and leaves the service usable for later clients.",
  ["histories", "fault_sequences", "schedules"], "all sequences of connect, frame, disconnect and service stop for several clients",
  "tests connect one well-behaved client at a time",
  ["daemon/tcp_telemetry.py", "daemon/websocket_telemetry.py", "daemon/websocket.py", "client/tcp.py", "client/websocket.py", "client/socket.py", "daemon/event_loop.py"],
  [("connection handlers", "daemon/tcp_telemetry.py"), ("websocket handler", "daemon/websocket_telemetry.py")], ["frames received per client"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        for fn in x["anchors"]["files"]:
            assert os.path.exists("/repo/" + fn), fn
        for m in x["anchors"]["mechanism"]:
            assert os.path.exists("/repo/" + m["where"]), m
        f.write(json.dumps(x) + "\n")
print(len(P))
