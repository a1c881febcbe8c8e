#!/usr/bin/env python3
"""Source of properties.jsonl (kept here because JSON lines are hard to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=x, meaning=x, where=mech[0][1]) for x in state], observe_at=list(observe), hook_needed=hook)))

H = "include/maf/"; C = "src/common/maf/"
p("P01", "A message queue hands out every element exactly once, in order, and always wakes",
  "Every element pushed on an open thread-safe queue is handed to exactly one consumer, in insertion order for a plain queue and best-first for a priority queue, unless the queue is cleared or closed before; a closed queue takes and hands out nothing. A consumer blocked on an open queue returns once an element is available or the queue is closed, and a timed wait gives up only once its deadline has passed.",
  ["schedules", "histories"], "every interleaving of producers, consumers, close, clear and reopen; every operation sequence up to the bound",
  "No existing test runs the queue from several threads on purpose; a lost wake-up or double delivery needs one particular interleaving of close/push with a consumer about to sleep.",
  [H+"threading/ThreadSafeQueue.h", H+"threading/Queue.h"], [("ThreadSafeQueue", H+"threading/ThreadSafeQueue.h")],
  ["queue contents", "closed flag"], ["return values of wait/waitFor/tryPop", "values received"])
p("P02", "A processor runs accepted work exactly once, in order, only on its own thread",
  "Every message or execution a running processor accepts is handled exactly once, in the order it was accepted from each poster, and only on the thread that runs the processor. A post or execution that is reported as refused is never handled.",
  ["schedules", "histories"], "every interleaving of posters, the processor thread and stop, over all posting flavours",
  "The tests post from one or two threads under whatever schedule the machine gives; loss, duplication and reordering windows are a few instructions wide.",
  [C+"messaging/Processor.cpp", H+"messaging/Processor.h"], [("PendingTask queue", C+"messaging/Processor.cpp"), ("ProcessorImpl::run", C+"messaging/Processor.cpp")],
  ["pending executions", "message handler map"], ["handler invocation log", "this_processor identity"])
p("P03", "Stopping a processor always ends its run loop, and nothing runs afterwards",
  "After a stop request the run loop returns, whatever the processor and its posters are doing at that moment, and no handler or execution of that processor starts once the loop has returned. A processor object can be destroyed at once after its loop ended, and one that runs in its own thread always gives its thread back.",
  ["schedules"], "every interleaving of stop with an idle, waking, or busy loop and with concurrent posts",
  "The tests stop a processor that has long been idle; a stop that falls between the loop's check and its sleep is never exercised.",
  [C+"messaging/Processor.cpp", H+"messaging/ProcessorEx.h", H+"threading/ThreadSafeQueue.h"], [("stop/run", C+"messaging/Processor.cpp"), ("AsyncProcessor/ThreadProcessor", H+"messaging/ProcessorEx.h")],
  ["running state"], ["return of run()", "stopped signal", "thread join"])
p("P04", "A waitable post or execution always completes, after the work it waits for",
  "The completion object of a waitable post, send or execution becomes ready under every schedule: once every handler of the message has finished if the work was run, or with an error or empty object if the processor stops first. Waiting from inside the processor's own handlers never blocks forever.",
  ["schedules"], "every interleaving of waiting poster, processor thread and stop; issued from inside and outside the processor thread",
  "Tests wait only while the processor keeps running; the combination with a stop, or with a handler waiting on its own processor, needs a specific schedule.",
  [C+"messaging/Processor.cpp", H+"messaging/Processor.h"], [("waitablePost/waitableExecute/send", C+"messaging/Processor.cpp"), ("CompleteSignal", H+"messaging/ProcessorDef.h")],
  ["promise of the queued task"], ["future state", "handler log"])
p("P05", "A message reaches exactly the handlers connected for its type",
  "Handling a message calls every handler connected for that message type at the time and no other, and a handler that was disconnected before the call starts is not called. Connecting, disconnecting and posting from inside handlers, or from other threads at the same time, neither deadlocks nor corrupts the set of handlers.",
  ["schedules", "histories"], "every operation sequence on connections up to the bound, and every interleaving of connect/disconnect/post with running handlers",
  "Tests connect first and post afterwards from one thread; lock-order cycles between the handler table and a running handler need two threads at particular points.",
  [C+"messaging/Processor.cpp", H+"messaging/ProcessorDef.h", H+"messaging/MsgConnectionGroup.h"], [("connect/disconnect/connected", C+"messaging/Processor.cpp"), ("MsgConnection", C+"messaging/Processor.cpp")],
  ["message handler map"], ["handler invocation log", "progress of all threads"])
p("P06", "Processor ids are unique and routed messages reach the processor so named",
  "At any time at most one live processor is registered under an id, of any number of concurrent creators of one id exactly one gets it, and an id is free again after its processor is stopped. A message routed to an id is handled by the processor holding that id and by no other; broadcast reaches each registered processor once, and routing from inside a handler never deadlocks.",
  ["schedules", "histories"], "every interleaving of create/stop/find/route/broadcast on a bounded set of ids, and every sequence up to the bound",
  "The routing tests create each id once from one thread, so the window between looking an id up and registering it is never hit.",
  [C+"messaging/Router.cpp", C+"messaging/Routing.cpp", C+"messaging/Processor.cpp"], [("Router", C+"messaging/Router.cpp"), ("Processor::create", C+"messaging/Processor.cpp")],
  ["registered processors"], ["create results", "findProcessor", "handler log"])
p("P07", "A signal calls exactly its connected slots, in connection order",
  "Emitting a signal calls each slot that is connected and was connected before the emission started exactly once, in connection order, with the emitted arguments; a slot disconnected before its turn is not called. This holds for single- and multi-slot signals, slots bound to tracked objects, scoped, connection-aware and chained connections, and any slot may connect, disconnect (itself included) or throw without invalidating later emissions; connection state queries agree with what an emission would call.",
  ["histories"], "every sequence of connect/disconnect/reconnect/clear/emit operations up to the bound, including operations performed inside slots at every position",
  "The tests follow a few fixed scripts; one of them already crashes. Re-entrant operations at each position multiply beyond hand-written cases.",
  [H+"utils/SignalSlots.h"], [("SingleSlotKeeper/MultiSlotKeeper", H+"utils/SignalSlots.h"), ("Connection", H+"utils/SignalSlots.h")],
  ["slot list", "connection handle"], ["slot call log", "connected()", "memory errors"])
p("P08", "Thread-safe signals tolerate concurrent connect, disconnect and emit",
  "With thread-safe signals, any mix of emissions, connections and disconnections from different threads runs without data race, memory error or deadlock. Once a disconnect has returned in one thread no later emission calls the slot, and a slot connected before an emission starts and not disconnected meanwhile is called exactly once by it.",
  ["schedules"], "every interleaving, up to the preemption bound, of emitter, connector and disconnector threads",
  "The only multi-threaded test of this is skipped because it hangs; the outcome depends on schedules the test cannot choose.",
  [H+"utils/SignalSlots.h", H+"threading/AtomicObject.h", H+"threading/MutexRef.h"], [("AtomicObject keeper", H+"utils/SignalSlots.h")],
  ["slot list"], ["slot call log", "races", "progress"])
p("P09", "An observable delivers every change, and its last notification is its value",
  "Setting or modifying an observable notifies each observer connected before it exactly once per change with the new value, in the order of the changes, and does not notify when the value is unchanged or changed silently. When all threads are done, the last value every connected observer has seen equals the value a reader gets, also with concurrent writers and observers that connect meanwhile.",
  ["schedules", "histories"], "every operation sequence up to the bound against a reference model; every interleaving of writers, readers and connecting observers up to the preemption bound",
  "Tests check single-threaded scripts; a stale last notification needs two writers interleaved between store and notify.",
  [H+"utils/Observable.h"], [("BasicObservable", H+"utils/Observable.h")],
  ["stored value", "signal"], ["observer log", "get()"])
p("P10", "A compound observable always equals the tuple of its parts",
  "After any change of any part, a compound observable holds the tuple of the current values of its parts and has notified its observers of it. It stays so for any sequence of changes, compound of compounds and connects, and dropping the compound stops the updates without touching the parts.",
  ["histories", "schedules"], "every sequence of part changes, connects and drops up to the bound; interleavings of two writers to different parts",
  "The tests change a part once or twice in a fixed order.",
  [H+"utils/Observable.h"], [("CompoundObservable", H+"utils/Observable.h")],
  ["combined value"], ["observer log", "value of the compound"])
p("P11", "A timer fires once per start (cyclic: every period), never early or after stop",
  "A started one-shot timer runs its callback exactly once, on the processor thread that started it, not before its timeout has elapsed; a cyclic timer runs it once per period until stopped. A stopped or destroyed timer does not fire, restarting counts the timeout anew, and any number of timers started, stopped and restarted in any order, callbacks included, do not disturb each other.",
  ["histories", "schedules"], "every sequence of start/stop/restart/advance operations on a bounded set of timers under virtual time; timer operations performed inside callbacks",
  "The timer test cannot even be linked at this commit, and it samples a few real-time delays with tolerance.",
  [C+"messaging/Timer.cpp", H+"messaging/Timer.h", H+"messaging/SignalTimer.h"], [("TimerMgr", C+"messaging/Timer.cpp")],
  ["timer heap", "running flag"], ["callback log with virtual timestamps", "running()"])
p("P12", "A synchronous timer waits out its time unless stopped, and can be restarted",
  "Starting a synchronous timer blocks its caller until the timeout has elapsed or the timer is stopped from another thread, never returning early otherwise and never blocking past a stop. Restarting it from another thread makes the waiter wait a full new period, and the callback runs exactly when the timeout elapsed without a stop.",
  ["schedules"], "every interleaving of start, stop, restart and running() under virtual time",
  "No existing test touches it; stop racing with the start of the wait needs a controlled schedule.",
  [C+"messaging/SyncTimer.cpp", H+"messaging/SyncTimer.h"], [("SyncTimer", C+"messaging/SyncTimer.cpp")],
  ["running flag"], ["callback log", "return time of start()"])
p("P13", "Thread pools run each submitted task exactly once and shut down cleanly",
  "Every task accepted by a thread pool before shutdown is run exactly once and then released exactly once, or released unrun if the pool shuts down first; tasks run concurrently never exceed the configured number of threads. Shutdown stops running tasks that support it, joins every worker and returns under every schedule, and submitting from several threads is free of data races.",
  ["schedules", "configurations"], "every interleaving of submitters, workers and shutdown for the fixed-size, growing and priority pools",
  "No existing test exercises the pools at all.",
  [H+"threading/ThreadPoolImplBase.h", C+"threading/threadpool/DynamicCountThreadPool.cpp", C+"threading/threadpool/StableThreadPool.cpp", C+"threading/threadpool/PriorityThreadPool.cpp", H+"threading/Runnable.h"], [("ThreadPoolImplBase", H+"threading/ThreadPoolImplBase.h")],
  ["task queue", "running task list", "thread vector"], ["task run/release log", "return of shutdown"])
p("P14", "Guarded objects give exclusive access and deferred values are delivered once",
  "Access to an object through its lockable or atomic wrapper is mutually exclusive, so concurrent read-modify-write sequences lose no update and readers see no half-made change; trying to lock never waits for the holder. A deferred value chain delivers the value or the failure of its source to its consumer exactly once.",
  ["schedules", "histories"], "every interleaving of two or three threads using the wrappers; every chain shape up to the bound",
  "Mutual exclusion is a property of all schedules; no existing test has two threads contend on a wrapper.",
  [H+"threading/AtomicObject.h", H+"threading/Lockable.h", H+"threading/MutexRef.h", H+"threading/Upcoming.h", H+"threading/Locker.h"], [("AtomicObject/Lockable", H+"threading/AtomicObject.h"), ("Upcoming", H+"threading/Upcoming.h")],
  ["wrapped object"], ["final value", "races"])
p("P15", "Every service request gets at most one reply, and an answered one exactly one",
  "A request sent by a client gets its reply callback called at most once, with the reply to that very request (partial updates before it aside), and exactly once if the service answers while reachable. When the service or connection goes away every outstanding request ends: a synchronous caller returns with a failure, an asynchronous callback is released without being called; an expired or aborted request is never answered later, and no caller stays blocked.",
  ["schedules", "histories"], "every order of replies, aborts, service and server status changes for a bounded number of requests, and interleavings of caller, receiver thread and aborter",
  "The client-server part has no test that runs; the stub_proxy test cannot be linked and is flaky when it is.",
  [C+"messaging/client-server/ServiceRequester.cpp"], [("ServiceRequester request map", C+"messaging/client-server/ServiceRequester.cpp")],
  ["request entries"], ["callback log", "messages sent to the server"])
p("P16", "Each registered callback gets every update while registered, none otherwise",
  "Each callback registered for a property or signal receives each later update of that operation, in order, until it is unregistered or the service goes away, and none for other operations or for updates that arrive after unregistration returned. However often callbacks come and go, the service is told to start exactly when the first appears and to stop when the last one leaves; a late registrant of a property gets the known value.",
  ["histories", "schedules"], "every sequence of register/unregister/update/status operations up to the bound against a reference model; interleavings of updates with registration changes",
  "No running test covers registration bookkeeping, let alone its interplay with updates and service loss.",
  [C+"messaging/client-server/ServiceRequester.cpp", H+"messaging/client-server/RegID.h"], [("ServiceRequester reg map", C+"messaging/client-server/ServiceRequester.cpp")],
  ["registration entries", "property cache"], ["callback log", "messages sent to the server"])
p("P17", "A property read returns the latest known value, none from before a service loss",
  "Reading a property through a client returns the value most recently announced by the service for that property if one is known, or asks the service for it, and reports a failure instead of an empty success otherwise. A value received before the service went away is not returned as current after it came back until the service announced it again.",
  ["histories"], "every sequence of register, update, service loss, service return and read up to the bound",
  "No running test covers the property cache across service loss.",
  [C+"messaging/client-server/ServiceRequester.cpp", H+"messaging/client-server/BasicProxy.h"], [("property cache", C+"messaging/client-server/ServiceRequester.cpp")],
  ["property cache"], ["returned value and status", "messages sent to the server"])
p("P18", "A service answers each request once and notifies exactly its current subscribers",
  "A service provider hands each incoming request to the handler registered for its operation, replies to its sender exactly once however often or concurrently the handler answers, and answers requests it has no handler for with an error. A property change or signal is sent to exactly the clients registered for it at that time, a new subscriber gets the current property value, an unchanged property is not re-sent, and a client that is gone is dropped from everything.",
  ["histories", "schedules"], "every sequence of incoming messages, handler registrations, answers, property changes and client losses up to the bound; interleavings of two answering threads",
  "No running test covers the provider; double answers and answer-versus-abort need a controlled schedule.",
  [C+"messaging/client-server/ServiceProvider.cpp", C+"messaging/client-server/Request.cpp"], [("ServiceProvider", C+"messaging/client-server/ServiceProvider.cpp"), ("Request", C+"messaging/client-server/Request.cpp")],
  ["request list", "subscriber lists", "property map"], ["messages sent to clients", "handler log"])
p("P19", "Typed proxy and stub see the same requests, replies, updates and signals",
  "Between a proxy and a stub of one service, in the same program or over local IPC, every request reaches the stub's handler with the parameters given and every reply, error, property update and signal reaches the proxy's callbacks with the values sent, each one once and in order, for repeated use of the same registration. Callbacks given an executor run only through it, and synchronous calls return the reply to their own request.",
  ["histories", "schedules"], "every sequence of typed operations up to the bound over the in-process and the local IPC connection; interleavings of client and service threads up to the preemption bound",
  "The only test of this cannot be linked at this commit and crashes in most runs when it is.",
  [H+"messaging/client-server/ipc/local/ParamTrait.h", H+"messaging/client-server/BasicProxy.h", H+"messaging/client-server/BasicStub.h", H+"messaging/client-server/RequestT.h", C+"messaging/client-server/itc/Client.cpp", C+"messaging/client-server/itc/Server.cpp"], [("BasicProxy/BasicStub", H+"messaging/client-server/BasicProxy.h")],
  ["callback registrations"], ["typed callback log"])
p("P20", "Clients see a service's availability exactly as it changes",
  "A client's view of a service is available exactly while the service is served by a reachable server, observers are told of each change once, in order, and a late observer learns the current state. Observers may call back into the client from their notification, and status changes, observer (un)registration and service (un)registration from different threads neither deadlock nor lose a change.",
  ["histories", "schedules"], "every sequence of serve/unserve/observe/connection-loss operations up to the bound; interleavings of two such threads",
  "No running test; lock-order cycles between the requester list and the status list need two threads at particular points.",
  [C+"messaging/client-server/ClientBase.cpp", C+"messaging/client-server/ServerBase.cpp", H+"messaging/client-server/ServiceStatusSignal.h"], [("ClientBase", C+"messaging/client-server/ClientBase.cpp"), ("ServerBase", C+"messaging/client-server/ServerBase.cpp")],
  ["service status map", "requester map"], ["observer log", "progress"])
p("P21", "The local IPC channel delivers whole messages or reports failure",
  "Whatever way the operating system splits, delays, interrupts or fails individual socket operations, each message the receiver hands on is byte for byte one message a sender sent, at most once, and messages one sender sends one after another arrive in that order. The sender reports success only if the whole message was handed to the system; when operations are only split, delayed or interrupted and the receiver keeps running, such a message arrives exactly once. Addresses of different names are different channels, and a sender that dies mid-message, or sends garbage, neither blocks nor crashes the receiver nor affects other senders.",
  ["fault_sequences", "schedules"], "every sequence of short reads/writes, interruptions, resets and closes up to the fault bound on every socket call of a bounded exchange",
  "The IPC test sends a few messages over a healthy socket; short and interrupted transfers practically never happen there.",
  ["src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp", "src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp", "src/platforms/unix/maf/messaging/client-server/ipc/SocketShared.h"], [("receiver loop", "src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp"), ("send loop", "src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp")],
  ["partially read message"], ["bytes handed to the observer", "send status"])
p("P22", "The IPC receiver can be stopped at any time and gives back what it used",
  "Stopping a local IPC receiver ends its blocking start call under every schedule, whether no, one or many senders are connected or in the middle of a message, and also when the stop comes right at the start. Afterwards its address can be used again and no socket it opened stays open.",
  ["schedules", "fault_sequences"], "every interleaving of stop with start, accept, receive and sender activity",
  "The test stops an idle receiver once at the end.",
  ["src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp"], [("start/stop", "src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp")],
  ["receiver state", "sockets"], ["return of start()", "open descriptors", "rebind"])
p("P23", "IPC protocol messages survive encoding, and malformed ones are refused",
  "Every protocol message decodes from its encoding to an equal message, with all fields and payload, whatever their values. Any byte string that is not a complete encoding is refused as a failure without crash, over-read or excessive allocation. A complete message whose operation code is none of the protocol's is not acted on by either side, which stays as it was, also with logging on.",
  ["inputs"], "all combinations of boundary field values; every truncation and every single-byte change of a set of encodings; every operation code delivered to both sides",
  "No existing test decodes anything but what was just encoded, and nothing decodes damaged input.",
  [C+"messaging/client-server/ipc/LocalIPCMessage.cpp", H+"messaging/client-server/ipc/local/IncomingPayload.h", H+"messaging/client-server/ipc/local/OutgoingPayload.h"], [("toBytes/fromBytes", C+"messaging/client-server/ipc/LocalIPCMessage.cpp")],
  ["message fields"], ["decoded message", "decode status"])
p("P24", "Deserialising serialised bytes gives back an equal value of the announced size",
  "For every supported type and value, serialising writes exactly the announced number of bytes, deserialising them succeeds, yields an equal value and consumes exactly those bytes, also when several values follow each other in one stream. This covers numbers, enums, strings, containers, pairs, tuples, pointers, smart pointers, variants, aggregates and macro-defined objects, in any nesting.",
  ["inputs"], "all values of a bounded grammar of types and boundary values, and all sequences of them up to the bound",
  "Tests check a handful of hand-picked values; two of the facilities do not even compile in the tests at this commit.",
  [H+"utils/serialization/Serializer.h", H+"utils/serialization/VariantSerializer.h", H+"utils/serialization/OByteStream.h", H+"utils/serialization/IByteStream.h"], [("Serializer", H+"utils/serialization/Serializer.h")],
  ["byte stream position"], ["decoded values", "stream sizes"])
p("P25", "Deserialising damaged or truncated bytes is reported as failure, safely",
  "Deserialising any proper prefix of a serialised value that lacks bytes the value needs reports failure, and no input whatsoever makes it read outside the input, crash, or allocate memory out of proportion to the input. A value is reported as decoded only if all of its parts were, and a failed decoding leaves nothing allocated behind. A failed stream stays failed until it is reset, and reading at the end of the stream is reported.",
  ["inputs"], "every truncation point and every single-byte change of the encodings of a bounded grammar of values; all stream operation sequences up to the bound",
  "Tests only deserialise intact data.",
  [H+"utils/serialization/Serializer.h", H+"utils/serialization/IByteStream.h", H+"utils/serialization/VariantSerializer.h"], [("Serializer::deserialize", H+"utils/serialization/Serializer.h"), ("IByteStream::read", H+"utils/serialization/IByteStream.h")],
  ["stream state"], ["deserialise result", "memory errors", "allocation sizes"])
p("P26", "Addresses, registration ids and aggregates are ordered and compared consistently",
  "Comparing addresses, registration ids and comparable aggregates gives a strict weak order consistent with equality, so that keyed collections of them find, insert and erase exactly the right entries. Equality holds exactly when all fields are equal.",
  ["inputs"], "all pairs and triples of values from a bounded domain, and all insert/find/erase sequences up to the bound",
  "No test compares more than two values; an ordering that is wrong only for some triples passes them.",
  [C+"messaging/client-server/Address.cpp", H+"messaging/client-server/RegID.h", H+"utils/cppextension/AggregateCompare.h", H+"utils/cppextension/TupleDiff.h"], [("operator<", C+"messaging/client-server/Address.cpp")],
  [], ["comparison results", "collection contents"])
p("P27", "Generated ids are unique and never the invalid one",
  "Ids handed out by one id manager are pairwise distinct and never equal the invalid id as long as the id range is not exhausted, whichever threads ask and whatever is given back in between. With a small id range the invalid id is still never handed out.",
  ["schedules", "histories"], "every interleaving of concurrent allocations; every allocate/reclaim sequence through the whole range of a small id type",
  "No existing test; wrap-around and concurrent allocation are not reached by use.",
  [H+"utils/IDManager.h"], [("allocateNewID", H+"utils/IDManager.h")], ["counter"], ["ids returned"])
p("P28", "Field-wise views visit every field of an aggregate once, in order",
  "The tuple view, the field iteration, the flattening and the difference of an aggregate visit every field exactly once in declaration order and refer to the aggregate itself, for all sizes and nestings. The difference of two tuples marks exactly the positions that differ.",
  ["inputs"], "aggregates of every size up to the bound and all field value combinations from a small domain",
  "Tests use one or two structs of a few fields.",
  [H+"utils/cppextension/Aggregate.h", H+"utils/cppextension/TupleManip.h", H+"utils/cppextension/TupleDiff.h", H+"utils/cppextension/AggregateCompare.h"], [("tuple_view", H+"utils/cppextension/Aggregate.h")], [], ["visited fields"])
p("P29", "A complete local IPC service conversation behaves as in one program",
  "Client and service on two sides of the local IPC transport exchange registration, requests, replies, updates and signals so that each arrives once and in order, and each side notices when the other goes away (it says so, or is away for longer than the monitoring interval) and recovers when it returns. A stopped client no longer contacts the server. Starting and stopping either side at any moment neither hangs nor crashes either.",
  ["schedules", "fault_sequences"], "interleavings up to the preemption bound of client, server, transport and monitor threads over a simulated socket layer, with either side leaving and returning",
  "No running test covers it; the samples only show the fault-free path by hand.",
  [C+"messaging/client-server/ipc/LocalIPCClient.cpp", C+"messaging/client-server/ipc/LocalIPCServer.cpp"], [("LocalIPCClient", C+"messaging/client-server/ipc/LocalIPCClient.cpp"), ("LocalIPCServer", C+"messaging/client-server/ipc/LocalIPCServer.cpp")],
  ["connection state", "known clients"], ["callback log", "service status"])
p("P30", "Exactly the enabled log levels are logged",
  "A message is passed to the log sink exactly when its level is enabled at that time, complete and once, to the error sink for warnings and errors and to the output sink otherwise. Enabling and disabling levels in any order, and logging while they change in another thread, has exactly that effect.",
  ["histories", "schedules"], "every sequence of enable/disable/change/log up to the bound; interleavings of logging with level changes",
  "No existing test checks the logger.",
  [C+"logging/Logger.cpp", H+"logging/Logger.h"], [("logImpl", C+"logging/Logger.cpp")], ["allowed levels"], ["sink log"])
p("P31", "Dumped values show every field, nested to the right depth",
  "Dumping a value writes every element and field exactly once, in order, with balanced brackets, correct separators and the requested indentation, for every nesting of containers, tuples, aggregates and objects. Dumping never fails or reads outside the value, empty containers and null pointers included.",
  ["inputs"], "all values of a bounded grammar of types, at all indentation levels up to the bound",
  "Tests print values without checking the text.",
  [H+"utils/serialization/Dumper.h", H+"utils/serialization/AggregateDump.h", H+"utils/serialization/VariantDump.h"], [("dump", H+"utils/serialization/Dumper.h")], [], ["text"])
p("P32", "Scope guards run once, measurements report once, named enum values print as their names",
  "A scope guard runs its action exactly once, when its scope is left in whatever way. A time measurement reports at most once, when it is stopped or destroyed unless it was aborted before, the time since its last start, also after it was moved and when its report stops it again. Every value of a named enumeration, of any number of names, prints as its name and any other value as none of them. The direct executor has run the work when it returns, in the order given, and reports work that failed.",
  ["histories", "inputs"], "every sequence of operations on two measurements up to the bound; every value of enumerations of 1 to 125 names; every nesting of guards and direct executions up to the bound",
  "The tests have no measurement that is moved, aborted or stopped from its report, and print a handful of enum values.",
  [H+"utils/CallOnExit.h", H+"utils/TimeMeasurement.h", H+"utils/StringifyableEnum.h", C+"utils/DirectExecutor.cpp"], [("TimeMeasurement::stop", H+"utils/TimeMeasurement.h"), ("MC_MAF_STRINGIFYABLE_ENUM", H+"utils/StringifyableEnum.h")], [], ["reports", "printed text"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
