#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand; the output is committed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = [observe]
    pass
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
C = "paladin-core/src/"
p("P01", "Mapping a stream yields exactly one indexed result per input",
  "Mapping an operation over a finite indexed stream on the in-memory runtime ends on its own and yields, for every input, exactly one item that carries the input's index and the operation's result for that input, and yields nothing else. This holds for empty and single-item streams, for inputs that arrive all at once or late (including an end of input that arrives after every result), for every completion order of the operations, every number of workers and both serialization formats.",
  ["schedules", "inputs", "configurations"],
  "all input lengths, arrival timings, operation completion orders, worker counts, serializers and task schedules",
  "A test sees one timing of inputs and completions; lost wake-ups, early stream ends and duplicated results need a particular order of close, acknowledge and poll.",
  [C+"directive/indexed_stream/functor.rs", C+"channel/coordinated_channel/", C+"runtime/mod.rs", C+"queue/in_memory.rs"],
  [("IndexedStream::f_map", C+"directive/indexed_stream/functor.rs"), ("lease_coordinated_task_channel", C+"runtime/mod.rs"),
   ("WorkerRuntime::main_loop", C+"runtime/mod.rs")], observe="items of the stream returned by a map directive")
p("P02", "Folding a stream combines its items in order and always finishes",
  "Folding items with an associative, not necessarily commutative, operation on the in-memory runtime always finishes and returns the combination of all items in index order: the identity element for no items, the item itself for one item, and every item exactly once otherwise. This holds whatever the order and time at which items arrive (indices need not arrive in order, and the end of input may become known after every combination has finished), the order in which combinations complete, the number of workers and the schedule.",
  ["schedules", "inputs", "configurations"],
  "all input lengths, index arrival orders, arrival timings, completion orders, worker counts and schedules",
  "The assembly of adjacent ranges depends on which results meet; a test runs one of the many completion orders and rarely the one where the last result beats the end of input.",
  [C+"directive/indexed_stream/foldable.rs", C+"contiguous/queue.rs", C+"channel/coordinated_channel/", C+"runtime/mod.rs"],
  [("IndexedStream::f_fold", C+"directive/indexed_stream/foldable.rs"), ("ContiguousQueue", C+"contiguous/queue.rs")],
  observe="value returned by a fold directive")
p("P03", "Directives compose: literals, maps and folds chain into one program",
  "Mapping over a single literal yields the operation applied to it, and any chain of maps optionally followed by a fold evaluates to what the same chain of pure functions evaluates to on the input sequence in index order. Collecting a mapped stream sorted by index returns all of its values in input order, or the stream's error if it contains one.",
  ["programs", "schedules", "inputs"],
  "all chains of up to three directives over small inputs, all completion orders and schedules within the bound",
  "Each stage streams into the next while both are running; only some overlaps of stages expose a wrong order, a lost item or a deadlock.",
  [C+"directive/mod.rs", C+"directive/literal/functor.rs", C+"directive/indexed_stream/"],
  [("Directive::{map,fold}", C+"directive/mod.rs"), ("Literal::f_map", C+"directive/literal/functor.rs"), ("into_values_sorted", C+"directive/indexed_stream/mod.rs")],
  observe="value returned by running a directive chain")
p("P04", "Concurrent directives on one runtime never mix or lose results",
  "When several directives run at the same time on one runtime, each gets exactly the results of its own tasks, as if it ran alone. Finishing or dropping one of them early, even with its tasks still executing, neither disturbs the others nor stops workers from serving later directives.",
  ["schedules", "histories"],
  "all schedules and completion orders of two directives, with an early drop of one at every point",
  "Isolation of result channels fails only when completion, release and reuse of channels overlap in a particular way.",
  [C+"runtime/mod.rs", C+"channel/mod.rs", C+"channel/queue.rs", C+"queue/in_memory.rs"],
  [("lease_coordinated_task_channel / LeaseGuard", C+"runtime/mod.rs"), ("QueueChannelFactory::issue", C+"channel/queue.rs")],
  observe="results of each directive")
p("P05", "A terminal failure makes the directive fail, never hang or lie",
  "If an operation fails for good under the terminate strategy (a fatal error, a panic, or a transient error whose retries are used up), or if the input stream yields an error, then the running map or fold finishes with an error carrying that failure's message. It never hangs, never ends as if it had succeeded, and every item a map yielded before the error is correct.",
  ["schedules", "inputs", "fault_sequences"],
  "every failing position and kind of failure, every completion order, worker count and schedule within the bound",
  "The error races with successful results, with the end of input and with the abort of all workers; a test sees one outcome of that race.",
  [C+"runtime/mod.rs", C+"directive/indexed_stream/", "paladin-opkind-derive/src/lib.rs", C+"operation/error.rs"],
  [("dispatch_fatal", C+"runtime/mod.rs"), ("operation_derive panic and retry handling", "paladin-opkind-derive/src/lib.rs")],
  observe="result of running a directive whose operation or input fails")
p("P06", "An ignored failure affects only the failing task",
  "A task whose operation fails for good under the ignore strategy produces no result and no error and stops nothing: every other task, of the same directive and of others, including those received later by the same worker, is still executed exactly once and its result delivered. Workers keep serving after any number of ignored failures.",
  ["schedules", "inputs", "fault_sequences"],
  "every subset of failing tasks, completion order, worker count and schedule within the bound",
  "Whether later tasks of the job are dropped depends on which worker picks them up after the failure.",
  [C+"runtime/mod.rs"], [("main_loop error branch", C+"runtime/mod.rs"), ("dispatch_fatal", C+"runtime/mod.rs")],
  observe="results delivered by a map with ignored failures")
p("P07", "Retries follow the declared strategy and fatal errors are never retried",
  "A retried function runs until its first success, whose value is returned, and at most one more time than its retry bound; fixed-delay attempts are spaced by at least the declared delay, exponential retry waits between attempts and stops once its maximal elapsed time is over, and each failed attempt that is retried is reported to the tracer once. A transient failure that outlives its retries becomes a fatal failure with the error of the last attempt and the declared fatal strategy, while a fatal error, on whatever attempt it occurs, is never retried and keeps its own error and strategy.",
  ["inputs", "fault_sequences"],
  "all outcome sequences (success, transient, fatal with either strategy) up to a depth, all strategies and bounds up to 3",
  "Unit tests check a couple of outcome sequences; the state space is every sequence of per-attempt outcomes under every strategy, on a clock tests cannot control.",
  [C+"operation/error.rs", "paladin-opkind-derive/src/lib.rs"],
  [("retry_with_strategy", C+"operation/error.rs"), ("OperationError::retry_internal", C+"operation/error.rs"), ("operation_derive", "paladin-opkind-derive/src/lib.rs")],
  observe="attempts made, their times, and the final result of an operation")
p("P08", "A single-delivery queue hands each message to exactly one consumer",
  "Every message published to a single-delivery in-memory queue is received unchanged by exactly one of its consumers, whether it was published before or after they were declared, provided some consumer keeps polling; none is lost, duplicated or left waiting while a consumer waits. Messages published one after another are received by a single consumer in publication order, and dropping a consumer, even one that is waiting, loses no message that it had not received.",
  ["schedules", "histories"],
  "all interleavings of up to 2 publishers and 2 consumers (declared, polled and dropped at any time) within the preemption bound",
  "The permit count and the message list are two structures updated separately; only particular interleavings of publish, poll and drop separate them.",
  [C+"queue/in_memory.rs"], [("ExactlyOnceQueue::publish", C+"queue/in_memory.rs"), ("InMemoryConsumer::poll_next", C+"queue/in_memory.rs")],
  observe="items yielded by the consumers of a queue")
p("P09", "A broadcast queue hands each message to every consumer exactly once",
  "Every message published to a broadcast in-memory queue after a consumer was declared is received by that consumer exactly once, and each publisher's messages are received in its publication order. With persistent delivery, messages published while no consumer exists are kept and delivered exactly once, in order, to the first consumer declared, even when publishing and declaring overlap; with ephemeral delivery they are discarded, and declaring a name again joins the same subscription.",
  ["schedules", "histories"],
  "all interleavings of up to 2 publishers and 2 declaring consumers within the preemption bound, and all operation sequences up to a depth",
  "The hand-over between history and a consumer that registers during a publish is a race with no test that controls it.",
  [C+"queue/in_memory.rs"], [("BroadcastQueue::publish", C+"queue/in_memory.rs"), ("BroadcastQueue::declare_consumer", C+"queue/in_memory.rs")],
  observe="items yielded by the consumers of a queue")
p("P10", "Queue names identify queues: declaring shares, deleting resets, names isolate",
  "Declaring a queue name that exists, concurrently or not and on any clone of the connection, gives access to the same queue with its messages and its original options, while a different name gives an independent queue. After a queue is deleted, declaring its name again gives an empty queue, and deleting a name that does not exist succeeds and changes nothing.",
  ["schedules", "histories"],
  "all sequences of declare, publish, consume and delete up to a depth over two names, and all interleavings of two declaring tasks",
  "Check-then-insert races between two declarations lose one side's messages only in particular interleavings.",
  [C+"queue/in_memory.rs", C+"channel/queue.rs"], [("InMemoryConnection::declare_queue", C+"queue/in_memory.rs"), ("InMemoryConnection::delete_queue", C+"queue/in_memory.rs")],
  observe="messages received through handles of a name")
p("P11", "A coordinated receiver ends after close once all sends are acknowledged",
  "The receiving end of a coordinated channel ends once the sending end was closed or dropped and every message successfully published has been received and acknowledged (negatively or not), in whatever order close, receipt and acknowledgement happen and also when the receiver is already waiting. Acknowledging a message more than once counts once, publishing after close fails, and a publish that failed does not keep the receiver open.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of a publisher, a receiver and an acknowledging task within the preemption bound, with every position of failing publishes",
  "The end of the stream is decided from two counters and a waker; a lost wake-up or stale read needs one particular interleaving.",
  [C+"channel/coordinated_channel/"], [("CoordinatedStream::poll_next", C+"channel/coordinated_channel/coordinated_stream.rs"), ("ChannelState::close", C+"channel/coordinated_channel/mod.rs"), ("CoordinatedAcker::ack", C+"channel/coordinated_channel/coordinated_stream.rs")],
  observe="termination of the receiving stream")
p("P12", "A coordinated receiver never ends while a message is outstanding",
  "The receiving end of a coordinated channel never ends while its sender is open, nor while a successfully published message has not yet been received and acknowledged; every such message is yielded exactly once before the end. This also holds when a publish and a close of the sending end overlap.",
  ["schedules", "histories"],
  "all interleavings of up to two publishing tasks, a closing task, a receiver and acknowledgements within the preemption bound",
  "An early end needs the receiver to look between two steps of a publish or close on another thread.",
  [C+"channel/coordinated_channel/"], [("CoordinatedStream::poll_next", C+"channel/coordinated_channel/coordinated_stream.rs"), ("CoordinatedPublisher::publish", C+"channel/coordinated_channel/coordinated_publisher.rs")],
  observe="items yielded by the receiving stream before its end")
p("P13", "A leased channel is released exactly once, when its receiver is dropped",
  "A leased result channel stays usable until the receiving end is dropped, and is released exactly once then, whether the receiver was drained, abandoned half-way or never polled; dropping the sending end does not release it. Once a directive that ran to its end has been dropped, its result queue is gone from the broker.",
  ["histories", "schedules"],
  "all sequences of publish, receive, acknowledge, close and drop of either end up to a depth, and all schedules of the release",
  "Release happens in a destructor and a detached task; tests of results never observe it.",
  [C+"channel/mod.rs", C+"channel/queue.rs", C+"runtime/mod.rs"], [("LeaseGuard drop", C+"channel/mod.rs"), ("QueueChannel::release", C+"channel/queue.rs")],
  observe="calls of the channel's release operation; queues known to the broker")
p("P14", "A worker answers every task exactly once, to the address the task names",
  "A worker's main loop executes each task it receives exactly once with the operation and input the task carries, publishes exactly one result to the task's routing key with the task's metadata unchanged and in the task's own serialization format, and acknowledges the task once. Tasks of different operations, formats and routing keys can be mixed in any order on the same bus, and the loop keeps serving as long as no terminate failure or abort occurs.",
  ["histories", "schedules", "inputs"],
  "all sequences up to a depth of tasks over two operations, two formats and two routing keys, one to three workers, all completion orders",
  "Mixing formats, operations and destinations in one loop has more orders than tests can list, and the answer races with the acknowledgement.",
  [C+"runtime/mod.rs", C+"task/mod.rs", "paladin-opkind-derive/src/lib.rs"], [("WorkerRuntime::main_loop", C+"runtime/mod.rs"), ("AnyTask::remote_execute", C+"task/mod.rs")],
  observe="messages on the result queues of each routing key")
p("P15", "A terminate failure or abort command stops every listening worker",
  "When an operation fails for good under the terminate strategy, or an abort-all command is sent, every worker that is executing a task raises that execution's abort signal and leaves its loop within the shutdown interval without starting another task, and every idle worker leaves when the next task reaches it. An abort naming a single job makes workers skip the tasks of that job received during the following minute, and neither stops the workers nor affects other jobs.",
  ["schedules", "histories"],
  "all worker phases (idle, executing, finishing) at the time of the abort, all schedules within the bound, one to three workers, sequences of abort commands",
  "The command travels through a broadcast queue and a watch channel to each worker; whether it arrives depends on what each worker is doing at that moment.",
  [C+"runtime/mod.rs"], [("main_loop ipc handler", C+"runtime/mod.rs"), ("dispatch_fatal", C+"runtime/mod.rs")],
  observe="termination of the worker loops, abort signal seen by operations, tasks executed")
p("P16", "Every task is executed by the operation it was created for",
  "In every program, an operation identifier selects the implementation of the operation type it was derived for, so a task always executes the operation it was built from. This holds for any number of operations, spread over any modules and crates of the program, and any compilation settings.",
  ["programs", "configurations"],
  "all small layouts of operations over modules and crates, and codegen unit and optimization settings",
  "Identifiers are assigned at macro expansion and resolved by position in a linker section; one crate layout in a test says nothing about the others.",
  ["paladin-opkind-derive/src/lib.rs", C+"lib.rs", C+"task/mod.rs"], [("OPERATION_ID_COUNTER / distributed_slice", "paladin-opkind-derive/src/lib.rs"), ("AnyTask::remote_execute", C+"task/mod.rs")],
  observe="output of a task built from an operation")
p("P17", "Tasks and results survive serialization in both formats",
  "For both serialization formats, a value, task, result or error serialized for the wire and deserialized again equals the original, with routing key, metadata, operation and payload each unchanged; the format used for a task is also used for its result. Bytes that are not a valid encoding yield an error, not a wrong value or a crash, and such input makes an operation fail fatally rather than panic.",
  ["inputs", "configurations"],
  "all values of a small structured alphabet in every field, both formats, and all truncations of their encodings",
  "Round trips are a property of all value combinations and of malformed inputs at every cut point.",
  [C+"serializer/mod.rs", C+"task/mod.rs", C+"operation/mod.rs"], [("Serializer", C+"serializer/mod.rs"), ("Task::as_any_task / AnyTaskResult::into_task_result", C+"task/mod.rs")],
  observe="deserialized tasks and results")
p("P18", "The contiguous queue pairs neighbours and never loses or repeats a value",
  "A value offered to the contiguous queue is either paired with a queued value adjacent to it, the two returned in ascending order, or queued; no value is ever lost, duplicated or paired with a non-adjacent one, also when several threads offer, queue and remove values at the same time. Of two adjacent values offered at the same time with nothing else queued, one call returns the pair and none remains queued.",
  ["schedules", "histories"],
  "all interleavings of 2-3 threads with one to two operations each within the preemption bound, and all operation sequences up to a depth",
  "Finding a neighbour and queueing are separate steps on a lock-free map; the bad interleavings are a few instructions wide.",
  [C+"contiguous/queue.rs"], [("ContiguousQueue::acquire_contiguous_pair_or_queue", C+"contiguous/queue.rs"), ("find_contiguous / queue / dequeue", C+"contiguous/queue.rs")],
  observe="pairs returned and values left in the queue")
p("P19", "Composed acknowledgements run in order and stop at the first failure",
  "A composed acknowledger acknowledges its first part, then its second only if the first succeeded, reports the first failure as the result, and treats negative acknowledgement the same way with the negative operation of both parts. Boxed and shared acknowledgers behave exactly like the one they wrap, at any nesting.",
  ["inputs", "fault_sequences"],
  "all compositions up to depth 3 with every outcome (immediate, pending, failing) of each part, for both operations",
  "The combinations of outcome, nesting and pending answers are many and only one or two are exercised.",
  [C+"acker.rs"], [("ComposedAcker", C+"acker.rs")], observe="calls received by the wrapped acknowledgers and the result")
p("P20", "Publishing a stream sends each item once within the concurrency limit",
  "Publishing a whole stream sends every item exactly once, never more than the given number at a time, returns success only after all sends succeeded, and stops at the first error of the stream or of a send and returns it. A transformed publisher sends exactly the transformed value, sends nothing when the transformation fails and returns that failure, and closing it closes the wrapped publisher.",
  ["inputs", "schedules", "fault_sequences"],
  "all streams up to 4 items with pending, error and completion events in every order, every limit up to 3",
  "Completion order and failures of concurrent sends multiply into more cases than tests enumerate.",
  [C+"queue/publisher.rs"], [("PublisherExt::publish_all", C+"queue/publisher.rs"), ("With::publish", C+"queue/publisher.rs")], observe="calls received by the wrapped publisher and the result")
p("P21", "The AMQP backend delivers each message once and redelivers what was not settled",
  "Against a broker that implements the AMQP rules, a single-delivery queue of the AMQP backend hands each message to one consumer, keeps it until it is settled (acknowledged, or negatively acknowledged, which discards it), returns it to the queue when its consumer's connection is lost before that, and never leaves a consumer more unsettled messages than its prefetch count. A message that cannot be deserialized does not stop the messages behind it, and publishing to a declared queue reaches that queue only.",
  ["histories", "schedules", "fault_sequences"],
  "all sequences up to a depth of publish, receive, ack, nack, connection loss and malformed messages on two queues and two connections",
  "The repository has no test of this backend; the order of acknowledgements, losses and malformed messages is what matters.",
  [C+"queue/amqp.rs"], [("AMQPConnection::declare_queue", C+"queue/amqp.rs"), ("AMQPConsumer::poll_next", C+"queue/amqp.rs"), ("AMQPAcker", C+"queue/amqp.rs")],
  observe="deliveries and broker state")
p("P22", "Directives give the same answers over the AMQP backend",
  "A leader and any number of separate workers connected through an AMQP broker compute the same results for maps, folds and literals as the in-memory runtime does, for every completion order, and an operation's terminal failure reaches the leader as an error. Workers may start before or after the leader publishes its tasks.",
  ["schedules", "configurations", "histories"],
  "all completion orders and start orders with one leader and one to two workers on a model broker, schedules within the bound",
  "The distributed deployment is never run by the tests: they have no broker.",
  [C+"queue/amqp.rs", C+"runtime/mod.rs", C+"runtime/dynamic_channel.rs", C+"channel/queue.rs"], [("DynamicChannelFactory::from_config", C+"runtime/dynamic_channel.rs"), ("AMQPConnection", C+"queue/amqp.rs")],
  observe="results of directives on the AMQP configuration")
p("P23", "Over AMQP every worker gets every broadcast command",
  "With the AMQP backend, a message published to a broadcast channel reaches every consumer of that channel on every connection exactly once, so an abort command stops all connected workers and not just one of them. Deleting a broadcast channel removes its exchange, and nothing declared for the channel outlives its consumers.",
  ["histories", "schedules"],
  "all sequences of declare, publish and consume with two or three consumers on two or three connections of a model broker",
  "No test runs this backend, and a single consumer cannot tell a broadcast from a shared queue.",
  [C+"queue/amqp.rs", C+"runtime/mod.rs"], [("AMQPConnection::declare_broadcast", C+"queue/amqp.rs"), ("declare_consumer", C+"queue/amqp.rs")],
  observe="deliveries to each consumer of a broadcast channel")
p("P24", "Dropping the runtime stops its emulated workers",
  "After an in-memory runtime is dropped, at any moment and with any number of tasks queued or executing, none of its emulated workers starts another operation. Dropping it does not panic or block, and another runtime in the same process is unaffected.",
  ["schedules", "histories"],
  "all schedules within the bound and every point of a running map at which the runtime is dropped, one to three workers",
  "The moment of the drop relative to the workers' progress decides the outcome, and tests drop the runtime only when idle.",
  [C+"runtime/mod.rs"], [("Runtime::drop", C+"runtime/mod.rs"), ("spawn_emulator", C+"runtime/mod.rs")], observe="operations executed after the drop")
p("P25", "Issued identifiers are fresh draws from a large space",
  "The identifiers that a runtime issues for the result channel of every lease and for the consumers of broker queues are fresh draws from the random generator: every issue draws anew, whatever was issued before, concurrently, or by other runtimes and processes, and the draws decide among at least 62^5 identifiers, so that two coincide only if the generator's outputs do. In particular no two of a long history of leases of a deployment coincide unless the generator repeats itself.",
  ["histories", "inputs", "schedules"],
  "all values of every draw of the random generator and of neighbouring pairs of draws; all bounded schedules of concurrent leases; long histories",
  "A test that compares a few identifiers passes with a generator that reaches only some thousand identifiers, is seeded alike in every process, or reuses an identifier under a particular interleaving.",
  [C+"common/mod.rs", C+"channel/queue.rs", C+"queue/amqp.rs"], [("get_random_routing_key", C+"common/mod.rs"), ("QueueChannelFactory::issue", C+"channel/queue.rs"), ("AMQPQueueHandle::consume", C+"queue/amqp.rs")], observe="identifiers of leased channels and tags of their consumers")
p("P26", "A lost broker connection is a failure, and a lost worker loses no task",
  "If the leader's connection to the broker is lost at any moment of a map, fold or literal, the directive ends with an error (a map after yielding only correct items), unless it already had everything it needed: it never hangs, panics, or ends as if it had succeeded with something missing. If the connection of a worker is lost while it executes a task or waits for one, the task is handed to another worker and the directive's answer is the same as without the loss; the worker leaves its loop without panicking. A loss between the end of an execution and the delivery of its result or acknowledgement may repeat that result or lose it, and nothing else.",
  ["fault_sequences", "schedules", "inputs"],
  "all moments (between arrivals and completions, or at any step of a bounded schedule) at which the connection of the leader or of all workers but one is lost; directives of up to four items, one to three workers",
  "The moment of the loss decides which of the stream, the sender, the acker or the IPC channel notices first; tests have no broker that loses connections.",
  [C+"runtime/mod.rs", C+"queue/amqp.rs", C+"directive/indexed_stream/", C+"directive/literal/"],
  [("Runtime::lease_coordinated_task_channel", C+"runtime/mod.rs"), ("WorkerRuntime::main_loop", C+"runtime/mod.rs"), ("AMQPQueueHandle", C+"queue/amqp.rs")], observe="result of the directive, end of the workers' loops")
p("P27", "Runtimes are built as configured and do not mix",
  "Every combination of options, given on the command line or in the environment, is read as what it says, with the documented defaults, and values that no option has are rejected; an AMQP runtime without a broker's address, or whose broker cannot be reached, is an error and not a panic. An in-memory runtime executes as many tasks at the same time as it has workers (three if not configured) as long as it has that many. Tasks of a leader are executed exactly by workers that use the same broker and the same task bus (an unnamed bus being the default's), wait if there are none, and are executed once such a worker starts.",
  ["configurations", "schedules", "histories"],
  "all combinations of the options' forms; in-memory worker counts up to six; all placements of two leaders and up to two workers on two brokers and three buses, all completion orders and bounded schedules",
  "Configurations multiply; tests use one, and a task bus that is ignored in one of several places shows only with several deployments on one broker.",
  [C+"config/mod.rs", C+"runtime/mod.rs", C+"runtime/dynamic_channel.rs"],
  [("Config", C+"config/mod.rs"), ("Runtime::from_config", C+"runtime/mod.rs"), ("WorkerRuntime::from_config", C+"runtime/mod.rs"), ("DynamicChannelFactory::from_config", C+"runtime/dynamic_channel.rs")],
  observe="parsed configuration, number of concurrent executions, which worker executes a task")
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
