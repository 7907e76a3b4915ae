#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run by hand; the output is committed)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
SCHED = "Stateless model checking of the real code: exhaustive exploration of schedules under a controlled scheduler"
TRUST = (" Trusts the stand-ins for the primitives (see DESIGN.md): sequentially consistent memory, scheduling points"
         " only at operations of shimmed primitives, timers that fire only when nothing else can run.")
# property -> (technique, what the check gives)
CLAIMED = {
 "P01": (SCHED, "All orders of input arrivals and operation completions, and all interleavings within the deviation bound of leader, emulated workers and executions, for maps of up to 5 items and up to 4 workers; longer maps under the default schedule. The same programs run on the in-memory backend and, at a lower bound, over the AMQP model with separate workers."),
 "P02": (SCHED, "All arrival orders (including a late end of input), all completion orders of combinations, and all interleavings within the deviation bound, for folds of up to 6 items; folds of up to 25 items with bounded deviations. The same programs run on the in-memory backend and, at a lower bound, over the AMQP model with separate workers."),
 "P03": (SCHED, "All programs of a family of chains (literals, maps, folds, sorted collection), all completion orders and bounded interleavings, against the chain of pure functions. The same programs run on the in-memory backend and, at a lower bound, over the AMQP model with separate workers."),
 "P04": (SCHED, "All pairs of a set of directives on one runtime, all completion orders, start and drop moments of one of them, bounded interleavings; later directives must still be served. The same programs run on the in-memory backend and, at a lower bound, over the AMQP model with separate workers."),
 "P05": (SCHED, "Every set of failing executions, kind of terminal failure and position of an input error, all completion orders and bounded interleavings. The same programs run on the in-memory backend and, at a lower bound, over the AMQP model with separate workers."),
 "P06": (SCHED, "Every set of ignored failures, all completion orders and bounded interleavings; every other task must run exactly once and all workers must keep serving. The same programs run on the in-memory backend and, at a lower bound, over the AMQP model with separate workers."),
 "P07": ("Stateless model checking of the real code: all failure plans up to a length, virtual time",
         "Every sequence of attempt outcomes (success, transient with each strategy, fatal) up to the stated length is run through AnyTask::remote_execute and OperationError::retry against a reference of the retry rules."),
 "P08": (SCHED, "All interleavings (within the deviation bound) of publishers and competing consumers of the in-memory single-delivery queue."),
 "P09": (SCHED, "All interleavings (within the deviation bound) of publishers and joining consumers of the in-memory broadcast queue, both delivery modes."),
 "P10": (SCHED, "All operation sequences up to a depth over two queue names against a reference model, and all interleavings of concurrent declares and deletes."),
 "P11": (SCHED, "All interleavings (within the deviation bound) of sends, failures, acknowledgements and close or drop; every execution must end with the receiver ended."),
 "P12": (SCHED, "The same executions as P11; the receiver must not end while anything is outstanding."),
 "P13": (SCHED + ", and all short histories of a lease", "All sequences up to the stated depth of arrivals, polls, moves and drops of a lease guard, of the ends of leased channels and of leased task channels over the AMQP model, and all completion orders and bounded interleavings of directives, after which no result queue may be left."),
 "P14": (SCHED + " against a model broker", "All sequences up to the stated length of tasks of eight kinds, two formats and two addresses, all arrival and completion orders, and all interleavings within the deviation bound of leader, workers, broker and readers; executions, results, metadata, formats, addresses and settlements are all checked."),
 "P15": (SCHED + ", and all short histories of commands", "All histories up to the stated depth of tasks of two jobs, completions, terminal and ignored failures, aborts of everything and of a job and waits, on one to three workers over AMQP and in memory, against a reference; and all interleavings within the deviation bound of commands or failures with arriving tasks."),
 "P16": ("Explicit enumeration of programs on the real code: every program of a bounded family is compiled with the real macro and crate and executed",
         "All programs with one operation or two at every pair of 13 places in six crates, programs with every place, hundreds of operations and separately built leaders and workers, under two (thorough: four) compilation profiles; each operation's tasks are executed in both formats and must reach their own implementation."),
 "P17": ("Explicit enumeration on the real code of all values of finite families, all truncations, all single-byte changes and all short byte strings", "Every member of finite families of values, tasks, results and errors is taken through both formats, execution and back; every truncation must be rejected; every byte string up to the stated length is decoded as each type. Three options that CBOR cannot express are known findings."),
 "P18": (SCHED, "All interleavings of concurrent offers and dequeues, and all sequential arrival orders, against a reference of the queue."),
 "P19": ("Stateless model checking of the real code: all outcomes, repetitions and interleavings of acknowledgements",
         "All trees of composed ackers up to the stated size with every failing subset and pending pattern."),
 "P20": (SCHED, "All stream contents, failure positions, concurrency limits and completion orders up to the stated size."),
 "P21": (SCHED + " and of protocol histories against a model broker", "All histories up to the stated depth of publishes, receptions, settlements, malformed messages and connection losses, and all interleavings within the deviation bound of publishers, consumers and a connection loss, against a model of the AMQP broker."),
 "P22": (SCHED + " against a model broker", "All completion orders, worker start moments and interleavings within the deviation bound of a leader and one or two separate workers, for literals, maps, folds and chains, with and without failures."),
 "P23": (SCHED + " and of protocol histories against a model broker", "All histories up to the stated depth of publishes, consumers and deletions over up to three connections, and all interleavings within the deviation bound of consumers, publishers and an abort to several workers."),
 "P24": (SCHED, "All histories up to the stated depth of tasks and completions before and after the drop of a runtime by its opener, another task, a thread or its last owner, and all interleavings within the deviation bound of the drop with workers and with another runtime."),
 "P25": ("Stateless model checking of the real code with the random generator's draws enumerated, and of all bounded schedules of concurrent leases",
         "Every value of every draw that decides an identifier, and of neighbouring pairs of draws; long histories of leases; all interleavings within the deviation bound of concurrent leases of one or two deployments."),
 "P26": (SCHED + " against a model broker that loses connections", "All moments between arrivals and completions, and every step of all schedules within the deviation bound, at which the connection of the leader or of workers is lost, for literals, maps, folds, chains and collections."),
 "P27": (SCHED + ", and of all combinations of options", "All combinations of the forms of every option; worker counts up to six with all completion orders; all placements of two leaders and up to two workers on two brokers and three buses, with all completion orders and bounded interleavings."),
}
NA = {}
m = {"version": 1, "setup_cmd": "./run.sh build", "checks": [], "not_applicable": [],
     "notes": "One binary (mc/harness) explores the code of /repo, compiled unmodified against controlled stand-ins for its primitives. No hooks are needed in /repo."}
for p in props:
    if p in CLAIMED:
        t, n = CLAIMED[p]
        m["checks"].append({"property": p, "quick_cmd": f"./run.sh check {p} quick",
                            "thorough_cmd": f"./run.sh check {p} thorough",
                            "evidence_file": f"evidence/{p}.json", "technique": t,
                            "level": "model_checking", "level_note": n + ("" if p == "P16" else TRUST)})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "Check not built yet.")})
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
