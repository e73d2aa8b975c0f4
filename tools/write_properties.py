"""Writes /verif/properties.jsonl (kept as a script only so the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": None}})
S = "src/docket/"
prop("C01", "Accepted work is never lost",
 "Once add or replace reports a task as scheduled, the docket keeps holding that task - waiting for its time, ready for delivery, in a worker's hands, or waiting for a concurrency slot - until it finishes, is cancelled, cleared, replaced or dropped by an admission rule. No single operation of any client or worker, and no crash between two such operations, removes the last copy of an unfinished task. While it is pending its record does not expire.",
 ["schedules", "crash_points", "histories"], "every order of add, replace, cancel, due-time transfer, claim, retry, parking, waking and finishing over any keys, with a crash possible between any two server-side steps",
 "Tests run a handful of interleavings against a live loop; losing a task needs a specific pair of steps or a crash between two commands.",
 [S+"execution.py", S+"docket.py", S+"worker.py", S+"dependencies/_concurrency.py"],
 [("atomic scheduling, retry re-routing, claim, finish", S+"execution.py"), ("due-task transfer", S+"worker.py"), ("park / wake", S+"dependencies/_concurrency.py")],
 [("run record, stream entry, future queue + parked message, waiter entry", "the places a pending task can live", S+"execution.py")], ["docket.snapshot()", "worker executions", "execution.sync()"])
prop("C02", "Adding is idempotent per key and reports truthfully",
 "While a task with some key is pending (scheduled, queued, retrying or waiting for a slot) or running, adding a task under that key changes nothing and is reported as already scheduled. Otherwise - never used, finished, failed, cancelled or cleared - the add places exactly one task carrying exactly the given function, arguments and time, and is reported as scheduled. A struck call touches nothing and is reported as struck.",
 ["inputs", "histories", "schedules"], "all keys, arguments and times, from every reachable state of the key",
 "The tests try a few states of the key; the guarantee is about every state reachable by every history.",
 [S+"docket.py", S+"execution.py"], [("scheduling script and disposition mapping", S+"execution.py"), ("add", S+"docket.py")],
 [("known marker / running state", "what add deduplicates against", S+"execution.py")], ["Execution.disposition", "docket.snapshot()"])
prop("C03", "The newest schedule of a key wins",
 "After replace, exactly one pending task exists for the key: the new function, arguments and time. From then on no older version of that key can start, come back through a retry, reschedule, parking or waking, or change the newer version's recorded state, markers or progress. Whatever happens to an older version's delivery, it is acknowledged and not redelivered forever.",
 ["schedules", "histories"], "every interleaving of replace with claims, retries, parking, wake-ups and completions of older versions of the key",
 "Needs a stale attempt racing with a newer schedule at each of many points; tests cover a few of the pairs.",
 [S+"execution.py", S+"worker.py", S+"dependencies/_concurrency.py", S+"dependencies/_perpetual.py"],
 [("generation counter checks in scheduling, claiming, finishing, parking and waking", S+"execution.py")],
 [("generation", "counter that orders versions of a key", S+"execution.py")], ["which version's function runs", "execution.state"])
prop("C04", "Cancellation is final and leaves finished work alone",
 "Cancelling a task that has not started removes it from wherever it waits, so it never starts, records it as cancelled, and tells anyone waiting on it; cancelling a running task asks its worker to stop it and never stops anything else. Cancelling a finished task does not alter its recorded outcome. After cancelling, the key can be added again, and the new task is unaffected by the old cancellation.",
 ["schedules", "histories"], "cancel at every point of a task's life, including after delivery and while parked",
 "Tests cancel at a few fixed points; the hazard is the points between delivery, claim, park and wake.",
 [S+"docket.py", S+"execution.py", S+"worker.py", S+"dependencies/_concurrency.py"],
 [("cancel script", S+"docket.py"), ("claim refusal", S+"execution.py"), ("cancellation listener", S+"worker.py"), ("waiter cleanup", S+"dependencies/_concurrency.py")],
 (), ["task executions", "execution.state", "get_result"])
prop("C05", "Scheduled tasks become ready when due, once, and unchanged",
 "A task scheduled for the future is never handed out before its time. When the due-task transfer runs at or after that time, every due task becomes ready for delivery exactly once, carrying exactly the message it was scheduled with, and tasks not yet due stay untouched. A task whose time is not in the future is ready for delivery at once.",
 ["inputs", "histories", "schedules"], "any set of scheduled tasks, any times, any number of workers running the transfer concurrently",
 "Tests use small sets and real clocks; the boundary and the per-field copy must be right for every set, time and message.",
 [S+"worker.py", S+"execution.py"], [("due-task transfer script", S+"worker.py"), ("immediate/future decision", S+"execution.py")],
 (), ["stream contents", "future queue"])
prop("C06", "Outcome, acknowledgement and clean-up are one atomic step",
 "When an attempt ends, its final state, completion time, error and result reference are recorded, its delivery is acknowledged and removed, its progress is dropped and its completion is announced in a single atomic step. The record is then kept for the configured retention time, or removed at once when retention is zero. A record that starts over under the same key carries nothing over from the finished one.",
 ["crash_points", "histories", "configurations"], "every outcome, retention setting and crash point",
 "A split into two round trips, a missing expiry or a leftover field shows only after a crash or much later.",
 [S+"execution.py"], [("terminal script", S+"execution.py")], (), ["execution.sync()", "redelivery", "key expiry"])
prop("C07", "Every delivery ends in exactly one outcome",
 "For each delivery a worker takes, the task function is called at most once, with exactly the scheduled arguments plus its dependencies, and not at all if the delivery is stale, cancelled or struck or a dependency fails. The delivery ends in exactly one way - completed, failed, cancelled, retried, rescheduled or parked - matching what the function and its handlers did, and is acknowledged exactly when that outcome has been recorded. A blocked task is rescheduled after the requested delay or dropped as its admission rule says.",
 ["programs", "histories", "crash_points"], "every combination of function outcome, dependency outcome, retry and completion handler decision, runtime and admission result",
 "The combinations of outcomes and handlers are many and tests cover some; exactly-one-of is a statement about all of them.",
 [S+"worker.py", S+"execution.py"], [("execution of one delivery", S+"worker.py"), ("disposal of completed worker tasks", S+"worker.py")], (), ["calls of the function", "recorded state", "pending deliveries"])
prop("C08", "Retries follow the declared policy exactly",
 "A failing task with a retry policy of n attempts is started at most n times in total, attempt numbers count up by one, and the final failure is recorded as failed; without a limit it is always retried. Each retry is scheduled no earlier than the declared delay after the failure: constant for linear policies, doubling per attempt from the minimum and never above the maximum for exponential ones, for any attempt number. A delay or time the task asks for itself is used for that retry, never one in the past.",
 ["inputs", "configurations"], "all attempt limits, attempt numbers, delays and caps",
 "Tests use two or three attempts with small delays.",
 [S+"dependencies/_retry.py", S+"worker.py"], [("retry handlers", S+"dependencies/_retry.py")], (), ["execution.attempt", "execution.when"])
prop("C09", "Perpetual and cron tasks always have exactly one successor",
 "When a perpetual run ends, successfully or not, exactly one successor is scheduled under the same key with the requested arguments, at the requested time or else so that starts are the declared interval apart and never in the past; a cron task's successor is at the next matching wall-clock time. If it cancelled itself or was superseded, it schedules none. Automatic tasks are seeded at worker start and re-seeded only when no live schedule exists.",
 ["inputs", "histories", "programs"], "all intervals, durations, outcomes and requested times",
 "Timing arithmetic and the live-check must hold for every duration and state, tests use a few.",
 [S+"dependencies/_perpetual.py", S+"dependencies/_cron.py", S+"worker.py"], [("completion handlers", S+"dependencies/_perpetual.py"), ("automatic seeding", S+"worker.py")], (), ["the replacing schedule", "docket.snapshot()"])
prop("C10", "Timeouts stop tasks that overrun and only those",
 "A task with a timeout that is still running when its deadline passes is cancelled and fails with a timeout; it is never stopped before its deadline, and extending moves the deadline by exactly the given amount. A task that finishes in time has its result or exception passed through unchanged. If the worker's execution is itself cancelled, the task is cancelled too and never left running.",
 ["schedules", "inputs"], "all base durations, extensions and finish times",
 "Tests use a few millisecond-scale durations and depend on real clocks.",
 [S+"dependencies/_timeout.py"], [("deadline arithmetic and run loop", S+"dependencies/_timeout.py")], (), ["task outcome"])
prop("C11", "Concurrency limits are never exceeded and waiters are never stranded",
 "A task gets a slot of its limit group only while fewer than the declared number are held, or in exchange for one whose lease has lapsed; the slot is held, its lease renewed well within the redelivery timeout, until the task's attempt ends in whatever way. A task that cannot get a slot waits, neither lost nor duplicated nor announced as anything but scheduled. When a slot is released, the oldest waiters are handed the free capacity in order, skipping those cancelled or superseded, and leases that have lapsed hold nobody back. While a task waits it is looked after at least once per redelivery timeout, so that slots of dead workers reach it. Cancelling a waiting task removes it from the line. Tasks of different functions, argument values or scopes never affect each other. (Clocks agree, and the workers of a docket share one redelivery timeout; a worker that was paused beyond its lease and then resumes is not covered.)",
 ["schedules", "histories", "inputs"], "any number of tasks, groups, limits and stale holders",
 "Tests run a few tasks against small limits; capacity and hand-over must hold for every slot table and waiter list.",
 [S+"dependencies/_concurrency.py"], [("acquire or park, release and wake, scavenge and wake", S+"dependencies/_concurrency.py")],
 [("slot table, waiter stream", "who holds and who waits", S+"dependencies/_concurrency.py")], ["concurrently running tasks", "waiting tasks"])
prop("C12", "Rate limits hold over every sliding window",
 "No more than the declared number of executions per group are admitted within any window of the declared length. An execution over the limit is dropped or rescheduled, as configured, to a time when capacity may exist again and not before. An admission withdrawn because another rule blocked the task gives back exactly its own place.",
 ["inputs", "schedules", "histories"], "all limits, windows, groups and arrival times",
 "Window arithmetic at every boundary and arrival pattern is beyond sampled tests.",
 [S+"dependencies/_ratelimit.py"], [("sliding-window script", S+"dependencies/_ratelimit.py")], (), ["admitted executions", "reschedule delay"])
prop("C13", "Debounce runs once, after things have settled",
 "Of the executions submitted to a debounce group, one waits and all others are dropped. The waiting one proceeds only when no submission has arrived for the full settle time, is otherwise rescheduled for exactly the remaining time, and when it proceeds the group starts afresh. (This holds while the waiting one is not itself cancelled or replaced by other means.)",
 ["inputs", "schedules", "histories"], "all settle times, groups and arrival times",
 "Tests sample a few bursts with real sleeps.",
 [S+"dependencies/_debounce.py"], [("debounce script", S+"dependencies/_debounce.py")], (), ["which execution runs and when"])
prop("C14", "Cooldown admits one start per window",
 "In each cooldown group an execution is admitted only if none was admitted within the preceding window, and the check and the start of the window are one atomic step. A blocked execution is dropped and neither extends nor restarts the window. Groups are separated by scope, parameter name and the value the parameter actually has.",
 ["inputs", "schedules"], "all windows, scopes, parameters, values and simultaneous arrivals",
 "Simultaneous arrivals and every way of passing the argument cannot be sampled.",
 [S+"dependencies/_cooldown.py", S+"dependencies/_resolution.py"], [("conditional set with expiry", S+"dependencies/_cooldown.py")], (), ["which executions run"])
prop("C15", "Strikes block exactly the calls they describe",
 "A call is blocked if and only if its task is struck as a whole, or some argument the task would receive (positional, keyword or default) satisfies a strike on that parameter for that task or for all tasks, under the stated comparison. A value that cannot be compared never blocks and never raises. Blocked calls are neither scheduled by clients nor started by workers.",
 ["inputs", "programs"], "all tasks, arguments, operators, values and sets of strikes",
 "The tests sample operators and types; the rule is over all combinations and all ways of passing an argument.",
 [S+"strikelist.py", S+"docket.py", S+"worker.py"], [("matching", S+"strikelist.py")], (), ["is_stricken", "dispositions", "executions"])
prop("C16", "Strike state is the fold of all instructions, everywhere",
 "After any sequence of strikes and restores, exactly the instructions struck and not since restored are in effect, independently of other conditions on the same task or parameter. Every instance reading the same docket arrives at that same state from the shared log, having read every entry once in order, and reports itself loaded only when the existing log has been read. An instruction survives the trip through the log unchanged.",
 ["histories", "inputs"], "all instruction sequences and log lengths",
 "Sequences mixing whole-task and parameter conditions are unbounded.",
 [S+"strikelist.py"], [("update, read loop, instruction codec", S+"strikelist.py")], (), ["is_stricken on every instance"])
prop("C17", "Waiting for a result returns exactly what the task produced",
 "While a task's outcome is retained (a positive retention time) and the task is not scheduled anew meanwhile, asking for its result returns the value the task returned, or raises the exception it raised, or a cancellation error if it was cancelled, for both finished and still running tasks, for every value and exception that survives pickling. It gives up with a timeout error exactly when the deadline passes before the task has finished, and a completion that happens at any moment relative to the call is not missed.",
 ["schedules", "inputs"], "all results and exceptions, all moments of completion relative to the call",
 "A lost wake-up needs completion to land between two steps of the call.",
 [S+"execution.py", S+"worker.py"], [("result retrieval and subscription", S+"execution.py"), ("result storage", S+"worker.py")], (), ["get_result"])
prop("C18", "Progress belongs to its execution and never goes wrong",
 "Progress reported by a task is stored and announced under that task's key only, starts fresh at zero at each start, and increments are atomic sums of all reported amounts; a total below one or an increment below one is refused and changes nothing. Reading progress returns exactly what was reported last. Progress is removed when the execution ends and an older version never removes a newer version's progress.",
 ["inputs", "schedules"], "all amounts, totals and messages, any number of concurrent executions",
 "Cross-talk between concurrent executions and stale clean-up need particular interleavings.",
 [S+"_execution_progress.py", S+"dependencies/_progress.py", S+"execution.py"], [("progress tracker", S+"_execution_progress.py"), ("dependency", S+"dependencies/_progress.py")], (), ["execution.progress", "progress events"])
prop("C19", "A task's message survives every hop unchanged",
 "The function name, key, arguments, time, attempt number and trace context of a task arrive at the worker exactly as they were scheduled, whichever route the task took: direct, via the future queue, through a retry, or through waiting for a slot. Only the version counter changes along the way, and a retry, reschedule or parking, being a new hop, renews the trace context from the attempt that caused it.",
 ["inputs", "histories"], "all argument values, keys, times, attempts and carried context, over every route",
 "Tests send small payloads over one route at a time.",
 [S+"execution.py", S+"worker.py", S+"dependencies/_concurrency.py"], [("message encoding and decoding", S+"execution.py")], (), ["arguments seen by the function"])
prop("C20", "Workers respect their slots and keep their leases",
 "A worker never has more tasks in progress than its concurrency, asks the server for no more deliveries than it has free slots, and takes over a delivery from another worker only after the redelivery timeout has passed without renewal (to the millisecond). While a task is in progress, also while the worker is stopping or has lost its connection and waits for its tasks to finish, its lease is renewed well within that timeout, a failed renewal notwithstanding, and no other delivery's lease is touched. A task counts as in progress until its outcome has been handled; every delivery taken is started once and handled once before the worker ends.",
 ["schedules", "configurations"], "all concurrency settings, timeouts and arrival patterns",
 "Tests observe a few schedules of a live loop.",
 [S+"worker.py"], [("worker loop, lease renewal", S+"worker.py")], (), ["simultaneously running tasks", "redeliveries"])
prop("C21", "Dependencies are resolved completely or the task does not run",
 "Every declared dependency of a task and its worker is entered before the function runs and exited in reverse order afterwards, whatever happens; explicitly passed arguments win over defaults. If any dependency fails the function does not run and the failure names it, except that an admission rule's verdict is honoured as such. Two dependencies of a kind that may appear only once are always rejected, wherever they are declared.",
 ["programs", "inputs"], "all combinations of worker and task dependencies, failures and passed arguments",
 "Combinations are unbounded; tests cover a few pairs.",
 [S+"dependencies/_resolution.py", S+"worker.py"], [("resolution and conflict detection", S+"dependencies/_resolution.py")], (), ["arguments of the function", "order of exits"])
prop("C22", "Scattering spreads every task evenly inside the window",
 "Scattering n tasks schedules each exactly once, in order, with its own function, arguments and key, at start + i * window/(n-1) (a single task at the middle of the window); with jitter each differs by at most the jitter and none is before the start. An unregistered task name or a non-positive window fails before anything is scheduled.",
 ["inputs"], "any number of tasks, any window, start and jitter",
 "Only small agendas are tested.",
 [S+"agenda.py"], [("scatter", S+"agenda.py")], (), ["returned executions"])
prop("C23", "Generated keys are valid, unique and ordered",
 "Generated keys are valid version-7 identifiers carrying the current time; within a process successive keys strictly increase as long as the clock does not run backwards and fewer than 16384 keys share one clock tick.",
 ["inputs", "histories"], "all clock readings and random bytes",
 "Bit layout for every clock value cannot be sampled.",
 [S+"_uuid7.py"], [("vendored generator", S+"_uuid7.py")], (), ["uuid7()"])
prop("C24", "Server-side scripts receive the arguments they were called with",
 "Every server-side script call passes each key and argument to the name it was declared with, and numbers (integers and decimals a double holds exactly), truth values, text and bytes arrive as the same value; a variable-length argument arrives complete, in order and last. A value that cannot be represented is refused before anything is sent.",
 ["inputs", "programs"], "all script signatures and argument values",
 "Tests use a few signatures and values.",
 [S+"_lua.py"], [("argument encoding and generated bindings", S+"_lua.py")], (), ["script-visible values"])
prop("C25", "Clearing removes all pending work and frees its keys",
 "Clearing an idle docket removes every pending task, immediate or scheduled, reports how many there were, and leaves no stored message or marker of them behind, so that none of them runs later. Every cleared key can be added again at once, and the delivery mechanism keeps working for tasks added afterwards. Running tasks, tasks waiting for a slot and tasks added meanwhile are left whole (or, added before the clearing took effect, cleared too).",
 ["histories", "inputs"], "any number and mix of pending tasks on a docket whose workers are idle",
 "Tests clear a few tasks.",
 [S+"docket.py"], [("clear", S+"docket.py")], (), ["docket.snapshot()", "dispositions of later adds"])
prop("C26", "Arguments are kept out of logs unless marked for logging",
 "The textual form of a call that appears in logs contains the value of an argument only if its parameter is marked as loggable; one marked length-only shows only its size if the value has one, a value that cannot be printed shows only its type, and all other arguments show a placeholder, for every way of passing them.",
 ["inputs", "programs"], "all signatures and argument values, positional and keyword",
 "Any signature and argument mix must be safe.",
 [S+"execution.py", S+"annotations.py"], [("call representation", S+"execution.py"), ("markers", S+"annotations.py")], (), ["log lines"])
prop("C27", "The worker list is live and truthful",
 "A worker that is running is listed with its tasks and a last-seen time from its latest heartbeat; a worker not heard from for the configured number of heartbeats is not listed, and one that stopped cleanly is unlisted at once. Asking which workers can run a task lists exactly the workers that reported it within that time and have not stopped cleanly.",
 ["configurations", "histories"], "all heartbeat settings, workers and times",
 "Boundary ages and crashed workers are not sampled.",
 [S+"worker.py", S+"_docket_snapshot.py"], [("heartbeat", S+"worker.py"), ("listing", S+"_docket_snapshot.py")], (), ["docket.workers()", "docket.task_workers()"])
prop("C28", "State announcements agree with the record",
 "Every change of a task's recorded state by scheduling, cancelling a not-started task, claiming, retrying, parking, waking or finishing is announced to subscribers of that task, in the same atomic step as the change, naming the task and the new state; nothing is announced for an operation that changed nothing.",
 ["histories", "crash_points"], "every operation from every state of the key",
 "A dropped or misplaced announcement is invisible to state-based tests.",
 [S+"execution.py", S+"docket.py", S+"dependencies/_concurrency.py"], [("announcements inside the scripts", S+"execution.py")], (), ["execution.subscribe()"])
prop("C29", "A snapshot accounts for every task",
 "A snapshot taken while nothing changes reports each immediate, scheduled and running task exactly once with its function, arguments, key and time - running if a worker holds it, with that worker's name, and future otherwise - and its total is their number.",
 ["inputs", "histories"], "any set of up to 1000 immediate and any number of scheduled tasks",
 "Only small mixes are tested.",
 [S+"_docket_snapshot.py"], [("snapshot", S+"_docket_snapshot.py")], (), ["docket.snapshot()"])
prop("C30", "Due work is eventually executed while a worker lives",
 "As long as at least one worker keeps running and the server stays available, every accepted task is started within a bounded time after it is due.",
 ["schedules", "fault_sequences"], "all fair schedules of workers, clients and server",
 "Liveness over unbounded schedules is not observable in a finite run.",
 [S+"worker.py"], [("worker loop", S+"worker.py")], (), ["task starts"])
prop("C31", "Dockets sharing a server do not interfere",
 "Dockets with different names may share a server. Every key and channel an operation of a docket reads or writes lies under that docket's own prefix (for admission limits: its name, or the scope the limit was given), so that no operation of one docket sees or changes another's tasks, strikes, workers, results or limits, and the prefixes of dockets with different names never contain one another. A worker hears the cancellations of its own docket and of no other, whatever characters the name holds. On a cluster everything one atomic operation touches lies in one slot.",
 ["configurations", "histories", "inputs"], "every operation, for all docket names without a colon or braces and every kind of server URL",
 "Tests use one docket per server, or two whose names have nothing in common; a key built without its prefix works until two dockets meet, or a cluster refuses it.",
 [S+"_redis.py", S+"docket.py", S+"worker.py", S+"execution.py", S+"strikelist.py", S+"dependencies/_concurrency.py"],
 [("prefix", S+"_redis.py"), ("key names", S+"docket.py"), ("cancellation pattern", S+"worker.py")], (), ["keys and channels of every server operation"])
prop("C32", "Workers run as long as they were told to",
 "A worker told to run until finished ends only when nothing is queued, scheduled or in any worker's hands on its docket, or when it is told to stop; one told to run forever ends only when told to stop. Both outlive lost connections, waiting the configured delay before they reconnect, and leave nothing of theirs in progress when they end. A worker told to run given keys at most so often starts each of them at most that often and others without restriction, and leaves no restriction behind however the run ends.",
 ["histories", "fault_sequences", "schedules"], "every order of tasks arriving, finishing, being held elsewhere, of connections lost and of being told to stop",
 "Ending a poll too early, or never, depends on what arrives between two reads.",
 [S+"worker.py", S+"strikelist.py"], [("run loops", S+"worker.py"), ("conditions", S+"strikelist.py")], (), ["run_until_finished()", "run_forever()", "run_at_most()"])
prop("C33", "Assertions about a docket hold exactly when the docket agrees",
 "The assertions offered for tests count exactly the tasks that are scheduled or queued and not yet handed to a worker. assert_task_scheduled holds if and only if one of them matches the function (by object, standing for its name, or by name) and every criterion given - the key, the positional arguments as a whole, and each named argument asked for being there with that value; assert_task_not_scheduled if and only if none does; assert_task_count and assert_no_tasks if and only if their number is right. Otherwise they raise AssertionError, and they change nothing.",
 ["inputs", "histories"], "every state of the docket and every combination of criteria",
 "An assertion that holds too often is never noticed by the tests that rely on it.",
 [S+"testing.py"], [("matching", S+"testing.py")], (), ["docket.testing"])
prop("C34", "The command line does what it says",
 "Every command acts on the docket and the server named by its options, or else by the environment, or else on the defaults, and asks the library for exactly what was given: strike and restore with the function and parameter ('' or '*' standing for any; both is refused), the operator, and the value - a plain string, or a value of the type named before its last colon (numbers, truth values, lengths of time in seconds); clear, the workers and a snapshot's tables with every task and worker once; per-function statistics with exact counts and extremes; the built-in tasks with their argument, due after the delay; a worker with exactly the settings, tasks and fallback given, run until finished or for good as told, stopped by SIGTERM or SIGINT. Durations mean seconds, s, m, h, mm:ss or hh:mm:ss. Servers in memory are refused where nobody else could see them. Watching a task shows each of its states and its progress, however long nothing happens and even when an announcement is lost, and ends when and only when the task has completed, failed or been cancelled.",
 ["inputs", "configurations", "schedules"], "all commands and settings, all numbers in durations and values, all ways a watched task may go",
 "Options are tried one at a time with values near their defaults, and a task is only watched while it is busy.",
 [S+"cli/__init__.py", S+"cli/_support.py", S+"worker.py"], [("commands", S+"cli/__init__.py"), ("parsing", S+"cli/_support.py"), ("main program", S+"worker.py")], (), ["docket command line"])
prop("C35", "A server URL means the same to every part of docket",
 "A connection goes to the host, port and database its URL names, as the user and with the password given (percent-decoded), with TLS exactly for rediss, and with the URL's further connection options; docket's own long reads are not cut short unless the URL asks for it. A sentinel URL names all its sentinels (IPv6 addresses and default port included), the service, the database, and separate credentials for the sentinels; a malformed one is refused with ValueError. On a cluster, commands go through the cluster and announcements and subscriptions through one of its nodes, with the same credentials and TLS. Servers in memory are shared by URL within an event loop, never between loops, and a clean one is made after clearing. What a connection or a docket opened it closes, also when the rest cannot be opened; it can then be opened anew.",
 ["inputs", "configurations"], "all URLs made of the parts described",
 "Tests connect to one plain local server; escaped credentials, several sentinels, clusters with passwords or private certificates are not part of them.",
 [S+"_redis.py", S+"_redis_sentinel.py"], [("connections", S+"_redis.py"), ("sentinel URLs", S+"_redis_sentinel.py")], (), ["docket.redis()"])
prop("C36", "The metrics agree with what happened",
 "Whatever becomes of a delivery - success, failure, retry, cancellation, an admission rule's verdict, supersession, a strike, a handler of the user's - the worker reports it once: started and completed in pairs, the running count back where it was and never above one per task meanwhile, one duration and one punctuality that are true to the clock, redelivered exactly for redeliveries, and succeeded or failed (never both) in agreement with the recorded outcome; retried exactly when retried, perpetuated exactly when a successor was scheduled. add, replace and schedule report added, replaced, scheduled or stricken in agreement with what they did, cancel reports itself once. The strikes-in-effect count equals the number of strikes in effect, the depth gauges what waits and what is due later, and each lost connection of the worker, its heartbeat, its cancellation listener or the strike list counts as one disruption. All carry the docket's name, and the worker's and task's where there is one.",
 ["inputs", "schedules", "histories"], "all ways a delivery can go, all requests in every state of the key, every history of strikes over the instructions used",
 "Tests look at one counter on one ordinary run each; the pairs break on paths that leave a function early, and drift only shows over a history.",
 [S+"worker.py", S+"docket.py", S+"strikelist.py", S+"dependencies/_retry.py", S+"dependencies/_perpetual.py", S+"instrumentation.py"],
 [("around a task's run", S+"worker.py"), ("requests", S+"docket.py"), ("strikes in effect", S+"strikelist.py")], (), ["OpenTelemetry instruments"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
