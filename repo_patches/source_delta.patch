From b1276458e39e008fdb0fd923ab2f7b291ad03f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:13 +0000
Subject: [PATCH 01/56] fix: start a fresh run record when a key is scheduled
 again

Re-adding a key within execution_ttl of its previous completion or
cancellation kept the old record's expiry (and its error/result_key), so the
record vanished under the pending task and the claim dropped it as superseded.
---
 src/docket/execution.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index eeded38..be38d04 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -103,6 +103,19 @@ async def _schedule(
         end
     end
 
+    -- A finished or cancelled predecessor leaves its record behind with an
+    -- expiry (execution_ttl) and with its outcome (error, result_key, ...).
+    -- Scheduling starts a new record: drop both, or the record would expire
+    -- under the pending task and the claim would discard it as superseded.
+    -- Only the generation counter carries over.
+    local function reset_runs_record()
+        local generation = redis.call('HGET', runs_key, 'generation')
+        redis.call('DEL', runs_key)
+        if generation then
+            redis.call('HSET', runs_key, 'generation', generation)
+        end
+    end
+
     -- Handle rescheduling from stream: atomically ACK the original message and
     -- re-route the task.  Prevents both task loss (ACK before reschedule) and
     -- duplicate execution (reschedule before ACK with slow reschedule causing
@@ -116,6 +129,7 @@ async def _schedule(
         redis.call('XDEL', stream_key, reschedule_message_id)
 
         -- Increment generation counter
+        reset_runs_record()
         local new_gen = redis.call('HINCRBY', runs_key, 'generation', 1)
         if generation_index then
             message[generation_index] = tostring(new_gen)
@@ -197,6 +211,7 @@ async def _schedule(
     end
 
     -- Increment generation counter
+    reset_runs_record()
     local new_gen = redis.call('HINCRBY', runs_key, 'generation', 1)
     if generation_index then
         message[generation_index] = tostring(new_gen)
-- 
2.43.0


From be0070a1234ecc1339842f0d342562e9bc66f798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:13 +0000
Subject: [PATCH 02/56] fix: record the stream id of due tasks so cancel() and
 replace() can remove them

A task moved from the schedule to the stream had no stream_id in its run
record; cancelling it in that window left the message behind and it still ran.
---
 src/docket/worker.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 567f714..51fb7c8 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -192,7 +192,7 @@ async def _stream_due_tasks(
                     task[task_data[j]] = task_data[j+1]
                 end
 
-                redis.call('XADD', stream_key, '*',
+                local message_id = redis.call('XADD', stream_key, '*',
                     'key', task['key'],
                     'when', task['when'],
                     'function', task['function'],
@@ -203,9 +203,10 @@ async def _stream_due_tasks(
                 )
                 redis.call('DEL', hash_key)
 
-                -- Set run state to queued
+                -- Set run state to queued, and record where the message went so
+                -- that cancel() and replace() can remove it from the stream
                 local run_key = docket_prefix .. ":runs:" .. task['key']
-                redis.call('HSET', run_key, 'state', 'queued')
+                redis.call('HSET', run_key, 'state', 'queued', 'stream_id', message_id)
 
                 -- Publish state change event to pub/sub
                 local channel = docket_prefix .. ":state:" .. task['key']
-- 
2.43.0


From 3ca70bfaaa93d11154ec06da6000e55902e9eef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:13 +0000
Subject: [PATCH 03/56] fix: do not start a task that was cancelled after
 delivery

A cancellation that landed between delivery and claim, or before a redelivery,
was overwritten by the claim and the cancelled task ran anyway.
---
 src/docket/execution.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index be38d04..c4db540 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -291,7 +291,10 @@ async def _claim(
             end
             return 'SUPERSEDED'
         end
-        if tonumber(current) > generation then
+        -- A cancelled task must not start: the cancellation may land after the
+        -- message was delivered but before this claim, or before a redelivery.
+        if tonumber(current) > generation
+            or redis.call('HGET', runs_key, 'state') == 'cancelled' then
             if message_id ~= '' then
                 redis.call('XACK', stream_key, worker_group_name, message_id)
                 redis.call('XDEL', stream_key, message_id)
-- 
2.43.0


From 68b94605f537738f78d77326716c69beeabe6ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:13 +0000
Subject: [PATCH 04/56] fix: keep the worker running when a task is cancelled
 while being claimed

The task's own CancelledError escaped from process_completed_tasks and was
taken for a shutdown request: the worker loop ended with the message unacked.
---
 src/docket/worker.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 51fb7c8..d4475c8 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -721,6 +721,13 @@ class Worker:
                             extra=log_context,
                         )
                         await e.execution.mark_as_cancelled()
+                except asyncio.CancelledError:
+                    # The task was cancelled (docket.cancel()) while outside the
+                    # part of _execute that handles it, e.g. while claiming.  It
+                    # is done, so this is its own outcome and not a request to
+                    # shut down this worker.
+                    if not execution._acked:
+                        await execution.mark_as_cancelled()
 
                 # Safety net: if nothing inside _execute or these except
                 # handlers acked the stream message (e.g. a custom
-- 
2.43.0


From 7475ca4408c595dbf1de97f2e7143e9b66c478bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 05/56] fix: expire a cancelled task's record in the same
 atomic step as the cancel

The separate EXPIRE/DELETE could hit the record of a task added under the same
key in between, and that task was later dropped as superseded.
---
 src/docket/docket.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/docket/docket.py b/src/docket/docket.py
index ad8e775..192dbc3 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -76,6 +76,7 @@ async def _cancel_task(
     progress_key: Key[str],
     task_key: Arg[str],
     completed_at: Arg[str],
+    ttl_seconds: Arg[int],
 ) -> bytes:
     """
     -- TODO: Remove known_key / parked_key / stream_id_key handling in
@@ -113,6 +114,15 @@ async def _cancel_task(
         redis.call('HSET', runs_key, 'state', 'cancelled', 'completed_at', completed_at)
     end
 
+    -- Apply the tombstone's TTL, or delete it when execution_ttl=0 means no
+    -- observability.  This belongs to the same atomic step: applied later, it
+    -- could hit the record of a task scheduled under this key in between.
+    if ttl_seconds > 0 then
+        redis.call('EXPIRE', runs_key, ttl_seconds)
+    else
+        redis.call('DEL', runs_key)
+    end
+
     return 'OK'
     """
     ...
@@ -752,7 +762,6 @@ class Docket(DocketSnapshotMixin):
         """
         # Create tombstone with CANCELLED state
         completed_at = datetime.now(timezone.utc).isoformat()
-        task_runs_key = self.runs_key(key)
 
         # Execute the cancellation script
         await _cancel_task(
@@ -762,20 +771,15 @@ class Docket(DocketSnapshotMixin):
             parked_key=self.parked_task_key(key),
             queue_key=self.queue_key,
             stream_id_key=self.stream_id_key(key),
-            runs_key=task_runs_key,
+            runs_key=self.runs_key(key),
             progress_key=self.key(f"progress:{key}"),
             task_key=key,
             completed_at=completed_at,
+            ttl_seconds=(
+                int(self.execution_ttl.total_seconds()) if self.execution_ttl else 0
+            ),
         )
 
-        # Apply TTL or delete tombstone based on execution_ttl
-        if self.execution_ttl:
-            ttl_seconds = int(self.execution_ttl.total_seconds())
-            await redis.expire(task_runs_key, ttl_seconds)
-        else:
-            # execution_ttl=0 means no observability - delete tombstone immediately
-            await redis.delete(task_runs_key)
-
     async def strike(
         self,
         function: Callable[P, Awaitable[R]] | str | None = None,
-- 
2.43.0


From a4763a39ec2646334b9b5a92d2169c40ad2cff44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 06/56] fix: announce the cancellation of a task that has not
 started

get_result() on a scheduled or queued task waited forever when the task was
cancelled, because nothing published its state change.
---
 src/docket/docket.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/docket/docket.py b/src/docket/docket.py
index 192dbc3..a29cbea 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -1,4 +1,5 @@
 import importlib
+import json
 import logging
 from contextlib import AsyncExitStack, asynccontextmanager
 from datetime import datetime, timedelta, timezone
@@ -42,6 +43,7 @@ from ._uuid7 import uuid7
 from .execution import (
     Disposition,
     Execution,
+    ExecutionState,
     TaskFunction,
 )
 from .instrumentation import (
@@ -74,8 +76,10 @@ async def _cancel_task(
     stream_id_key: Key[str],
     runs_key: Key[str],
     progress_key: Key[str],
+    state_channel: Key[str],
     task_key: Arg[str],
     completed_at: Arg[str],
+    state_payload: Arg[str],
     ttl_seconds: Arg[int],
 ) -> bytes:
     """
@@ -112,6 +116,9 @@ async def _cancel_task(
     local current_state = redis.call('HGET', runs_key, 'state')
     if current_state ~= 'completed' and current_state ~= 'failed' and current_state ~= 'cancelled' then
         redis.call('HSET', runs_key, 'state', 'cancelled', 'completed_at', completed_at)
+        -- Wake up get_result() and other subscribers: no worker will ever
+        -- announce the end of a task that never starts.
+        redis.call('PUBLISH', state_channel, state_payload)
     end
 
     -- Apply the tombstone's TTL, or delete it when execution_ttl=0 means no
@@ -773,8 +780,17 @@ class Docket(DocketSnapshotMixin):
             stream_id_key=self.stream_id_key(key),
             runs_key=self.runs_key(key),
             progress_key=self.key(f"progress:{key}"),
+            state_channel=self.key(f"state:{key}"),
             task_key=key,
             completed_at=completed_at,
+            state_payload=json.dumps(
+                {
+                    "type": "state",
+                    "key": key,
+                    "state": ExecutionState.CANCELLED.value,
+                    "completed_at": completed_at,
+                }
+            ),
             ttl_seconds=(
                 int(self.execution_ttl.total_seconds()) if self.execution_ttl else 0
             ),
-- 
2.43.0


From 934a17bbc9de79f18fd60a250b018d29b1881763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 07/56] fix: let keys be added again after clear()

clear() left the cleared tasks' scheduling markers behind, so adding one of
their keys again was silently ignored until the record expired.
---
 src/docket/docket.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/docket/docket.py b/src/docket/docket.py
index a29cbea..50d2f53 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -906,6 +906,7 @@ class Docket(DocketSnapshotMixin):
 
                         # Handle runs hash: set TTL or delete based on execution_ttl
                         task_runs_key = self.runs_key(task_key)
+                        pipeline.hdel(task_runs_key, "known", "stream_id")
                         if self.execution_ttl:
                             ttl_seconds = int(self.execution_ttl.total_seconds())
                             pipeline.expire(task_runs_key, ttl_seconds)
@@ -915,6 +916,7 @@ class Docket(DocketSnapshotMixin):
                     # Handle runs hash for immediate tasks from stream
                     for task_key in stream_keys:
                         task_runs_key = self.runs_key(task_key)
+                        pipeline.hdel(task_runs_key, "known", "stream_id")
                         if self.execution_ttl:
                             ttl_seconds = int(self.execution_ttl.total_seconds())
                             pipeline.expire(task_runs_key, ttl_seconds)
-- 
2.43.0


From ab24c7d5237007184ebe8e4ee02114e33d731984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 08/56] fix: deduplicate add() against a task waiting for a
 concurrency slot

Parking cleared the scheduling marker, so adding the same key again scheduled
a second task and the parked one was dropped.
---
 src/docket/dependencies/_concurrency.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index 30ffa6c..970a0e1 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -128,8 +128,11 @@ async def _acquire_or_park(
 
     -- Record the waiter's location so the dependency's cancel subscriber can
     -- find and XDEL the waiter entry when the task transitions to 'cancelled'.
+    -- ``known`` (cleared by the claim) is restored so that docket.add() for
+    -- this key dedups against the parked task.
     redis.call('HSET', runs_key,
         'state', 'scheduled',
+        'known', current_time,
         'waiter_stream', waiters_stream,
         'waiter_entry_id', waiter_entry_id,
         'function', function_name,
-- 
2.43.0


From 5642a69aced883fa2ac6e26c856e4f182caeff10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 09/56] fix: do not revive a superseded task waiting for a
 concurrency slot

A waiter was forwarded whenever its key's record said 'scheduled', even when
that record belonged to a newer schedule of the key, which was then discarded.
---
 src/docket/dependencies/_concurrency.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index 970a0e1..f559c4b 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -209,11 +209,12 @@ async def _release_and_wake(
 
             -- Pull out the waiter's task_key so we can address its runs hash and
             -- its state-change pubsub channel.
-            local waiter_task_key
+            local waiter_task_key, waiter_generation
             for i = 1, #fields, 2 do
                 if fields[i] == 'key' then
                     waiter_task_key = fields[i + 1]
-                    break
+                elseif fields[i] == 'generation' then
+                    waiter_generation = fields[i + 1]
                 end
             end
 
@@ -232,6 +233,10 @@ async def _release_and_wake(
                 redis.call('ZREM', queue_key, safeguard_key)
                 redis.call('DEL', parked_prefix .. safeguard_key)
                 redis.call('DEL', runs_prefix .. safeguard_key)
+            elseif redis.call('HGET', runs_key, 'generation') ~= waiter_generation then
+                -- The key was scheduled again while this entry was parked: the
+                -- newer schedule owns the key (and its safeguard).
+                redis.call('XDEL', waiters_stream, waiter_id)
             else
                 local new_gen = redis.call('HINCRBY', runs_key, 'generation', 1)
                 for i = 1, #fields, 2 do
@@ -328,11 +333,12 @@ async def _scavenge_and_wake(
         local waiter_id = entry[1]
         local fields = entry[2]
 
-        local waiter_task_key
+        local waiter_task_key, waiter_generation
         for i = 1, #fields, 2 do
             if fields[i] == 'key' then
                 waiter_task_key = fields[i + 1]
-                break
+            elseif fields[i] == 'generation' then
+                waiter_generation = fields[i + 1]
             end
         end
 
@@ -346,6 +352,10 @@ async def _scavenge_and_wake(
             redis.call('ZREM', queue_key, safeguard_key)
             redis.call('DEL', parked_prefix .. safeguard_key)
             redis.call('DEL', runs_prefix .. safeguard_key)
+        elseif redis.call('HGET', runs_key, 'generation') ~= waiter_generation then
+            -- The key was scheduled again while this entry was parked: the
+            -- newer schedule owns the key (and its safeguard).
+            redis.call('XDEL', waiters_stream, waiter_id)
         else
             local new_gen = redis.call('HINCRBY', runs_key, 'generation', 1)
             for i = 1, #fields, 2 do
-- 
2.43.0


From ac633dc6aac63072255fbb0fad751fc24511d133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:51 +0000
Subject: [PATCH 10/56] fix: do not let a stale attempt's retry or parking
 displace a newer schedule

---
 src/docket/dependencies/_concurrency.py | 15 +++++++++++++++
 src/docket/execution.py                 | 17 +++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index f559c4b..49a0446 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -103,6 +103,21 @@ async def _acquire_or_park(
     redis.call('XACK', stream_key, worker_group_name, message_id)
     redis.call('XDEL', stream_key, message_id)
 
+    -- A newer schedule (or a cancellation that removed the record) owns the key
+    -- now: the stale attempt must not come back in its place.
+    local generation = 0
+    for i = message_start, #ARGV, 2 do
+        if ARGV[i] == 'generation' then
+            generation = tonumber(ARGV[i + 1])
+        end
+    end
+    if generation > 0 then
+        local current = redis.call('HGET', runs_key, 'generation')
+        if not current or tonumber(current) > generation then
+            return 0
+        end
+    end
+
     -- Bump generation so stale redeliveries of this task are superseded on wake,
     -- and splice the new value into the message as we forward it.
     local new_gen = redis.call('HINCRBY', runs_key, 'generation', 1)
diff --git a/src/docket/execution.py b/src/docket/execution.py
index c4db540..2347803 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -128,6 +128,16 @@ async def _schedule(
         redis.call('XACK', stream_key, worker_group_name, reschedule_message_id)
         redis.call('XDEL', stream_key, reschedule_message_id)
 
+        -- A newer schedule (or a cancellation that removed the record) owns the
+        -- key now: the stale attempt must not come back in its place.
+        local generation = generation_index and tonumber(message[generation_index]) or 0
+        if generation > 0 then
+            local current = redis.call('HGET', runs_key, 'generation')
+            if not current or tonumber(current) > generation then
+                return 'SUPERSEDED'
+            end
+        end
+
         -- Increment generation counter
         reset_runs_record()
         local new_gen = redis.call('HINCRBY', runs_key, 'generation', 1)
@@ -759,6 +769,13 @@ class Execution:
             self.disposition = Disposition.ALREADY_SCHEDULED
             return self.disposition
 
+        if reply in (b"SUPERSEDED", "SUPERSEDED"):
+            # A newer schedule owns this key; the stale attempt's message was
+            # acknowledged and nothing else was touched.
+            self._acked = True
+            self.disposition = Disposition.ALREADY_SCHEDULED
+            return self.disposition
+
         if is_immediate:
             self.state = ExecutionState.QUEUED
         else:
-- 
2.43.0


From 5024fa7b60da004f07db09a835a5bdf51137d816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:19 +0000
Subject: [PATCH 11/56] fix: subscribe before reading the current state so no
 update is lost

---
 src/docket/execution.py | 69 +++++++++++++++++++++--------------------
 1 file changed, 36 insertions(+), 33 deletions(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index 2347803..7a7dc92 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -1149,45 +1149,48 @@ class Execution:
             - For state events: type="state", state, worker, timestamps, error
             - For progress events: type="progress", current, total, message, updated_at
         """
-        # First, emit the current state
-        await self.sync()
-
-        # Build initial state event from current attributes
-        initial_state: StateEvent = {
-            "type": "state",
-            "key": self.key,
-            "state": self.state,
-            "when": self.when.isoformat(),
-            "worker": self.worker,
-            "started_at": self.started_at.isoformat() if self.started_at else None,
-            "completed_at": (
-                self.completed_at.isoformat() if self.completed_at else None
-            ),
-            "error": self.error,
-        }
-
-        yield initial_state
-
-        progress_event: ProgressEvent = {
-            "type": "progress",
-            "key": self.key,
-            "current": self.progress.current,
-            "total": self.progress.total,
-            "message": self.progress.message,
-            "updated_at": self.progress.updated_at.isoformat()
-            if self.progress.updated_at
-            else None,
-        }
-
-        yield progress_event
-
-        # Then subscribe to real-time updates
         state_channel = self.docket.key(f"state:{self.key}")
         progress_channel = self.docket.key(f"progress:{self.key}")
         async with self.docket._pubsub() as pubsub:
+            # Subscribe before reading the current state, so that an update that
+            # lands in between is delivered instead of lost.
             await pubsub.subscribe(state_channel, progress_channel)
             if ready is not None:
                 ready.set()
+
+            # First, emit the current state
+            await self.sync()
+
+            # Build initial state event from current attributes
+            initial_state: StateEvent = {
+                "type": "state",
+                "key": self.key,
+                "state": self.state,
+                "when": self.when.isoformat(),
+                "worker": self.worker,
+                "started_at": self.started_at.isoformat() if self.started_at else None,
+                "completed_at": (
+                    self.completed_at.isoformat() if self.completed_at else None
+                ),
+                "error": self.error,
+            }
+
+            yield initial_state
+
+            progress_event: ProgressEvent = {
+                "type": "progress",
+                "key": self.key,
+                "current": self.progress.current,
+                "total": self.progress.total,
+                "message": self.progress.message,
+                "updated_at": self.progress.updated_at.isoformat()
+                if self.progress.updated_at
+                else None,
+            }
+
+            yield progress_event
+
+            # Then emit the real-time updates
             async for message in pubsub.listen():  # pragma: no cover
                 if message["type"] == "message":
                     message_data = json.loads(message["data"])
-- 
2.43.0


From 7f51c503a058eefe63a6cadd691d807db5d55d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:19 +0000
Subject: [PATCH 12/56] fix: keep a whole-task strike in effect alongside
 parameter strikes

---
 src/docket/strikelist.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/docket/strikelist.py b/src/docket/strikelist.py
index 8d9c477..9359ec3 100644
--- a/src/docket/strikelist.py
+++ b/src/docket/strikelist.py
@@ -169,6 +169,7 @@ class StrikeList:
 
     task_strikes: TaskStrikes
     parameter_strikes: ParameterStrikes
+    _entire_tasks: set[str]
     _conditions: list[Callable[["Execution"], bool]]
     _redis: RedisConnection | None
     _monitor_task: asyncio.Task[NoReturn] | None
@@ -196,6 +197,7 @@ class StrikeList:
         self.enable_internal_instrumentation = enable_internal_instrumentation
         self.task_strikes = {}
         self.parameter_strikes = {}
+        self._entire_tasks = set()
         self._conditions = [self._matches_task_or_parameter_strike]
         self._redis = RedisConnection(url) if url else None
         self._monitor_task = None
@@ -385,7 +387,7 @@ class StrikeList:
 
         # Check if the entire task is stricken (without parameter conditions)
         task_strikes = self.task_strikes.get(function_name, {})
-        if function_name in self.task_strikes and not task_strikes:
+        if function_name in self._entire_tasks:
             return True
 
         signature = get_signature(execution.function)
@@ -486,6 +488,8 @@ class StrikeList:
             except KeyError:
                 task_strikes = self.task_strikes[strike.function] = {}
 
+            self._entire_tasks.add(strike.function)
+
         elif strike.parameter:  # pragma: no branch
             try:
                 parameter_strikes = self.parameter_strikes[strike.parameter]
@@ -514,16 +518,18 @@ class StrikeList:
 
             if not parameter_strikes:
                 task_strikes.pop(restore.parameter, None)
-                if not task_strikes:
+                if not task_strikes and restore.function not in self._entire_tasks:
                     self.task_strikes.pop(restore.function, None)
 
         elif restore.function:
+            self._entire_tasks.discard(restore.function)
+
             try:
                 task_strikes = self.task_strikes[restore.function]
             except KeyError:
                 return
 
-            # If there are no parameter strikes, this was a full task strike
+            # Parameter strikes on the same task stay in effect
             if not task_strikes:
                 self.task_strikes.pop(restore.function, None)
 
-- 
2.43.0


From d677dd7e70d3918887bc3de64352638b2204f7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:25 +0000
Subject: [PATCH 13/56] fix: keep a newer schedule's markers when a stale
 message is stricken

---
 src/docket/execution.py | 4 ++++
 src/docket/worker.py    | 5 ++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index 7a7dc92..a14869d 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -403,6 +403,10 @@ async def _terminal(
     end
     redis.call('HSET', runs_key, unpack(hset_args))
 
+    -- A task that ends without having been claimed (it was stricken) still has
+    -- these set; clear them so that the key can be scheduled again.
+    redis.call('HDEL', runs_key, 'known', 'stream_id')
+
     if ttl_seconds > 0 then
         redis.call('EXPIRE', runs_key, ttl_seconds)
     else
diff --git a/src/docket/worker.py b/src/docket/worker.py
index d4475c8..bdea92c 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -1007,9 +1007,8 @@ class Worker:
 
     async def _delete_known_task(self, redis: Redis, execution: Execution) -> None:
         logger.debug("Deleting known task", extra=self._log_context())
-        # Delete known/stream_id from runs hash to allow task rescheduling
-        runs_key = self.docket.runs_key(execution.key)
-        await redis.hdel(runs_key, "known", "stream_id")
+        # The known/stream_id fields of the runs hash are cleared by the terminal
+        # script, which leaves them alone when a newer schedule owns the key.
 
         # TODO: Remove in next breaking release (v0.14.0) - legacy key cleanup
         known_task_key = self.docket.known_task_key(execution.key)
-- 
2.43.0


From 32f4fc0048656e68802969908b0e5afa2044318d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:24 +0000
Subject: [PATCH 14/56] fix: log calls of tasks whose signature has an
 unhashable default

---
 src/docket/annotations.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/docket/annotations.py b/src/docket/annotations.py
index 03c7380..893e956 100644
--- a/src/docket/annotations.py
+++ b/src/docket/annotations.py
@@ -13,9 +13,15 @@ class Annotation(abc.ABC):
     @classmethod
     def annotated_parameters(cls, signature: inspect.Signature) -> Mapping[str, Self]:
         key = (cls, signature)
-        if key in cls._cache:
-            CACHE_SIZE.set(len(cls._cache), {"cache": "annotation"})
-            return cls._cache[key]
+        try:
+            cacheable = True
+            if key in cls._cache:
+                CACHE_SIZE.set(len(cls._cache), {"cache": "annotation"})
+                return cls._cache[key]
+        except TypeError:
+            # A signature with an unhashable default (like ``items: list = []``)
+            # is itself unhashable, so it can't be cached
+            cacheable = False
 
         annotated: dict[str, Self] = {}
 
@@ -34,7 +40,8 @@ class Annotation(abc.ABC):
                 elif isinstance(arg_type, type) and issubclass(arg_type, cls):
                     annotated[param_name] = arg_type()
 
-        cls._cache[key] = annotated
+        if cacheable:
+            cls._cache[key] = annotated
         CACHE_SIZE.set(len(cls._cache), {"cache": "annotation"})
         return annotated
 
-- 
2.43.0


From 6953ecae574373f09de6a886a17fb225f982cad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:24 +0000
Subject: [PATCH 15/56] fix: cap exponential backoff instead of overflowing

---
 src/docket/dependencies/_retry.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/docket/dependencies/_retry.py b/src/docket/dependencies/_retry.py
index 6f3592b..214e835 100644
--- a/src/docket/dependencies/_retry.py
+++ b/src/docket/dependencies/_retry.py
@@ -205,7 +205,11 @@ class ExponentialRetry(Retry):
 
         if execution.attempt > 1:
             backoff_factor = 2 ** (execution.attempt - 1)
-            calculated_delay = self.delay * backoff_factor
+            try:
+                calculated_delay = self.delay * backoff_factor
+            except OverflowError:
+                # Far beyond any representable delay (about 50 attempts at 1s)
+                calculated_delay = self.maximum_delay
 
             if calculated_delay > self.maximum_delay:
                 retry.delay = self.maximum_delay
-- 
2.43.0


From 3d9c348f40b3b4fa2ee3fd27d8b8652677deac20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:24 +0000
Subject: [PATCH 16/56] fix: withdraw the right rate limit entry when another
 dependency blocks

---
 src/docket/dependencies/_ratelimit.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/docket/dependencies/_ratelimit.py b/src/docket/dependencies/_ratelimit.py
index 33b5905..4ef5647 100644
--- a/src/docket/dependencies/_ratelimit.py
+++ b/src/docket/dependencies/_ratelimit.py
@@ -110,6 +110,8 @@ class RateLimit(Dependency["RateLimit"]):
         return bound
 
     async def __aenter__(self) -> RateLimit:
+        from ._functional import _Depends
+
         execution = current_execution.get()
         docket = current_docket.get()
 
@@ -141,9 +143,19 @@ class RateLimit(Dependency["RateLimit"]):
         retry_after_ms = result[1]
 
         if action == _ACTION_PROCEED:
-            self._ratelimit_key = ratelimit_key
-            self._member = member
-            return self
+            # The original (the default parameter value) is shared across all
+            # calls, so remember this execution's entry on a NEW instance and
+            # have the resolver's AsyncExitStack give that one the chance to
+            # withdraw it.
+            limit = RateLimit(
+                self.limit, per=self.per, drop=self.drop, scope=self.scope
+            )
+            limit._argument_name = self._argument_name
+            limit._argument_value = self._argument_value
+            limit._ratelimit_key = ratelimit_key
+            limit._member = member
+            _Depends.stack.get().push_async_exit(limit)
+            return limit
 
         reason = f"rate limit ({self.limit}/{self.per}) on {ratelimit_key}"
 
-- 
2.43.0


From 0e6d41a9870d49ad7e491a0feb826da1d2956a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:06 +0000
Subject: [PATCH 17/56] fix: report progress to the execution that made it

---
 src/docket/dependencies/_progress.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/docket/dependencies/_progress.py b/src/docket/dependencies/_progress.py
index 01daed8..f788588 100644
--- a/src/docket/dependencies/_progress.py
+++ b/src/docket/dependencies/_progress.py
@@ -34,8 +34,11 @@ class Progress(Dependency["Progress"]):
 
     async def __aenter__(self) -> Progress:
         execution = current_execution.get()
-        self._progress = execution.progress
-        return self
+        # The original (the default parameter value) is shared across all calls,
+        # so each execution reports through an instance of its own
+        progress = Progress()
+        progress._progress = execution.progress
+        return progress
 
     @property
     def current(self) -> int | None:
-- 
2.43.0


From 6d2a1af61bc9cd28dca1b2e877d1e15190c72112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:23 +0000
Subject: [PATCH 18/56] fix: scope per-parameter limits by arguments passed by
 position

---
 src/docket/dependencies/_resolution.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/docket/dependencies/_resolution.py b/src/docket/dependencies/_resolution.py
index e8e28d3..d4ca2d2 100644
--- a/src/docket/dependencies/_resolution.py
+++ b/src/docket/dependencies/_resolution.py
@@ -10,6 +10,7 @@ from uncalled_for import (
     FailedDependency,
     get_annotation_dependencies,
 )
+from uncalled_for.introspection import get_signature
 
 from ._base import (
     Dependency,
@@ -159,6 +160,23 @@ def detect_single_conflicts(
     return conflicts
 
 
+def _argument_value(
+    execution: Execution, parameter_name: str, arguments: Mapping[str, Any]
+) -> Any:
+    """The value a parameter will have when the task is called: passed by keyword,
+    resolved from a dependency, passed by position, or its default."""
+    if parameter_name in execution.kwargs:
+        return execution.kwargs[parameter_name]
+    if parameter_name in arguments:
+        return arguments[parameter_name]
+    try:
+        bound = get_signature(execution.function).bind_partial(*execution.args)
+    except TypeError:
+        return None
+    bound.apply_defaults()
+    return bound.arguments.get(parameter_name)
+
+
 @asynccontextmanager
 async def resolved_dependencies(
     worker: Worker, execution: Execution
@@ -208,8 +226,8 @@ async def resolved_dependencies(
 
                 annotations = get_annotation_dependencies(execution.function)
                 for parameter_name, dependencies in annotations.items():
-                    argument_value = execution.kwargs.get(
-                        parameter_name, arguments.get(parameter_name)
+                    argument_value = _argument_value(
+                        execution, parameter_name, arguments
                     )
                     for dependency in dependencies:
                         bound = dependency.bind_to_parameter(
-- 
2.43.0


From 927fba83eb6c22c0b657005a23ee9041ed8a4ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:01 +0000
Subject: [PATCH 19/56] fix: keep a scheduled task's trace context when it
 becomes due

---
 src/docket/worker.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index bdea92c..a9c393b 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -192,15 +192,13 @@ async def _stream_due_tasks(
                     task[task_data[j]] = task_data[j+1]
                 end
 
-                local message_id = redis.call('XADD', stream_key, '*',
-                    'key', task['key'],
-                    'when', task['when'],
-                    'function', task['function'],
-                    'args', task['args'],
-                    'kwargs', task['kwargs'],
-                    'attempt', task['attempt'],
-                    'generation', task['generation'] or '0'
-                )
+                -- Forward the message whole: besides the fields used here it
+                -- carries the trace context of whoever scheduled the task
+                if not task['generation'] then
+                    task_data[#task_data + 1] = 'generation'
+                    task_data[#task_data + 1] = '0'
+                end
+                local message_id = redis.call('XADD', stream_key, '*', unpack(task_data))
                 redis.call('DEL', hash_key)
 
                 -- Set run state to queued, and record where the message went so
-- 
2.43.0


From 1b82717e5055053ba530534d6e59b6f2eb419504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 20/56] fix: keep the newest running version of a key
 cancellable

A finished or stale delivery of a key removed or replaced the entry through
which the worker finds the running task to cancel.
---
 src/docket/worker.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index a9c393b..2b4cdad 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -684,7 +684,11 @@ class Worker:
             )
             active_tasks[task] = message_id
             task_executions[task] = execution
-            self._tasks_by_key[execution.key] = task
+            # A stale delivery must not hide a newer running version of this key
+            # from cancellation
+            current = task_executions.get(self._tasks_by_key.get(execution.key, task))
+            if current is None or current.generation <= execution.generation:
+                self._tasks_by_key[execution.key] = task
 
             nonlocal available_slots
             available_slots -= 1
@@ -694,7 +698,9 @@ class Worker:
             for task in completed_tasks:
                 message_id = active_tasks.pop(task)
                 execution = task_executions.pop(task)
-                self._tasks_by_key.pop(execution.key, None)
+                # Another delivery of this key may have started in the meantime
+                if self._tasks_by_key.get(execution.key) is task:
+                    del self._tasks_by_key[execution.key]
                 try:
                     await task
                 except AdmissionBlocked as e:
-- 
2.43.0


From 00ba4f0ed94a28833684b314c03da165d9896069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:33 +0000
Subject: [PATCH 21/56] fix: do not let a late cancellation signal stop a newer
 version of the key

The signal names only the key.  When it reaches the worker after the cancelled
task has ended and its key is running again, leave the new task alone.
---
 src/docket/worker.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 2b4cdad..1c93fb6 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -309,7 +309,7 @@ class Worker:
 
         self._execution_counts: dict[str, int] = {}
         self._stack.callback(lambda: delattr(self, "_execution_counts"))
-        self._tasks_by_key: dict[TaskKey, asyncio.Task[None]] = {}
+        self._tasks_by_key: dict[TaskKey, tuple[asyncio.Task[None], Execution]] = {}
         self._stack.callback(lambda: delattr(self, "_tasks_by_key"))
 
         # The heartbeat task is owned by each processing attempt, not the
@@ -686,9 +686,9 @@ class Worker:
             task_executions[task] = execution
             # A stale delivery must not hide a newer running version of this key
             # from cancellation
-            current = task_executions.get(self._tasks_by_key.get(execution.key, task))
-            if current is None or current.generation <= execution.generation:
-                self._tasks_by_key[execution.key] = task
+            current = self._tasks_by_key.get(execution.key)
+            if current is None or current[1].generation <= execution.generation:
+                self._tasks_by_key[execution.key] = (task, execution)
 
             nonlocal available_slots
             available_slots -= 1
@@ -699,7 +699,7 @@ class Worker:
                 message_id = active_tasks.pop(task)
                 execution = task_executions.pop(task)
                 # Another delivery of this key may have started in the meantime
-                if self._tasks_by_key.get(execution.key) is task:
+                if self._tasks_by_key.get(execution.key) == (task, execution):
                     del self._tasks_by_key[execution.key]
                 try:
                     await task
@@ -1390,7 +1390,17 @@ class Worker:
         data = message["data"]
         key: TaskKey = data.decode() if isinstance(data, bytes) else data
 
-        if task := self._tasks_by_key.get(key):  # pragma: no branch
+        if running := self._tasks_by_key.get(key):  # pragma: no branch
+            task, execution = running
+            # The version this signal was meant for may have ended since, and a
+            # newer one may be here by now: that one was not cancelled.
+            async with self.docket.redis() as redis:
+                record = await redis.hgetall(self.docket.runs_key(key))
+            if (
+                int(record.get(b"generation", b"-1")) == execution.generation
+                and record.get(b"state") != b"cancelled"
+            ):
+                return
             logger.info(
                 "Cancelling running task %r",
                 key,
-- 
2.43.0


From 9a57f3fa30ab21818b4471eae6d21eceb3ee15bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:11 +0000
Subject: [PATCH 22/56] fix: hand freed concurrency slots past cancelled and
 superseded waiters

Entries that are dropped while waking counted against the free capacity, so the
waiters behind them stayed parked although a slot was free.
---
 src/docket/dependencies/_concurrency.py | 98 ++++++++++++++-----------
 1 file changed, 55 insertions(+), 43 deletions(-)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index 49a0446..f0dfb89 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -216,8 +216,12 @@ async def _release_and_wake(
     end
 
     local capacity = max_concurrent - redis.call('ZCARD', slots_key)
-    if capacity > 0 then
+    -- Dropped entries hand their place on to the next waiter.
+    while capacity > 0 do
         local entries = redis.call('XRANGE', waiters_stream, '-', '+', 'COUNT', capacity)
+        if #entries == 0 then
+            break
+        end
         for _, entry in ipairs(entries) do
             local waiter_id = entry[1]
             local fields = entry[2]
@@ -260,6 +264,7 @@ async def _release_and_wake(
                     end
                 end
 
+                capacity = capacity - 1
                 local main_id = redis.call('XADD', stream_key, '*', unpack(fields))
                 redis.call('XDEL', waiters_stream, waiter_id)
                 redis.call('HSET', runs_key, 'state', 'queued', 'stream_id', main_id)
@@ -338,60 +343,67 @@ async def _scavenge_and_wake(
     end
 
     local capacity = max_concurrent - redis.call('ZCARD', slots_key)
-    if capacity == 0 then
+    if capacity <= 0 then
         return 0
     end
 
     local woken = 0
-    local entries = redis.call('XRANGE', waiters_stream, '-', '+', 'COUNT', capacity)
-    for _, entry in ipairs(entries) do
-        local waiter_id = entry[1]
-        local fields = entry[2]
-
-        local waiter_task_key, waiter_generation
-        for i = 1, #fields, 2 do
-            if fields[i] == 'key' then
-                waiter_task_key = fields[i + 1]
-            elseif fields[i] == 'generation' then
-                waiter_generation = fields[i + 1]
-            end
+    -- Dropped entries hand their place on to the next waiter.
+    while capacity > 0 do
+        local entries = redis.call('XRANGE', waiters_stream, '-', '+', 'COUNT', capacity)
+        if #entries == 0 then
+            break
         end
+        for _, entry in ipairs(entries) do
+            local waiter_id = entry[1]
+            local fields = entry[2]
 
-        local runs_key = runs_prefix .. waiter_task_key
-
-        -- Skip cancelled/superseded waiters: drop the entry without forwarding.
-        local current_state = redis.call('HGET', runs_key, 'state')
-        local safeguard_key = '__safeguard__:' .. waiter_task_key
-        if current_state ~= 'scheduled' then
-            redis.call('XDEL', waiters_stream, waiter_id)
-            redis.call('ZREM', queue_key, safeguard_key)
-            redis.call('DEL', parked_prefix .. safeguard_key)
-            redis.call('DEL', runs_prefix .. safeguard_key)
-        elseif redis.call('HGET', runs_key, 'generation') ~= waiter_generation then
-            -- The key was scheduled again while this entry was parked: the
-            -- newer schedule owns the key (and its safeguard).
-            redis.call('XDEL', waiters_stream, waiter_id)
-        else
-            local new_gen = redis.call('HINCRBY', runs_key, 'generation', 1)
+            local waiter_task_key, waiter_generation
             for i = 1, #fields, 2 do
-                if fields[i] == 'generation' then
-                    fields[i + 1] = tostring(new_gen)
+                if fields[i] == 'key' then
+                    waiter_task_key = fields[i + 1]
+                elseif fields[i] == 'generation' then
+                    waiter_generation = fields[i + 1]
                 end
             end
 
-            local main_id = redis.call('XADD', stream_key, '*', unpack(fields))
-            redis.call('XDEL', waiters_stream, waiter_id)
-            redis.call('HSET', runs_key, 'state', 'queued', 'stream_id', main_id)
-            redis.call('HDEL', runs_key, 'waiter_stream', 'waiter_entry_id')
+            local runs_key = runs_prefix .. waiter_task_key
 
-            -- Cancel the safeguard task this waiter scheduled on park.
-            redis.call('ZREM', queue_key, safeguard_key)
-            redis.call('DEL', parked_prefix .. safeguard_key)
-            redis.call('DEL', runs_prefix .. safeguard_key)
+            -- Skip cancelled/superseded waiters: drop the entry without forwarding.
+            local current_state = redis.call('HGET', runs_key, 'state')
+            local safeguard_key = '__safeguard__:' .. waiter_task_key
+            if current_state ~= 'scheduled' then
+                redis.call('XDEL', waiters_stream, waiter_id)
+                redis.call('ZREM', queue_key, safeguard_key)
+                redis.call('DEL', parked_prefix .. safeguard_key)
+                redis.call('DEL', runs_prefix .. safeguard_key)
+            elseif redis.call('HGET', runs_key, 'generation') ~= waiter_generation then
+                -- The key was scheduled again while this entry was parked: the
+                -- newer schedule owns the key (and its safeguard).
+                redis.call('XDEL', waiters_stream, waiter_id)
+            else
+                local new_gen = redis.call('HINCRBY', runs_key, 'generation', 1)
+                for i = 1, #fields, 2 do
+                    if fields[i] == 'generation' then
+                        fields[i + 1] = tostring(new_gen)
+                    end
+                end
 
-            local payload = '{"type":"state","key":"' .. json_escape(waiter_task_key) .. '","state":"queued"}'
-            redis.call('PUBLISH', state_prefix .. waiter_task_key, payload)
-            woken = woken + 1
+                local main_id = redis.call('XADD', stream_key, '*', unpack(fields))
+                redis.call('XDEL', waiters_stream, waiter_id)
+                redis.call('HSET', runs_key, 'state', 'queued', 'stream_id', main_id)
+                redis.call('HDEL', runs_key, 'waiter_stream', 'waiter_entry_id')
+
+                -- Cancel the safeguard task this waiter scheduled on park.
+                redis.call('ZREM', queue_key, safeguard_key)
+                redis.call('DEL', parked_prefix .. safeguard_key)
+                redis.call('DEL', runs_prefix .. safeguard_key)
+
+                local payload = '{"type":"state","key":"' .. json_escape(waiter_task_key) .. '","state":"queued"}'
+                redis.call('PUBLISH', state_prefix .. waiter_task_key, payload)
+                woken = woken + 1
+                capacity = capacity - 1
+            end
         end
     end
 
-- 
2.43.0


From f597df77887b23dc97209eb13046b28aaaf5d4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:18 +0000
Subject: [PATCH 23/56] fix: do not drop a waiter scheduled again after its
 cancellation

The clean-up of a cancelled waiter runs some time after the cancellation.  When
the key had been added and parked again by then, it removed the new waiter's
entry, which lost the task.
---
 src/docket/dependencies/_concurrency.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index f0dfb89..ce88d1a 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -427,12 +427,19 @@ async def _cancel_cleanup(
     progress_key: Key[str],
     runs_key: Key[str],
     waiter_entry_id: Arg[str],
-) -> None:
+) -> bool:
     """
     -- Atomically tear down a cancelled task's waiter footprint.  Invoked
     -- by ConcurrencyLimit's pubsub-driven cancel subscriber after
     -- Docket.cancel flips the task to 'cancelled'.
 
+    -- The key may have been scheduled, and parked, again since the
+    -- cancellation: that waiter was not cancelled.
+    local state = redis.call('HGET', runs_key, 'state')
+    if state and state ~= 'cancelled' then
+        return 0
+    end
+
     redis.call('XDEL', waiters_stream, waiter_entry_id)
     if redis.call('XLEN', waiters_stream) == 0 then
         redis.call('DEL', waiters_stream)
@@ -444,6 +451,8 @@ async def _cancel_cleanup(
     redis.call('DEL', progress_key)
 
     redis.call('HDEL', runs_key, 'waiter_stream', 'waiter_entry_id')
+
+    return 1
     """
     ...
 
@@ -781,13 +790,15 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
                 return
             waiter_stream = waiter_stream_b.decode()
             waiter_entry_id = waiter_entry_id_b.decode()
-            await _cancel_cleanup(
+            cleaned_up = await _cancel_cleanup(
                 redis,
                 waiters_stream=waiter_stream,
                 progress_key=f"{docket.prefix}:progress:{task_key}",
                 runs_key=runs_key,
                 waiter_entry_id=waiter_entry_id,
             )
+        if not cleaned_up:
+            return
         # Drop the safeguard task this waiter scheduled at park time.
         # Cancelling routes through the same cancel pubsub we're subscribed
         # to, but the resulting cleanup callback for the safeguard's own
-- 
2.43.0


From 8090bbdf18c12bdce1c9aff34fa6ff1e71a7afa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:28 +0000
Subject: [PATCH 24/56] fix: pass through the outcome of a task that raises
 TimeoutError or ends as a wait times out

---
 src/docket/dependencies/_timeout.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/docket/dependencies/_timeout.py b/src/docket/dependencies/_timeout.py
index a9b4906..58020a8 100644
--- a/src/docket/dependencies/_timeout.py
+++ b/src/docket/dependencies/_timeout.py
@@ -101,3 +101,7 @@ class Timeout(Runtime["Timeout"]):
                 if timed_out:  # pragma: no branch
                     raise asyncio.TimeoutError(timeout_reason)
                 # Otherwise let the original exception (e.g. CancelledError) propagate
+
+        # The task ended just as a wait timed out, or raised a TimeoutError of its
+        # own: either way, its outcome is the outcome.
+        return task.result()
-- 
2.43.0


From c9f29817b72a3dbbf6bf78b2d9aac4225832a599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:45 +0000
Subject: [PATCH 25/56] fix: count same-key executions admitted in one
 millisecond separately in rate limits

---
 src/docket/dependencies/_ratelimit.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/docket/dependencies/_ratelimit.py b/src/docket/dependencies/_ratelimit.py
index 4ef5647..a9768ed 100644
--- a/src/docket/dependencies/_ratelimit.py
+++ b/src/docket/dependencies/_ratelimit.py
@@ -2,13 +2,14 @@
 
 Caps how many times a task (or a per-parameter scope) can execute within a
 sliding window.  Uses a Redis sorted set as a sliding window log: members are
-``{execution_key}:{now_ms}`` strings (unique per attempt), scores are
+``{execution_key}:{now_ms}:{nonce}`` strings (unique per attempt), scores are
 millisecond timestamps.
 """
 
 from __future__ import annotations
 
 import time
+import uuid
 from datetime import timedelta
 from types import TracebackType
 from typing import Any
@@ -126,7 +127,9 @@ class RateLimit(Dependency["RateLimit"]):
         window_ms = int(self.per.total_seconds() * 1000)
         now_ms = int(time.time() * 1000)
         ttl_ms = window_ms * 2
-        member = f"{execution.key}:{now_ms}"
+        # Two executions of one key may be admitted within the same millisecond, and
+        # each counts: a member of its own keeps them apart
+        member = f"{execution.key}:{now_ms}:{uuid.uuid4().hex}"
 
         async with docket.redis() as redis:
             result = await _ratelimit(
-- 
2.43.0


From cba62781b30f423750fbbf59ebb129e572fa6259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:57 +0000
Subject: [PATCH 26/56] fix: reject single-dependency conflicts on every
 execution, not just as the first one resolved

---
 src/docket/worker.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 1c93fb6..d88481f 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -58,6 +58,7 @@ from .dependencies import (
     current_worker,
     format_duration,
     get_annotation_dependencies,
+    get_dependency_parameters,
     get_single_dependency_of_type,
     get_single_dependency_parameter_of_type,
     resolved_dependencies,
@@ -249,7 +250,6 @@ class Worker:
     enable_internal_instrumentation: bool
     fallback_task: TaskFunction
     dependencies: dict[str, Dependency[Any]]
-    _single_conflicts: dict[TaskFunction, dict[str, FailedDependency]]
 
     def __init__(
         self,
@@ -276,7 +276,6 @@ class Worker:
         self.enable_internal_instrumentation = enable_internal_instrumentation
         self.fallback_task = fallback_task or default_fallback_task
         self.dependencies = validate_worker_dependencies(dependencies)
-        self._single_conflicts = {}
 
     @contextmanager
     def _maybe_suppress_instrumentation(self) -> Generator[None, None, None]:
@@ -358,16 +357,25 @@ class Worker:
 
         Task-only conflicts are caught at registration by
         ``validate_dependencies``; only the task-vs-worker cross-check runs
-        here.  Result is stable per ``(worker, function)``, so memoize and
-        reuse on subsequent executions.
+        here.  What was declared counts, whatever it resolved to this time: a
+        dependency that failed, was passed explicitly, or resolved to a plain
+        value conflicts all the same.  One that resolved to another dependency
+        counts as that.
         """
         if not self.dependencies:
             return {}
-        conflicts = self._single_conflicts.get(function)
-        if conflicts is None:
-            conflicts = detect_single_conflicts(arguments, annotations)
-            self._single_conflicts[function] = conflicts
-        return conflicts
+        declared: dict[str, Dependency[Any]] = {
+            f"__worker_dep__{name}": dependency
+            for name, dependency in self.dependencies.items()
+        }
+        declared.update(get_dependency_parameters(function))
+        effective = {
+            slot: arguments[slot]
+            if isinstance(arguments.get(slot), Dependency)
+            else dependency
+            for slot, dependency in declared.items()
+        }
+        return detect_single_conflicts(effective, annotations)
 
     def labels(self) -> Mapping[str, str]:
         return {
-- 
2.43.0


From fb6df4df1ef7af7fd0aef2585c7de3677eedb855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:55 +0000
Subject: [PATCH 27/56] fix: leave alone a dependency parameter that was passed
 by position

---
 src/docket/dependencies/_resolution.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/docket/dependencies/_resolution.py b/src/docket/dependencies/_resolution.py
index d4ca2d2..4d88d53 100644
--- a/src/docket/dependencies/_resolution.py
+++ b/src/docket/dependencies/_resolution.py
@@ -160,6 +160,15 @@ def detect_single_conflicts(
     return conflicts
 
 
+def _passed_by_position(execution: Execution) -> set[str]:
+    """The parameters this execution passes by position."""
+    try:
+        bound = get_signature(execution.function).bind_partial(*execution.args)
+    except TypeError:
+        return set()
+    return set(bound.arguments)
+
+
 def _argument_value(
     execution: Execution, parameter_name: str, arguments: Mapping[str, Any]
 ) -> Any:
@@ -200,7 +209,12 @@ async def resolved_dependencies(
                         arguments[slot] = FailedDependency(name, error)
 
                 parameters = get_dependency_parameters(execution.function)
+                passed_by_position = _passed_by_position(execution)
                 for parameter, dependency in parameters.items():
+                    # Passing it again by keyword would be an error
+                    if parameter in passed_by_position:
+                        continue
+
                     kwargs = execution.kwargs
                     if parameter in kwargs:
                         arguments[parameter] = kwargs[parameter]
-- 
2.43.0


From 5d9ca7f3bbf44324a1478312e985b3d0b87edb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:30 +0000
Subject: [PATCH 28/56] fix: a dependency that fails while exiting cannot give
 a finished delivery a second outcome

---
 src/docket/worker.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index d88481f..49d2f02 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -1068,6 +1068,7 @@ class Worker:
         )
 
         dependencies: dict[str, Dependency] = {}
+        completed = False
 
         with tracer.start_as_current_span(
             execution.function_name,
@@ -1171,6 +1172,7 @@ class Worker:
                             call,
                             extra=log_context,
                         )
+                    completed = True
             except AdmissionBlocked:
                 # Admission control (e.g. ConcurrencyLimit) is a rescheduling
                 # signal, not a task failure. Mark the span OK before re-raising
@@ -1183,7 +1185,10 @@ class Worker:
                 # Task was cancelled externally via docket.cancel()
                 duration = log_context["duration"] = time.time() - start
                 span.set_status(Status(StatusCode.OK))
-                await execution.mark_as_cancelled()
+                # Unless its outcome was already recorded and only its dependencies
+                # were still being exited
+                if not completed:
+                    await execution.mark_as_cancelled()
                 logger.info(
                     "✗ [%s] %s (cancelled)",
                     format_duration(duration),
@@ -1192,6 +1197,15 @@ class Worker:
                 )
             except Exception as e:
                 duration = log_context["duration"] = time.time() - start
+                if completed:
+                    # The outcome is already recorded; a dependency that fails while
+                    # exiting can't give this delivery a second one
+                    span.record_exception(e)
+                    logger.exception(
+                        "Error exiting the dependencies of %s", call, extra=log_context
+                    )
+                    return
+
                 TASKS_FAILED.add(1, counter_labels)
 
                 span.record_exception(e)
-- 
2.43.0


From aa914a9dd511245300dd06ced54b1c9e55baa33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 29/56] fix: a task that ends with a bare CancelledError when
 its timeout stops it fails with a timeout

---
 src/docket/_cancellation.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/docket/_cancellation.py b/src/docket/_cancellation.py
index f3f95eb..2d9f249 100644
--- a/src/docket/_cancellation.py
+++ b/src/docket/_cancellation.py
@@ -64,5 +64,12 @@ async def cancel_task(task: "asyncio.Task[Any]", reason: str) -> None:
         # so this CancelledError is probably from our cancel() call
         if sys.version_info < (3, 11):  # pragma: no cover
             return
+        # The task may have ended with a CancelledError of its own, without our
+        # message; unless someone asked us to stop as well, that is the end of it
+        current = asyncio.current_task()  # pragma: no cover
+        if (  # pragma: no cover
+            task.cancelled() and current is not None and not current.cancelling()
+        ):
+            return
         # External cancellation - propagate it
         raise  # pragma: no cover - race condition between cancel() and await
-- 
2.43.0


From e8dedffa0d4f26ea26002b4e4bb40478d7fc6ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:57 +0000
Subject: [PATCH 30/56] fix: a value whose comparison raises or has no truth
 value never blocks and never raises

---
 src/docket/strikelist.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/docket/strikelist.py b/src/docket/strikelist.py
index 9359ec3..29055da 100644
--- a/src/docket/strikelist.py
+++ b/src/docket/strikelist.py
@@ -424,23 +424,23 @@ class StrikeList:
         try:
             match operator:
                 case "==":
-                    return value == strike_value
+                    return bool(value == strike_value)
                 case "!=":
-                    return value != strike_value
+                    return bool(value != strike_value)
                 case ">":
-                    return value > strike_value
+                    return bool(value > strike_value)
                 case ">=":
-                    return value >= strike_value
+                    return bool(value >= strike_value)
                 case "<":
-                    return value < strike_value
+                    return bool(value < strike_value)
                 case "<=":
-                    return value <= strike_value
+                    return bool(value <= strike_value)
                 case "between":  # pragma: no branch
                     lower, upper = strike_value
-                    return lower <= value <= upper
+                    return bool(lower <= value <= upper)
                 case _:  # pragma: no cover
                     raise ValueError(f"Unknown operator: {operator}")
-        except (ValueError, TypeError):
+        except Exception:
             # If we can't make the comparison due to incompatible types, just log the
             # error and assume the task is not stricken
             logger.warning(
-- 
2.43.0


From 36f0eba9daa1525218e41db8630b51f5403401d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:51 +0000
Subject: [PATCH 31/56] fix: one unreadable entry in the strike log no longer
 holds up all later ones

---
 src/docket/strikelist.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/docket/strikelist.py b/src/docket/strikelist.py
index 29055da..13d2649 100644
--- a/src/docket/strikelist.py
+++ b/src/docket/strikelist.py
@@ -606,8 +606,15 @@ class StrikeList:
         for _, messages in streams:
             for message_id, message in messages:
                 last_id = message_id
-                instruction = StrikeInstruction.from_message(message)
-                self.update(instruction)
+                try:
+                    instruction = StrikeInstruction.from_message(message)
+                    self.update(instruction)
+                except Exception:  # pragma: no cover
+                    # An entry this process can't read (for instance a value of a
+                    # class it can't import) must not hold up the ones after it
+                    logger.exception("Skipping unreadable strike %r", message_id)
+                    continue
+
                 logger.info(
                     "%s %r",
                     ("Striking" if instruction.direction == "strike" else "Restoring"),
-- 
2.43.0


From ddb36732333d1400926f70a576d507e94c59f884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:28 +0000
Subject: [PATCH 32/56] fix: a strike already restored in the log is not put
 back by its sender's local update

---
 src/docket/strikelist.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/docket/strikelist.py b/src/docket/strikelist.py
index 13d2649..622cb84 100644
--- a/src/docket/strikelist.py
+++ b/src/docket/strikelist.py
@@ -126,6 +126,14 @@ class Restore(StrikeInstruction):
     direction: Literal["strike", "restore"] = "restore"
 
 
+def _position(message_id: bytes | str) -> tuple[int, int]:
+    """The position of an entry in the strike log, for comparing with others."""
+    if isinstance(message_id, bytes):
+        message_id = message_id.decode()
+    milliseconds, _, sequence = message_id.partition("-")
+    return int(milliseconds), int(sequence)
+
+
 MinimalStrike = tuple[Operator, Hashable]
 ParameterStrikes = dict[str, set[MinimalStrike]]
 TaskStrikes = dict[str, ParameterStrikes]
@@ -174,6 +182,7 @@ class StrikeList:
     _redis: RedisConnection | None
     _monitor_task: asyncio.Task[NoReturn] | None
     _strikes_loaded: asyncio.Event | None
+    _last_read: tuple[int, int]
     _stack: AsyncExitStack
 
     def __init__(
@@ -202,6 +211,7 @@ class StrikeList:
         self._redis = RedisConnection(url) if url else None
         self._monitor_task = None
         self._strikes_loaded = None
+        self._last_read = (0, 0)
 
     @property
     def prefix(self) -> str:
@@ -242,6 +252,7 @@ class StrikeList:
         await self._stack.enter_async_context(self._redis)
 
         self._strikes_loaded = asyncio.Event()
+        self._last_read = (0, 0)
         self._stack.callback(lambda: setattr(self, "_strikes_loaded", None))
 
         self._monitor_task = asyncio.create_task(
@@ -304,9 +315,12 @@ class StrikeList:
             )
 
         async with self._redis.client() as r:
-            await r.xadd(self.strike_key, instruction.as_message())  # type: ignore[arg-type]
+            message_id = await r.xadd(self.strike_key, instruction.as_message())  # type: ignore[arg-type]
 
-        self.update(instruction)
+        # If the monitor has already read this entry, later ones it has read as well
+        # (such as a restore) must have the last word
+        if _position(message_id) > self._last_read:
+            self.update(instruction)
 
     async def strike(
         self,
@@ -606,6 +620,7 @@ class StrikeList:
         for _, messages in streams:
             for message_id, message in messages:
                 last_id = message_id
+                self._last_read = _position(message_id)
                 try:
                     instruction = StrikeInstruction.from_message(message)
                     self.update(instruction)
-- 
2.43.0


From 6cf2983a10186a5d910421abe2da369f6bd2e538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 33/56] fix: a task failing with an exception that cannot be
 pickled no longer takes the worker down

---
 src/docket/worker.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 49d2f02..708fe7f 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -1247,8 +1247,9 @@ class Worker:
 
                     # Store exception in result_storage (only when not retrying)
                     result_key = None
-                    if self.docket.execution_ttl:
-                        pickled_exception = cloudpickle.dumps(e)  # type: ignore[arg-type]
+                    if self.docket.execution_ttl and (
+                        pickled_exception := self._pickled(e, log_context)
+                    ):
                         # Base64-encode for JSON serialization
                         encoded_exception = base64.b64encode(pickled_exception).decode(
                             "ascii"
@@ -1267,6 +1268,17 @@ class Worker:
                 TASKS_COMPLETED.add(1, counter_labels)
                 TASK_DURATION.record(duration, counter_labels)
 
+    def _pickled(self, error: Exception, log_context: dict[str, Any]) -> bytes | None:
+        """The pickled exception, or None for one that can't be pickled, of which
+        only the error message is kept."""
+        try:
+            return cloudpickle.dumps(error)  # type: ignore[no-any-return]
+        except Exception:
+            logger.warning(
+                "Unable to pickle %s", type(error).__name__, extra=log_context
+            )
+            return None
+
     def _startup_log(self) -> None:
         logger.info("Starting worker %r with the following tasks:", self.name)
         for task_name, task in self.docket.tasks.items():
-- 
2.43.0


From 9b6700d4a8b1ec76389f22059dedb7f6109674d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 34/56] fix: a failure whose message is not valid text no
 longer takes the worker down

---
 src/docket/worker.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 708fe7f..375d485 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -1261,7 +1261,10 @@ class Worker:
                         )
 
                     # Mark execution as failed with error message
+                    # (escaping anything that can't be stored as text, like the
+                    # surrogates in the name of a file that isn't valid UTF-8)
                     error_msg = f"{type(e).__name__}: {str(e)}"
+                    error_msg = error_msg.encode("utf-8", "backslashreplace").decode()
                     await execution.mark_as_failed(error_msg, result_key=result_key)
             finally:
                 TASKS_RUNNING.add(-1, counter_labels)
-- 
2.43.0


From 5448fa8a3764cc06e203f39ea573f10795e3a687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 35/56] fix: a task whose arguments cannot be unpickled fails
 instead of taking down every worker it reaches

---
 src/docket/worker.py | 42 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 375d485..2f1f7c9 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -39,7 +39,7 @@ from ._lua import Arg, Key, redis_script
 from ._redis import RedisClient
 from ._telemetry import suppress_instrumentation
 from redis.asyncio import Redis
-from redis.exceptions import ConnectionError, LockError, ResponseError
+from redis.exceptions import ConnectionError, LockError, RedisError, ResponseError
 from typing_extensions import Self
 
 from .dependencies import (
@@ -678,13 +678,39 @@ class Worker:
             message: RedisMessage,
             is_redelivery: bool = False,
         ) -> None:
-            execution = await Execution.from_message(
-                self.docket,
-                message,
-                redelivered=is_redelivery,
-                fallback_task=self.fallback_task,
-                message_id=message_id,
-            )
+            try:
+                execution = await Execution.from_message(
+                    self.docket,
+                    message,
+                    redelivered=is_redelivery,
+                    fallback_task=self.fallback_task,
+                    message_id=message_id,
+                )
+            except RedisError:
+                raise
+            except Exception as e:  # pragma: no cover
+                # The arguments can't be unpickled here, for instance because their
+                # class can't be imported.  Every worker they are delivered to would
+                # stumble over them, so this is the outcome of the task.
+                execution = Execution(
+                    docket=self.docket,
+                    function=self.fallback_task,
+                    args=(),
+                    kwargs={},
+                    key=message[b"key"].decode(),
+                    when=datetime.fromisoformat(message[b"when"].decode()),
+                    attempt=int(message[b"attempt"].decode()),
+                    function_name=message[b"function"].decode(),
+                    generation=int(message.get(b"generation", b"0")),
+                    message_id=message_id,
+                )
+                logger.exception(
+                    "Unable to read the arguments of task %s",
+                    execution.key,
+                    extra=log_context,
+                )
+                await execution.mark_as_failed(f"{type(e).__name__}: {e}")
+                return
 
             task = asyncio.create_task(
                 self._execute(execution),
-- 
2.43.0


From 0bea09e062e4053f9d3a904b3c56b338030ad801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 36/56] fix: an argument that cannot be printed no longer takes
 down the worker that would log it

---
 src/docket/annotations.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/docket/annotations.py b/src/docket/annotations.py
index 893e956..bd902a0 100644
--- a/src/docket/annotations.py
+++ b/src/docket/annotations.py
@@ -77,12 +77,17 @@ class Logged(Annotation):
         self.length_only = length_only
 
     def format(self, argument: Any) -> str:
-        if self.length_only:
-            if isinstance(argument, (dict, set)):
-                return f"{{len {len(argument)}}}"
-            elif isinstance(argument, tuple):
-                return f"(len {len(argument)})"
-            elif hasattr(argument, "__len__"):
-                return f"[len {len(argument)}]"
-
-        return repr(argument)
+        # Anything can be an argument, even something that fails to print itself
+        # or a class that only defines ``__len__`` for its instances
+        try:
+            if self.length_only:
+                if isinstance(argument, (dict, set)):
+                    return f"{{len {len(argument)}}}"
+                elif isinstance(argument, tuple):
+                    return f"(len {len(argument)})"
+                elif hasattr(argument, "__len__"):
+                    return f"[len {len(argument)}]"
+
+            return repr(argument)
+        except Exception:
+            return f"<{type(argument).__name__}>"
-- 
2.43.0


From 6923e44e9db741a299ea0d991bc45c61fe4ff4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:58 +0000
Subject: [PATCH 37/56] fix: log an argument only when the parameter it is
 passed to is marked for it

---
 src/docket/execution.py | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index a14869d..c639284 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -663,20 +663,42 @@ class Execution:
 
         signature = get_signature(self.function)
         logged_parameters = Logged.annotated_parameters(signature)
-        parameter_names = list(signature.parameters.keys())
 
-        for i, argument in enumerate(self.args[: len(parameter_names)]):
-            parameter_name = parameter_names[i]
+        # Work out which parameter each argument goes to: extra positional ones are
+        # for the ``*args`` parameter (never for the keyword-only ones listed after
+        # it) and unknown names, or those of positional-only ones, for ``**kwargs``.
+        positional: list[str] = []
+        named: set[str] = set()
+        others: dict[Any, str] = {}
+        for parameter in signature.parameters.values():
+            if parameter.kind in (parameter.VAR_POSITIONAL, parameter.VAR_KEYWORD):
+                others[parameter.kind] = parameter.name
+                continue
+            if parameter.kind != parameter.KEYWORD_ONLY:
+                positional.append(parameter.name)
+            if parameter.kind != parameter.POSITIONAL_ONLY:
+                named.add(parameter.name)
+
+        for i, argument in enumerate(self.args):
+            if i < len(positional):
+                parameter_name = positional[i]
+            else:
+                parameter_name = others.get(inspect.Parameter.VAR_POSITIONAL, "")
             if logged := logged_parameters.get(parameter_name):
                 arguments.append(logged.format(argument))
             else:
                 arguments.append("...")
 
-        for parameter_name, argument in self.kwargs.items():
+        for name, argument in self.kwargs.items():
+            parameter_name = (
+                name
+                if name in named
+                else others.get(inspect.Parameter.VAR_KEYWORD, "")
+            )
             if logged := logged_parameters.get(parameter_name):
-                arguments.append(f"{parameter_name}={logged.format(argument)}")
+                arguments.append(f"{name}={logged.format(argument)}")
             else:
-                arguments.append(f"{parameter_name}=...")
+                arguments.append(f"{name}=...")
 
         return f"{function_name}({', '.join(arguments)}){{{self.key}}}"
 
-- 
2.43.0


From bbab32ea64fc70e3bff97a2a9737b08b85c7ade2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:05 +0000
Subject: [PATCH 38/56] fix: a result that is already there is returned even
 when the time to wait for it has passed

---
 src/docket/execution.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index c639284..90ebb5b 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -1030,19 +1030,20 @@ class Execution:
             ExecutionState.CANCELLED,
         )
 
-        # Wait for execution to complete if not already done
-        if self.state not in terminal_states:
-            # Calculate timeout duration if absolute deadline provided
-            timeout_seconds = None
-            if deadline is not None:
-                timeout_seconds = (
-                    deadline - datetime.now(timezone.utc)
-                ).total_seconds()
-                if timeout_seconds <= 0:
+        # Calculate timeout duration if absolute deadline provided
+        timeout_seconds = None
+        if self.state not in terminal_states and deadline is not None:
+            timeout_seconds = (deadline - datetime.now(timezone.utc)).total_seconds()
+            if timeout_seconds <= 0:
+                # No time left to wait, but the outcome may already be there
+                await self.sync()
+                if self.state not in terminal_states:
                     raise TimeoutError(
                         f"Timeout waiting for execution {self.key} to complete"
                     )
 
+        # Wait for execution to complete if not already done
+        if self.state not in terminal_states:
             try:
 
                 async def wait_for_completion():
-- 
2.43.0


From 5f3527331be2004710f4c30c1ecf92eb46d0618e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:25 +0000
Subject: [PATCH 39/56] fix: clear a docket in one atomic step, leaving running
 tasks alone

Reading what is pending and deleting it were separate steps.  A task added in
between kept its 'known' marker without any copy of itself, so its key could
never be used again; one the scheduler moved to the stream in between ran
although it had been counted as cleared.  Running tasks lost their message and
got an expiry on their record; progress of retried tasks was left behind.
---
 src/docket/docket.py | 135 ++++++++++++++++++++++++-------------------
 1 file changed, 77 insertions(+), 58 deletions(-)

diff --git a/src/docket/docket.py b/src/docket/docket.py
index 50d2f53..e144fed 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -135,6 +135,72 @@ async def _cancel_task(
     ...
 
 
+@redis_script
+async def _clear_tasks(
+    redis: RedisClient,
+    *,
+    stream_key: Key[str],
+    queue_key: Key[str],
+    docket_prefix: Arg[str],
+    ttl_seconds: Arg[int],
+) -> int:
+    """
+    -- Finding the pending tasks and removing them is one step: a task added,
+    -- or moved from the queue to the stream, between the two would otherwise
+    -- either survive or leave its markers behind, blocking its key for good.
+    local cleared = 0
+
+    local function forget(task_key)
+        local runs_key = docket_prefix .. ":runs:" .. task_key
+        -- TODO: Remove in v0.14.0 (legacy key locations)
+        redis.call('DEL', docket_prefix .. ":known:" .. task_key,
+                   docket_prefix .. ":stream-id:" .. task_key,
+                   docket_prefix .. ":progress:" .. task_key)
+
+        -- Handle runs hash: set TTL or delete based on execution_ttl
+        redis.call('HDEL', runs_key, 'known', 'stream_id')
+        if ttl_seconds > 0 then
+            redis.call('EXPIRE', runs_key, ttl_seconds)
+        else
+            redis.call('DEL', runs_key)
+        end
+        cleared = cleared + 1
+    end
+
+    -- Delete the messages one by one, keeping the stream and its consumer group
+    local messages = redis.call('XRANGE', stream_key, '-', '+')
+    for _, message in ipairs(messages) do
+        local fields = message[2]
+        local task_key = nil
+        for i = 1, #fields, 2 do
+            if fields[i] == 'key' then
+                task_key = fields[i + 1]
+            end
+        end
+
+        -- A worker has this one in hand
+        local running = task_key and
+            redis.call('HGET', docket_prefix .. ":runs:" .. task_key, 'state') == 'running'
+        if not running then
+            redis.call('XDEL', stream_key, message[1])
+            if task_key then
+                forget(task_key)
+            end
+        end
+    end
+
+    local scheduled = redis.call('ZRANGE', queue_key, 0, -1)
+    for _, task_key in ipairs(scheduled) do
+        redis.call('DEL', docket_prefix .. ":" .. task_key)
+        forget(task_key)
+    end
+    redis.call('DEL', queue_key)
+
+    return cleared
+    """
+    ...
+
+
 P = ParamSpec("P")
 R = TypeVar("R")
 
@@ -869,61 +935,14 @@ class Docket(DocketSnapshotMixin):
             attributes=self.labels(),
         ):
             async with self.redis() as redis:
-                async with redis.pipeline() as pipeline:
-                    # Get counts before clearing
-                    pipeline.xlen(self.stream_key)
-                    pipeline.zcard(self.queue_key)
-                    pipeline.zrange(self.queue_key, 0, -1)
-
-                    stream_count: int
-                    queue_count: int
-                    scheduled_keys: list[bytes]
-                    stream_count, queue_count, scheduled_keys = await pipeline.execute()
-
-                # Get keys from stream messages before trimming
-                stream_keys: list[str] = []
-                if stream_count > 0:
-                    # Read all messages from the stream
-                    messages = await redis.xrange(self.stream_key, "-", "+")
-                    for message_id, fields in messages:
-                        # Extract the key field from the message
-                        if b"key" in fields:  # pragma: no branch
-                            stream_keys.append(fields[b"key"].decode())
-
-                async with redis.pipeline() as pipeline:
-                    # Clear all data
-                    # Trim stream to 0 messages instead of deleting it to preserve consumer group
-                    if stream_count > 0:
-                        pipeline.xtrim(self.stream_key, maxlen=0, approximate=False)
-                    pipeline.delete(self.queue_key)
-
-                    # Clear parked task data and known task keys for scheduled tasks
-                    for key_bytes in scheduled_keys:
-                        task_key = key_bytes.decode()
-                        pipeline.delete(self.parked_task_key(task_key))
-                        pipeline.delete(self.known_task_key(task_key))
-                        pipeline.delete(self.stream_id_key(task_key))
-
-                        # Handle runs hash: set TTL or delete based on execution_ttl
-                        task_runs_key = self.runs_key(task_key)
-                        pipeline.hdel(task_runs_key, "known", "stream_id")
-                        if self.execution_ttl:
-                            ttl_seconds = int(self.execution_ttl.total_seconds())
-                            pipeline.expire(task_runs_key, ttl_seconds)
-                        else:
-                            pipeline.delete(task_runs_key)
-
-                    # Handle runs hash for immediate tasks from stream
-                    for task_key in stream_keys:
-                        task_runs_key = self.runs_key(task_key)
-                        pipeline.hdel(task_runs_key, "known", "stream_id")
-                        if self.execution_ttl:
-                            ttl_seconds = int(self.execution_ttl.total_seconds())
-                            pipeline.expire(task_runs_key, ttl_seconds)
-                        else:
-                            pipeline.delete(task_runs_key)
-
-                    await pipeline.execute()
-
-                    total_cleared = stream_count + queue_count
-                    return total_cleared
+                return await _clear_tasks(
+                    redis,
+                    stream_key=self.stream_key,
+                    queue_key=self.queue_key,
+                    docket_prefix=self.prefix,
+                    ttl_seconds=(
+                        int(self.execution_ttl.total_seconds())
+                        if self.execution_ttl
+                        else 0
+                    ),
+                )
-- 
2.43.0


From aa83deb65009940b93b21877d5e4cadf673c76fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:13 +0000
Subject: [PATCH 40/56] fix: a snapshot on the memory backend with tasks being
 worked on

Its pipelines return pending entries with their keys as bytes, so snapshot()
raised KeyError as soon as any task had been delivered to a worker.
---
 src/docket/_docket_snapshot.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/docket/_docket_snapshot.py b/src/docket/_docket_snapshot.py
index f78497b..2421b6f 100644
--- a/src/docket/_docket_snapshot.py
+++ b/src/docket/_docket_snapshot.py
@@ -167,6 +167,14 @@ class DocketSnapshotMixin:
 
         total_tasks = total_stream_messages + total_schedule_messages
 
+        # The memory backend's pipelines return these with their keys as bytes
+        pending_messages = [
+            cast(
+                "RedisStreamPendingMessage",
+                {k.decode() if isinstance(k, bytes) else k: v for k, v in p.items()},
+            )
+            for p in pending_messages
+        ]
         pending_lookup: dict[RedisMessageID, RedisStreamPendingMessage] = {
             pending["message_id"]: pending for pending in pending_messages
         }
-- 
2.43.0


From c3c58458e93e6f7c4a78a5e2438067248d74cc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:13 +0000
Subject: [PATCH 41/56] fix: a worker is listed with its own tasks only

A heartbeat added to the tasks an earlier worker of the same name had left.
---
 src/docket/worker.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 2f1f7c9..bbfb7f4 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -1364,6 +1364,8 @@ class Worker:
                                 pipeline.zremrangebyscore(task_workers_set, 0, oldest)
                                 pipeline.zadd(task_workers_set, {self.name: now})
 
+                            # An earlier worker of the same name may have left its tasks
+                            pipeline.delete(self.worker_tasks_set(self.name))
                             pipeline.sadd(self.worker_tasks_set(self.name), *task_names)
                             pipeline.expire(
                                 self.worker_tasks_set(self.name),
-- 
2.43.0


From 27c9eea73170c7f2d42d4c61abd5696e96f59b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:13 +0000
Subject: [PATCH 42/56] fix: a running task is shown under the name it was
 scheduled with

---
 src/docket/_docket_snapshot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/docket/_docket_snapshot.py b/src/docket/_docket_snapshot.py
index 2421b6f..eceb28f 100644
--- a/src/docket/_docket_snapshot.py
+++ b/src/docket/_docket_snapshot.py
@@ -41,6 +41,8 @@ class RunningExecution(Execution):
             attempt=execution.attempt,
             trace_context=execution.trace_context,
             redelivered=execution.redelivered,
+            function_name=execution.function_name,
+            generation=execution.generation,
         )
         self.state: ExecutionState = execution.state
         self.started_at: datetime | None = execution.started_at
-- 
2.43.0


From 3e011aa7fd5d3ddebce8ea72296ffe75e024d49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:13 +0000
Subject: [PATCH 43/56] fix: a worker keeps its tasks for as long as it is
 listed

The expiry of the tasks of a worker was cut down to whole seconds.
---
 src/docket/worker.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index bbfb7f4..b4b2676 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -4,6 +4,7 @@ import asyncio
 import base64
 import importlib
 import logging
+import math
 import os
 import signal
 import socket
@@ -1370,7 +1371,8 @@ class Worker:
                             pipeline.expire(
                                 self.worker_tasks_set(self.name),
                                 max(
-                                    maximum_age, timedelta(seconds=MINIMUM_TTL_SECONDS)
+                                    math.ceil(maximum_age.total_seconds()),
+                                    MINIMUM_TTL_SECONDS,
                                 ),
                             )
 
-- 
2.43.0


From 4bce07387d3f015143e8d408391b173f7c6f6912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:40 +0000
Subject: [PATCH 44/56] fix: a task waiting for a slot is watched over until it
 gets it

Its safeguard went off once, after one redelivery timeout.  When the slot was
held for longer than that and then handed to a waiter that never ran (because
it was cancelled or struck), or its holder died after finishing, the others
waited until some other task of the group came along, possibly forever.
---
 src/docket/dependencies/_concurrency.py | 71 ++++++++++++++++++-------
 1 file changed, 52 insertions(+), 19 deletions(-)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index ce88d1a..a90825a 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -650,25 +650,13 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
             # Schedule a safeguard task to backstop the normal release path.
             # If a holder releases first, this becomes a no-op when it runs;
             # otherwise it scavenges any stale slots and wakes the waiters.
-            safeguard_key = f"__safeguard__:{execution.key}"
-            await docket.add(
-                _safeguard_wake,
-                when=datetime.now(timezone.utc) + redelivery_timeout,
-                key=safeguard_key,
-            )(waiter_stream=waiters_stream, max_concurrent=self.max_concurrent)
-            # A wake-on-release may have fired between the park script
-            # returning and the docket.add above.  Its safeguard ZREM was a
-            # no-op (the safeguard hadn't been added yet), and we'd leak
-            # the safeguard into the future queue -- preventing
-            # ``run_until_finished`` from ever seeing an empty queue.
-            # If the runs hash shows we've already been forwarded back to
-            # the main stream, cancel the leftover safeguard.
-            async with docket.redis() as redis:
-                state = await redis.hget(  # type: ignore[misc]
-                    execution._redis_key, "state"
-                )
-            if state != b"scheduled":
-                await docket.cancel(safeguard_key)
+            await _schedule_safeguard(
+                docket,
+                execution.key,
+                waiters_stream,
+                self.max_concurrent,
+                redelivery_timeout,
+            )
             raise ConcurrencyBlocked(execution, concurrency_key, self.max_concurrent)
 
         # Acquired.  Start heartbeating the slot and register the release
@@ -872,6 +860,38 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
         return self._concurrency_key
 
 
+SAFEGUARD_PREFIX = "__safeguard__:"
+
+
+async def _schedule_safeguard(
+    docket: Docket,
+    task_key: str,
+    waiters_stream: str,
+    max_concurrent: int,
+    redelivery_timeout: timedelta,
+) -> None:
+    """Schedule the safeguard of a parked task, one ``redelivery_timeout`` from now."""
+    safeguard_key = f"{SAFEGUARD_PREFIX}{task_key}"
+    await docket.replace(
+        _safeguard_wake,
+        when=datetime.now(timezone.utc) + redelivery_timeout,
+        key=safeguard_key,
+    )(waiter_stream=waiters_stream, max_concurrent=max_concurrent)
+    # A wake-on-release may have fired between the park script
+    # returning and the docket.replace above.  Its safeguard ZREM was a
+    # no-op (the safeguard hadn't been added yet), and we'd leak
+    # the safeguard into the future queue -- preventing
+    # ``run_until_finished`` from ever seeing an empty queue.
+    # If the runs hash shows we've already been forwarded back to
+    # the main stream, cancel the leftover safeguard.
+    async with docket.redis() as redis:
+        state = await redis.hget(  # type: ignore[misc]
+            docket.runs_key(task_key), "state"
+        )
+    if state != b"scheduled":
+        await docket.cancel(safeguard_key)
+
+
 async def _safeguard_wake(waiter_stream: str, max_concurrent: int) -> None:
     """Recover a waiter stream that the normal release path may not reach.
 
@@ -887,6 +907,10 @@ async def _safeguard_wake(waiter_stream: str, max_concurrent: int) -> None:
        arrived to scavenge them -- the script evicts the stale slots
        and wakes the waiters.
 
+    When the task it was scheduled for is still parked afterwards, it schedules
+    itself again: the holders may yet end without waking that task, by dying, or
+    by handing their slot to a waiter that is cancelled before it gets to run.
+
     This is the dependency-owned recovery for the "burst then idle"
     pathology.  No background loop, no central registry: each park
     schedules its own backstop.
@@ -916,3 +940,12 @@ async def _safeguard_wake(waiter_stream: str, max_concurrent: int) -> None:
             state_prefix=f"{docket.prefix}:state:",
             parked_prefix=f"{docket.prefix}:",
         )
+        task_key = current_execution.get().key.removeprefix(SAFEGUARD_PREFIX)
+        parked_on = await redis.hget(  # type: ignore[misc]
+            docket.runs_key(task_key), "waiter_stream"
+        )
+
+    if parked_on == waiter_stream.encode():
+        await _schedule_safeguard(
+            docket, task_key, waiter_stream, max_concurrent, redelivery_timeout
+        )
-- 
2.43.0


From 8a8b37edcfc3c5917d3baa01b6349f9aca023625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:49 +0000
Subject: [PATCH 45/56] fix: renew the leases of tasks still finishing while a
 worker stops

The lease renewal stopped with the worker's loop, before waiting for the
tasks in progress: one that took longer than the redelivery timeout to
finish was taken over by another worker and ran twice at once.
---
 src/docket/worker.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index b4b2676..c2aa9ed 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -781,6 +781,7 @@ class Worker:
                     await execution.mark_as_failed(error=None)
 
         disconnect: ConnectionError | None = None
+        lease_renewal: asyncio.Task[None] | None = None
         try:
             async with AsyncExitStack() as dependency_stack:
                 # Each Dependency class used by a registered task may declare
@@ -818,7 +819,7 @@ class Worker:
                         self._scheduler_loop(redis),
                         name=f"{self.docket.name} - scheduler",
                     )
-                    infra.create_task(
+                    lease_renewal = asyncio.create_task(
                         self._renew_leases(redis, active_tasks),
                         name=f"{self.docket.name} - lease renewal",
                     )
@@ -885,10 +886,15 @@ class Worker:
             if self._heartbeat_task is not None:
                 await cancel_task(self._heartbeat_task, CANCEL_MSG_CLEANUP)
             self._heartbeat_task = None
-            await self._remove_heartbeat()
-            if active_tasks:
-                await asyncio.gather(*active_tasks, return_exceptions=True)
-                await process_completed_tasks()
+            try:
+                await self._remove_heartbeat()
+                if active_tasks:
+                    await asyncio.gather(*active_tasks, return_exceptions=True)
+                    await process_completed_tasks()
+            finally:
+                # The leases of the active tasks are renewed until these are finished
+                if lease_renewal is not None:
+                    await cancel_task(lease_renewal, CANCEL_MSG_CLEANUP)
             if self._processing_session is session:
                 self._processing_session = None
 
@@ -941,16 +947,11 @@ class Worker:
         Calls XCLAIM with idle=0 to reset the message's idle time, preventing
         XAUTOCLAIM from reclaiming it while we're still processing.
         """
-        session = self._processing_session
-        if session is None:
-            return  # pragma: no cover
-
         # Renew leases 4 times per redelivery_timeout period
         renewal_interval = self.redelivery_timeout.total_seconds() / 4
 
-        while not session.stopping.is_set():  # pragma: no branch
-            if await _wait_for_event(session.stopping, renewal_interval):
-                return
+        while True:
+            await asyncio.sleep(renewal_interval)
 
             message_ids = list(active_messages.values())
             if not message_ids:
-- 
2.43.0


From 5327163e24d5dc67ca7ac693047f5055452ca27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:21 +0000
Subject: [PATCH 46/56] fix: a result can't be kept for less than a second

With an execution_ttl of less than a second, the worker stored results and
exceptions for int(ttl) == 0 seconds, which Redis refuses: a task that
returned a value was recorded as failed, and recording that failure raised
again.  Records are not kept for such an execution_ttl; nor are results.
---
 src/docket/worker.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index c2aa9ed..86eac5b 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -1181,7 +1181,12 @@ class Worker:
                     else:
                         # No handler or handler didn't handle - normal completion
                         result_key = None
-                        if result is not None and self.docket.execution_ttl:
+                        ttl_seconds = (
+                            int(self.docket.execution_ttl.total_seconds())
+                            if self.docket.execution_ttl
+                            else 0
+                        )
+                        if result is not None and ttl_seconds:
                             # Serialize and store result
                             pickled_result = cloudpickle.dumps(result)  # type: ignore[arg-type]
                             # Base64-encode for JSON serialization
@@ -1189,7 +1194,6 @@ class Worker:
                                 "ascii"
                             )
                             result_key = execution.key
-                            ttl_seconds = int(self.docket.execution_ttl.total_seconds())
                             await self.docket.result_storage.put(
                                 result_key, {"data": encoded_result}, ttl=ttl_seconds
                             )
@@ -1275,7 +1279,12 @@ class Worker:
 
                     # Store exception in result_storage (only when not retrying)
                     result_key = None
-                    if self.docket.execution_ttl and (
+                    ttl_seconds = (
+                        int(self.docket.execution_ttl.total_seconds())
+                        if self.docket.execution_ttl
+                        else 0
+                    )
+                    if ttl_seconds and (
                         pickled_exception := self._pickled(e, log_context)
                     ):
                         # Base64-encode for JSON serialization
@@ -1283,7 +1292,6 @@ class Worker:
                             "ascii"
                         )
                         result_key = execution.key
-                        ttl_seconds = int(self.docket.execution_ttl.total_seconds())
                         await self.docket.result_storage.put(
                             result_key, {"data": encoded_exception}, ttl=ttl_seconds
                         )
-- 
2.43.0


From 423b8d2e31b2d0799cb8ef80e158c898536f8b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:49 +0000
Subject: [PATCH 47/56] fix: cancellations reach dockets whose names hold glob
 characters

The worker and the concurrency limits hear of cancellations through a
pattern subscription made of the docket's prefix as it stands, where *, ?, [,
] and backslash mean something else: a docket named 'team[1]' never heard of
its own cancellations, and one named '*' heard of everyone's.
---
 src/docket/_redis.py                    | 6 ++++++
 src/docket/dependencies/_concurrency.py | 4 ++--
 src/docket/worker.py                    | 4 ++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/docket/_redis.py b/src/docket/_redis.py
index 1d15c66..419c708 100644
--- a/src/docket/_redis.py
+++ b/src/docket/_redis.py
@@ -16,6 +16,7 @@ from __future__ import annotations
 import asyncio
 import importlib
 import logging
+import re
 from contextlib import AsyncExitStack, asynccontextmanager
 from datetime import datetime, timedelta
 from threading import Lock as _ThreadLock
@@ -55,6 +56,11 @@ logger: logging.Logger = logging.getLogger(__name__)
 BLOCKING_READ_SOCKET_TIMEOUT: float | None = None
 
 
+def glob_escape(text: str) -> str:
+    """Escape ``text`` so that a ``PSUBSCRIBE`` pattern matches it literally."""
+    return re.sub(r"([\\*?\[\]])", r"\\\1", text)
+
+
 # ---------------------------------------------------------------------------
 # Input type aliases (mirror redis-py's type domain)
 # ---------------------------------------------------------------------------
diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index a90825a..fda3b1c 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -13,7 +13,7 @@ from opentelemetry import propagate
 
 from .._cancellation import CANCEL_MSG_CLEANUP, cancel_task
 from .._lua import Arg, Args, Key, redis_script
-from .._redis import RedisClient
+from .._redis import RedisClient, glob_escape
 from ..instrumentation import message_setter
 from ._base import (
     AdmissionBlocked,
@@ -729,7 +729,7 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
         cancelled tasks never run regardless of whether we observe the
         publish.
         """
-        pattern = f"{docket.prefix}:cancel:*"
+        pattern = f"{glob_escape(docket.prefix)}:cancel:*"
         async with docket.redis() as redis:
             pubsub = redis.pubsub()
             try:
diff --git a/src/docket/worker.py b/src/docket/worker.py
index 86eac5b..8625ef3 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -37,7 +37,7 @@ from opentelemetry.trace import Status, StatusCode, Tracer
 
 from ._cancellation import CANCEL_MSG_CLEANUP, cancel_task
 from ._lua import Arg, Key, redis_script
-from ._redis import RedisClient
+from ._redis import RedisClient, glob_escape
 from ._telemetry import suppress_instrumentation
 from redis.asyncio import Redis
 from redis.exceptions import ConnectionError, LockError, RedisError, ResponseError
@@ -1427,7 +1427,7 @@ class Worker:
         if session is None:
             return  # pragma: no cover
 
-        cancel_pattern = self.docket.key("cancel:*")
+        cancel_pattern = f"{glob_escape(self.docket.prefix)}:cancel:*"
         log_context = self._log_context()
         while not session.stopping.is_set():
             try:
-- 
2.43.0


From 78b7659272fd930e60a1505d0f5fa049e04fad80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:49 +0000
Subject: [PATCH 48/56] fix: get_execution keeps the name a task was submitted
 under

A task registered under another name than its function's came back from
get_execution under the function's own name, which may not be registered at
all, or be another task's.
---
 src/docket/docket.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/docket/docket.py b/src/docket/docket.py
index e144fed..42d7c26 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -764,6 +764,7 @@ class Docket(DocketSnapshotMixin):
                 key=key,
                 when=when,
                 attempt=1,
+                function_name=function_name_str,
             )
 
             # Sync with current state from Redis
-- 
2.43.0


From 60278561490a78760397cee7402b93b2a5e1183b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:58 +0000
Subject: [PATCH 49/56] fix: credentials and TLS options of a cluster URL hold
 for pub/sub too

The node pool took the user and password undecoded from the URL and ignored
those (and the ssl_* options) in its query string, unlike the cluster client.
---
 src/docket/_redis.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/docket/_redis.py b/src/docket/_redis.py
index 419c708..40c468c 100644
--- a/src/docket/_redis.py
+++ b/src/docket/_redis.py
@@ -42,7 +42,7 @@ from urllib.parse import ParseResult, urlparse, urlunparse
 from redis.asyncio import ConnectionPool, Redis
 from redis.asyncio.client import PubSub
 from redis.asyncio.cluster import RedisCluster
-from redis.asyncio.connection import Connection, SSLConnection
+from redis.asyncio.connection import parse_url
 
 logger: logging.Logger = logging.getLogger(__name__)
 
@@ -799,16 +799,20 @@ class RedisConnection:
         if not nodes:
             raise RuntimeError("No primary nodes available in cluster")
         node = nodes[0]
+        # The same credentials and TLS options as the cluster client's, which are
+        # percent-decoded and may come from the query string.
+        options: dict[str, Any] = {
+            name: value
+            for name, value in parse_url(self._normalized_url()).items()
+            if name in ("username", "password", "connection_class")
+            or name.startswith("ssl_")
+        }
         return ConnectionPool(
             host=node.host,
             port=int(node.port),
-            username=self._parsed.username,
-            password=self._parsed.password,
-            connection_class=SSLConnection
-            if self._parsed.scheme == "rediss+cluster"
-            else Connection,
             decode_responses=False,
             socket_timeout=BLOCKING_READ_SOCKET_TIMEOUT,
+            **options,
         )
 
     async def _connection_pool_from_url(
-- 
2.43.0


From 31f998e4f76b2d22a88a3ae4b6ce30a25353591f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:58 +0000
Subject: [PATCH 50/56] fix: docket watch survives a second without events

Cancelling the pending read on a timeout ended the generator it read from,
so that watching stopped at the first quiet second.
---
 src/docket/cli/_support.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/docket/cli/_support.py b/src/docket/cli/_support.py
index 582dd00..5abdd48 100644
--- a/src/docket/cli/_support.py
+++ b/src/docket/cli/_support.py
@@ -35,16 +35,29 @@ async def iterate_with_timeout(
     """
     import asyncio
 
+    # A read that has not finished within the timeout goes on, rather than being
+    # cancelled: cancelling it would end the generator it reads from.
+    pending: asyncio.Future[dict[str, Any]] | None = None
+
     try:
         while True:
-            try:
-                yield await asyncio.wait_for(iterator.__anext__(), timeout=timeout)
-            except asyncio.TimeoutError:
+            if pending is None:
+                pending = asyncio.ensure_future(iterator.__anext__())
+            await asyncio.wait([pending], timeout=timeout)
+            if not pending.done():
                 # Yield None to signal timeout, allowing caller to handle polling
                 yield None
+                continue
+            try:
+                item = pending.result()
             except StopAsyncIteration:
                 break
+            pending = None
+            yield item
     finally:
+        if pending is not None:
+            pending.cancel()
+            await asyncio.gather(pending, return_exceptions=True)
         await iterator.aclose()
 
 
-- 
2.43.0


From 3e211ffbe4c3ab54cf483e37227759799c09a404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:58 +0000
Subject: [PATCH 51/56] fix: docket watch ends when the task is cancelled

---
 src/docket/cli/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/docket/cli/__init__.py b/src/docket/cli/__init__.py
index 0683961..773833c 100644
--- a/src/docket/cli/__init__.py
+++ b/src/docket/cli/__init__.py
@@ -678,6 +678,7 @@ def watch(
                 ExecutionState.RUNNING: "blue",
                 ExecutionState.COMPLETED: "green",
                 ExecutionState.FAILED: "red",
+                ExecutionState.CANCELLED: "magenta",
             }
 
             # Load initial snapshot
@@ -776,7 +777,11 @@ def watch(
             layout = create_display_layout()
 
             # If already in terminal state, display once and exit
-            if current_state in (ExecutionState.COMPLETED, ExecutionState.FAILED):
+            if current_state in (
+                ExecutionState.COMPLETED,
+                ExecutionState.FAILED,
+                ExecutionState.CANCELLED,
+            ):
                 console.print(layout)
                 return
 
@@ -833,6 +838,7 @@ def watch(
                         if current_state in (
                             ExecutionState.COMPLETED,
                             ExecutionState.FAILED,
+                            ExecutionState.CANCELLED,
                         ):
                             break
 
-- 
2.43.0


From f3909118ea3eef68d9568f4399451fe145dbf271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:28 +0000
Subject: [PATCH 52/56] fix: count a task as succeeded only once its outcome is
 recorded

A result that couldn't be pickled (or stored) was counted both as succeeded
and, because the task is then recorded as failed, as failed.
---
 src/docket/worker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 8625ef3..74ccd7d 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -1161,7 +1161,6 @@ class Worker:
                         )
 
                     duration = log_context["duration"] = time.time() - start
-                    TASKS_SUCCEEDED.add(1, counter_labels)
 
                     span.set_status(Status(StatusCode.OK))
 
@@ -1205,6 +1204,7 @@ class Worker:
                             extra=log_context,
                         )
                     completed = True
+                    TASKS_SUCCEEDED.add(1, counter_labels)
             except AdmissionBlocked:
                 # Admission control (e.g. ConcurrencyLimit) is a rescheduling
                 # signal, not a task failure. Mark the span OK before re-raising
-- 
2.43.0


From 9bf291fb8add537ca2185308cbcbb88f43bc3035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:28 +0000
Subject: [PATCH 53/56] fix: keep docket_strikes_in_effect equal to the strikes
 in effect

Repeating a strike raised the gauge again and restoring something that wasn't
struck lowered it, so it drifted (even below zero) from the active rules.
---
 src/docket/strikelist.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/docket/strikelist.py b/src/docket/strikelist.py
index 622cb84..49a8c9c 100644
--- a/src/docket/strikelist.py
+++ b/src/docket/strikelist.py
@@ -477,11 +477,29 @@ class StrikeList:
             )
             return
 
+        from .instrumentation import STRIKES_IN_EFFECT
+
+        before = self._in_effect()
+
         if isinstance(instruction, Strike):
             self._strike(instruction)
         elif isinstance(instruction, Restore):  # pragma: no branch
             self._restore(instruction)
 
+        # Repeating a strike, or restoring what isn't struck, changes nothing
+        if change := self._in_effect() - before:
+            STRIKES_IN_EFFECT.add(
+                change, {"docket.name": self.name, **instruction.labels()}
+            )
+
+    def _in_effect(self) -> int:
+        """How many distinct strikes are in effect."""
+        return len(self._entire_tasks) + sum(
+            len(strikes)
+            for parameters in (*self.task_strikes.values(), self.parameter_strikes)
+            for strikes in parameters.values()
+        )
+
     def _strike(self, strike: Strike) -> None:
         if strike.function and strike.parameter:
             try:
@@ -563,7 +581,7 @@ class StrikeList:
 
     async def _monitor_strikes(self) -> NoReturn:
         """Background task that monitors Redis for strike updates."""
-        from .instrumentation import REDIS_DISRUPTIONS, STRIKES_IN_EFFECT
+        from .instrumentation import REDIS_DISRUPTIONS
 
         assert self._redis is not None
 
@@ -574,7 +592,7 @@ class StrikeList:
                 async with self._redis.client() as r:
                     while True:
                         last_id, initial_load_complete = await self._read_strikes(
-                            r, last_id, initial_load_complete, STRIKES_IN_EFFECT
+                            r, last_id, initial_load_complete
                         )
             except redis.exceptions.ConnectionError:  # pragma: no cover
                 REDIS_DISRUPTIONS.add(1, {"docket": self.name})
@@ -589,7 +607,6 @@ class StrikeList:
         r: Redis | RedisCluster,
         last_id: str,
         initial_load_complete: bool,
-        strikes_in_effect: Any,
     ) -> tuple[str, bool]:
         """Read and process strike messages from Redis stream.
 
@@ -636,12 +653,4 @@ class StrikeList:
                     instruction.call_repr(),
                 )
 
-                strikes_in_effect.add(
-                    1 if instruction.direction == "strike" else -1,
-                    {
-                        "docket.name": self.name,
-                        **instruction.labels(),
-                    },
-                )
-
         return last_id, initial_load_complete
-- 
2.43.0


From caebcfb1b18c0b468169c445adcc74befa98bc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:28 +0000
Subject: [PATCH 54/56] fix: complete a perpetual's last run normally when its
 successor is struck

When the task was struck while it ran, replace() schedules nothing, but the run
was still counted as perpetuated and its result dropped.
---
 src/docket/dependencies/_perpetual.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/docket/dependencies/_perpetual.py b/src/docket/dependencies/_perpetual.py
index 7e885ed..bd41ef7 100644
--- a/src/docket/dependencies/_perpetual.py
+++ b/src/docket/dependencies/_perpetual.py
@@ -18,6 +18,7 @@ from ._base import (
 if TYPE_CHECKING:  # pragma: no cover
     from ..execution import Execution
 
+from ..execution import Disposition
 from ..instrumentation import TASKS_PERPETUATED, TASKS_SUPERSEDED
 
 logger = logging.getLogger("docket.dependencies")
@@ -132,10 +133,13 @@ class Perpetual(CompletionHandler["Perpetual"]):
             now = datetime.now(timezone.utc)
             when = max(now, now + self.every - outcome.duration)
 
-        await docket.replace(execution.function, when, execution.key)(
+        successor = await docket.replace(execution.function, when, execution.key)(
             *self.args,
             **self.kwargs,
         )
+        if successor.disposition is Disposition.STRUCK:
+            # There won't be another run; this one completes like any other task
+            return False
 
         TASKS_PERPETUATED.add(1, {**worker.labels(), **execution.general_labels()})
 
-- 
2.43.0


From 4cf10f5b02df3e2e0eb315236433c04b8aee00cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:28 +0000
Subject: [PATCH 55/56] fix: close what was opened when opening the docket
 fails

When the user's result storage could not be set up, the connections and the
strike monitor stayed open, and the docket could not be opened again.
---
 src/docket/docket.py | 53 +++++++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/src/docket/docket.py b/src/docket/docket.py
index 42d7c26..1587baf 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -300,33 +300,36 @@ class Docket(DocketSnapshotMixin):
         return f"{self.prefix}:{suffix}"
 
     async def __aenter__(self) -> Self:
-        self._stack = AsyncExitStack()
-        await self._stack.__aenter__()
-
-        self.strike_list = StrikeList(
-            url=self.url,
-            name=self.name,
-            enable_internal_instrumentation=self.enable_internal_instrumentation,
-        )
-
-        # Connect to Redis (handles cluster vs standalone)
-        await self._stack.enter_async_context(self._redis)
+        # If opening any part fails, the parts already open are closed again
+        async with AsyncExitStack() as stack:
+            self.strike_list = StrikeList(
+                url=self.url,
+                name=self.name,
+                enable_internal_instrumentation=self.enable_internal_instrumentation,
+            )
 
-        # Connect the strike list to Redis and start monitoring
-        await self._stack.enter_async_context(self.strike_list)
+            # Connect to Redis (handles cluster vs standalone)
+            await stack.enter_async_context(self._redis)
+
+            # Connect the strike list to Redis and start monitoring
+            await stack.enter_async_context(self.strike_list)
+
+            # Initialize result storage
+            if self._user_result_storage is not None:
+                self.result_storage: AsyncKeyValue = self._user_result_storage
+                self._result_storage = None
+                # User-provided storage should handle its own initialization
+                if hasattr(self.result_storage, "setup"):
+                    await self.result_storage.setup()  # type: ignore[union-attr]
+            else:
+                self._result_storage = ResultStorage(
+                    self._redis, self.results_collection
+                )
+                await stack.enter_async_context(self._result_storage)
+                stack.callback(lambda: setattr(self, "_result_storage", None))
+                self.result_storage = self._result_storage
 
-        # Initialize result storage
-        if self._user_result_storage is not None:
-            self.result_storage: AsyncKeyValue = self._user_result_storage
-            self._result_storage = None
-            # User-provided storage should handle its own initialization
-            if hasattr(self.result_storage, "setup"):
-                await self.result_storage.setup()  # type: ignore[union-attr]
-        else:
-            self._result_storage = ResultStorage(self._redis, self.results_collection)
-            await self._stack.enter_async_context(self._result_storage)
-            self._stack.callback(lambda: setattr(self, "_result_storage", None))
-            self.result_storage = self._result_storage
+            self._stack = stack.pop_all()
         return self
 
     async def __aexit__(
-- 
2.43.0


From 987f126f9cf07881155c16c390284d1645bf8624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:28 +0000
Subject: [PATCH 56/56] fix: read many results at once from memory servers

The in-memory client takes mget's keys one by one, as redis-py's also does; a
list of keys was refused with a TypeError.
---
 src/docket/_redis.py        | 4 +++-
 src/docket/_result_store.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/docket/_redis.py b/src/docket/_redis.py
index 40c468c..472326d 100644
--- a/src/docket/_redis.py
+++ b/src/docket/_redis.py
@@ -264,7 +264,9 @@ class RedisClient(Protocol):
         pxat: AbsExpiryT | None = None,
     ) -> bool | bytes | None: ...
     async def setex(self, name: KeyT, time: ExpiryT, value: EncodableT) -> bool: ...
-    async def mget(self, keys: Sequence[KeyT]) -> list[bytes | None]: ...
+    async def mget(
+        self, keys: KeyT | Sequence[KeyT], *args: KeyT
+    ) -> list[bytes | None]: ...
     async def exists(self, *names: KeyT) -> int: ...
     async def keys(self, pattern: KeyT = "*") -> list[bytes]: ...
     async def type(self, name: KeyT) -> bytes: ...
diff --git a/src/docket/_result_store.py b/src/docket/_result_store.py
index 44ec221..c9cd4a2 100644
--- a/src/docket/_result_store.py
+++ b/src/docket/_result_store.py
@@ -128,7 +128,7 @@ class ClusterKeyValueStore:
         if not keys:
             return []
         redis_keys = [self._make_key(k, collection) for k in keys]
-        values = await self._client.mget(redis_keys)
+        values = await self._client.mget(*redis_keys)
         return [json.loads(v) if v is not None else None for v in values]
 
     async def ttl_many(
-- 
2.43.0

