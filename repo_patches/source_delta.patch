From af8a1402afabbaf363acbf781d19dba4c6753d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 01/44] fix: only includes are step scopes and stack frames

Static imports and blocks were treated as a scope of their own when stepping,
they dropped the frame of the include around them and leaving several nested
includes at once left stale frames behind. A skipped include_role inside an
include crashed the play.
---
 .../ansibug/dap/plugins/strategy/debug.py     | 26 ++++++++++++-------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 9daf0ab..b835f0e 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -273,8 +273,9 @@ class AnsibleThread:
         self,
         task: Task,
     ) -> Task | None:
+        # Static imports are not a scope of their own, only includes are.
         while task := task._parent:
-            if isinstance(task, Task):
+            if isinstance(task, Task) and task.action in C._ACTION_ALL_INCLUDES:
                 return task
 
         return None
@@ -515,23 +516,28 @@ class AnsibleDebugState(DebugState):
             thread = self._add_thread(host)
 
         if thread.stack_frames:
-            # The parent is the implicit block and we want the parent of that.
-            parent_task = task._parent._parent
-            last_frame_id = thread.stack_frames[0]
-            last_frame = self.stackframes[last_frame_id]
-            if not parent_task or (last_frame.task and last_frame.task._uuid != parent_task._uuid):
+            # Any frame that isn't the include this task is in has ended, this
+            # could be multiple if more than one nested include has finished.
+            parent_task = thread._get_parent_task(task)
+            last_frame = self.stackframes[thread.stack_frames[0]]
+            while thread.stack_frames:
+                frame_id = thread.stack_frames[0]
+                frame = self.stackframes[frame_id]
+                if parent_task and frame.task._uuid == parent_task._uuid:
+                    break
+
                 thread.stack_frames.pop(0)
-                self.stackframes.pop(last_frame_id)
-                for variable_id in last_frame.variables:
+                self.stackframes.pop(frame_id)
+                for variable_id in frame.variables:
                     del self.variables[variable_id]
 
             # If this is the first task in a role included by include_role we
             # need to scan the tasks and handlers to validate the breakpoints
             if (
                 parent_task
-                and last_frame.task
+                and last_frame.task._uuid == parent_task._uuid
                 and last_frame.task.action in C._ACTION_INCLUDE_ROLE
-                and hasattr(task, "_role")
+                and task._role
             ):
                 task_handlers = task._role.get_task_blocks()
                 role_handlers = task._role.get_handler_blocks(task.play)
-- 
2.43.0


From dd182e8c44d1c3fbcc1167eb6d5706eeefda7c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 02/44] fix: step out does not stop in includes nested in the
 one being left

---
 .../ansibug/dap/plugins/strategy/debug.py          | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index b835f0e..c73808d 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -263,11 +263,15 @@ class AnsibleThread:
         if self.state != ThreadState.STEP_OUT or not self._stopped_task:
             return False
 
-        # If step out, we only want to break if the current task's parent does
-        # not match the stopped task stored at state change (the include). If
-        # the parent matches it means we are still in the same include scope.
-        task_parent = self._get_parent_task(task)
-        return getattr(task_parent, "_uuid", None) != self._stopped_task._uuid
+        # If step out, we only want to break if none of the current task's
+        # parents match the stopped task stored at state change (the include).
+        # If one matches it means we are still inside the same include scope.
+        parent: Task | None = task
+        while parent := self._get_parent_task(parent):
+            if parent._uuid == self._stopped_task._uuid:
+                return False
+
+        return True
 
     def _get_parent_task(
         self,
-- 
2.43.0


From d006eb5d3f6a9fa5f979150cd3468aa208dfc6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 03/44] fix: stepping after an exception stop is relative to
 that task

---
 .../ansible_collections/ansibug/dap/plugins/strategy/debug.py   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index c73808d..5b01370 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -224,6 +224,8 @@ class AnsibleThread:
                 details = get_on_skipped_details(result._result)
 
         if details:
+            # Any step from here is relative to the task that was stopped.
+            self._stopped_task = result._task
             self.state = ThreadState.WAIT
             return ansibug.dap.StoppedEvent(
                 reason=ansibug.dap.StoppedReason.EXCEPTION,
-- 
2.43.0


From c7318c879b41c9449372b39dbeb16c593d751e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 04/44] fix: break on failures in rescue and always sections

---
 .../ansibug/dap/plugins/strategy/debug.py                  | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 5b01370..a784d7a 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -206,12 +206,17 @@ class AnsibleThread:
         if result.is_failed() and not result._task_fields.get("ignore_errors", None):
             is_rescued = False
 
+            # Only a failure inside the block section is rescued, one in the
+            # rescue or always section is not handled by that block.
             task = result._task
+            children = {task._uuid}
             while task := task._parent:
-                if isinstance(task, Block) and task.rescue:
+                if isinstance(task, Block) and task.rescue and any(c._uuid in children for c in task.block):
                     is_rescued = True
                     break
 
+                children.add(task._uuid)
+
             if should_stop_on_error and not is_rescued:
                 details = get_on_failed_details(result._result)
 
-- 
2.43.0


From 9fc521a991cb24ea24aea1be9434841c09387df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:45 +0000
Subject: [PATCH 05/44] fix: exception filters do not outlive the debug session

A failing task left the playbook waiting forever for a client that had
already disconnected.
---
 src/ansibug/_debuggee.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 95bde9a..500b0d4 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -470,6 +470,7 @@ class AnsibleDebugger(metaclass=Singleton):
         # breakpoints and our debug config no longer applies
         self._debug_config = DebugConfiguration()
         self._breakpoints = {}
+        self._breakpoint_exceptions = {}
 
         # Ensure the callback plugin isn't stuck waiting for this
         self._configuration_done.set()
@@ -862,6 +863,7 @@ class AnsibleDebugger(metaclass=Singleton):
     ) -> None:
         self._debug_config = DebugConfiguration()
         self._breakpoints = {}
+        self._breakpoint_exceptions = {}
 
         strategy = self._get_strategy()
         strategy.disconnect(msg)
-- 
2.43.0


From 1bc31fdbca8b4287f4a12cb5d1071fa4aa8dd28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:06 +0000
Subject: [PATCH 06/44] fix: disconnect and terminate work in every state

They waited for a play that might never come, were overridden when the
connection closed afterwards and did not apply to hosts or plays that had not
started yet.
---
 src/ansibug/_debuggee.py                      | 13 +++++++--
 .../ansibug/dap/plugins/strategy/debug.py     | 28 +++++++++++++------
 2 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 500b0d4..f95da97 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -301,6 +301,9 @@ class AnsibleDebugger(metaclass=Singleton):
             strategy: The strategy to set.
         """
         with self._strategy_connected:
+            if self._terminated:
+                raise EndStrategy()
+
             self._strategy = strategy
             self._strategy_connected.notify_all()
 
@@ -865,8 +868,14 @@ class AnsibleDebugger(metaclass=Singleton):
         self._breakpoints = {}
         self._breakpoint_exceptions = {}
 
-        strategy = self._get_strategy()
-        strategy.disconnect(msg)
+        # Any play that is started after this one also needs to end.
+        if msg.terminate_debuggee:
+            self._terminated = True
+
+        # There might not be a play running yet (or anymore).
+        with self._strategy_connected:
+            if self._strategy:
+                self._strategy.disconnect(msg)
 
     def _send_task(
         self,
diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index a784d7a..c7793be 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -125,6 +125,10 @@ class AnsibleThread:
     ) -> None:
         log.debug("Setting thread %d state to %s->%s", self.id, self.state, state)
 
+        if self.state == ThreadState.END:
+            # Nothing can resume a thread that was requested to end.
+            return
+
         if state == ThreadState.STEP_OUT and self._stopped_task:
             # If a thread has been set to step out we want to make comparisons
             # later on easier by setting the stopped task to the parent include
@@ -501,6 +505,7 @@ class AnsibleDebugState(DebugState):
         self._loader = loader
         self._variable_mamanger = variable_manager
         self._waiting_condition = threading.Condition()
+        self._new_thread_state = ThreadState.CONTINUE
 
     def start_task(
         self,
@@ -615,10 +620,10 @@ class AnsibleDebugState(DebugState):
                 self._debugger.queue_msg(stopped_event)
                 self._waiting_condition.wait_for(lambda: self.threads[tid].state != ThreadState.WAIT)
 
-                # If thread is marked as end then the client has requested us
-                # to terminate the debuggee.
-                if thread.state == ThreadState.END:
-                    raise EndStrategy()
+            # If thread is marked as end then the client has requested us to
+            # terminate the debuggee.
+            if thread.state == ThreadState.END:
+                raise EndStrategy()
 
     def end_task(
         self,
@@ -703,7 +708,9 @@ class AnsibleDebugState(DebugState):
         request: ansibug.dap.DisconnectRequest,
     ) -> None:
         state = ThreadState.END if request.terminate_debuggee else ThreadState.CONTINUE
-        self._resume_threads(list(self.threads.keys()), state)
+        with self._waiting_condition:
+            self._new_thread_state = state
+            self._resume_threads(list(self.threads.keys()), state)
 
     def get_scopes(
         self,
@@ -981,10 +988,13 @@ class AnsibleDebugState(DebugState):
     ) -> AnsibleThread:
         tid = self._debugger.next_thread_id()
 
-        thread = self.threads[tid] = AnsibleThread(
-            id=tid,
-            host=host,
-        )
+        with self._waiting_condition:
+            thread = self.threads[tid] = AnsibleThread(
+                id=tid,
+                host=host,
+            )
+            thread.state = self._new_thread_state
+
         self._debugger.queue_msg(
             ansibug.dap.ThreadEvent(
                 reason="started",
-- 
2.43.0


From ecb62c56b96c093f3676fdf70c75c7cd126ccb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:51 +0000
Subject: [PATCH 07/44] fix: requests outside of a play do not block the
 debugger

A request received before the configuration was done or after the last play
blocked the receive thread, and with it the whole session and process.
---
 src/ansibug/_debuggee.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index f95da97..d234caf 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -238,6 +238,7 @@ class AnsibleDebugger(metaclass=Singleton):
         self._strategy_connected = threading.Condition()
         self._strategy: DebugState | None = None
         self._terminated = False
+        self._is_shutdown = False
 
         self._thread_counter = 2  # 1 is always the main thread
         self._stackframe_counter = 1
@@ -457,6 +458,11 @@ class AnsibleDebugger(metaclass=Singleton):
         """
         log.debug("Shutting down DebugServer")
 
+        # The receive thread can't be waiting for another play.
+        with self._strategy_connected:
+            self._is_shutdown = True
+            self._strategy_connected.notify_all()
+
         if not from_send_thread and self._send_thread:
             # If we aren't connected we need to cancel the queue start method
             # before trying to join the thread. If we are connected we want to
@@ -592,8 +598,16 @@ class AnsibleDebugger(metaclass=Singleton):
 
     def _get_strategy(self) -> DebugState:
         with self._strategy_connected:
-            self._strategy_connected.wait_for(lambda: self._strategy is not None)
-            return t.cast(DebugState, self._strategy)
+            # Plays are only run once the configuration is done, or without
+            # waiting for it, and until shutdown. Waiting for a play outside of
+            # that would block all the other messages from being received.
+            self._strategy_connected.wait_for(
+                lambda: self._strategy is not None or self._is_shutdown or not self._configuration_done.is_set()
+            )
+            if not self._strategy:
+                raise RuntimeError("Ansible is not running a play")
+
+            return self._strategy
 
     @functools.singledispatchmethod
     def process_message(
-- 
2.43.0


From 008ad4df6b79c6d4af25f108d779fe0900fe4acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:23 +0000
Subject: [PATCH 08/44] fix: playbook is released when the debug adapter cannot
 be reached

---
 src/ansibug/_debuggee.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index d234caf..3a4d054 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -924,4 +924,8 @@ class AnsibleDebugger(metaclass=Singleton):
             mp_queue.stop()
             self._adapter_connected = False
 
+            # Without a connection nothing will ever complete the configuration
+            # or resume the playbook.
+            self.shutdown(from_send_thread=True)
+
         log.debug("Debuggee server send thread ended")
-- 
2.43.0


From edb5576dc7ad5671a5c059e7ff75d28653bca5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 09/44] fix: playbook process exits when Ansible fails with an
 exception

---
 src/ansibug/_debuggee.py | 5 +++++
 src/ansibug/_mp_queue.py | 1 +
 2 files changed, 6 insertions(+)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 3a4d054..2a01e0c 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -3,6 +3,7 @@
 
 from __future__ import annotations
 
+import atexit
 import collections.abc
 import contextlib
 import dataclasses
@@ -438,9 +439,13 @@ class AnsibleDebugger(metaclass=Singleton):
             target=self._send_task,
             args=(mp_queue,),
             name="ansibug-debugger",
+            daemon=True,
         )
         self._send_thread.start()
 
+        # Ansible won't call the stats callback if it failed with an exception.
+        atexit.register(self.shutdown)
+
         return addr
 
     def shutdown(
diff --git a/src/ansibug/_mp_queue.py b/src/ansibug/_mp_queue.py
index 5275979..d5023c5 100644
--- a/src/ansibug/_mp_queue.py
+++ b/src/ansibug/_mp_queue.py
@@ -87,6 +87,7 @@ class MPQueue:
         self._recv_thread = threading.Thread(
             target=self._recv_handler,
             name=f"{type(self).__name__} Recv",
+            daemon=True,
         )
         self._recv_thread.start()
 
-- 
2.43.0


From 65a6563d04e1cce875688d87fe85a3b16abbcf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 10/44] fix: breakpoints can be set while Ansible is loading or
 running tasks

---
 src/ansibug/_debuggee.py | 159 ++++++++++++++++++++-------------------
 1 file changed, 83 insertions(+), 76 deletions(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 2a01e0c..7df52a2 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -249,6 +249,9 @@ class AnsibleDebugger(metaclass=Singleton):
         self._breakpoint_exceptions: dict[str, bool] = {}
         self._breakpoints: dict[int, AnsibleLineBreakpoint] = {}
         self._breakpoint_counter = 1
+        # Used for both the breakpoints and the source info they are resolved
+        # with, they are used by both the strategy and receive threads.
+        self._breakpoint_lock = threading.RLock()
 
         # Key is the path, the value is a list of the lines in that file where:
         #   None - Line is a continuation of a breakpoint range
@@ -369,7 +372,7 @@ class AnsibleDebugger(metaclass=Singleton):
             Optional[AnsibleLineBreakpoint]: The breakpoint associated with the
             args if present.
         """
-        for b in self._breakpoints.values():
+        for b in list(self._breakpoints.values()):
             if (
                 b.actual_path == path
                 and (b.breakpoint.line is None or b.breakpoint.line <= line)
@@ -559,37 +562,38 @@ class AnsibleDebugger(metaclass=Singleton):
             bp_type: Set to 1 for a valid breakpoint and 0 for an invalid
                 breakpoint section.
         """
-        # Ensure each new entry has a starting value of 0 which denotes that
-        # a breakpoint cannot be set at the start of the file. It can only be
-        # set when a line was registered.
-        file_lines = self._source_info.setdefault(path, [0])
-        file_lines.extend([None] * (1 + line - len(file_lines)))
-        file_lines[line] = bp_type
-
-        for breakpoint in self._breakpoints.values():
-            if breakpoint.actual_path != path:
-                continue
-
-            source_breakpoint = breakpoint.source_breakpoint
-            bp = self._calculate_breakpoint(
-                breakpoint.id,
-                breakpoint.source,
-                source_breakpoint.line,
-                file_lines,
-            )
+        with self._breakpoint_lock:
+            # Ensure each new entry has a starting value of 0 which denotes that
+            # a breakpoint cannot be set at the start of the file. It can only be
+            # set when a line was registered.
+            file_lines = self._source_info.setdefault(path, [0])
+            file_lines.extend([None] * (1 + line - len(file_lines)))
+            file_lines[line] = bp_type
+
+            for breakpoint in self._breakpoints.values():
+                if breakpoint.actual_path != path:
+                    continue
+
+                source_breakpoint = breakpoint.source_breakpoint
+                bp = self._calculate_breakpoint(
+                    breakpoint.id,
+                    breakpoint.source,
+                    source_breakpoint.line,
+                    file_lines,
+                )
 
-            if (
-                breakpoint.breakpoint.verified != bp.verified
-                or breakpoint.breakpoint.line != bp.line
-                or breakpoint.breakpoint.end_line != bp.end_line
-            ):
-                breakpoint.breakpoint = bp
-                self.queue_msg(
-                    dap.BreakpointEvent(
-                        reason="changed",
-                        breakpoint=bp,
+                if (
+                    breakpoint.breakpoint.verified != bp.verified
+                    or breakpoint.breakpoint.line != bp.line
+                    or breakpoint.breakpoint.end_line != bp.end_line
+                ):
+                    breakpoint.breakpoint = bp
+                    self.queue_msg(
+                        dap.BreakpointEvent(
+                            reason="changed",
+                            breakpoint=bp,
+                        )
                     )
-                )
 
     @classmethod
     def _enable_debugpy(cls) -> None:  # pragma: nocover
@@ -704,61 +708,64 @@ class AnsibleDebugger(metaclass=Singleton):
                 actual_path = mapping.remote_root + actual_path[len(mapping.local_root) :]
                 break
 
-        source_info = self._source_info.get(actual_path, None)
-
-        # Clear out existing breakpoints for the source as each request should
-        # send the latest list for a source.
-        self._breakpoints = {bpid: b for bpid, b in self._breakpoints.items() if b.source_path != source_path}
+        with self._breakpoint_lock:
+            source_info = self._source_info.get(actual_path, None)
+
+            # Clear out existing breakpoints for the source as each request should
+            # send the latest list for a source.
+            breakpoints = {bpid: b for bpid, b in self._breakpoints.items() if b.source_path != source_path}
+
+            breakpoint_info: list[dap.Breakpoint] = []
+            for source_breakpoint in msg.breakpoints:
+                bp_id = self._breakpoint_counter
+                self._breakpoint_counter += 1
+
+                bp: dap.Breakpoint
+                if msg.source_modified:
+                    bp = dap.Breakpoint(
+                        id=bp_id,
+                        verified=False,
+                        message="Cannot set breakpoint on a modified source.",
+                        source=msg.source,
+                    )
+                    # I don't think we need to preserve this bp for later reference.
+                    breakpoint_info.append(bp)
+                    continue
+
+                if not source_info:
+                    bp = dap.Breakpoint(
+                        id=bp_id,
+                        verified=False,
+                        message="File has not been loaded by Ansible, cannot detect breakpoints yet.",
+                        source=msg.source,
+                        line=source_breakpoint.line,
+                    )
 
-        breakpoint_info: list[dap.Breakpoint] = []
-        for source_breakpoint in msg.breakpoints:
-            bp_id = self._breakpoint_counter
-            self._breakpoint_counter += 1
+                else:
+                    bp = self._calculate_breakpoint(
+                        bp_id,
+                        msg.source,
+                        source_breakpoint.line,
+                        source_info,
+                    )
 
-            bp: dap.Breakpoint
-            if msg.source_modified:
-                bp = dap.Breakpoint(
+                breakpoints[bp_id] = AnsibleLineBreakpoint(
                     id=bp_id,
-                    verified=False,
-                    message="Cannot set breakpoint on a modified source.",
                     source=msg.source,
+                    source_breakpoint=source_breakpoint,
+                    breakpoint=bp,
+                    actual_path=actual_path,
+                    source_path=source_path,
                 )
-                # I don't think we need to preserve this bp for later reference.
                 breakpoint_info.append(bp)
-                continue
 
-            if not source_info:
-                bp = dap.Breakpoint(
-                    id=bp_id,
-                    verified=False,
-                    message="File has not been loaded by Ansible, cannot detect breakpoints yet.",
-                    source=msg.source,
-                    line=source_breakpoint.line,
-                )
-
-            else:
-                bp = self._calculate_breakpoint(
-                    bp_id,
-                    msg.source,
-                    source_breakpoint.line,
-                    source_info,
-                )
+            self._breakpoints = breakpoints
 
-            self._breakpoints[bp_id] = AnsibleLineBreakpoint(
-                id=bp_id,
-                source=msg.source,
-                source_breakpoint=source_breakpoint,
-                breakpoint=bp,
-                actual_path=actual_path,
-                source_path=source_path,
+            resp = dap.SetBreakpointsResponse(
+                request_seq=msg.seq,
+                breakpoints=breakpoint_info,
             )
-            breakpoint_info.append(bp)
-
-        resp = dap.SetBreakpointsResponse(
-            request_seq=msg.seq,
-            breakpoints=breakpoint_info,
-        )
-        self.queue_msg(resp)
+            self.queue_msg(resp)
 
     @process_message.register
     def _(
-- 
2.43.0


From 8f1f8496335d250749be9c3142e27e0812837b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:04 +0000
Subject: [PATCH 11/44] fix: a condition that is not met does not hide other
 breakpoints of the task

---
 src/ansibug/_debuggee.py                                 | 4 ++++
 .../ansibug/dap/plugins/strategy/debug.py                | 9 +--------
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 7df52a2..24e1aad 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -357,6 +357,7 @@ class AnsibleDebugger(metaclass=Singleton):
         self,
         path: str,
         line: int,
+        condition: t.Callable[[str], bool] | None = None,
     ) -> AnsibleLineBreakpoint | None:
         """Gets the breakpoint for the path/line specified.
 
@@ -367,6 +368,8 @@ class AnsibleDebugger(metaclass=Singleton):
         Args:
             path: The path of the file to check.
             line: The line in the file to check.
+            condition: Evaluates the condition of a breakpoint, a breakpoint
+                with a condition that is not met is skipped.
 
         Returns:
             Optional[AnsibleLineBreakpoint]: The breakpoint associated with the
@@ -377,6 +380,7 @@ class AnsibleDebugger(metaclass=Singleton):
                 b.actual_path == path
                 and (b.breakpoint.line is None or b.breakpoint.line <= line)
                 and (b.breakpoint.end_line is None or b.breakpoint.end_line >= line)
+                and (not condition or not b.source_breakpoint.condition or condition(b.source_breakpoint.condition))
             ):
                 return b
 
diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index c7793be..9a78a5f 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -606,14 +606,7 @@ class AnsibleDebugState(DebugState):
         with self._waiting_condition:
             tid = thread.id
 
-            line_breakpoint = self._debugger.get_breakpoint(path, line)
-            if (
-                line_breakpoint
-                and line_breakpoint.source_breakpoint.condition
-                and not eval_condition(line_breakpoint.source_breakpoint.condition)
-            ):
-                line_breakpoint = None
-
+            line_breakpoint = self._debugger.get_breakpoint(path, line, eval_condition)
             stopped_event = thread.should_break(task, line_breakpoint)
 
             if stopped_event:
-- 
2.43.0


From 0b3c3e005b6271c1ff54b7acfb58139249b80e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 12/44] fix: threads can be added while the threads are listed
 or resumed

---
 .../ansible_collections/ansibug/dap/plugins/strategy/debug.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 9a78a5f..d00c20e 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -688,7 +688,7 @@ class AnsibleDebugState(DebugState):
             self._resume_threads([request.thread_id], ThreadState.CONTINUE)
             all_threads_continued = False
         else:
-            self._resume_threads(self.threads.keys(), ThreadState.CONTINUE)
+            self._resume_threads(list(self.threads.keys()), ThreadState.CONTINUE)
             all_threads_continued = True
 
         return ansibug.dap.ContinueResponse(
@@ -889,7 +889,7 @@ class AnsibleDebugState(DebugState):
     ) -> ansibug.dap.ThreadsResponse:
         return ansibug.dap.ThreadsResponse(
             request_seq=request.seq,
-            threads=[t.to_dap() for t in self.threads.values()],
+            threads=[t.to_dap() for t in list(self.threads.values())],
         )
 
     def get_variables(
-- 
2.43.0


From 33f8e989d17e68d5138fd67c34a02cc22106426e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 13/44] fix: frames and variables end with their thread

---
 .../ansibug/dap/plugins/strategy/debug.py                  | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index d00c20e..3c09bea 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -672,7 +672,12 @@ class AnsibleDebugState(DebugState):
             if tid == 1:
                 continue
 
-            del self.threads[tid]
+            # The frames of the thread and their variables end with it.
+            thread = self.threads.pop(tid)
+            for frame_id in thread.stack_frames:
+                for variable_id in self.stackframes.pop(frame_id).variables:
+                    del self.variables[variable_id]
+
             self._debugger.queue_msg(
                 ansibug.dap.ThreadEvent(
                     reason="exited",
-- 
2.43.0


From a3afea0cd029d34fa5f9c233520435aa9b2252ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:05 +0000
Subject: [PATCH 14/44] fix: threads can exit while all threads are continued

---
 .../ansibug/dap/plugins/strategy/debug.py                 | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 3c09bea..dae659a 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -673,7 +673,9 @@ class AnsibleDebugState(DebugState):
                 continue
 
             # The frames of the thread and their variables end with it.
-            thread = self.threads.pop(tid)
+            with self._waiting_condition:
+                thread = self.threads.pop(tid)
+
             for frame_id in thread.stack_frames:
                 for variable_id in self.stackframes.pop(frame_id).variables:
                     del self.variables[variable_id]
@@ -693,7 +695,9 @@ class AnsibleDebugState(DebugState):
             self._resume_threads([request.thread_id], ThreadState.CONTINUE)
             all_threads_continued = False
         else:
-            self._resume_threads(list(self.threads.keys()), ThreadState.CONTINUE)
+            with self._waiting_condition:
+                self._resume_threads(list(self.threads.keys()), ThreadState.CONTINUE)
+
             all_threads_continued = True
 
         return ansibug.dap.ContinueResponse(
-- 
2.43.0


From 8ae0553561533e7fb02fbb9b162369bf1e39a459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 15/44] fix: set the element that is shown with the requested
 name

---
 .../ansibug/dap/plugins/strategy/debug.py     | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index dae659a..1db449b 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -394,7 +394,11 @@ class AnsibleListVariable(AnsibleVariable):
         index: str,
         value: t.Any,
     ) -> None:
-        self._ds[int(index)] = value  # type: ignore[index]
+        idx = int(index)
+        if idx < 0:
+            raise IndexError(f"Invalid list index {index}")
+
+        self._ds[idx] = value  # type: ignore[index]
 
 
 class AnsibleDictVariable(AnsibleVariable):
@@ -420,15 +424,26 @@ class AnsibleDictVariable(AnsibleVariable):
         self,
         index: str,
     ) -> None:
-        if index in self._ds:
-            del self._ds[index]  # type: ignore[attr-defined]
+        key = self._get_key(index)
+        if key in self._ds:
+            del self._ds[key]  # type: ignore[attr-defined]
 
     def set(
         self,
         index: str,
         value: t.Any,
     ) -> None:
-        self._ds[index] = value  # type: ignore[index]
+        self._ds[self._get_key(index)] = value  # type: ignore[index]
+
+    def _get_key(
+        self,
+        name: str,
+    ) -> t.Any:
+        # The name is how get() presents the key which might not be a string.
+        if name in self._ds:
+            return name
+
+        return next((k for k in self._ds if str(k) == name), name)
 
 
 class AnsibleDictWithRawStoreVariable(AnsibleDictVariable):
-- 
2.43.0


From bec7bc8c5e0945964187399462dd534d883cc143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:33 +0000
Subject: [PATCH 16/44] fix: debug console commands use exactly the name and
 expression typed

---
 .../dap/plugins/plugin_utils/_repl_util.py    | 33 +++++++++++--------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_repl_util.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_repl_util.py
index c0d8b85..e2fec7e 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_repl_util.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_repl_util.py
@@ -5,6 +5,7 @@ from __future__ import annotations
 
 import argparse
 import dataclasses
+import io
 import shlex
 import typing as t
 from typing import IO
@@ -121,11 +122,26 @@ def parse_repl_args(
     # to a command line and parse the known args. We only do the known args
     # because some commands need the raw value provided outside of a cmd split
     # processing argparse uses.
-    split_args = shlex.split(args)
+    args_stream = io.StringIO(args)
+    lexer = shlex.shlex(args_stream, posix=True)
+    lexer.whitespace_split = True
+    lexer.commenters = ""
+
+    def remaining_args() -> str:
+        return args[args_stream.tell() :].lstrip()
 
     try:
+        split_args = [a for a in [lexer.get_token()] if a is not None]
+        if split_args and split_args[0] in ["template", *aliases["template"]]:
+            # The expression is not an arg unless it's for the command help.
+            if remaining_args().rstrip() in ["-h", "--help"]:
+                split_args.append("--help")
+
+        elif (name := lexer.get_token()) is not None:
+            split_args.append(name)
+
         parsed_args = parser.parse_known_args(split_args)[0]
-    except ReturnErrorMessage as e:
+    except (ReturnErrorMessage, ValueError) as e:
         return str(e)
 
     command = str(parsed_args.command)
@@ -142,20 +158,11 @@ def parse_repl_args(
 
     if parsed_args.command == "template":
         # The value after the command needs to be extracted.
-        expr = args[args.index(command) + len(command) :].lstrip()
-
-        return TemplateCommand(command="template", expression=expr)
+        return TemplateCommand(command="template", expression=remaining_args())
 
     elif parsed_args.command in ["set_option", "set_hostvar"]:
         # The value after the option/var name needs to be extracted.
-        remaining = args[args.index(command) + len(command) :].lstrip()
-        remaining = remaining[remaining.index(parsed_args.name) + len(parsed_args.name) :]
-        if remaining.startswith('"') or remaining.startswith("'"):
-            remaining = remaining[1:]
-
-        expr = remaining.lstrip()
-
-        return SetVarCommand(parsed_args.command, parsed_args.name, expr)
+        return SetVarCommand(parsed_args.command, parsed_args.name, remaining_args())
 
     else:
         return RemoveVarCommand(parsed_args.command, parsed_args.name)
-- 
2.43.0


From aa5e023f295547bad115252993b84b68accf5d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 17/44] fix: debug console commands do not need the scopes to
 be requested first

---
 .../ansible_collections/ansibug/dap/plugins/strategy/debug.py  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 1db449b..346ce31 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -850,6 +850,9 @@ class AnsibleDebugState(DebugState):
             # The argparse library is used to parse this data rather than do
             # it manually.
             sf = self.stackframes[request.frame_id]
+            if not sf.variables_options_id:
+                # The client might not have looked at the variables yet.
+                self.get_scopes(ansibug.dap.ScopesRequest(frame_id=sf.id))
 
             repl_command = parse_repl_args(expression[1:])
             if isinstance(repl_command, TemplateCommand):
-- 
2.43.0


From b70ed91cafe9e1fc0a7389c5ce51d449ad98f7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:25 +0000
Subject: [PATCH 18/44] fix: messages can have other headers and be split
 inside of a character

---
 src/ansibug/_debug_adapter.py | 2 +-
 src/ansibug/dap/_adapter.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index 4ea010a..2af8c62 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -283,7 +283,7 @@ class DAServer:
             data = stdin.read(4096)
 
             if log.isEnabledFor(logging.DEBUG):
-                log.debug("STDIN: %s", data.decode())
+                log.debug("STDIN: %s", data.decode(errors="replace"))
             adapter.receive_data(data)
 
             while msg := adapter.next_message():
diff --git a/src/ansibug/dap/_adapter.py b/src/ansibug/dap/_adapter.py
index 6ffcb83..10f2267 100644
--- a/src/ansibug/dap/_adapter.py
+++ b/src/ansibug/dap/_adapter.py
@@ -52,7 +52,7 @@ class DebugAdapterConnection:
             return None
 
         raw_headers = bytes(self._in_buffer[:header_idx])
-        headers = dict(h.split(b": ", 2) for h in raw_headers.split(b"\r\n"))
+        headers = dict(h.split(b": ", 1) for h in raw_headers.split(b"\r\n"))
         if b"Content-Length" not in headers:
             raise ValueError("Expected Content-Length header before message payload but none found")
 
-- 
2.43.0


From 91f1fc6aefe04d1100409eb990ee32ff5c9937c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 19/44] fix: messages to the client are not interleaved and
 only one TerminatedEvent is sent

---
 src/ansibug/_debug_adapter.py | 36 ++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index 2af8c62..b29ee53 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -13,6 +13,7 @@ import pathlib
 import shlex
 import sys
 import tempfile
+import threading
 import traceback
 import types
 import typing as t
@@ -255,6 +256,9 @@ class DAServer:
         self._run_in_response_data: dict[int, _RunInTerminalDetails] = {}
         self._temp_dir = temp_dir
         self._terminated_sent = False
+        # Messages are sent to the client by both the start() and debuggee
+        # receive threads.
+        self._client_lock = threading.RLock()
 
     def __enter__(self) -> DAServer:
         return self
@@ -343,30 +347,32 @@ class DAServer:
             self._launch_queue.stop()
             self._launch_queue = None
 
-        if not self._terminated_sent:
-            # Both the debuggee or start() end will hit the code here. We only
-            # need to send one TerminatedEvent() for whichever was first.
-            self.send_to_client(dap.TerminatedEvent())
-            self._terminated_sent = True
+        with self._client_lock:
+            if not self._terminated_sent:
+                # Both the debuggee or start() end will hit the code here. We only
+                # need to send one TerminatedEvent() for whichever was first.
+                self._terminated_sent = True
+                self.send_to_client(dap.TerminatedEvent())
 
     def send_to_client(
         self,
         msg: dap.ProtocolMessage,
     ) -> int:
-        stdout = sys.stdout.buffer
+        with self._client_lock:
+            stdout = sys.stdout.buffer
 
-        req_no = self._adapter.queue_msg(msg)
-        data = self._adapter.data_to_send() or b""
-        if log.isEnabledFor(logging.DEBUG):
-            log.debug("STDOUT: %s", data.decode())
+            req_no = self._adapter.queue_msg(msg)
+            data = self._adapter.data_to_send() or b""
+            if log.isEnabledFor(logging.DEBUG):
+                log.debug("STDOUT: %s", data.decode())
 
-        stdout.write(data)
-        stdout.flush()
+            stdout.write(data)
+            stdout.flush()
 
-        if isinstance(msg, dap.Response):
-            self._incoming_requests.pop(msg.request_seq, None)
+            if isinstance(msg, dap.Response):
+                self._incoming_requests.pop(msg.request_seq, None)
 
-        return req_no
+            return req_no
 
     def _send_disconnect(
         self,
-- 
2.43.0


From 0c11421ecb7d296f9e306fe685f145563db7916f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 20/44] fix: debug adapter ends when the client is gone

---
 src/ansibug/_debug_adapter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index b29ee53..b826aae 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -285,6 +285,9 @@ class DAServer:
         is_connected = True
         while is_connected:
             data = stdin.read(4096)
+            if not data:
+                # The client is gone.
+                break
 
             if log.isEnabledFor(logging.DEBUG):
                 log.debug("STDIN: %s", data.decode(errors="replace"))
-- 
2.43.0


From 76c1ff82172cabce06431a3c3ed5bbc38e389da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 21/44] fix: client can disconnect at any time

---
 src/ansibug/_debug_adapter.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index b826aae..1fb87e4 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -293,18 +293,19 @@ class DAServer:
                 log.debug("STDIN: %s", data.decode(errors="replace"))
             adapter.receive_data(data)
 
-            while msg := adapter.next_message():
+            while is_connected and (msg := adapter.next_message()):
                 # Trace each request from the client so we can return an
                 # ErrorMessage if there was a critical failure.
                 if isinstance(msg, dap.Request):
                     self._incoming_requests[msg.seq] = msg
 
-                if isinstance(msg, dap.Request) and self._debuggee:
-                    if isinstance(msg, dap.DisconnectRequest):
-                        is_connected = False
+                if isinstance(msg, dap.DisconnectRequest):
+                    is_connected = False
+                    if self._debuggee:
                         self._send_disconnect(msg, self._debuggee)
-                    else:
-                        self._debuggee.send(msg)
+
+                elif isinstance(msg, dap.Request) and self._debuggee:
+                    self._debuggee.send(msg)
 
                 else:
                     self._process_msg(msg)
-- 
2.43.0


From 570cbc03ff51777452065033c28b580ac61e6513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 22/44] fix: requests are answered when the debuggee is not
 connected

---
 src/ansibug/_debug_adapter.py | 48 +++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index 1fb87e4..0baaf83 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -256,6 +256,7 @@ class DAServer:
         self._run_in_response_data: dict[int, _RunInTerminalDetails] = {}
         self._temp_dir = temp_dir
         self._terminated_sent = False
+        self._stopped = False
         # Messages are sent to the client by both the start() and debuggee
         # receive threads.
         self._client_lock = threading.RLock()
@@ -305,7 +306,7 @@ class DAServer:
                         self._send_disconnect(msg, self._debuggee)
 
                 elif isinstance(msg, dap.Request) and self._debuggee:
-                    self._debuggee.send(msg)
+                    self._send_request(msg, self._debuggee)
 
                 else:
                     self._process_msg(msg)
@@ -328,20 +329,23 @@ class DAServer:
         """
         # Ensure the DisconnectResponse is sent if there is an outstanding
         # request.
-        for req in list(self._incoming_requests.values()):
-            if isinstance(req, dap.DisconnectRequest):
-                self.send_to_client(dap.DisconnectResponse(request_seq=req.seq))
+        with self._client_lock:
+            self._stopped = True
+
+            for req in list(self._incoming_requests.values()):
+                if isinstance(req, dap.DisconnectRequest):
+                    self.send_to_client(dap.DisconnectResponse(request_seq=req.seq))
 
         if exp:
             # For every incoming request relay the exception back to the client
             # for it to display to the end user.
             for req in list(self._incoming_requests.values()):
-                resp = dap.ErrorResponse(
-                    command=req.command,
-                    request_seq=req.seq,
-                    message=f"Critical DAServer exception received\n{traceback.format_exc()}",
-                )
-                self.send_to_client(resp)
+                self._send_error(req, f"Critical DAServer exception received\n{traceback.format_exc()}")
+
+        # Nothing is left that can respond to the requests sent to the debuggee.
+        for req in list(self._incoming_requests.values()):
+            if not isinstance(req, dap.LaunchRequest):
+                self._send_error(req, "The debuggee is no longer connected")
 
         if not from_debuggee and self._debuggee:
             self._debuggee.stop()
@@ -378,6 +382,30 @@ class DAServer:
 
             return req_no
 
+    def _send_error(
+        self,
+        req: dap.Request,
+        message: str,
+    ) -> None:
+        """Sends an error for a request that has not been responded to yet."""
+        with self._client_lock:
+            if req.seq in self._incoming_requests:
+                self.send_to_client(dap.ErrorResponse(command=req.command, request_seq=req.seq, message=message))
+
+    def _send_request(
+        self,
+        msg: dap.Request,
+        debuggee: MPQueue,
+    ) -> None:
+        try:
+            debuggee.send(msg)
+        except OSError as e:
+            self._send_error(msg, f"Failed to send the request to the debuggee: {e}")
+        else:
+            # The debuggee could have been disconnected during the send.
+            if self._stopped:
+                self._send_error(msg, "The debuggee is no longer connected")
+
     def _send_disconnect(
         self,
         msg: dap.DisconnectRequest,
-- 
2.43.0


From 64187ac8fb38c8f2cd6e3b7235a021f0d29a63d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:22 +0000
Subject: [PATCH 23/44] fix: attach fails when the server does not accept the
 connection

---
 src/ansibug/_mp_queue.py      | 10 ++++++++--
 src/ansibug/_socket_helper.py |  6 ++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/ansibug/_mp_queue.py b/src/ansibug/_mp_queue.py
index d5023c5..b5d2570 100644
--- a/src/ansibug/_mp_queue.py
+++ b/src/ansibug/_mp_queue.py
@@ -182,6 +182,8 @@ class ClientMPQueue(MPQueue):
         else:
             raise error
 
+        # The peer might never respond or not be the expected type of server.
+        sock.settimeout(timeout or None)
         if self._ssl_context:
             self._socket.wrap_tls(
                 self._ssl_context,
@@ -191,12 +193,16 @@ class ClientMPQueue(MPQueue):
             # TLS 1.3 won't validate their cert was accepted until its first
             # read. This ensures the connection is validated before it is
             # going to be used.
-            self._socket.recv(1, self._cancel_token)
+            connected = self._socket.recv(1, self._cancel_token)
         else:
             # Ensures that the server is actually connected to us and we aren't
             # in the backlog waiting for an accept().
-            self._socket.recv(1, self._cancel_token)
+            connected = self._socket.recv(1, self._cancel_token)
 
+        if not connected:
+            raise ConnectionError("The connection was closed by the server before it was accepted")
+
+        self._socket.settimeout(None)
         super().start()
 
 
diff --git a/src/ansibug/_socket_helper.py b/src/ansibug/_socket_helper.py
index facca38..baa1be3 100644
--- a/src/ansibug/_socket_helper.py
+++ b/src/ansibug/_socket_helper.py
@@ -206,6 +206,12 @@ class SocketHelper:
             log.debug("Socket %s send: '%s'", self.use, base64.b64encode(data).decode())
         cancel_token.sendall(self._sock, data)
 
+    def settimeout(
+        self,
+        timeout: float | None,
+    ) -> None:
+        self._sock.settimeout(timeout)
+
     def shutdown(
         self,
         how: int,
-- 
2.43.0


From 76b200c73ffe3826d7fbcd5a0723cd84a1e921f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 24/44] fix: cancel all functions when one is for a socket that
 is not connected

---
 src/ansibug/_socket_helper.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/_socket_helper.py b/src/ansibug/_socket_helper.py
index baa1be3..95edc59 100644
--- a/src/ansibug/_socket_helper.py
+++ b/src/ansibug/_socket_helper.py
@@ -345,7 +345,12 @@ class SocketCancellationToken:
 
             for cancel_id, func in self._cancel_funcs.items():
                 log.debug("Cancelling function with id %d", cancel_id)
-                func()
+                try:
+                    func()
+                except OSError:
+                    # The socket might not be connected (anymore), the other
+                    # functions still need to be cancelled.
+                    log.debug("Failed to cancel function with id %d", cancel_id, exc_info=True)
 
             self._cancel_funcs = {}
 
-- 
2.43.0


From 0f19d9791b2dd1db96d068ba76f3831c6c68ab44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:26 +0000
Subject: [PATCH 25/44] fix: TLS listener survives clients that do not complete
 the handshake

---
 src/ansibug/_mp_queue.py      |  3 ++-
 src/ansibug/_socket_helper.py | 10 +++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/ansibug/_mp_queue.py b/src/ansibug/_mp_queue.py
index b5d2570..4fd4e90 100644
--- a/src/ansibug/_mp_queue.py
+++ b/src/ansibug/_mp_queue.py
@@ -269,6 +269,7 @@ class ServerMPQueue(MPQueue):
                     conn.wrap_tls(
                         self._ssl_context,
                         server_side=True,
+                        cancel_token=self._cancel_token,
                     )
                     # The client will read a single byte after the handshake to
                     # verify it was able to auth correctly. TLS 1.3 only errors
@@ -276,7 +277,7 @@ class ServerMPQueue(MPQueue):
                     # handshake.
                     conn.send(b"\x00", self._cancel_token)
 
-                except ssl.SSLError:
+                except OSError:
                     log.exception("Server TLS handshake failed, trying again")
                     conn.close()
                     conn = self._socket.accept(
diff --git a/src/ansibug/_socket_helper.py b/src/ansibug/_socket_helper.py
index 95edc59..a0d6e48 100644
--- a/src/ansibug/_socket_helper.py
+++ b/src/ansibug/_socket_helper.py
@@ -227,13 +227,21 @@ class SocketHelper:
         *,
         server_side: bool = True,
         server_hostname: str | None = None,
+        cancel_token: SocketCancellationToken | None = None,
     ) -> None:
         log.debug("Wrapping socket with TLS context")
-        self._sock = ssl_context.wrap_socket(
+        ssl_sock = ssl_context.wrap_socket(
             self._sock,
             server_side=server_side,
             server_hostname=server_hostname,
+            do_handshake_on_connect=False,
         )
+        self._sock = ssl_sock
+        if cancel_token:
+            with cancel_token.with_cancel(lambda: ssl_sock.shutdown(socket.SHUT_RDWR)):
+                ssl_sock.do_handshake()
+        else:
+            ssl_sock.do_handshake()
 
 
 class SocketCancellationToken:
-- 
2.43.0


From 03973b3fc4590c8109456d1e01c2d70e233a5797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:27 +0000
Subject: [PATCH 26/44] fix: targetId of stepIn is not the thread id

---
 src/ansibug/dap/_requests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ansibug/dap/_requests.py b/src/ansibug/dap/_requests.py
index 3d391e3..efd852a 100644
--- a/src/ansibug/dap/_requests.py
+++ b/src/ansibug/dap/_requests.py
@@ -488,7 +488,7 @@ class StepInRequest(
         "arguments": {
             "threadId": "thread_id",
             "singleThread": "single_thread",
-            "targetId": "thread_id",
+            "targetId": "target_id",
             "granularity": "granularity",
         }
     },
-- 
2.43.0


From 366136221b9656e4a8fd3d3adf6380a570723547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:19 +0000
Subject: [PATCH 27/44] fix: unknown requests do not end the session

---
 src/ansibug/_debug_adapter.py | 19 ++++++++++++++++++-
 src/ansibug/dap/__init__.py   |  2 ++
 src/ansibug/dap/_adapter.py   |  2 +-
 src/ansibug/dap/_messages.py  | 20 +++++++++++++++++++-
 4 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index 0baaf83..6fb5a15 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -294,7 +294,24 @@ class DAServer:
                 log.debug("STDIN: %s", data.decode(errors="replace"))
             adapter.receive_data(data)
 
-            while is_connected and (msg := adapter.next_message()):
+            while is_connected:
+                try:
+                    msg = adapter.next_message()
+                except dap.UnknownRequestError as e:
+                    # A request that is not supported is not a reason to end
+                    # the session.
+                    self.send_to_client(
+                        dap.ErrorResponse(
+                            command=e.command,  # type: ignore[arg-type]
+                            request_seq=e.seq,
+                            message=str(e),
+                        )
+                    )
+                    continue
+
+                if not msg:
+                    break
+
                 # Trace each request from the client so we can return an
                 # ErrorMessage if there was a critical failure.
                 if isinstance(msg, dap.Request):
diff --git a/src/ansibug/dap/__init__.py b/src/ansibug/dap/__init__.py
index 9305df9..a859937 100644
--- a/src/ansibug/dap/__init__.py
+++ b/src/ansibug/dap/__init__.py
@@ -20,6 +20,7 @@ from ._messages import (
     ProtocolMessage,
     Request,
     Response,
+    UnknownRequestError,
 )
 from ._requests import (
     AttachRequest,
@@ -156,6 +157,7 @@ __all__ = [
     "ThreadEvent",
     "ThreadsRequest",
     "ThreadsResponse",
+    "UnknownRequestError",
     "ValueFormat",
     "Variable",
     "VariablePresentationHint",
diff --git a/src/ansibug/dap/_adapter.py b/src/ansibug/dap/_adapter.py
index 10f2267..e868d60 100644
--- a/src/ansibug/dap/_adapter.py
+++ b/src/ansibug/dap/_adapter.py
@@ -66,8 +66,8 @@ class DebugAdapterConnection:
         self._in_buffer = self._in_buffer[header_idx + length :]
 
         msg_data = json.loads(raw_msg.decode())
-        msg = ProtocolMessage.unpack(msg_data)
         expected_seq_no_in = self._seq_no_in
+        msg = ProtocolMessage.unpack(msg_data)
         if expected_seq_no_in != msg.seq:
             raise ValueError(f"Expected seq {expected_seq_no_in} but received {msg.seq}")
 
diff --git a/src/ansibug/dap/_messages.py b/src/ansibug/dap/_messages.py
index bfa003f..56ada50 100644
--- a/src/ansibug/dap/_messages.py
+++ b/src/ansibug/dap/_messages.py
@@ -60,6 +60,24 @@ class EventType(enum.Enum):
     MEMORY = "memory"
 
 
+class UnknownRequestError(ValueError):
+    """Raised when unpacking a request with a command that is not known.
+
+    Args:
+        seq: The sequence number of the request.
+        command: The command of the request.
+    """
+
+    def __init__(
+        self,
+        seq: int,
+        command: str,
+    ) -> None:
+        super().__init__(f"Unknown DAP request command '{command}'")
+        self.seq = seq
+        self.command = command
+
+
 class DAPEncoder(json.JSONEncoder):
     def default(self, obj: t.Any) -> t.Any:
         if isinstance(obj.__class__, DAPObjectMeta) and hasattr(obj, "pack"):
@@ -310,7 +328,7 @@ class ProtocolMessage(metaclass=DAPObjectMeta, dap={"seq": "seq", "type": "messa
 
             request_unpack = registry.get(cmd, None)
             if not request_unpack:
-                raise ValueError(f"Unknown DAP request command '{cmd}'")
+                raise UnknownRequestError(data.get("seq", 0), cmd)
 
             return request_unpack(data)
 
-- 
2.43.0


From aa834aa8c871f60c41505f5b837e4afc356e7f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 28/44] fix: only the requested variables are returned when
 paging through them

---
 .../ansibug/dap/plugins/strategy/debug.py             | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 346ce31..39cf222 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -925,8 +925,17 @@ class AnsibleDebugState(DebugState):
     ) -> ansibug.dap.VariablesResponse:
         variable = self.variables[request.variables_reference]
 
+        children = list(variable.get())
+        if request.filter and children:
+            is_indexed = variable.indexed_variables > 0
+            children = children if is_indexed == (request.filter == "indexed") else []
+
+        if request.start or request.count:
+            start = request.start or 0
+            children = children[start : start + request.count if request.count else None]
+
         variables: list[ansibug.dap.Variable] = []
-        for name, value in variable.get():
+        for name, value in children:
             child_var: AnsibleVariable | None = None
             if isinstance(value, (collections.abc.Mapping, collections.abc.Sequence)) and not isinstance(value, str):
                 child_var = self._add_variable(variable.stackframe, value)
-- 
2.43.0


From 463893aeedce650bb8c8d19c7f390f808664d0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:49 +0000
Subject: [PATCH 29/44] fix: process info file is only visible once it is
 complete

---
 src/ansibug/_debuggee.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 24e1aad..accdaa8 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -438,7 +438,11 @@ class AnsibleDebugger(metaclass=Singleton):
                 playbook_file=playbook_file,
             )
             proc_json = json.dumps(proc_info.to_json())
-            self._proc_pid_file.write_text(proc_json)
+
+            # The file is being watched so should only be seen when complete.
+            tmp_file = self._proc_pid_file.with_name(f".{self._proc_pid_file.name}")
+            tmp_file.write_text(proc_json)
+            tmp_file.replace(self._proc_pid_file)
 
         log.debug("MPQueue set on address %s", addr)
 
-- 
2.43.0


From 18cda4bbfde5c7cc5d4bd7ed044c03e0a6b299c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:20 +0000
Subject: [PATCH 30/44] fix: path mappings are only used for paths under the
 root

---
 src/ansibug/_debuggee.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index accdaa8..3646f7c 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -105,6 +105,21 @@ def get_pid_info_path(pid: int) -> pathlib.Path:
     return pathlib.Path(tmpdir) / f"ansibug-pid-{pid}"
 
 
+def _map_path(
+    path: str,
+    source_root: str,
+    target_root: str,
+) -> str | None:
+    """Maps the path to the target root, returns None if it is not under the source root."""
+    source_root = source_root.rstrip("/")
+    relative_path = path[len(source_root) :]
+    if not path.startswith(source_root) or (relative_path and not relative_path.startswith("/")):
+        # A name that just starts with the root is not in the root.
+        return None
+
+    return (target_root.rstrip("/") + relative_path) or "/"
+
+
 class EndStrategy(Exception):
     """Exception used to end the strategy plugin."""
 
@@ -547,8 +562,9 @@ class AnsibleDebugger(metaclass=Singleton):
             str: The converted path.
         """
         for mapping in self._debug_config.path_mappings:
-            if path.startswith(mapping.remote_root):
-                return mapping.local_root + path[len(mapping.remote_root) :]
+            mapped_path = _map_path(path, mapping.remote_root, mapping.local_root)
+            if mapped_path is not None:
+                return mapped_path
 
         else:
             return path
@@ -712,8 +728,9 @@ class AnsibleDebugger(metaclass=Singleton):
         # source mappings are keyed by the Ansible paths.
         actual_path = source_path
         for mapping in self._debug_config.path_mappings:
-            if actual_path.startswith(mapping.local_root):
-                actual_path = mapping.remote_root + actual_path[len(mapping.local_root) :]
+            mapped_path = _map_path(source_path, mapping.local_root, mapping.remote_root)
+            if mapped_path is not None:
+                actual_path = mapped_path
                 break
 
         with self._breakpoint_lock:
-- 
2.43.0


From bee432c3fd5cae9802c9ca33a66adbf75dab7feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:11 +0000
Subject: [PATCH 31/44] fix: a disconnect that races with the end of the
 debuggee is answered properly

---
 src/ansibug/_debug_adapter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index 6fb5a15..68bd355 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -360,8 +360,9 @@ class DAServer:
                 self._send_error(req, f"Critical DAServer exception received\n{traceback.format_exc()}")
 
         # Nothing is left that can respond to the requests sent to the debuggee.
+        # A disconnect that came in the meantime is answered when start() ends.
         for req in list(self._incoming_requests.values()):
-            if not isinstance(req, dap.LaunchRequest):
+            if not isinstance(req, (dap.LaunchRequest, dap.DisconnectRequest)):
                 self._send_error(req, "The debuggee is no longer connected")
 
         if not from_debuggee and self._debuggee:
-- 
2.43.0


From e450678710e97de99cdf5756ac18ad7bc48f660f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:17 +0000
Subject: [PATCH 32/44] fix: a debuggee that is gone when its configuration is
 sent does not end the adapter

---
 src/ansibug/_debug_adapter.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index 68bd355..ed824e2 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -440,6 +440,24 @@ class DAServer:
         # No response is sent back to the client, is it done as part of the
         # shutdown to ensure it's sent before the TerminatedEvent.
 
+    def _send_configuration(
+        self,
+        debuggee: MPQueue,
+        path_mappings: list[PathMapping],
+    ) -> None:
+        try:
+            debuggee.send(
+                dap.OutputEvent(
+                    category=DebugConfiguration.OUTPUT_CATEGORY,
+                    output="",
+                    data=DebugConfiguration(path_mappings=path_mappings),
+                )
+            )
+        except OSError:
+            # The debuggee might have been disconnected already, this is
+            # reported through connection_closed.
+            pass
+
     @functools.singledispatchmethod
     def _process_msg(self, msg: dap.ProtocolMessage) -> None:
         # This should never happen.
@@ -508,13 +526,7 @@ class DAServer:
 
         self._debuggee.start(timeout=attach_args.connect_timeout)
         self.send_to_client(dap.AttachResponse(request_seq=msg.seq))
-        self._debuggee.send(
-            dap.OutputEvent(
-                category=DebugConfiguration.OUTPUT_CATEGORY,
-                output="",
-                data=DebugConfiguration(path_mappings=attach_args.path_mappings),
-            )
-        )
+        self._send_configuration(self._debuggee, attach_args.path_mappings)
 
     @_process_msg.register
     def _(self, msg: dap.LaunchRequest) -> None:
@@ -629,10 +641,4 @@ rm -f "$0"
             self._launch_queue = None
 
             self.send_to_client(dap.LaunchResponse(request_seq=details.request.seq))
-            details.debuggee.send(
-                dap.OutputEvent(
-                    category=DebugConfiguration.OUTPUT_CATEGORY,
-                    output="",
-                    data=DebugConfiguration(path_mappings=details.arguments.path_mappings),
-                )
-            )
+            self._send_configuration(details.debuggee, details.arguments.path_mappings)
-- 
2.43.0


From f636ca5bfcece10263e31c145b3813cf288cc66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:20 +0000
Subject: [PATCH 33/44] fix: console entry with a switch before the command is
 not that command

---
 .../ansibug/dap/plugins/plugin_utils/_repl_util.py            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_repl_util.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_repl_util.py
index e2fec7e..d075a66 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_repl_util.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_repl_util.py
@@ -119,7 +119,7 @@ def parse_repl_args(
     )
 
     # The provided value from the repl is just a string, we need to convert it
-    # to a command line and parse the known args. We only do the known args
+    # to a command line and parse the command and name. We only do these args
     # because some commands need the raw value provided outside of a cmd split
     # processing argparse uses.
     args_stream = io.StringIO(args)
@@ -140,7 +140,7 @@ def parse_repl_args(
         elif (name := lexer.get_token()) is not None:
             split_args.append(name)
 
-        parsed_args = parser.parse_known_args(split_args)[0]
+        parsed_args = parser.parse_args(split_args)
     except (ReturnErrorMessage, ValueError) as e:
         return str(e)
 
-- 
2.43.0


From 847d16e4225bd7aeef5d8783560a0462b7282a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:52 +0000
Subject: [PATCH 34/44] fix: do not forward a second response to a request
 already failed by the adapter

---
 src/ansibug/_debug_adapter.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index ed824e2..5b011a8 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -233,7 +233,7 @@ class DAProtocol(MPProtocol):
         self,
         msg: dap.ProtocolMessage,
     ) -> None:
-        self._server.send_to_client(msg)
+        self._server.send_from_debuggee(msg)
 
     def connection_closed(
         self,
@@ -400,6 +400,15 @@ class DAServer:
 
             return req_no
 
+    def send_from_debuggee(
+        self,
+        msg: dap.ProtocolMessage,
+    ) -> None:
+        with self._client_lock:
+            # The request could have been failed in the meantime by stop().
+            if not isinstance(msg, dap.Response) or msg.request_seq in self._incoming_requests:
+                self.send_to_client(msg)
+
     def _send_error(
         self,
         req: dap.Request,
-- 
2.43.0


From fef01374c3eab06c555f21292b90181dfae545c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:53 +0000
Subject: [PATCH 35/44] fix: report a debuggee that disconnects straight away
 only after the attach or launch response

---
 src/ansibug/_debug_adapter.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index 5b011a8..543d0d4 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -533,8 +533,12 @@ class DAServer:
             ssl_context=ssl_context,
         )
 
-        self._debuggee.start(timeout=attach_args.connect_timeout)
-        self.send_to_client(dap.AttachResponse(request_seq=msg.seq))
+        # The debuggee could disconnect straight away, the lock ensures this is
+        # not reported before the response.
+        with self._client_lock:
+            self._debuggee.start(timeout=attach_args.connect_timeout)
+            self.send_to_client(dap.AttachResponse(request_seq=msg.seq))
+
         self._send_configuration(self._debuggee, attach_args.path_mappings)
 
     @_process_msg.register
@@ -635,10 +639,16 @@ rm -f "$0"
         details = self._run_in_response_data.pop(msg.request_seq)
 
         try:
-            details.debuggee.start(
-                timeout=details.arguments.connect_timeout,
-                cancel_queue=details.launch_queue,
-            )
+            # As with attach, the lock ensures the debuggee disconnecting is
+            # not reported before the response.
+            with self._client_lock:
+                details.debuggee.start(
+                    timeout=details.arguments.connect_timeout,
+                    cancel_queue=details.launch_queue,
+                )
+                details.launch_queue.stop()
+                self._launch_queue = None
+                self.send_to_client(dap.LaunchResponse(request_seq=details.request.seq))
 
         except CancelledError:
             log.debug("Launch cancel socket was connected, launched process has ended")
@@ -646,8 +656,4 @@ rm -f "$0"
 
         else:
             log.debug("Ansible process is connected to debug adapter")
-            details.launch_queue.stop()
-            self._launch_queue = None
-
-            self.send_to_client(dap.LaunchResponse(request_seq=details.request.seq))
             self._send_configuration(details.debuggee, details.arguments.path_mappings)
-- 
2.43.0


From 9064e8911571b9d0ea3291874c1b5714d9ed6a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:23 +0000
Subject: [PATCH 36/44] fix: reject an unsupported request with the wrong
 sequence number

---
 src/ansibug/dap/_adapter.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ansibug/dap/_adapter.py b/src/ansibug/dap/_adapter.py
index e868d60..aad67b7 100644
--- a/src/ansibug/dap/_adapter.py
+++ b/src/ansibug/dap/_adapter.py
@@ -67,11 +67,10 @@ class DebugAdapterConnection:
 
         msg_data = json.loads(raw_msg.decode())
         expected_seq_no_in = self._seq_no_in
-        msg = ProtocolMessage.unpack(msg_data)
-        if expected_seq_no_in != msg.seq:
-            raise ValueError(f"Expected seq {expected_seq_no_in} but received {msg.seq}")
+        if expected_seq_no_in != msg_data.get("seq"):
+            raise ValueError(f"Expected seq {expected_seq_no_in} but received {msg_data.get('seq')}")
 
-        return msg
+        return ProtocolMessage.unpack(msg_data)
 
     def queue_msg(
         self,
-- 
2.43.0


From 983ad1217a137fcdfd1160f8d94a6acd6c4896db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:56 +0000
Subject: [PATCH 37/44] fix: answer a terminate request before the connection
 is closed by its effect

---
 src/ansibug/_debuggee.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 3646f7c..e07d031 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -833,10 +833,13 @@ class AnsibleDebugger(metaclass=Singleton):
         self,
         msg: dap.TerminateRequest,
     ) -> None:
-        self._terminated = True
-        self._disconnect(dap.DisconnectRequest(terminate_debuggee=True))
-        self.queue_msg(dap.TerminateResponse(request_seq=msg.seq))
-        self._send_queue.put(None)
+        # The play can end as soon as it is told to, the lock ensures the
+        # connection isn't closed by that before the response is queued.
+        with self._strategy_connected:
+            self._terminated = True
+            self._disconnect(dap.DisconnectRequest(terminate_debuggee=True))
+            self.queue_msg(dap.TerminateResponse(request_seq=msg.seq))
+            self._send_queue.put(None)
 
     @process_message.register
     def _(
-- 
2.43.0


From 1679b8cc6ddb9ac027885733e5c1bb3936e8321b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:56 +0000
Subject: [PATCH 38/44] fix: start with ANSIBLE_DEBUG set

---
 src/ansibug/_exec_playbook.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ansibug/_exec_playbook.py b/src/ansibug/_exec_playbook.py
index bacea42..23b0d08 100644
--- a/src/ansibug/_exec_playbook.py
+++ b/src/ansibug/_exec_playbook.py
@@ -183,9 +183,9 @@ def _configure_ansible_env() -> dict[str, str]:
             "--format",
             "json",
         ],
-        # Explicitly set verbosity so it doesn't display version info breaking
-        # the json parsing.
-        env=os.environ | {"ANSIBLE_VERBOSITY": "0"},
+        # Explicitly set verbosity and debug so it doesn't display version info
+        # or debug messages breaking the json parsing.
+        env=os.environ | {"ANSIBLE_VERBOSITY": "0", "ANSIBLE_DEBUG": "0"},
         capture_output=True,
         check=True,  # FUTURE: Maybe a nicer exception would be useful
     )
-- 
2.43.0


From 196260e20422f70a84d0067dc6bc1fd9804a1fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:55 +0000
Subject: [PATCH 39/44] fix: stop a queue while its receive thread is being
 started

---
 src/ansibug/_mp_queue.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ansibug/_mp_queue.py b/src/ansibug/_mp_queue.py
index 4fd4e90..5c65980 100644
--- a/src/ansibug/_mp_queue.py
+++ b/src/ansibug/_mp_queue.py
@@ -84,12 +84,14 @@ class MPQueue:
         self,
         timeout: float = 0,
     ) -> None:
-        self._recv_thread = threading.Thread(
+        recv_thread = threading.Thread(
             target=self._recv_handler,
             name=f"{type(self).__name__} Recv",
             daemon=True,
         )
-        self._recv_thread.start()
+        # stop() can be called at any time and can only join a started thread.
+        recv_thread.start()
+        self._recv_thread = recv_thread
 
     def stop(self) -> None:
         self._cancel_token.cancel()
-- 
2.43.0


From faf8af25ef238fd47a05412475315327ecf8af7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:55 +0000
Subject: [PATCH 40/44] fix: close a TLS connection without the peer seeing an
 error

---
 src/ansibug/_socket_helper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/_socket_helper.py b/src/ansibug/_socket_helper.py
index a0d6e48..5872965 100644
--- a/src/ansibug/_socket_helper.py
+++ b/src/ansibug/_socket_helper.py
@@ -326,7 +326,9 @@ class SocketCancellationToken:
         buffer: bytearray | memoryview,
         n: int,
     ) -> int:
-        with self.with_cancel(lambda: sock.shutdown(socket.SHUT_RD)):
+        # A TLS socket answers a stream that ends too early with an alert, as both
+        # directions are shutdown the peer will only see that it was closed.
+        with self.with_cancel(lambda: sock.shutdown(socket.SHUT_RDWR)):
             res = sock.recv_into(buffer, n)
             if self._cancelled:
                 raise CancelledError()
-- 
2.43.0


From a13f84bdd93721598a80696f72677c71dc810144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:17 +0000
Subject: [PATCH 41/44] fix: fail as cancelled when a connection is stopped
 during its TLS handshake

---
 src/ansibug/_mp_queue.py      | 36 +++++++++++++++++------------------
 src/ansibug/_socket_helper.py | 13 ++++++++-----
 2 files changed, 26 insertions(+), 23 deletions(-)

diff --git a/src/ansibug/_mp_queue.py b/src/ansibug/_mp_queue.py
index 5c65980..c841806 100644
--- a/src/ansibug/_mp_queue.py
+++ b/src/ansibug/_mp_queue.py
@@ -184,27 +184,27 @@ class ClientMPQueue(MPQueue):
         else:
             raise error
 
-        # The peer might never respond or not be the expected type of server.
-        sock.settimeout(timeout or None)
-        if self._ssl_context:
-            self._socket.wrap_tls(
-                self._ssl_context,
-                server_side=False,
-                server_hostname=ssl_hostname,
-            )
-            # TLS 1.3 won't validate their cert was accepted until its first
-            # read. This ensures the connection is validated before it is
-            # going to be used.
-            connected = self._socket.recv(1, self._cancel_token)
-        else:
+        # stop() closes the socket, that is not an error of the connection.
+        with self._cancel_token.with_cancel(lambda: None):
+            # The peer might never respond or not be the expected type of server.
+            sock.settimeout(timeout or None)
+            if self._ssl_context:
+                self._socket.wrap_tls(
+                    self._ssl_context,
+                    server_side=False,
+                    server_hostname=ssl_hostname,
+                    cancel_token=self._cancel_token,
+                )
+
             # Ensures that the server is actually connected to us and we aren't
-            # in the backlog waiting for an accept().
-            connected = self._socket.recv(1, self._cancel_token)
+            # in the backlog waiting for an accept(). TLS 1.3 also won't validate
+            # their cert was accepted until its first read. This ensures the
+            # connection is validated before it is going to be used.
+            if not self._socket.recv(1, self._cancel_token):
+                raise ConnectionError("The connection was closed by the server before it was accepted")
 
-        if not connected:
-            raise ConnectionError("The connection was closed by the server before it was accepted")
+            self._socket.settimeout(None)
 
-        self._socket.settimeout(None)
         super().start()
 
 
diff --git a/src/ansibug/_socket_helper.py b/src/ansibug/_socket_helper.py
index 5872965..5c3dfec 100644
--- a/src/ansibug/_socket_helper.py
+++ b/src/ansibug/_socket_helper.py
@@ -227,7 +227,7 @@ class SocketHelper:
         *,
         server_side: bool = True,
         server_hostname: str | None = None,
-        cancel_token: SocketCancellationToken | None = None,
+        cancel_token: SocketCancellationToken,
     ) -> None:
         log.debug("Wrapping socket with TLS context")
         ssl_sock = ssl_context.wrap_socket(
@@ -237,10 +237,7 @@ class SocketHelper:
             do_handshake_on_connect=False,
         )
         self._sock = ssl_sock
-        if cancel_token:
-            with cancel_token.with_cancel(lambda: ssl_sock.shutdown(socket.SHUT_RDWR)):
-                ssl_sock.do_handshake()
-        else:
+        with cancel_token.with_cancel(lambda: ssl_sock.shutdown(socket.SHUT_RDWR)):
             ssl_sock.do_handshake()
 
 
@@ -381,6 +378,12 @@ class SocketCancellationToken:
             log.debug("Calling cancellable function with id %d", cancel_id)
             yield
 
+        except Exception as e:
+            # Whatever failed did so as it was interrupted.
+            if self._cancelled and not isinstance(e, CancelledError):
+                raise CancelledError() from e
+            raise
+
         finally:
             with self._lock:
                 self._cancel_funcs.pop(cancel_id, None)
-- 
2.43.0


From d21c9d5a0643cdc92573fc9b099d40e518cc5477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:17 +0000
Subject: [PATCH 42/44] fix: apply the timeout of a listening socket to its TLS
 handshakes

---
 src/ansibug/_mp_queue.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ansibug/_mp_queue.py b/src/ansibug/_mp_queue.py
index c841806..33cfc4d 100644
--- a/src/ansibug/_mp_queue.py
+++ b/src/ansibug/_mp_queue.py
@@ -268,6 +268,8 @@ class ServerMPQueue(MPQueue):
             # not offer one (or is rejected).
             while True:
                 try:
+                    # The peer might never start or finish the handshake.
+                    conn.settimeout(timeout or None)
                     conn.wrap_tls(
                         self._ssl_context,
                         server_side=True,
@@ -278,6 +280,7 @@ class ServerMPQueue(MPQueue):
                     # on the client side on the first recv/send call after the
                     # handshake.
                     conn.send(b"\x00", self._cancel_token)
+                    conn.settimeout(None)
 
                 except OSError:
                     log.exception("Server TLS handshake failed, trying again")
-- 
2.43.0


From efb8d6cbc627435a98fbbf6e7e6726b438431ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:21 +0000
Subject: [PATCH 43/44] fix: listen on an IPv4 address

---
 src/ansibug/_mp_queue.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/_mp_queue.py b/src/ansibug/_mp_queue.py
index 33cfc4d..889da6d 100644
--- a/src/ansibug/_mp_queue.py
+++ b/src/ansibug/_mp_queue.py
@@ -227,7 +227,12 @@ class ServerMPQueue(MPQueue):
 
         else:
             sock_kwargs: dict[str, t.Any] = {}
-            if socket.has_dualstack_ipv6():  # pragma: nocover
+            if parsed_addr[0]:
+                # An address can only be bound to with the family it belongs to.
+                addr_info = socket.getaddrinfo(*parsed_addr, type=socket.SOCK_STREAM, flags=socket.AI_PASSIVE)
+                sock_kwargs["family"] = addr_info[0][0]
+
+            elif socket.has_dualstack_ipv6():  # pragma: nocover
                 # Allows the server to bind on both IPv4 and IPv6.
                 sock_kwargs |= {
                     "family": socket.AF_INET6,
-- 
2.43.0


From fc2a2e310ee527a22197e562d42a1c7b2e4998b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:30 +0000
Subject: [PATCH 44/44] fix: remove the pid file when interrupted while
 starting to listen

---
 src/ansibug/_debuggee.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index e07d031..e9ecd39 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -437,6 +437,10 @@ class AnsibleDebugger(metaclass=Singleton):
             "cancel_token": self._cancel_token,
         }
 
+        # Ansible won't call the stats callback if it failed with an exception
+        # or is interrupted, which can happen before this is done.
+        atexit.register(self.shutdown)
+
         mp_queue: MPQueue
         if mode == "connect":
             mp_queue = ClientMPQueue(**queue_kwargs)
@@ -461,16 +465,14 @@ class AnsibleDebugger(metaclass=Singleton):
 
         log.debug("MPQueue set on address %s", addr)
 
-        self._send_thread = threading.Thread(
+        send_thread = threading.Thread(
             target=self._send_task,
             args=(mp_queue,),
             name="ansibug-debugger",
             daemon=True,
         )
-        self._send_thread.start()
-
-        # Ansible won't call the stats callback if it failed with an exception.
-        atexit.register(self.shutdown)
+        send_thread.start()
+        self._send_thread = send_thread
 
         return addr
 
-- 
2.43.0

